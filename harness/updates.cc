// C10: all histories of mesh changes, updates, copies and assignments of bases.
// A basis is compared with a freshly created one whenever it has been updated since the last change of its grid.
#include <config.h>
#include "observe.hh"
#include <memory>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/functionspacebases/containerdescriptors.hh>
#include <dune/grid/onedgrid.hh>
#if PART==11
#include <dune/grid/albertagrid.hh>
#endif
using mc::cat;
namespace BF=Dune::Functions::BasisFactory;

// everything observable of a basis: sizes, all local views of newly created and of one reused view
template<class GV, class B> Obs observeBasis(const GV& gv, const B& basis)
{
  Obs o; o.push_back(basis.dimension()); o.push_back(basis.size()); o.push_back(gv.size(0));
  o.push_back(basis.gridView().size(0));
  o.push_back(basis.preBasis().maxNodeSize());
  auto reused=basis.localView();
  std::set<std::vector<std::size_t>> prefixes;
  for (const auto& e : elements(gv)) {
    auto lv=basis.localView(); lv.bind(e); auto x=observeView(gv,lv); o.insert(o.end(),x.begin(),x.end());
    reused.bind(e); o.push_back(reused.size()); for (std::size_t i=0;i<reused.size();++i) for (auto d : reused.index(i)) o.push_back(d);
    for (std::size_t i=0;i<lv.size();++i) { std::vector<std::size_t> p; for (auto d : lv.index(i)) { prefixes.insert(p); p.push_back(d); } }
  }
  for (auto& p : prefixes) { typename B::SizePrefix q; for (auto d : p) q.push_back(d); o.push_back(basis.size(q)); }
  return o;
}

template<int dim, int kind> std::vector<Dune::MockMeshSpec<dim>> meshStates()
{
  auto list=meshes::pairsOf<dim>(true);
  std::string want = dim==1 ? "line-line" : dim==2 ? (kind==0?"quad-tri":kind==1?"tri-tri":"quad-quad") : (kind==0?"prism-tet":kind==1?"tet-tet":"hex-hex");
  for (auto& m : list) if (m.name==want) {
    auto a=m.spec, b=a, c=a; int nv=a.vertices.size();
    auto perm=[](auto& e, std::size_t k) { auto& S=meshes::symmetries<dim>(e.type); e.v=meshes::permuted(e.v,S[k%S.size()]); };
    for (int i=0;i<nv;++i) { b.vertexIndices.push_back(nv-i); b.vertexIds.push_back((i*2+1)%nv*10+i); }
    for (auto& x : b.vertices) { auto y=x; for (int d=0;d<dim;++d) x[d]=(2-0.25*d)*y[d]+0.1*y[0]; }
    perm(b.elements[0],1); perm(b.elements[1],2); std::swap(b.elements[0],b.elements[1]); b.reverseSubIndices=b.reverseIds=true;
    // a single element
    c.elements.pop_back(); auto v=c.elements[0].v; c.vertices.clear(); std::iota(c.elements[0].v.begin(),c.elements[0].v.end(),0);
    for (int i : v) c.vertices.push_back(a.vertices[i]);
    for (std::size_t i=0;i<v.size();++i) c.vertexIds.push_back(v.size()-i);
    perm(c.elements[0],1);
    // an element between two neighbours (the first element occurs twice, mirrored at its face opposite to the second one)
    return {a,b,c};
  }
  return {};
}

struct Op { char t; int a,b; };
inline std::string str(const std::vector<Op>& h) { std::string s; for (auto& o : h) { s+=o.t; s+=char('0'+o.a); if (o.b>=0) s+=char('0'+o.b); s+='.'; } if (!s.empty()) s.pop_back(); return s; }

template<int dim, int kind, class Factory> class Updates
{
  using Grid=Dune::MockGrid<dim,kind>; using GV=typename Grid::LeafGridView;
  using Basis=decltype(BF::makeBasis(std::declval<GV>(),std::declval<const Factory&>()));
  static constexpr bool assignable=std::is_copy_assignable_v<Basis>;
  struct Slot { int state=0, grid=0; bool current=false; };   // 0 none, 1 live, 2 moved from; grid view; updated since the last change?
  struct State { std::array<Slot,2> s; int mesh=0; };         // mesh of grid view 0 (grid view 1 keeps mesh 1)
  std::vector<Dune::MockMeshSpec<dim>> specs=meshStates<dim,kind>();
  std::vector<Obs> ref; Factory factory; std::string name; int depth; std::vector<Op> h;
public:
  Updates(std::string name, const Factory& f, int depth) : factory(f), name(name), depth(depth)
  {
    if (!mc::group(name+"/")) return;
    Grid g; for (int m=0;m<(int)specs.size();++m) { g.set(m,specs[m]); ref.push_back(observeBasis(g.view(m),BF::makeBasis(g.view(m),factory))); }
    mc::state(name+"/distinguishable",[&]{ mc::check(std::set<Obs>(ref.begin(),ref.end()).size()==specs.size(),"two meshes give the same observation"); });
    recurse(State{});
  }
private:
  void recurse(const State& s)
  {
    if (!h.empty() && h.back().t!='G') { if (s.s[0].current || s.s[1].current) execute(); }
    if ((int)h.size()==depth) return;
    auto go=[&](Op o, auto&& change) { auto t=s; change(t); h.push_back(o); recurse(t); h.pop_back(); };
    bool first=true;
    for (int i=0;i<2;++i) {
      if (s.s[i].state==0) {
        if (first) {
          for (int g=0;g<2;++g) go({'n',i,g},[&](auto& t){ t.s[i]={1,g,true}; });
          int j=1-i;
          if (s.s[j].state==1) {
            go({'c',i,j},[&](auto& t){ t.s[i]=t.s[j]; });
            go({'m',i,j},[&](auto& t){ t.s[i]=t.s[j]; t.s[j].state=2; t.s[j].current=false; });
          }
        }
        first=false;
      } else {
        if (s.s[i].state==1) for (int g=0;g<2;++g) go({'u',i,g},[&](auto& t){ t.s[i].grid=g; t.s[i].current=true; });
        go({'x',i,-1},[&](auto& t){ t.s[i]={}; });
        if (assignable) for (int j=0;j<2;++j) if (s.s[j].state==1) {
          if (i!=j || s.s[i].current) go({'a',i,j},[&](auto& t){ t.s[i]=t.s[j]; });
          if (i!=j) go({'t',i,j},[&](auto& t){ t.s[i]=t.s[j]; t.s[j].state=2; t.s[j].current=false; });
        }
      }
    }
    if (h.empty() || h.back().t!='G') for (int m=0;m<(int)specs.size();++m) if (m!=s.mesh)
      go({'G',m,-1},[&](auto& t){ t.mesh=m; for (auto& x : t.s) if (x.grid==0) x.current=false; });
  }
  void execute()
  {
    mc::state(name+"/"+str(h),[&]{
      Grid g; g.set(0,specs[0]); g.set(1,specs[1]);
      std::array<std::unique_ptr<Basis>,2> o; State s; std::size_t out=0;
      for (auto& p : h) {
        mc::op(cat("operation ",p.t,p.a,p.b)); mc::transition();
        switch (p.t) {
          case 'n': o[p.a]=std::unique_ptr<Basis>(new Basis(BF::makeBasis(g.view(p.b),factory))); s.s[p.a]={1,p.b,true}; break;
          case 'c': o[p.a]=std::make_unique<Basis>(*o[p.b]); s.s[p.a]=s.s[p.b]; break;
          case 'm': o[p.a]=std::make_unique<Basis>(std::move(*o[p.b])); s.s[p.a]=s.s[p.b]; s.s[p.b]={2}; break;
          case 'u': o[p.a]->update(g.view(p.b)); s.s[p.a]={1,p.b,true}; break;
          case 'x': o[p.a].reset(); s.s[p.a]={}; break;
          case 'a': if constexpr (assignable) *o[p.a]=std::as_const(*o[p.b]); s.s[p.a]=s.s[p.b]; break;
          case 't': if constexpr (assignable) *o[p.a]=std::move(*o[p.b]); s.s[p.a]=s.s[p.b]; s.s[p.b]={2}; break;
          case 'G': g.set(0,specs[p.a]); s.mesh=p.a; for (auto& x : s.s) if (x.grid==0) x.current=false; break;
        }
      }
      for (int i=0;i<2;++i) if (s.s[i].state==1 && s.s[i].current) {
        int m = s.s[i].grid==0 ? s.mesh : 1;
        mc::op(cat("observing basis ",i));
        auto r=observeBasis(g.view(s.s[i].grid),*o[i]); auto& q=ref[m];
        mc::check(r==q,[&]{ std::size_t k=0; while (k<r.size() && k<q.size() && r[k]==q[k]) ++k;
          return cat("basis ",i," on grid view ",s.s[i].grid," with mesh ",m," differs from a freshly created one (entry ",k," of ",q.size(),": ",k<r.size()?r[k]:-1,", expected ",k<q.size()?q[k]:-1,")"); });
        mc::combine(out,std::size_t(i*10+m));
      }
      for (auto& p : h) mc::combine(out,std::size_t(p.t*100+p.a*10+p.b));
      mc::outcome(out);
    });
  }
};

// ---------------------------------------------------------------- real grids: refine, coarsen, update
// Basis must behave like a new one after each update; updates may be skipped for some of the changes.
template<class Grid, class Refs> struct Real {};
template<class GV, class Factory> struct Case { std::string name; Factory f; };

template<class MakeGrid, class... Fs>
void realHistories(const std::string& gridName, MakeGrid&& makeGrid, int depth, int maxElements, const std::pair<const char*,Fs>&... fs)
{
  if (!mc::group(gridName+"/")) return;
  // operations: refine leaf element e, coarsen everything coarsenable, refine globally, with (upper case) or without following update
  std::vector<std::string> ops; for (int e=0;e<maxElements;++e) ops.push_back(cat("r",e)); ops.push_back("c"); ops.push_back("g");
  std::vector<std::pair<int,bool>> h;
  auto run=[&](const auto& nf) {
    std::string key=gridName+"/"+nf.first+"/"; for (auto& [k,u] : h) key+=ops[k]+(u?"u":"")+".";
    mc::state(key,[&]{
      auto grid=makeGrid(); auto gv=grid->leafGridView(); using GV=decltype(gv);
      auto basis=BF::makeBasis(gv,nf.second);
      std::size_t out=0;
      for (std::size_t n=0;n<h.size();++n) {
        auto [k,u]=h[n];
        mc::op(cat("grid change ",ops[k])); mc::transition();
        if (ops[k]=="g") grid->globalRefine(1);
        else {
          int i=0; bool any=false;
          for (const auto& e : elements(grid->leafGridView())) { if (ops[k]=="c") any|=grid->mark(-1,e); else if (i==std::stoi(ops[k].substr(1))) any|=grid->mark(1,e); ++i; }
          grid->preAdapt(); grid->adapt(); grid->postAdapt();
        }
        if (!u) continue;
        mc::op("updating the basis");
        GV view=grid->leafGridView(); basis.update(view);
        mc::op("observing the basis");
        auto fresh=BF::makeBasis(view,nf.second);
        auto r=observeBasis(view,basis), q=observeBasis(view,fresh);
        mc::check(r==q,[&]{ std::size_t k=0; while (k<r.size() && k<q.size() && r[k]==q[k]) ++k; return cat("updated basis differs from a freshly created one in entry ",k," of ",q.size(),": ",k<r.size()?r[k]:-1,", expected ",k<q.size()?q[k]:-1); });
        mc::combine(out,r.size()); mc::combine(out,double(view.size(0)));
      }
      mc::outcome(out);
    });
  };
  auto rec=[&](auto&& self) -> void {
    if (!h.empty() && h.back().second) (run(fs),...);
    if ((int)h.size()==depth) return;
    for (int k=0;k<(int)ops.size();++k) for (bool u : {true,false}) { if (!u && (int)h.size()+1==depth) continue; h.push_back({k,u}); self(self); h.pop_back(); }
  };
  rec(rec);
}

// swaps the two digits of the indices of a power<2>(lagrange<1>, blockedInterleaved)
template<class B> auto digitSwap(const B& inner)
{
  return BF::Experimental::transformIndices(inner,BF::Experimental::indexTransformation(
    [](auto& mi, const auto& basis) { auto a=mi[0]; mi[0]=mi[1]; mi[1]=a; },
    [](const auto& prefix, const auto& basis) -> std::size_t {
      if (prefix.size()==0) return 2;
      if (prefix.size()==1) return basis.dimension()/2;
      return 0; },
    Dune::index_constant<2>{},Dune::index_constant<2>{}));
}

void explore()
{
  using namespace BF;
  [[maybe_unused]] const int depth=mc::thorough()?6:5;
#if PART<9 // the leaf bases of family FAMILY
  std::set<std::string> seen;
  zoo::forEach([&](auto d, auto kind, const zoo::Props& p, auto factory) {
    constexpr int dim=decltype(d)::value, k=decltype(kind)::value;
    if ((dim==3 && k==0 && !p.pyramidsPrisms) || (k==0 && !p.mixed)) return;
    if (dim==3 && k==0 && p.name.find("raviart")!=std::string::npos) return;
    if (p.degree>3 && FAMILY<4) return;
    std::string name=cat(dim,"d/",k==0?"mixed":k==1?"simplex":"cube","/",p.name);
    if (!seen.insert(name).second) return;
    int less = (dim==3 && p.degree>1) || FAMILY==8 || FAMILY==3 || (FAMILY==6 && dim==3) || (FAMILY==5 && p.degree>1) ? 1 : 0;
    Updates<dim,k,decltype(factory)>(name,factory,depth-less);
  });
#elif PART==9 // trees
  auto u=[&](const char* n, auto f, int less=0) { Updates<2,0,decltype(f)>(n,f,depth-less); };
  u("power<2>",power<2>(lagrange<1>()));
  u("power<2>/flatLexicographic",power<2>(lagrange<2>(),flatLexicographic()));
  u("power(2)",power(lagrange(1),2));
  u("power(3)/blockedLexicographic",power(lagrange<1>(),3,blockedLexicographic()));
  u("composite",composite(lagrange<1>(),lagrange<0>(),blockedLexicographic()));
  u("composite/flat",composite(power<2>(lagrange<1>()),lagrangeDG<1>(),flatLexicographic()));
  u("composite/raviartThomas",composite(raviartThomas<0>(),lagrange<0>()));
  u("taylorHood",taylorHood());
  u("transformed",digitSwap(power<2>(lagrange<1>(),blockedInterleaved())));
  u("composite/transformed",composite(digitSwap(power<2>(lagrange<1>(),blockedInterleaved())),lagrange<1>()));
  u("nested",power<2>(composite(power(lagrange<1>(),2),lagrange<0>()),blockedLexicographic()));
#elif PART==10 // one dimensional grid
  auto grid=[]{ return std::make_unique<Dune::OneDGrid>(std::vector<double>{0.,0.3,1.}); };
  realHistories("OneDGrid",grid,mc::thorough()?4:3,4,std::pair{"lagrange<2>",lagrange<2>()},std::pair{"lagrange(3)",lagrange(3)},std::pair{"lagrangeDG<1>",lagrangeDG<1>()},
    std::pair{"cubicHermite",cubicHermite()},std::pair{"hierarchicalP2B",hierarchicalP2B()},std::pair{"refinedLagrange",refinedLagrange<1>()},
    std::pair{"tree",composite(power<2>(lagrange<1>()),lagrange<0>())});
#elif PART==11 // triangular grid
  auto grid=[]{
    Dune::GridFactory<Dune::AlbertaGrid<2,2>> f;
    for (auto x : std::vector<Dune::FieldVector<double,2>>{{0.,0.},{1.,0.},{0.,1.},{1.,1.2}}) f.insertVertex(x);
    f.insertElement(Dune::GeometryTypes::triangle,{1,0,2}); f.insertElement(Dune::GeometryTypes::triangle,{1,2,3}); return std::unique_ptr<Dune::AlbertaGrid<2,2>>(f.createGrid()); };
  realHistories("AlbertaGrid",grid,mc::thorough()?4:3,mc::thorough()?4:3,std::pair{"lagrange(3)",lagrange(3)},std::pair{"raviartThomas<1>",raviartThomas<1>()},std::pair{"brezziDouglasMarini<2>",brezziDouglasMarini<2>()},
    std::pair{"nedelec",nedelec<1,1>()},std::pair{"cubicHermite",cubicHermite()},std::pair{"argyris",argyris()},std::pair{"morley",morley()},std::pair{"rannacherTurek",rannacherTurek<>()},
    std::pair{"hierarchicalLagrange",hierarchicalLagrange<2>()},std::pair{"taylorHood",taylorHood()});
#endif
}
MC_MAIN(explore())
