// C09: all histories of operations on a pool of local views / local functions.
// Objects live on the heap; the unit runs under AddressSanitizer, so any use of a destroyed object is fatal.
#include <config.h>
#include "observe.hh"
#include <memory>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/common/signature.hh>
#include <dune/common/rangeutilities.hh>
#include <dune/istl/bvector.hh>
#include <dune/grid/yaspgrid.hh>
using mc::cat;
namespace F=Dune::Functions;
namespace BF=Dune::Functions::BasisFactory;
namespace EX=Dune::Functions::BasisFactory::Experimental;
// ------------------------------------------------------------------ pools and histories
// A Pool creates objects in two variants (same type, different basis/function), knows the elements of each and observes bound objects.
struct Op { char t; int a,b; };
inline std::string str(const std::vector<Op>& h) { std::string s; for (auto& o : h) { s+=o.t; s+=char('0'+o.a); if (o.b>=0) s+=char('0'+o.b); s+='.'; } if (!s.empty()) s.pop_back(); return s; }

template<class Pool> class Explorer
{
  using Obj=typename Pool::Object;
  static constexpr bool assignable=std::is_copy_assignable_v<Obj>;
  struct Slot { int state=0; int variant=-1; int element=-1; };   // state 0 none, 1 live, 2 moved from
  Pool& pool; int n, depth; std::string name;
  std::vector<std::vector<Obs>> ref;                               // [variant][element]
  std::vector<Op> h;
public:
  Explorer(Pool& p, std::string name, int n, int depth) : pool(p), n(n), depth(depth), name(name)
  {
    for (int v=0;v<2;++v) { ref.emplace_back(); for (int e=0;e<pool.size(v);++e) { auto o=pool.make(v); pool.bind(*o,v,e); ref.back().push_back(pool.observe(*o,v)); } }
    // variants and elements must be distinguishable, or the exploration would be blind
    std::set<Obs> all; std::size_t k=0; for (auto& r : ref) for (auto& o : r) { all.insert(o); ++k; }
    mc::state(name+"/distinguishable",[&]{ mc::check(all.size()==k,"two elements or variants give the same observation"); });
    std::vector<Slot> s(n);
    recurse(s);
  }
private:
  void recurse(const std::vector<Slot>& s)
  {
    if ((int)h.size()==depth) { execute(); return; }
    bool first=true;   // slots are interchangeable: create only in the first empty one
    auto go=[&](Op o, auto&& change) { auto t=s; change(t); h.push_back(o); recurse(t); h.pop_back(); };
    for (int i=0;i<n;++i) {
      if (s[i].state==0) {
        if (first) {
          for (int v=0;v<2;++v) go({'n',i,v},[&](auto& t){ t[i]={1,v,-1}; });
          for (int j=0;j<n;++j) if (s[j].state==1) {
            go({'c',i,j},[&](auto& t){ t[i]=t[j]; });
            go({'m',i,j},[&](auto& t){ t[i]=t[j]; t[j].state=2; });
            if (Pool::derives) go({'D',i,j},[&](auto& t){ t[i]=t[j]; });
          }
        }
        first=false;
      } else {
        if (s[i].state==1) {
          for (int e=0;e<pool.size(s[i].variant);++e) go({'b',i,e},[&](auto& t){ t[i].element=e; });
          if (s[i].element>=0) go({'u',i,-1},[&](auto& t){ t[i].element=-1; });
        }
        go({'x',i,-1},[&](auto& t){ t[i]={}; });
        if (assignable) for (int j=0;j<n;++j) if (s[j].state==1) {
          go({'a',i,j},[&](auto& t){ t[i]=t[j]; });
          if (i!=j) go({'t',i,j},[&](auto& t){ t[i]=t[j]; t[j].state=2; });
        }
        if (assignable) for (int j=i+1;j<n;++j) if (s[i].state==1 && s[j].state==1) go({'s',i,j},[&](auto& t){ std::swap(t[i],t[j]); });
      }
    }
  }
  void execute()
  {
    mc::state(name+"/"+str(h),[&]{
      std::vector<std::unique_ptr<Obj>> o(n); std::vector<Slot> s(n); std::size_t out=0;
      for (auto& p : h) {
        mc::op(cat("operation ",p.t,p.a,p.b)); mc::transition();
        switch (p.t) {
          case 'n': o[p.a]=pool.make(p.b); s[p.a]={1,p.b,-1}; break;
          case 'c': o[p.a]=std::make_unique<Obj>(*o[p.b]); s[p.a]=s[p.b]; break;
          case 'm': o[p.a]=std::make_unique<Obj>(std::move(*o[p.b])); s[p.a]=s[p.b]; s[p.b].state=2; break;
          case 'D': if constexpr (Pool::derives) o[p.a]=pool.derive(*o[p.b],s[p.b].variant); s[p.a]=s[p.b]; break;
          case 'b': pool.bind(*o[p.a],s[p.a].variant,p.b); s[p.a].element=p.b; break;
          case 'u': o[p.a]->unbind(); s[p.a].element=-1; break;
          case 'x': o[p.a].reset(); s[p.a]={}; break;
          case 'a': if constexpr (assignable) *o[p.a]=std::as_const(*o[p.b]); s[p.a]=s[p.b]; break;
          case 't': if constexpr (assignable) *o[p.a]=std::move(*o[p.b]); s[p.a]=s[p.b]; s[p.b].state=2; break;
          case 's': if constexpr (assignable) { using std::swap; swap(*o[p.a],*o[p.b]); } std::swap(s[p.a],s[p.b]); break;
        }
        for (int i=0;i<n;++i) if (s[i].state==1) {
          mc::op(cat("observe object ",i," after ",p.t,p.a,p.b));
          mc::check(o[i]->bound()==(s[i].element>=0),[&]{ return cat("object ",i," is ",o[i]->bound()?"":"not ","bound after ",p.t,p.a,p.b); });
          mc::combine(out,std::size_t(s[i].element+3*s[i].variant+10*i));
          if (s[i].element<0) continue;
          auto r=pool.observe(*o[i],s[i].variant); auto& q=ref[s[i].variant][s[i].element];
          mc::check(r==q,[&]{ std::size_t k=0; while (k<r.size() && k<q.size() && r[k]==q[k]) ++k;
            return cat("object ",i," bound to element ",s[i].element," differs from a fresh one after ",p.t,p.a,p.b," (entry ",k," of ",q.size(),": ",k<r.size()?r[k]:-1,", expected ",k<q.size()?q[k]:-1,")"); });
        }
      }
      mc::outcome(out);
    });
  }
};

// a pool from two functions creating objects
template<class GV, class Make, bool view> struct PoolOf
{
  std::array<GV,2> gv; Make create;
  static constexpr bool derives=false;
  using Element=typename GV::template Codim<0>::Entity;
  std::array<std::vector<Element>,2> elems;
  using Object=std::decay_t<decltype(std::declval<Make&>()(0))>;
  PoolOf(const GV& a, const GV& b, Make m) : gv{a,b}, create(m)
  { for (int v=0;v<2;++v) { std::size_t k=0; for (const auto& e : elements(gv[v])) { if (k++<2) elems[v].push_back(e); } } }
  int size(int v) const { return elems[v].size(); }
  std::unique_ptr<Object> make(int v) { return std::unique_ptr<Object>(new Object(create(v))); }
  std::unique_ptr<Object> derive(const Object&, int) { return {}; }
  // bound through a temporary copy of the entity
  void bind(Object& o, int v, int e) { auto copy=std::make_unique<Element>(elems[v][e]); o.bind(*copy); }
  Obs observe(const Object& o, int v) const { if constexpr (view) return observeView(gv[v],o); else return observeFunction(gv[v],o); }
};
// derivative(localFunction) as further way of creating objects: the pool holds local functions of the derivative
template<class GV, class Make, class MakeLF> struct DerivativePool : PoolOf<GV,Make,false>
{
  using Base=PoolOf<GV,Make,false>; MakeLF lf;
  DerivativePool(const GV& a, const GV& b, Make m, MakeLF l) : Base(a,b,m), lf(l) {}
  using typename Base::Object;
  static constexpr bool derives=true;
  // the derivative of a local function that is bound to the same element and then destroyed
  std::unique_ptr<Object> derive(const Object& o, int v)
  {
    auto f=std::make_unique<std::decay_t<decltype(lf(0))>>(lf(v));
    if (o.bound()) f->bind(o.localContext());
    return std::unique_ptr<Object>(new Object(derivative(*f)));
  }
};
inline int depth() { return mc::thorough() ? 6 : 5; }
template<class GV, class Make> void views(const std::string& name, const GV& a, const GV& b, Make m, int less=0)
{
  if (!mc::group(name+"/")) return;
  PoolOf<GV,Make,true> p(a,b,m); { Explorer ex(p,name,2,depth()-less); }
  if (mc::thorough()) Explorer ex(p,name+"/3",3,5-less);
}
template<class GV, class Make> void functions(const std::string& name, const GV& a, const GV& b, Make m, int less=0)
{
  if (!mc::group(name+"/")) return;
  PoolOf<GV,Make,false> p(a,b,m); { Explorer ex(p,name,2,depth()-less); }
  if (mc::thorough()) Explorer ex(p,name+"/3",3,5-less);
}
template<class GV, class Make, class MakeLF> void derivatives(const std::string& name, const GV& a, const GV& b, Make m, MakeLF l, int less=0)
{
  if (!mc::group(name+"/")) return;
  DerivativePool<GV,Make,MakeLF> p(a,b,m,l); { Explorer ex(p,name,2,depth()-less); }
}
// local views of two bases of the same type
template<class GV, class FA, class FB> void bases(const std::string& name, const GV& a, const GV& b, const FA& fa, const FB& fb, int less=0)
{
  if (!mc::group(name+"/")) return;
  auto ba=BF::makeBasis(a,fa); auto bb=BF::makeBasis(b,fb);
  views(name,a,b,[&](int v) { return (v==0?ba:bb).localView(); },less);
}
template<class GV, class FA> void bases(const std::string& name, const GV& a, const GV& b, const FA& fa, int less=0) { bases(name,a,b,fa,fa,less); }

// ------------------------------------------------------------------ grids
template<int kind> struct Mocks
{
  using Grid=Dune::MockGrid<2,kind>; Grid grid;
  Mocks() {
    // variant 0: a pair of elements, variant 1: another numbering with permuted vertices
    auto list=meshes::pairs2(true);
    auto& m = kind==1 ? list[0] : kind==2 ? list[1] : list[2];
    auto s=m.spec; grid.set(0,s);
    auto t=m.spec; t.vertexIndices.clear(); int nv=t.vertices.size(); for (int i=0;i<nv;++i) { t.vertexIndices.push_back(nv-i); t.vertexIds.push_back((i*2+1)%nv*10+i); }
    for (auto& x : t.vertices) { auto y=x; x[0]=2*y[0]+0.1*y[1]; x[1]=1.5*y[1]-0.1*y[0]; }
    t.elements[0].v=meshes::permuted(t.elements[0].v,meshes::symmetries<2>(t.elements[0].type)[1]);
    t.elements[1].v=meshes::permuted(t.elements[1].v,meshes::symmetries<2>(t.elements[1].type)[2]);
    std::swap(t.elements[0],t.elements[1]);
    grid.set(1,t);
  }
  auto a() const { return grid.view(0); }
  auto b() const { return grid.view(1); }
};
template<class B> std::vector<double> coefficients(const B& basis, double c) { std::vector<double> x(basis.dimension()); for (std::size_t i=0;i<x.size();++i) x[i]=c+std::sin(1.+3*c+i); return x; }

void explore()
{
  using namespace BF;
  [[maybe_unused]] Mocks<0> mix; [[maybe_unused]] Mocks<1> tri; [[maybe_unused]] Mocks<2> quad;
[[maybe_unused]] const int quick=mc::thorough()?0:1;   // one operation less in the quick tier
#if PART==0   // Lagrange and other scalar leaf bases
  bases("lagrange<1>",mix.a(),mix.b(),lagrange<1>());
  bases("lagrange<2>",mix.a(),mix.b(),lagrange<2>());
  bases("lagrange(2|3)",mix.a(),mix.b(),lagrange(2),lagrange(3));
  bases("lagrangeDG<1>",mix.a(),mix.b(),lagrangeDG<1>());
  bases("lagrangeDG(1|2)",mix.a(),mix.b(),lagrangeDG(1),lagrangeDG(2));
  bases("lagrange<3>/triangles",tri.a(),tri.b(),lagrange<3>());
  bases("refinedLagrange",tri.a(),tri.b(),refinedLagrange<1>());
  bases("hierarchicalLagrange",tri.a(),tri.b(),hierarchicalLagrange<2>());
  bases("hierarchicalP2B",tri.a(),tri.b(),hierarchicalP2B());
  bases("rannacherTurek",quad.a(),quad.b(),rannacherTurek<>());
  bases("rannacherTurek/mixed",mix.a(),mix.b(),rannacherTurek<>());
#elif PART==1 // vector valued
  bases("raviartThomas<0>",mix.a(),mix.b(),raviartThomas<0>());
  bases("raviartThomas<1>",tri.a(),tri.b(),raviartThomas<1>(),quick);
  bases("raviartThomas<1>/quads",quad.a(),quad.b(),raviartThomas<1>(),quick);
  bases("brezziDouglasMarini<1>",tri.a(),tri.b(),brezziDouglasMarini<1>());
  bases("brezziDouglasMarini<2>/quads",quad.a(),quad.b(),brezziDouglasMarini<2>(),quick);
  bases("nedelec<1,1>",mix.a(),mix.b(),nedelec<1,1>());
#elif PART==2 // C1 type
  bases("cubicHermite",tri.a(),tri.b(),cubicHermite());
  bases("reducedCubicHermite",tri.a(),tri.b(),reducedCubicHermite());
  bases("morley",tri.a(),tri.b(),morley());
  bases("argyris",tri.a(),tri.b(),argyris(),1);
#elif PART==3 // trees
  bases("power<2>",mix.a(),mix.b(),power<2>(lagrange<1>()));
  bases("power(2|3)",mix.a(),mix.b(),power(lagrange<1>(),2),power(lagrange<1>(),3));
  bases("composite",mix.a(),mix.b(),composite(lagrange<2>(),power<2>(lagrange<0>(),flatLexicographic()),raviartThomas<0>()));
  bases("taylorHood",mix.a(),mix.b(),taylorHood(),1);
  bases("power(composite(argyris))",tri.a(),tri.b(),power(composite(morley(),lagrange<1>()),2),1);
#elif PART==4 // wrappers
  { auto f=composite(power<2>(lagrange<2>(),flatInterleaved()),power(lagrange<1>(),2),flatLexicographic()); auto a=makeBasis(mix.a(),f), b=makeBasis(mix.b(),f);
    using namespace Dune::Indices;
    auto sa=F::subspaceBasis(a,_0), sb=F::subspaceBasis(b,_0); views("subspace",mix.a(),mix.b(),[&](int v) { return (v==0?sa:sb).localView(); },1);
    auto ta=F::subspaceBasis(a,_1,0), tb=F::subspaceBasis(b,_1,1); views("subspace dynamic path",mix.a(),mix.b(),[&](int v) { return (v==0?ta:tb).localView(); },1);
    auto ua=F::subspaceBasis(sa,1), ub=F::subspaceBasis(sb,0); views("subspace of subspace",mix.a(),mix.b(),[&](int v) { return (v==0?ua:ub).localView(); },1); }
  { EX::PeriodicIndexSet s; s.unifyIndexPair(0,2); bases("periodic",mix.a(),mix.b(),EX::periodic(lagrange<1>(),s)); }
  { using namespace Dune::Indices; auto t=EX::indexTransformation([](auto& mi, const auto& pb) { mi[0]=pb.dimension()-1-mi[0]; },[](const auto& p, const auto& pb) -> std::size_t { return p.size()==0?pb.dimension():0; },_1,_1);
    bases("transformIndices",mix.a(),mix.b(),EX::transformIndices(lagrange<1>(),t)); }
#elif PART==5 // discrete functions
  { auto a=makeBasis(mix.a(),lagrange<2>()), b=makeBasis(mix.b(),lagrange<2>()); auto x=coefficients(a,0.3), y=coefficients(b,1.7);
    auto fa=F::makeDiscreteGlobalBasisFunction<double>(a,x), fb=F::makeDiscreteGlobalBasisFunction<double>(b,y);
    functions("DGBF scalar",mix.a(),mix.b(),[&](int v) { return localFunction(v==0?fa:fb); });
    // the grid function itself may be a temporary: its local functions share the data
    functions("DGBF temporary",mix.a(),mix.b(),[&](int v) { auto g=v==0?fa:fb; return localFunction(g); },1);
    auto da=derivative(fa), db=derivative(fb);
    derivatives("DGBF derivative",mix.a(),mix.b(),[&](int v) { return localFunction(v==0?da:db); },[&](int v) { return localFunction(v==0?fa:fb); }); }
  { auto f=composite(power<2>(lagrange<2>(),flatInterleaved()),lagrange<1>(),flatLexicographic()); auto a=makeBasis(mix.a(),f), b=makeBasis(mix.b(),f); auto x=coefficients(a,0.3), y=coefficients(b,1.7);
    using namespace Dune::Indices; using R=Dune::FieldVector<double,2>;
    auto sa=F::subspaceBasis(a,_0), sb=F::subspaceBasis(b,_0);
    auto fa=F::makeDiscreteGlobalBasisFunction<R>(sa,x), fb=F::makeDiscreteGlobalBasisFunction<R>(sb,y);
    functions("DGBF subspace vector",mix.a(),mix.b(),[&](int v) { return localFunction(v==0?fa:fb); },1);
    auto da=derivative(fa), db=derivative(fb);
    derivatives("DGBF subspace derivative",mix.a(),mix.b(),[&](int v) { return localFunction(v==0?da:db); },[&](int v) { return localFunction(v==0?fa:fb); },1);
    using R1=double; auto ta=F::subspaceBasis(a,_1), tb=F::subspaceBasis(b,_1);
    auto ga=F::makeDiscreteGlobalBasisFunction<R1>(ta,x), gb=F::makeDiscreteGlobalBasisFunction<R1>(tb,y);
    functions("DGBF subspace scalar",mix.a(),mix.b(),[&](int v) { return localFunction(v==0?ga:gb); },1); }
#elif PART==6 // discrete functions of other spaces, type erasure
  { auto a=makeBasis(tri.a(),raviartThomas<0>()), b=makeBasis(tri.b(),raviartThomas<0>()); auto x=coefficients(a,0.3), y=coefficients(b,1.7); using R=Dune::FieldVector<double,2>;
    auto fa=F::makeDiscreteGlobalBasisFunction<R>(a,x), fb=F::makeDiscreteGlobalBasisFunction<R>(b,y);
    functions("DGBF RT0",tri.a(),tri.b(),[&](int v) { return localFunction(v==0?fa:fb); }); }
  { auto a=makeBasis(tri.a(),morley()), b=makeBasis(tri.b(),morley()); auto x=coefficients(a,0.3), y=coefficients(b,1.7);
    auto fa=F::makeDiscreteGlobalBasisFunction<double>(a,x), fb=F::makeDiscreteGlobalBasisFunction<double>(b,y);
    functions("DGBF morley",tri.a(),tri.b(),[&](int v) { return localFunction(v==0?fa:fb); }); }
  Dune::YaspGrid<2> yasp({1.,1.},{2,1}); yasp.globalRefine(1); auto ya=yasp.levelGridView(0), yb=yasp.levelGridView(1);
  { using GV=decltype(ya); using X=Dune::FieldVector<double,2>;
    auto a=makeBasis(ya,lagrange<1>()), b=makeBasis(yb,lagrange<1>()); auto x=coefficients(a,0.3), y=coefficients(b,1.7);
    F::GridViewFunction<double(X),GV> fa=F::makeDiscreteGlobalBasisFunction<double>(a,x), fb=F::makeDiscreteGlobalBasisFunction<double>(b,y);
    functions("GridViewFunction(DGBF)",ya,yb,[&](int v) { return localFunction(v==0?fa:fb); });
    auto g=F::makeDifferentiableFunctionFromCallables(F::SignatureTag<double(X)>(),[](const X& x) { return x[0]*x[0]+3*x[1]; },[](const X& x) { return X{2*x[0],3.}; });
    F::GridViewFunction<double(X),GV> ea=F::makeAnalyticGridViewFunction(g,ya);
    // objects with different content behind the same type erased local function
    functions("GridViewFunction(DGBF|analytic)",ya,yb,[&](int v) { return localFunction(v==0?ea:fb); });
    auto da=derivative(fa), db=derivative(fb);
    derivatives("GridViewFunction derivative",ya,yb,[&](int v) { return localFunction(v==0?da:db); },[&](int v) { return localFunction(v==0?fa:fb); }); }
#elif PART==7 // analytic, composed, face normals
  { using X=Dune::FieldVector<double,2>;
    auto g=[](double c) { return F::makeDifferentiableFunctionFromCallables(F::SignatureTag<double(X)>(),[c](const X& x) { return c*x[0]*x[0]+3*x[1]; },[c](const X& x) { return X{c*2*x[0],3.}; }); };
    auto ga=F::makeAnalyticGridViewFunction(g(1.),mix.a()), gb=F::makeAnalyticGridViewFunction(g(2.5),mix.b());
    functions("analytic",mix.a(),mix.b(),[&](int v) { return localFunction(v==0?ga:gb); });
    auto da=derivative(ga), db=derivative(gb);
    derivatives("analytic derivative",mix.a(),mix.b(),[&](int v) { return localFunction(v==0?da:db); },[&](int v) { return localFunction(v==0?ga:gb); });
    auto lam=[](double c) { return [c](const X& x) { return c*x[0]*x[0]+3*x[1]; }; };
    auto la=F::makeAnalyticGridViewFunction(lam(1.),mix.a()), lb=F::makeAnalyticGridViewFunction(lam(2.5),mix.b());
    functions("analytic lambda",mix.a(),mix.b(),[&](int v) { return localFunction(v==0?la:lb); });
    auto a=makeBasis(mix.a(),lagrange<1>()), b=makeBasis(mix.b(),lagrange<1>()); auto x=coefficients(a,0.3), y=coefficients(b,1.7);
    auto fa=F::makeDiscreteGlobalBasisFunction<double>(a,x), fb=F::makeDiscreteGlobalBasisFunction<double>(b,y);
    auto outer=[](double p, double q) { return p*q+p; };
    auto ca=F::makeComposedGridFunction(outer,fa,la), cb=F::makeComposedGridFunction(outer,fb,lb);
    functions("composed",mix.a(),mix.b(),[&](int v) { return localFunction(v==0?ca:cb); });
    auto ra=F::makeComposedGridFunction(outer,std::ref(fa),std::ref(la)), rb=F::makeComposedGridFunction(outer,std::ref(fb),std::ref(lb));
    functions("composed references",mix.a(),mix.b(),[&](int v) { return localFunction(v==0?ra:rb); });
    Dune::YaspGrid<2> yasp({1.,1.},{2,1}); yasp.globalRefine(1); auto ya=yasp.levelGridView(0), yb=yasp.levelGridView(1);
    F::FaceNormalGridFunction na(ya), nb(yb);
    functions("face normals",ya,yb,[&](int v) { return localFunction(v==0?na:nb); }); }
#elif PART==8 // functions on other levels, splines
  using Yasp=Dune::YaspGrid<2>; Yasp grid({1.,1.},{2,1}); grid.globalRefine(2);
  { auto coarse=grid.levelGridView(0); auto fine=grid.levelGridView(2);
    auto a=makeBasis(coarse,lagrange<1>()), b=makeBasis(coarse,lagrange<1>()); auto x=coefficients(a,0.3), y=coefficients(b,1.7);
    auto fa=F::makeDiscreteGlobalBasisFunction<double>(a,x), fb=F::makeDiscreteGlobalBasisFunction<double>(b,y);
    F::CoarseFunctionOnFineGridView ca(fa,fine), cb(fb,fine);
    functions("coarse on fine",fine,fine,[&](int v) { return localFunction(v==0?ca:cb); });
    auto da=derivative(ca), db=derivative(cb);
    derivatives("coarse on fine derivative",fine,fine,[&](int v) { return localFunction(v==0?da:db); },[&](int v) { return localFunction(v==0?ca:cb); });
    auto p=makeBasis(fine,lagrange<1>()); auto q=coefficients(p,0.4), r=coefficients(p,0.9);
    auto pa=F::makeDiscreteGlobalBasisFunction<double>(p,q), pb=F::makeDiscreteGlobalBasisFunction<double>(p,r);
    F::FineFunctionOnCoarseGridView ga(pa,coarse), gb(pb,coarse);
    functions("fine on coarse",coarse,coarse,[&](int v) { return localFunction(v==0?ga:gb); });
    auto ea=derivative(ga), eb=derivative(gb);
    derivatives("fine on coarse derivative",coarse,coarse,[&](int v) { return localFunction(v==0?ea:eb); },[&](int v) { return localFunction(v==0?ga:gb); });
  }
  { std::vector<double> k={0.,0.25,0.5,0.75,1.}; auto g1=Dune::YaspGrid<2>({1.,1.},{4,4}); auto g2=g1.leafGridView(); bases("bSpline",g2,g2,bSpline(k,2),bSpline(k,1),1); }
#endif
}
MC_MAIN(explore())
