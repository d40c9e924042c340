// C19: wrapped, composed and transferred grid functions on all views of refined grids, all bindings, against pointwise evaluation.
#include <config.h>
#include "mc.hh"
#include <memory>
#include <optional>
#include <dune/grid/onedgrid.hh>
#include <dune/grid/yaspgrid.hh>
#if PART==2
#include <dune/grid/albertagrid.hh>
#endif
#if PART==3
#include "meshes.hh"
#endif
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/common/geometryinancestor.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/gridviewentityset.hh>
using mc::cat;
namespace DF=Dune::Functions;
namespace BF=Dune::Functions::BasisFactory;
using Num=std::vector<double>;

template<class T> void push(Num& o, const T& v) { if constexpr (std::is_arithmetic_v<T>) o.push_back(v); else if constexpr (requires { v.N(); v[0]; }) for (std::size_t i=0;i<v.N();++i) push(o,v[i]); else for (const auto& x : v) push(o,x); }
template<class T> Num num(const T& v) { Num o; push(o,v); return o; }
inline bool same(const Num& a, const Num& b) { if (a.size()!=b.size()) return false; for (std::size_t i=0;i<a.size();++i) if (!(std::abs(a[i]-b[i])<=1e-9*(1+std::abs(b[i])))) return false; return true; }
inline std::string show(const Num& a) { std::string s; for (double x : a) s+=cat(" ",x); return s; }
template<class M> void equal(const Num& a, const Num& b, M&& m) { mc::check(same(a,b),[&]{ return cat(m(),": got",show(a),", expected",show(b)); }); }

template<class E> std::string nameOf(const E& e) { std::string s=cat("level ",e.level()," [",e.geometry().corner(0)); for (int i=1;i<e.geometry().corners();++i) s+=cat("|",e.geometry().corner(i)); return s+"]"; }

// points inside the reference element, and corners
template<int dim> std::vector<Dune::FieldVector<double,dim>> inner(Dune::GeometryType t)
{
  std::vector<Dune::FieldVector<double,dim>> r; const auto& ref=Dune::referenceElement<double,dim>(t); auto c=ref.position(0,0);
  r.push_back(c);
  for (int i=0;i<ref.size(dim);++i) { auto x=c; x*=0.35; x.axpy(0.65,ref.position(i,dim)); if (i<3) r.push_back(x); }
  return r;
}
template<int dim> std::vector<Dune::FieldVector<double,dim>> cornersOf(Dune::GeometryType t)
{
  std::vector<Dune::FieldVector<double,dim>> r; const auto& ref=Dune::referenceElement<double,dim>(t);
  for (int i=0;i<ref.size(dim);++i) r.push_back(ref.position(i,dim));
  return r;
}

// membership in the views, from the documented meaning of levels and leafs
struct Which { int level; template<class E> bool has(const E& e) const { return level<0 ? e.isLeaf() : e.level()==level; } std::string name() const { return level<0 ? "leaf" : cat("level",level); } };

template<class V> struct Named { V view; Which which; };

// an element of the view and those elements of another one that are inside or around it
template<class V, class E> std::optional<E> ancestor(const V& v, E e) { for (;;) { if (v.which.has(e)) return e; if (e.level()==0) return {}; e=e.father(); } }

template<class V, class W> bool coarser(const V& v, const W& w) { for (const auto& e : elements(w.view)) if (!ancestor(v,e)) return false; return true; }
// every element of w is covered by elements of v below it
template<class V, class W> bool finer(const V& v, const W& w)
{
  std::map<std::size_t,double> cover; for (const auto& d : elements(v.view)) { auto a=ancestor(w,d); if (!a) return false; cover[w.view.indexSet().index(*a)]+=d.geometry().volume(); }
  for (const auto& e : elements(w.view)) { auto c=cover[w.view.indexSet().index(e)]; if (std::abs(c-e.geometry().volume())>1e-9) return false; }
  return true;
}

template<class GV> auto analytic(const GV& gv)
{
  using X=typename GV::template Codim<0>::Geometry::GlobalCoordinate; constexpr int dw=X::dimension;
  auto f=DF::makeDifferentiableFunctionFromCallables(DF::SignatureTag<double(X)>(),
    [](const X& x) { double r=1; for (int d=0;d<dw;++d) r+=(d+1)*x[d]+x[d]*x[d]*x[0]; return r; },
    [](const X& x) { X g; for (int d=0;d<dw;++d) { g[d]=(d+1)+2*x[d]*x[0]; g[0]+=x[d]*x[d]; } return g; });
  return DF::makeAnalyticGridViewFunction(f,gv);
}

// wraps and observers: check a grid function g on the elements and points of the probes
template<class G, class P, class GV> void observe(const G& g, const P& probes, const GV& gv, bool derivatives, bool global, const std::string& what)
{
  auto admissible=[&](const Num& got, const auto& pr, bool d, const std::string& how) {
    ++mc::run().checks; bool ok=false; for (auto& w : pr.wanted) ok=ok || same(got,d?w.second:w.first);
    if (!ok) mc::fail(cat(what,": ",how," on ",nameOf(pr.element)," at ",pr.x," (",pr.X,"): got",show(got),", expected",show(d?pr.wanted[0].second:pr.wanted[0].first)));
  };
  mc::op(what);
  auto lg=localFunction(g);
  mc::check(!lg.bound(),"a new local function is bound");
  const auto& es=g.entitySet(); mc::equal(std::size_t(es.size()),std::size_t(gv.size(0)),"size of the entity set");
  std::size_t n=0; for (const auto& e : es) { mc::check(es.contains(e) && gv.contains(e),"the entity set does not contain its elements"); ++n; } mc::equal(n,std::size_t(gv.size(0)),"number of visited elements of the entity set");
  auto run=[&](const auto& order) {
    std::size_t last=probes.size();
    for (std::size_t i : order) {
      const auto& p=probes[i]; if (last==probes.size() || !(probes[last].element==p.element)) { lg.bind(p.element); mc::transition(); mc::check(lg.bound(),"not bound after bind()"); mc::check(lg.localContext()==p.element,"localContext() is another element"); } last=i;
      admissible(num(lg(p.x)),p,false,"local value");
    }
  };
  std::vector<std::size_t> forward(probes.size()); for (std::size_t i=0;i<forward.size();++i) forward[i]=i;
  std::vector<std::size_t> backward(forward.rbegin(),forward.rend());
  run(forward); run(backward);
  if (probes.size()<=40) for (std::size_t i=0;i<probes.size();++i) for (std::size_t j=0;j<probes.size();++j) run(std::vector<std::size_t>{i,j});
  lg.unbind(); mc::check(!lg.bound(),"bound after unbind()"); run(forward);
  auto copy=lg; lg.unbind(); mc::check(copy.bound(),"copy of a bound local function is unbound"); admissible(num(copy(probes.back().x)),probes.back(),false,"value of a copy");
  if (global) for (auto& p : probes) if (p.wanted.size()==1) admissible(num(g(p.X)),p,false,"global value");
  if constexpr (requires { derivative(g); }) if (derivatives) {
    mc::op(what+", derivatives");
    auto dg=derivative(g); auto ldg=localFunction(dg);
    auto unbound=localFunction(g); auto early=derivative(unbound); mc::check(!early.bound(),"derivative of an unbound local function is bound");
    auto temporary=localFunction(derivative(g));
    auto lf=localFunction(g); lf.bind(probes.back().element); auto late=derivative(lf); mc::check(late.bound(),"derivative of a bound local function is unbound");
    admissible(num(late(probes.back().x)),probes.back(),true,"derivative of a bound local function");
    for (auto* order : {&forward,&backward}) { std::size_t last=probes.size(); for (std::size_t i : *order) {
      const auto& p=probes[i];
      if (last==probes.size() || !(probes[last].element==p.element)) { ldg.bind(p.element); early.bind(p.element); late.bind(p.element); temporary.bind(p.element); lf.bind(p.element); mc::transition(5); } last=i;
      admissible(num(ldg(p.x)),p,true,"local function of the derivative");
      admissible(num(early(p.x)),p,true,"derivative of an unbound local function, bound later");
      admissible(num(late(p.x)),p,true,"derivative of a bound local function, bound again");
      admissible(num(temporary(p.x)),p,true,"local function of a temporary derivative");
      admissible(num(derivative(lf)(p.x)),p,true,"derivative of the local function");
      mc::check(early.localContext()==p.element && ldg.localContext()==p.element,"localContext() of a derivative is another element");
    } }
    if (global) for (auto& p : probes) if (p.wanted.size()==1) admissible(num(dg(p.X)),p,true,"global value of the derivative");
  }
}

// probes for f (living on v) seen from the elements of w
template<class V, class W, class F> auto makeProbes(const V& v, const W& w, const F& f, bool derivatives)
{
  using E=typename std::decay_t<decltype(*w.view.template begin<0>())>; constexpr int dim=E::mydimension; constexpr int dw=E::Geometry::coorddimension;
  struct P { E element; Dune::FieldVector<double,dim> x; Dune::FieldVector<double,dw> X; std::vector<std::pair<Num,Num>> wanted; };
  std::vector<P> r;
  auto value=[&](const auto& d, const auto& x) {
    auto lf=localFunction(f); lf.bind(d); std::pair<Num,Num> q; q.first=num(lf(x));
    if constexpr (requires { derivative(lf); }) if (derivatives) { auto dl=derivative(f); auto l=localFunction(dl); l.bind(d); q.second=num(l(x)); }
    return q; };
  for (const auto& e : elements(w.view)) {
    auto geo=e.geometry();
    if (auto a=ancestor(v,e)) {
      auto list=inner<dim>(e.type()); for (auto& x : cornersOf<dim>(e.type())) list.push_back(x);
      for (auto& x : list) { auto X=geo.global(x); r.push_back({e,x,X,{value(*a,a->geometry().local(X))}}); }
    }
    else {
      std::vector<E> parts; for (const auto& d : elements(v.view)) { auto up=d; while (up.level()>e.level()) up=up.father(); if (up==e) parts.push_back(d); }
      for (auto& d : parts) {
        for (auto& y : inner<dim>(d.type())) { auto X=d.geometry().global(y); r.push_back({e,geo.local(X),X,{value(d,y)}}); }
        for (auto& y : cornersOf<dim>(d.type())) {     // any of the adjacent fine elements may be chosen
          auto X=d.geometry().global(y); P p{e,geo.local(X),X,{}};
          for (auto& q : parts) { auto z=q.geometry().local(X); auto b=z; if (Dune::referenceElement(q.geometry()).checkInside(b)) p.wanted.push_back(value(q,z)); }
          r.push_back(p);
        }
      }
    }
  }
  // global evaluation is unambiguous only inside of the elements of v; mark other points by two admissible values
  for (auto& p : r) { int n=0; bool on=false; for (const auto& d : elements(v.view)) { auto z=d.geometry().local(p.X); if (Dune::referenceElement(d.geometry()).checkInside(z)) { ++n; on=on || n>1; } } if (n!=1 && p.wanted.size()==1) p.wanted.push_back(p.wanted[0]); }
  return r;
}

template<class Grid> void explore(const Grid& grid, const std::string& quickTag, bool full)
{
  constexpr int dim=Grid::dimension;
  auto leaf=Named<typename Grid::LeafGridView>{grid.leafGridView(),{-1}};
  std::vector<Named<typename Grid::LevelGridView>> levels; for (int l=0;l<=grid.maxLevel();++l) levels.push_back({grid.levelGridView(l),{l}});
  std::size_t out=0;
  // OneDGrid claims that some refined elements are contained in its leaf view: nothing can be expected there
  auto reliable=[&](const auto& v) { for (auto& l : levels) for (const auto& e : elements(l.view)) if (v.view.contains(e)!=v.which.has(e)) return false; return true; };
  // global evaluation needs a view that covers the domain
  auto covering=[&](const auto& v) { return finer(v,levels[0]); };
  auto functions=[&](const auto& v, auto&& use) {
    use("analytic",analytic(v.view),true,true);
    auto basis=BF::makeBasis(v.view,BF::lagrangeDG<1>()); std::vector<double> c(basis.dimension()); for (std::size_t i=0;i<c.size();++i) c[i]=std::fmod(7.3*i,5.1)+0.1*i;
    use("DG",DF::makeDiscreteGlobalBasisFunction<double>(basis,c),true,covering(v));
    if (!full) return;
    auto vb=BF::makeBasis(v.view,BF::power<2>(BF::lagrange<2>())); std::vector<Dune::FieldVector<double,2>> vc(vb.size()); for (std::size_t i=0;i<vc.size();++i) { vc[i][0]=std::fmod(3.7*i,4.1); vc[i][1]=0.3*i; }
    use("vector P2",DF::makeDiscreteGlobalBasisFunction<Dune::FieldVector<double,2>>(vb,vc),true,covering(v));
  };
  auto pair=[&](const auto& v, const auto& w) {
    bool down=coarser(v,w), up=finer(v,w);
    if (!down && !up) return;
    functions(v,[&](const char* name, const auto& f, bool derivatives, bool global) {
      auto P=makeProbes(v,w,f,derivatives); if (P.empty()) return;
      std::string what=cat(name," on ",v.which.name()," seen from ",w.which.name());
      mc::combine(out,P.size()); for (auto& p : P) mc::combine(out,p.wanted[0].first[0]);
      using FF=std::decay_t<decltype(f)>; using V_=std::decay_t<decltype(v.view)>; using W=std::decay_t<decltype(w.view)>; using X=typename V_::template Codim<0>::Geometry::GlobalCoordinate; using R=std::decay_t<decltype(f(std::declval<X>()))>;
      if (down) {
        DF::CoarseFunctionOnFineGridView<FF,W> g(f,w.view); observe(g,P,w.view,derivatives,global,"coarse function of "+what);
        DF::CoarseFunctionOnFineGridView<std::reference_wrapper<const FF>,W> h(std::cref(f),w.view); observe(h,P,w.view,derivatives,global,"coarse function (by reference) of "+what);
        DF::GridViewFunction<R(X),W> e=g; observe(e,P,w.view,derivatives,global,"erased coarse function of "+what);
        if constexpr (std::is_same_v<R,double>) {
          auto k=DF::makeComposedGridFunction([](double a, double b) { return a+0.5*(b-a); },g,std::ref(h)); observe(k,P,w.view,false,global,"composed coarse function of "+what);
        }
        if (up) return;   // same elements
        // and back again: f itself
        using V=std::decay_t<decltype(v.view)>;
        DF::FineFunctionOnCoarseGridView<DF::CoarseFunctionOnFineGridView<FF,W>,V> back(g,v.view);
        if (finer(w,v)) { auto Q=makeProbes(w,v,g,derivatives); observe(back,Q,v.view,derivatives,global,"coarse and fine function of "+what); }
      }
      if (up) {
        DF::FineFunctionOnCoarseGridView<FF,W> g(f,w.view); observe(g,P,w.view,derivatives,global,"fine function of "+what);
        DF::FineFunctionOnCoarseGridView<std::reference_wrapper<const FF>,W> h(std::cref(f),w.view); observe(h,P,w.view,derivatives,global,"fine function (by reference) of "+what);
        DF::GridViewFunction<R(X),W> e=g; observe(e,P,w.view,derivatives,global,"erased fine function of "+what);
        using V=std::decay_t<decltype(v.view)>;
        DF::CoarseFunctionOnFineGridView<DF::FineFunctionOnCoarseGridView<FF,W>,V> back(g,v.view);
        if (coarser(w,v)) { // the fine function seen from its own elements, except where several children are admissible
          auto Q=makeProbes(v,v,f,derivatives); std::erase_if(Q,[](auto& q) { auto in=Dune::referenceElement(q.element.geometry()); auto c=in.position(0,0); for (int k=0;k<in.size(1);++k) { auto n=in.integrationOuterNormal(k); auto d=in.position(k,1); d-=q.x; if (std::abs(d*n)<1e-6) return true; } return false; });
          observe(back,Q,v.view,derivatives,false,"fine and coarse function of "+what); }
      }
    });
  };
  // the functions themselves, composed and erased, on every view
  auto own=[&](const auto& v) {
    functions(v,[&](const char* name, const auto& f, bool derivatives, bool global) {
      using FF=std::decay_t<decltype(f)>; using V_=std::decay_t<decltype(v.view)>; using V=std::decay_t<decltype(v.view)>; using X=typename V_::template Codim<0>::Geometry::GlobalCoordinate; using R=std::decay_t<decltype(f(std::declval<X>()))>;
      auto P=makeProbes(v,v,f,derivatives); std::string what=cat(name," on ",v.which.name());
      // the reference itself against an independent evaluation
      for (auto& p : P) if (std::string(name)=="analytic") { auto a=analytic(v.view); equal(p.wanted[0].first,num(a(p.X)),[&]{ return cat(what,": local value at ",p.X); }); equal(p.wanted[0].second,num(derivative(a)(p.X)),[&]{ return cat(what,": local derivative at ",p.X); }); }
      observe(f,P,v.view,derivatives,global,what);
      DF::GridViewFunction<R(X),V> e=DF::makeGridViewFunction(f,v.view); observe(e,P,v.view,derivatives,global,"erased "+what);
      auto a=analytic(v.view);
      auto k=DF::makeComposedGridFunction([](const R& x, double y, double z) { R r(x); r*=(y-z); r+=x; return r; },std::cref(f),a,a); observe(k,P,v.view,false,global,"composed "+what);
      auto Q=P; for (auto& p : Q) for (auto& q : p.wanted) { for (double& d : q.first) d=d*d-a(p.X); }
      auto m=DF::makeComposedGridFunction([](const R& x, double y) { R r(x); if constexpr (std::is_same_v<R,double>) r=x*x-y; else for (std::size_t i=0;i<x.size();++i) r[i]=x[i]*x[i]-y; return r; },f,a); observe(m,Q,v.view,false,global,"composed non-linearly "+what);
      // composition of a composition
      auto mm=DF::makeComposedGridFunction([](const R& x, const R& y) { R r(x); r-=y; r+=y; return r; },m,std::cref(k)); observe(mm,Q,v.view,false,global,"composed twice "+what);
    });
    auto plain=[](const auto& x) { return x[0]*x[0]+0.5*x[x.size()-1]; };
    DF::AnalyticGridViewFunction deduced(plain,v.view); auto made=DF::makeGridViewFunction(plain,v.view); auto l1=localFunction(deduced), l2=localFunction(made);
    for (const auto& e : elements(v.view)) { l1.bind(e); l2.bind(e); for (auto& x : inner<dim>(e.type())) { auto X=e.geometry().global(x); mc::close(l1(x),plain(X),1e-12,"analytic function"); mc::close(l2(x),plain(X),1e-12,"makeGridViewFunction"); mc::close(deduced(X),plain(X),1e-12,"analytic function, globally"); } }
  };
  // geometries in ancestors: all elements, all ancestors, re-used, copied
  auto ancestors=[&](const auto& v) {
    using E=std::decay_t<decltype(*v.view.template begin<0>())>; DF::GeometryInAncestor<E> reused;
    auto check=[&](const auto& g, const E& fine, const E& coarse, const char* how) {
      mc::check(g.coarseElement()==coarse,[&]{ return cat("GeometryInAncestor (",how,") of ",nameOf(fine),": wrong coarse element"); });
      mc::check(g.fineElement()==fine,[&]{ return cat("GeometryInAncestor (",how,") of ",nameOf(fine),": wrong fine element"); });
      for (auto& x : inner<dim>(fine.type())) { auto want=coarse.geometry().local(fine.geometry().global(x)); auto got=g.global(x); equal(num(got),num(want),[&]{ return cat("GeometryInAncestor (",how,") of ",nameOf(fine),", global ",x); }); equal(num(g.local(got)),num(x),[&]{ return cat("GeometryInAncestor (",how,") of ",nameOf(fine),", local ",got); }); }
    };
    for (const auto& e : elements(v.view)) { auto a=e; for (int l=e.level();l>=0;--l) {
      while (a.level()>l) a=a.father();
      auto stop=[&](const auto& x) { return x.level()>l; }; mc::transition();
      mc::check(reused.bind(e,stop)==a,"bind() returns another element"); check(reused,e,a,"re-used");
      DF::GeometryInAncestor<E> copy(reused); check(copy,e,a,"copied");
      { std::optional<DF::GeometryInAncestor<E>> first; first.emplace(); first->bind(E(e),stop); check(*first,e,a,"bound to an r-value"); DF::GeometryInAncestor<E> second(*first); first.reset(); check(second,e,a,"copied from an r-value binding"); }
      { std::optional<DF::GeometryInAncestor<E>> first; first.emplace(); first->bind(e,stop); auto other=e; DF::GeometryInAncestor<E> second(*first,other); first.reset(); check(second,e,a,"copied with another element"); }
    } }
  };
  // face normals: the normal of the unique closest face
  auto normals=[&](const auto& v) {
    DF::FaceNormalGridFunction f(v.view); auto l=localFunction(f);
    for (const auto& e : elements(v.view)) { l.bind(e); mc::check(l.localContext()==e,"face normals: localContext()");
      for (const auto& is : intersections(v.view,e)) { auto x=is.geometryInInside().center(); auto c=Dune::referenceElement(e.geometry()).position(0,0); for (double t : {0.0,0.1}) { auto y=x; y*=(1-t); y.axpy(t,c); equal(num(l(y)),num(is.centerUnitOuterNormal()),[&]{ return cat("face normal at ",y," on ",nameOf(e)); }); } } }
  };
  bool leafs=reliable(leaf);
  if (leafs) { own(leaf); ancestors(leaf); normals(leaf); pair(leaf,leaf); }
  for (auto& l : levels) { own(l); ancestors(l); if (leafs) { pair(l,leaf); pair(leaf,l); } for (auto& m : levels) pair(l,m); }
  mc::outcome(out);
}

#if PART==0 || PART==2
// all histories of marking sets of leaf elements for refinement, and coarsening everywhere ('c')
template<class MakeGrid> void histories(const std::string& name, const MakeGrid& make, int depth, int maxLeafs)
{
  std::vector<int> h;   // bit sets, -1: coarsen
  auto apply=[&](auto& grid) {
    for (int m : h) { int i=0; for (const auto& e : elements(grid.leafGridView())) { if (m<0) grid.mark(-1,e); else if (m>>i&1) grid.mark(1,e); ++i; } grid.preAdapt(); grid.adapt(); grid.postAdapt(); }
  };
  auto rec=[&](auto&& self) -> void {
    std::string key=name+"/"; for (int m : h) key+= m<0 ? "c." : cat(m,".");
    mc::state(key,[&]{ auto grid=make(); mc::op("refining"); apply(*grid); explore(*grid,key,true); });
    if ((int)h.size()==depth) return;
    int leafs; { auto grid=make(); apply(*grid); leafs=grid->leafGridView().size(0); }
    if (leafs>maxLeafs) return;
    for (int m=1;m<(1<<leafs);++m) { h.push_back(m); self(self); h.pop_back(); }
    if (!h.empty() && h.back()>=0) { h.push_back(-1); self(self); h.pop_back(); }
  };
  rec(rec);
}
#endif

#if PART==1
template<int dim, class G> void yasp(const std::string& name, int refinements, const G& make)
{
  for (int r=0;r<=refinements;++r) mc::state(cat(name,"/r",r),[&]{ auto grid=make(); grid->globalRefine(r); explore(*grid,name,true); });
}
#endif

#if PART==3
// analytic, composed, discrete functions and face normals on every element type and vertex order
template<int dim, int kind> void single(bool full)
{
  using Grid=Dune::MockGrid<dim,kind>;
  for (auto& m : meshes::pairsOf<dim>(false)) {
    if ((kind==1 && !meshes::isSimplexPair(m.name)) || (kind==2 && !meshes::isCubePair(m.name))) continue;
    meshes::forEachNumbering<dim>(m,[&](const std::string& key, const auto& spec) {
      mc::state(cat(dim,"d/",kind,"/",key),[&]{
        Grid grid; grid.set(0,spec); auto gv=grid.view(0); using GV=decltype(gv);
        auto a=analytic(gv); auto la=localFunction(a); auto da=derivative(la); auto dda=localFunction(derivative(a));
        auto c=DF::makeComposedGridFunction([](double x, double y) { return x*y-2*x; },a,a); auto lc=localFunction(c);
        DF::FaceNormalGridFunction normal(gv); auto ln=localFunction(normal);
        DF::GridViewFunction<double(typename GV::template Codim<0>::Geometry::GlobalCoordinate),GV> erased=a; auto le=localFunction(erased);
        std::size_t out=0;
        for (int round=0;round<2;++round) for (const auto& e : elements(gv)) {
          auto geo=e.geometry(); mc::transition();
          la.bind(e); da.bind(e); dda.bind(e); lc.bind(e); ln.bind(e); le.bind(e);
          auto list=inner<dim>(e.type()); for (auto& x : cornersOf<dim>(e.type())) list.push_back(x);
          for (auto& x : list) { auto X=geo.global(x); mc::close(la(x),a(X),1e-12,"analytic"); mc::close(le(x),a(X),1e-12,"erased"); mc::close(lc(x),a(X)*a(X)-2*a(X),1e-12,"composed");
            equal(num(da(x)),num(derivative(a)(X)),[]{ return "derivative of the local function"; }); equal(num(dda(x)),num(derivative(a)(X)),[]{ return "local function of the derivative"; }); }
          const auto& ref=referenceElement(geo);
          for (const auto& is : intersections(gv,e)) {
            // points of the face with all weights positive; the closest face is this one
            int f=is.indexInInside(); int n=ref.size(f,1,dim);
            for (int w=-1;w<n;++w) {
              Dune::FieldVector<double,dim> x(0); double s=0; for (int k=0;k<n;++k) { double q= k==w ? 3 : 1; s+=q; x.axpy(q,ref.position(ref.subEntity(f,1,k,dim),dim)); } x/=s;
              auto X=geo.global(x); auto N=is.unitOuterNormal(is.geometry().local(X));
              equal(num(ln(x)),num(N),[&]{ return cat("face normal at ",x," on ",nameOf(e)," (",e.type(),")"); }); mc::combine(out,N[0]);
              if (geo.affine()) { auto y=x; y*=0.9; y.axpy(0.1,ref.position(0,0)); // still closest to this face?
                double mine=0, other=1e9; for (int k=0;k<ref.size(1);++k) { auto nn=ref.integrationOuterNormal(k); nn/=nn.two_norm(); auto d=ref.position(k,1); d-=y; double q=d*nn; if (k==f) mine=q; else other=std::min(other,q); }
                if (mine<other-1e-6) equal(num(ln(y)),num(is.centerUnitOuterNormal()),[&]{ return cat("face normal near the face at ",y," on ",nameOf(e)); }); }
            }
          }
          auto kept=ln; ln.unbind(); mc::check(kept.bound() && !ln.bound(),"binding of copied face normals");
        }
        mc::outcome(out);
      });
    },full,full?1000:2);
  }
}
#endif

int main(int argc, char** argv)
{
  int ac=1; char* av[]={argv[0],nullptr}; char** avp=av; Dune::MPIHelper::instance(ac,avp);
  mc::init(argc,argv); MC_SANITIZER_INIT;
  [[maybe_unused]] bool t=mc::thorough();
#if PART==0
  // (COPY refinement is left out: OneDGrid itself crashes when adapting locally in that mode)
  histories("OneDGrid",[]{ return std::make_unique<Dune::OneDGrid>(std::vector<double>{0.,0.3,1.}); },t?4:3,t?6:5);
#elif PART==1
#if YASP==0
  yasp<1>("YaspGrid1",t?3:2,[]{ return std::make_unique<Dune::YaspGrid<1>>(Dune::FieldVector<double,1>(2.),std::array<int,1>{2}); });
#endif
#if YASP==1
  yasp<1>("YaspGrid1-tensor",t?3:2,[]{ return std::make_unique<Dune::YaspGrid<1,Dune::TensorProductCoordinates<double,1>>>(std::array<std::vector<double>,1>{std::vector<double>{-1.,0.,0.3}},std::bitset<1>(),0); });
#endif
#if YASP==2
  yasp<2>("YaspGrid2",t?2:1,[]{ return std::make_unique<Dune::YaspGrid<2>>(Dune::FieldVector<double,2>{1.,2.},std::array<int,2>{2,1}); });
#endif
#if YASP==3
  yasp<2>("YaspGrid2-offset",t?2:1,[]{ return std::make_unique<Dune::YaspGrid<2,Dune::EquidistantOffsetCoordinates<double,2>>>(Dune::FieldVector<double,2>{-1.,0.5},Dune::FieldVector<double,2>{1.,2.},std::array<int,2>{1,1}); });
#endif
#if YASP==4
  yasp<3>("YaspGrid3",1,[]{ return std::make_unique<Dune::YaspGrid<3>>(Dune::FieldVector<double,3>{1.,2.,0.5},std::array<int,3>{1,1,1}); });
#endif
#elif PART==2
  histories("AlbertaGrid",[]{
    Dune::GridFactory<Dune::AlbertaGrid<2,2>> f;
    for (auto x : std::vector<Dune::FieldVector<double,2>>{{0.,0.},{1.,0.},{0.,1.},{1.,1.2}}) f.insertVertex(x);
    f.insertElement(Dune::GeometryTypes::triangle,{1,0,2}); f.insertElement(Dune::GeometryTypes::triangle,{1,2,3}); return std::unique_ptr<Dune::AlbertaGrid<2,2>>(f.createGrid()); },t?4:3,t?7:5);
#elif PART==3
  single<1,1>(true); single<2,0>(t); single<2,1>(t); single<2,2>(t); single<3,0>(t); single<3,1>(t); single<3,2>(t);
#endif
  return mc::finish();
}
