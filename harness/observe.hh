// What a user can see of a local view or a local function, as a sequence of numbers.
#ifndef VERIF_OBSERVE_HH
#define VERIF_OBSERVE_HH
#include "leafzoo.hh"
#include <dune/functions/functionspacebases/bsplinebasis.hh>
namespace F=Dune::Functions;
using Obs=std::vector<double>;

// ------------------------------------------------------------------ what can be seen of an object
template<class T> void push(Obs& o, const T& v)
{
  if constexpr (std::is_arithmetic_v<T>) o.push_back(v);
  else if constexpr (requires { v.N(); v[0]; }) for (std::size_t i=0;i<v.N();++i) push(o,v[i]);
  else for (const auto& x : v) push(o,x);
}
template<int dim> struct Smooth   // a function with derivatives, for local interpolation
{
  using X=Dune::FieldVector<double,dim>;
  double operator()(const X& x) const { double r=1; for (int d=0;d<dim;++d) r+=(d+1)*x[d]+(2-d)*x[d]*x[d]*x[0]; return r; }
  struct D2 { Dune::FieldMatrix<double,dim,dim> operator()(const X& x) const { Dune::FieldMatrix<double,dim,dim> h; for (int i=0;i<dim;++i) for (int j=0;j<dim;++j) h[i][j]=1+i+2*j+x[0]*(i+j); return h; } };
  struct D1 { Dune::FieldVector<double,dim> operator()(const X& x) const { Dune::FieldVector<double,dim> g; for (int i=0;i<dim;++i) g[i]=2-i+x[i]*x[0]; return g; } friend D2 derivative(const D1&) { return {}; } };
  friend D1 derivative(const Smooth&) { return {}; }
};
template<int dim> std::vector<Dune::FieldVector<double,dim>> pts()
{
  Dune::FieldVector<double,dim> a,b; for (int d=0;d<dim;++d) { a[d]=0.21+0.13*d; b[d]=0.37-0.19*d; }
  return {a,b};
}
// number identifying an element
template<class GV, class E> double number(const GV& gv, const E& e) { return gv.indexSet().index(e)+1000.*e.type().id()+1e5*e.level(); }

template<class T> struct IsSpline : std::false_type {};
template<class G, class R> struct IsSpline<F::BSplineLocalFiniteElement<G,R>> : std::true_type {};
template<class E> void corners(Obs& o, const E& e) { auto g=e.geometry(); for (int i=0;i<g.corners();++i) push(o,g.corner(i)); }

template<class GV, class LV> Obs observeView(const GV& gv, const LV& lv)
{
  constexpr int dim=GV::dimension;
  Obs o; o.push_back(number(gv,lv.element())); corners(o,lv.element()); o.push_back(lv.size()); o.push_back(lv.maxSize());
  for (std::size_t i=0;i<lv.size();++i) { auto&& m=lv.index(i); o.push_back(m.size()); for (std::size_t k=0;k<m.size();++k) o.push_back(m[k]); }
  o.push_back(lv.globalBasis().dimension());
  Dune::TypeTree::forEachNode(lv.tree(),[&](auto&& node, auto&&) {
    o.push_back(node.treeIndex()); o.push_back(node.size());
    for (std::size_t i=0;i<node.size();++i) o.push_back(node.localIndex(i));
    if (node.empty()) return;
    if constexpr (Dune::TypeTree::Concept::LeafTreeNode<std::decay_t<decltype(node)>>) {
      o.push_back(number(gv,node.element())); corners(o,node.element());
      const auto& fe=node.finiteElement();
      o.push_back(fe.size()); o.push_back(fe.type().id());
      for (auto& x : pts<dim>()) { for (auto& v : ev::values(fe,x)) push(o,v); for (auto& v : ev::jacobians(fe,x)) push(o,v); }
      for (std::size_t i=0;i<fe.size();++i) { auto k=fe.localCoefficients().localKey(i); o.push_back(k.subEntity()+100*k.codim()+10000*k.index()); }
      using R=typename ev::Traits<decltype(fe)>::RangeType; std::vector<double> c;
      if constexpr (IsSpline<std::decay_t<decltype(fe)>>::value) ;   // documented: no interpolation
      else if constexpr (R::dimension==1) { Smooth<dim> f; if constexpr (requires { fe.localInterpolation().interpolate(f,c); }) { fe.localInterpolation().interpolate(f,c); push(o,c); } }
      else { auto f=[](const auto& x) { R r; for (int d=0;d<R::dimension;++d) r[d]=1+x[0]*(d+1)-x[1]*x[d]; return r; }; fe.localInterpolation().interpolate(f,c); push(o,c); }
    }
  });
  return o;
}
template<class GV, class LF> Obs observeFunction(const GV& gv, const LF& lf)
{
  constexpr int dim=GV::dimension; Obs o;
  if constexpr (requires { lf.localContext(); }) o.push_back(number(gv,lf.localContext()));
  for (auto& x : pts<dim>()) push(o,lf(x));
  return o;
}

#endif
