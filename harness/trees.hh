// Type level descriptions of basis trees, the factories they stand for and their reference index model.
#ifndef VERIF_TREES_HH
#define VERIF_TREES_HH
#include "meshes.hh"
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <memory>

namespace trees {
using Index=std::vector<std::size_t>;
using Path=std::vector<std::size_t>;
enum Strategy { sBL, sBI, sFL, sFI };

// ---------------------------------------------------------------- reference model
// documented merge rules, applied to the indices of the (scalar) leaf bases
struct Model {
  int leaf=-1;                 // order of the Lagrange leaf, or -1
  Strategy s=sBL;
  std::vector<Model> ch;
};
struct Dof { Path path; std::size_t shape; Index index; };
// leaf(k) -> (global size, local indices on the current element)
struct LeafData { std::size_t size; std::vector<std::size_t> indices; };
using LeafOracle=std::function<LeafData(int)>;

inline std::size_t rootSize(const Model& m, const LeafOracle& o)
{
  if (m.leaf>=0) return o(m.leaf).size;
  switch (m.s) {
    case sBL: return m.ch.size();
    case sBI: return rootSize(m.ch[0],o);
    default: { std::size_t r=0; for (auto& c : m.ch) r+=rootSize(c,o); return r; }
  }
}
inline std::vector<Dof> dofs(const Model& m, const LeafOracle& o)
{
  std::vector<Dof> r;
  if (m.leaf>=0) { auto d=o(m.leaf); for (std::size_t i=0;i<d.indices.size();++i) r.push_back({{},i,{d.indices[i]}}); return r; }
  std::size_t offset=0, n=m.ch.size();
  for (std::size_t c=0;c<n;++c) {
    for (auto d : dofs(m.ch[c],o)) {
      d.path.insert(d.path.begin(),c);
      switch (m.s) {
        case sBL: d.index.insert(d.index.begin(),c); break;
        case sBI: d.index.push_back(c); break;
        case sFL: d.index[0]+=offset; break;
        case sFI: d.index[0]=d.index[0]*n+c; break;
      }
      r.push_back(d);
    }
    offset+=rootSize(m.ch[c],o);
  }
  return r;
}

// ---------------------------------------------------------------- strategies
struct BL { static auto tag() { return Dune::Functions::BasisFactory::blockedLexicographic(); } static constexpr Strategy s=sBL; static std::string name() { return "BL"; } };
struct BI { static auto tag() { return Dune::Functions::BasisFactory::blockedInterleaved(); } static constexpr Strategy s=sBI; static std::string name() { return "BI"; } };
struct FL { static auto tag() { return Dune::Functions::BasisFactory::flatLexicographic(); } static constexpr Strategy s=sFL; static std::string name() { return "FL"; } };
struct FI { static auto tag() { return Dune::Functions::BasisFactory::flatInterleaved(); } static constexpr Strategy s=sFI; static std::string name() { return "FI"; } };
struct DS { static std::string name() { return "default"; } };   // the documented default: BI for powers, BL for composites

// ---------------------------------------------------------------- trees
template<int k> struct L {
  static auto factory() { return Dune::Functions::BasisFactory::lagrange<k>(); }
  static Model model() { return {k}; }
  static std::string name() { return "L"+std::to_string(k); }
};
template<int k> struct Q {   // run-time order
  static auto factory() { return Dune::Functions::BasisFactory::lagrange(k); }
  static Model model() { return {k}; }
  static std::string name() { return "Q"+std::to_string(k); }
};
template<class S, Strategy d> constexpr Strategy strategy() { if constexpr (std::is_same_v<S,DS>) return d; else return S::s; }
template<int n, class S, class C> struct P {
  static auto factory() { if constexpr (std::is_same_v<S,DS>) return Dune::Functions::BasisFactory::power<n>(C::factory()); else return Dune::Functions::BasisFactory::power<n>(C::factory(),S::tag()); }
  static Model model() { return {-1,strategy<S,sBI>(),std::vector<Model>(n,C::model())}; }
  static std::string name() { return "P"+std::to_string(n)+S::name()+"("+C::name()+")"; }
};
template<int n, class S, class C> struct D {
  static auto factory() { if constexpr (std::is_same_v<S,DS>) return Dune::Functions::BasisFactory::power(C::factory(),n); else return Dune::Functions::BasisFactory::power(C::factory(),n,S::tag()); }
  static Model model() { return {-1,strategy<S,sBI>(),std::vector<Model>(n,C::model())}; }
  static std::string name() { return "D"+std::to_string(n)+S::name()+"("+C::name()+")"; }
};
template<class S, class... C> struct X {
  static auto factory() { if constexpr (std::is_same_v<S,DS>) return Dune::Functions::BasisFactory::composite(C::factory()...); else return Dune::Functions::BasisFactory::composite(C::factory()...,S::tag()); }
  static Model model() { return {-1,strategy<S,sBL>(),{C::model()...}}; }
  static std::string name() { std::string r="X"+S::name()+"("; ((r+=C::name()+" "),...); r.back()=')'; return r; }
};
template<bool hybrid> struct TH {
  static auto factory() { return [](const auto& gv) { return Dune::Functions::TaylorHoodPreBasis<std::decay_t<decltype(gv)>,hybrid>(gv); }; }
  static Model model() { return {-1,sBL,{Model{-1,hybrid?sBI:sFI,{{2},{2}}},Model{1}}}; }
  static std::string name() { return hybrid?"TaylorHoodHybrid":"TaylorHood"; }
};
template<class... T> struct List { template<class F> static void forEach(F&& f) { (f(T{}),...); } };

// ---------------------------------------------------------------- ranges matching a tree
template<class Node> constexpr bool leafNode=Dune::TypeTree::Concept::LeafTreeNode<Node>;
template<class Node> struct RangeOf;
template<class Node> struct RangeOf {
  static auto make() {
    if constexpr (leafNode<Node>) return double{};
    else if constexpr (Dune::TypeTree::Concept::UniformInnerTreeNode<Node>) {
      using C=std::decay_t<decltype(std::declval<const Node&>().child(std::size_t(0)))>;
      using R=typename RangeOf<C>::type;
      if constexpr (Dune::TypeTree::Concept::StaticDegreeInnerTreeNode<Node>) {
        if constexpr (leafNode<C>) return Dune::FieldVector<double,Node::degree()>{};
        else return std::array<R,Node::degree()>{};
      } else return std::array<R,3>{};
    } else return tuple(std::make_index_sequence<Node::degree()>{});
  }
  template<std::size_t... i> static auto tuple(std::index_sequence<i...>) {
    return Dune::TupleVector<typename RangeOf<std::decay_t<decltype(std::declval<const Node&>().child(Dune::index_constant<i>{}))>>::type...>{};
  }
  using type=decltype(make());
};
// scalar entry at a run-time tree path
template<class R> double& at(R& r, const Path& p, std::size_t k=0)
{
  if constexpr (std::is_arithmetic_v<R>) { return r; }
  else if constexpr (requires { r[std::size_t(0)]; }) return at(r[p.at(k)],p,k+1);
  else {
    double* res=nullptr;
    Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::Hybrid::size(r)),[&](auto i) { if (i==p.at(k)) res=&at(r[i],p,k+1); });
    return *res;
  }
}
template<class TP> Path pathOf(const TP& tp)
{
  Path r;
  Dune::Hybrid::forEach(std::make_index_sequence<TP::size()>{},[&](auto i) { r.push_back(std::size_t(tp[i])); });
  return r;
}
inline std::string show(const Path& v) { std::string s="("; for (auto x : v) s+=std::to_string(x)+","; return s+")"; }
template<class I> Index vec(const I& i) { Index r; for (std::size_t k=0;k<i.size();++k) r.push_back(i[k]); return r; }

// ---------------------------------------------------------------- a coefficient vector that does not depend on any container of the library
template<class T>
struct MapVector {
  mutable std::map<Index,T> data;
  mutable std::vector<Index> reads;
  template<class B> void resize(const B&) {}
  template<class I> T& operator[](const I& i) { auto it=data.find(vec(i)); if (it==data.end()) throw std::out_of_range("index "+show(vec(i))+" is not an index of the basis"); return it->second; }
  template<class I> const T& operator[](const I& i) const { auto it=data.find(vec(i)); if (it==data.end()) throw std::out_of_range("index "+show(vec(i))+" is not an index of the basis"); return it->second; }
};

// ---------------------------------------------------------------- meshes
using Grid=Dune::MockGrid<2,0>;
using Spec=typename Grid::Spec;
inline std::vector<std::pair<std::string,Spec>> meshList(int perPair=2, bool patch=true)
{
  std::vector<std::pair<std::string,Spec>> r;
  for (auto& m : meshes::pairsOf<2>(true)) {
    if (m.name=="quad-quad") continue;
    int k=0, stride=perPair>6?1:13;
    meshes::forEachNumbering<2>(m,[&](const std::string& n, const auto& spec) { if (k++%stride==0 && k/stride<perPair) r.push_back({n,spec}); },true,1000);
  }
  if (patch) {  // a triangle without boundary intersections
    Spec s; s.vertices={{0.0,0.0},{1.0,0.1},{0.3,1.0},{1.2,1.1},{-0.6,0.8},{0.4,-0.7}};
    namespace GT=Dune::GeometryTypes;
    s.elements={{GT::triangle,{3,1,2}},{GT::triangle,{1,2,0}},{GT::triangle,{2,4,0}},{GT::triangle,{0,5,1}}};
    r.push_back({"patch",s});
  }
  return r;
}
} // namespace trees
#endif
