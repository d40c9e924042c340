// Exploration of all basis trees of a bounded grammar (TREES_INC lists them) over small meshes.  PROP selects the property decided.
#include <config.h>
#include "trees.hh"
#include <dune/common/bitsetvector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/functionspacebases/subentitydofs.hh>
#include <dune/functions/functionspacebases/containerdescriptors.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
using namespace trees;
using mc::cat;
namespace F=Dune::Functions;

using GV=typename Grid::LeafGridView;
template<class Factory> auto mk(const GV& gv, const Factory& f) { return F::BasisFactory::makeBasis(gv,f); }

// scalar reference bases of the leaves
struct Ref {
  using B0=decltype(mk(std::declval<GV>(),F::BasisFactory::lagrange<0>()));
  using B1=decltype(mk(std::declval<GV>(),F::BasisFactory::lagrange<1>()));
  using B2=decltype(mk(std::declval<GV>(),F::BasisFactory::lagrange<2>()));
  B0 b0; B1 b1; B2 b2;
  typename B0::LocalView v0; typename B1::LocalView v1; typename B2::LocalView v2;
  Ref(const GV& gv) : b0(mk(gv,F::BasisFactory::lagrange<0>())), b1(mk(gv,F::BasisFactory::lagrange<1>())), b2(mk(gv,F::BasisFactory::lagrange<2>())),
    v0(b0.localView()), v1(b1.localView()), v2(b2.localView()) {}
  template<class E> void bind(const E& e) { v0.bind(e); v1.bind(e); v2.bind(e); }
  template<class G> void with(int k, G&& g) const { if (k==0) g(b0,v0); else if (k==1) g(b1,v1); else g(b2,v2); }
  LeafOracle oracle() const { return [this](int k) { LeafData d; with(k,[&](auto& b, auto& v) { d.size=b.size(); for (std::size_t i=0;i<v.size();++i) d.indices.push_back(v.index(i)[0]); }); return d; }; }
  std::vector<double> values(int k, const Dune::FieldVector<double,2>& x) const {
    std::vector<double> r; with(k,[&](auto&, auto& v) { std::vector<Dune::FieldVector<double,1>> o; v.tree().finiteElement().localBasis().evaluateFunction(x,o); for (auto& q : o) r.push_back(q[0]); }); return r; }
  std::vector<Dune::FieldVector<double,2>> gradients(int k, const Dune::FieldVector<double,2>& x) const {
    std::vector<Dune::FieldVector<double,2>> r; with(k,[&](auto&, auto& v) { std::vector<Dune::FieldMatrix<double,1,2>> o; v.tree().finiteElement().localBasis().evaluateJacobian(x,o);
      auto Ji=v.element().geometry().jacobianInverse(x); for (auto& q : o) { Dune::FieldVector<double,2> g(0); for (int l=0;l<2;++l) for (int d=0;d<2;++d) g[d]+=q[0][l]*Ji[l][d]; r.push_back(g); } }); return r; }
  template<class Fn> std::vector<double> interpolate(int k, const Fn& f) const {
    std::vector<double> r; with(k,[&](auto&, auto& v) { v.tree().finiteElement().localInterpolation().interpolate([&](const auto& x) { return Dune::FieldVector<double,1>(f(v.element().geometry().global(x))); },r); }); return r; }
  std::vector<Dune::LocalKey> keys(int k) const {
    std::vector<Dune::LocalKey> r; with(k,[&](auto&, auto& v) { auto& c=v.tree().finiteElement().localCoefficients(); for (std::size_t i=0;i<c.size();++i) r.push_back(c.localKey(i)); }); return r; }
};
inline int leafOrder(const Model& m, const Path& p) { const Model* q=&m; for (auto c : p) q=&q->ch.at(c); return q->leaf; }

// all indices of the basis by the model, and the sizes of their index tree
struct IndexTree {
  std::set<Index> all;
  std::map<Index,std::set<std::size_t>> children;
  void insert(const Index& i) { all.insert(i); for (std::size_t k=0;k<i.size();++k) children[Index(i.begin(),i.begin()+k)].insert(i[k]); }
  std::size_t size(const Index& p) const { auto it=children.find(p); return it==children.end()?0:it->second.size(); }
};
inline IndexTree modelTree(const GV& gv, Ref& ref, const Model& m)
{
  IndexTree t;
  for (const auto& e : elements(gv)) { ref.bind(e); for (auto& d : dofs(m,ref.oracle())) t.insert(d.index); }
  return t;
}
template<class B> typename B::SizePrefix prefixOf(const Index& i) { typename B::SizePrefix p; for (auto x : i) p.push_back(x); return p; }

template<class B> void checkSizes(const B& basis, const IndexTree& t)
{
  mc::equal(basis.dimension(),t.all.size(),"dimension");
  mc::equal(basis.size(),t.size({}),"size()");
  for (auto& [p,c] : t.children) {
    mc::op("size(prefix)"); mc::transition();
    mc::equal(basis.size(prefixOf<B>(p)),c.size(),[&]{ return cat("size of prefix ",show(p)); });
  }
  for (auto& i : t.all) mc::equal(basis.size(prefixOf<B>(i)),std::size_t(0),[&]{ return cat("size of full index ",show(i)); });
}

// ------------------------------------------------------------------ C01
template<class T, class B> void indexTree(const B& basis, const GV& gv)
{
  IndexTree t; std::size_t h=0;
  auto lv=basis.localView();
  for (const auto& e : elements(gv)) {
    mc::op("bind"); lv.bind(e); mc::transition();
    mc::check(lv.size()<=lv.maxSize(),[&]{ return cat("local view size ",lv.size()," exceeds maxSize ",lv.maxSize()); });
    mc::equal(lv.tree().size(),lv.size(),"tree size");
    std::set<Index> here;
    for (std::size_t i=0;i<lv.size();++i) {
      auto x=vec(lv.index(i));
      mc::check(here.insert(x).second,[&]{ return cat("index ",show(x)," occurs twice on one element"); });
      t.insert(x); for (auto q : x) mc::combine(h,q);
    }
  }
  for (auto& i : t.all) mc::equal(t.size(i),std::size_t(0),[&]{ return cat("index ",show(i)," is a prefix of another index"); });
  for (auto& [p,c] : t.children) mc::equal(*c.rbegin()+1,c.size(),[&]{ return cat("children of ",show(p)," are not consecutive: largest+1"); });
  checkSizes(basis,t);
  mc::outcome(h);
}

// ------------------------------------------------------------------ C02
template<class Node, class Fn> void walk(const Node& node, std::size_t& offset, const Model& m, const Ref& ref, Fn&& f)
{
  std::size_t begin=offset;
  if constexpr (leafNode<Node>) {
    std::size_t n=node.finiteElement().size();
    mc::equal(n,ref.keys(m.leaf).size(),"number of shape functions of a leaf");
    mc::equal(node.size(),n,"size of a leaf node");
    for (std::size_t i=0;i<n;++i) { mc::equal(node.localIndex(i),begin+i,"localIndex of a leaf"); f(begin+i); }
    offset+=n;
  } else {
    mc::equal(std::size_t(node.degree()),m.ch.size(),"number of children of a node");
    if constexpr (Dune::TypeTree::Concept::UniformInnerTreeNode<Node>) { for (std::size_t i=0;i<node.degree();++i) walk(node.child(i),offset,m.ch[i],ref,f); }
    else Dune::Hybrid::forEach(std::make_index_sequence<Node::degree()>{},[&](auto i) { walk(node.child(i),offset,m.ch[i],ref,f); });
    mc::equal(node.size(),offset-begin,"size of an inner node");
    for (std::size_t i=0;i<node.size();++i) mc::equal(node.localIndex(i),begin+i,"localIndex of an inner node");
  }
}
template<class T, class B> void mergeRules(const B& basis, const GV& gv)
{
  Ref ref(gv); auto m=T::model();
  auto lv=basis.localView(); std::size_t h=0;
  for (const auto& e : elements(gv)) {
    mc::op("bind"); lv.bind(e); ref.bind(e); mc::transition();
    auto d=dofs(m,ref.oracle());
    mc::equal(lv.size(),d.size(),"size of the local view");
    for (std::size_t i=0;i<d.size();++i) {
      auto x=vec(lv.index(i));
      mc::check(x==d[i].index,[&]{ return cat("index of shape function ",d[i].shape," of leaf ",show(d[i].path)," is ",show(x),", the merge rules give ",show(d[i].index)); });
      for (auto q : x) mc::combine(h,q);
    }
    std::size_t offset=0, n=0;
    walk(lv.tree(),offset,m,ref,[&](std::size_t) { ++n; });
    mc::equal(n,d.size(),"number of leaf shape functions");
    std::size_t k=0;
    Dune::TypeTree::forEachLeafNode(lv.tree(),[&](auto& node, auto tp) { for (std::size_t i=0;i<node.size();++i,++k) mc::check(pathOf(tp)==d[k].path && d[k].shape==i,"depth-first order of the leaves"); });
  }
  checkSizes(basis,modelTree(gv,ref,m));
  mc::outcome(h);
}

// ------------------------------------------------------------------ C03
namespace CD=F::ContainerDescriptors;
template<class C> constexpr bool isScalarC=std::is_arithmetic_v<C>;
// sizes of a nested container or descriptor against the index tree
template<class C> void sizesMatch(const C& c, const IndexTree& t, Index p, const char* what)
{
  if constexpr (isScalarC<C> || std::is_same_v<C,CD::Value>) mc::equal(t.size(p),std::size_t(0),[&]{ return cat(what," has a scalar at ",show(p)); });
  else {
    auto n=std::size_t(Dune::Hybrid::size(c));
    mc::equal(n,t.size(p),[&]{ return cat("size of ",what," at ",show(p)); });
    p.push_back(0);
    if constexpr (requires { c[std::size_t(0)]; }) { for (std::size_t i=0;i<n;++i) { p.back()=i; sizesMatch(c[i],t,p,what); } }
    else Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::Hybrid::size(c)),[&](auto i) { p.back()=i; sizesMatch(c[i],t,p,what); });
  }
}
template<class B, class Fn> void forAllIndices(const B& basis, Fn&& f)
{
  auto lv=basis.localView();
  for (const auto& e : elements(basis.gridView())) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) f(lv.index(i)); }
}
// write a distinct value per index, then read all back
template<class B, class V> void roundTrip(const B& basis, V& v, double initial, const IndexTree& t, const char* what)
{
  auto be=F::istlVectorBackend(v);
  mc::op(cat("read ",what)); mc::transition();
  forAllIndices(basis,[&](const auto& i) { mc::check(be[i]==initial,[&]{ return cat("initial value in ",what," at ",show(vec(i))); }); });
  mc::op(cat("write ",what));
  std::map<Index,double> val; for (auto& i : t.all) val.insert({i,double(val.size()+1)});
  forAllIndices(basis,[&](const auto& i) { be[i]=val.at(vec(i)); });
  const auto& cv=v; auto cbe=F::istlVectorBackend(cv);
  forAllIndices(basis,[&](const auto& i) {
    mc::check(be[i]==val.at(vec(i)),[&]{ return cat("value read from ",what," at ",show(vec(i)),": ",be[i],", written ",val.at(vec(i))); });
    mc::check(cbe[i]==val.at(vec(i)),[&]{ return cat("value read from const ",what," at ",show(vec(i))); }); });
  // copies keep the values, assignment through the backend sets all of them
  auto w=v; auto wbe=F::istlVectorBackend(w);
  wbe=3.5;
  forAllIndices(basis,[&](const auto& i) { mc::check(wbe[i]==3.5,[&]{ return cat("value after assigning a scalar to ",what," at ",show(vec(i))); });
    mc::check(be[i]==val.at(vec(i)),"assignment to a copy changes the original"); });
}
// make a container of this type as small/wrong as possible before resizing
template<class C> void shrink(C& c)
{
  if constexpr (isScalarC<C>) c=0;
  else if constexpr (requires { c.resize(0); }) c.resize(0);
  else if constexpr (requires { c[std::size_t(0)]; }) { for (std::size_t i=0;i<c.size();++i) shrink(c[i]); }
  else Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::Hybrid::size(c)),[&](auto i) { shrink(c[i]); });
}
template<class C> void zero(C& c)
{
  if constexpr (isScalarC<C>) c=0;
  else if constexpr (requires { c[std::size_t(0)]; }) { for (std::size_t i=0;i<c.size();++i) zero(c[i]); }
  else Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::Hybrid::size(c)),[&](auto i) { zero(c[i]); });
}
template<class T, class B> void containers(const B& basis, const GV& gv)
{
  Ref ref(gv); auto m=T::model(); auto t=modelTree(gv,ref,m);
  mc::op("containerDescriptor"); mc::transition();
  auto desc=F::containerDescriptor(basis.preBasis());
  auto desc2=F::containerDescriptor(basis);
  static_assert(std::is_same_v<decltype(desc),decltype(desc2)>);
  mc::check(true,"descriptor obtained");
  std::size_t h=t.all.size(); mc::combine(h,std::hash<std::string>()(typeid(desc).name()));
  if constexpr (!std::is_same_v<decltype(desc),CD::Unknown>) {
    mc::op("walk descriptor"); sizesMatch(desc,t,{},"container descriptor"); sizesMatch(desc2,t,{},"container descriptor of the basis");
    mc::op("makeContainer"); mc::transition();
    auto c=F::makeContainer<double>(desc,7.25);
    sizesMatch(c,t,{},"container"); roundTrip(basis,c,7.25,t,"container");
    auto c0=F::makeContainer<double>(desc); sizesMatch(c0,t,{},"default container"); roundTrip(basis,c0,0.,t,"default container");
    mc::op("makeISTLVector"); mc::transition();
    auto v=F::makeISTLVector<double>(desc);
    sizesMatch(v,t,{},"ISTL vector"); roundTrip(basis,v,0.,t,"ISTL vector");
    // resizing through the backend: from the shrunk and from a copy with the right size
    auto w=F::makeISTLVector<double>(desc); shrink(w);
    mc::op("resize"); mc::transition(); F::istlVectorBackend(w).resize(basis);
    sizesMatch(w,t,{},"resized ISTL vector"); zero(w); roundTrip(basis,w,0.,t,"resized ISTL vector");
    auto u=c; shrink(u); F::istlVectorBackend(u).resize(basis);
    sizesMatch(u,t,{},"resized container"); zero(u); roundTrip(basis,u,0.,t,"resized container");
    auto k=v; F::istlVectorBackend(k).resize(basis); // no-op resize keeps everything
    auto kb=F::istlVectorBackend(k), vb=F::istlVectorBackend(v);
    forAllIndices(basis,[&](const auto& i) { mc::check(kb[i]==vb[i],"resize to the same size changes entries"); });
  }
  // hand written containers for uniform depth
  if constexpr (B::PreBasis::maxMultiIndexSize==1 || B::PreBasis::maxMultiIndexSize==2 || B::PreBasis::maxMultiIndexSize==3) {
    bool uniform=true; for (auto& i : t.all) uniform=uniform && i.size()==t.all.begin()->size();
    if (uniform) {
      auto test=[&](auto v, const char* what) { mc::op(cat("resize ",what)); mc::transition(); F::istlVectorBackend(v).resize(basis); sizesMatch(v,t,{},what); zero(v); roundTrip(basis,v,0.,t,what); };
      if constexpr (B::PreBasis::maxMultiIndexSize==1) { test(std::vector<double>(3),"std::vector"); test(Dune::BlockVector<double>(),"BlockVector"); }
      if constexpr (B::PreBasis::maxMultiIndexSize==2) { test(std::vector<std::vector<double>>(1),"nested std::vector"); test(Dune::BlockVector<Dune::BlockVector<double>>(),"nested BlockVector"); }
      if constexpr (B::PreBasis::maxMultiIndexSize==3) { test(std::vector<std::vector<std::vector<double>>>(),"threefold std::vector"); }
    }
  }
  mc::outcome(h);
}

// ------------------------------------------------------------------ C21
// containers of every shape are resized: refused with an exception exactly if they cannot hold the coefficients
#if PROP==21
#include <dune/common/tuplevector.hh>
#include <dune/istl/multitypeblockvector.hh>
namespace shapes {
template<class T> using V=std::vector<T>;
template<class T> using BV=Dune::BlockVector<T>;
template<class T> using A2=std::array<T,2>;
template<class T> using A3=std::array<T,3>;
template<int n> using FV=Dune::FieldVector<double,n>;
template<class... T> using M=Dune::MultiTypeBlockVector<T...>;
template<class... T> using U=Dune::TupleVector<T...>;
using d=double;
using All=List<V<d>,A2<d>,A3<d>,FV<3>,BV<d>,BV<FV<1>>,BV<FV<2>>,BV<FV<3>>,V<A2<d>>,V<V<d>>,BV<BV<FV<1>>>,BV<BV<FV<2>>>,
  A2<V<d>>,A3<V<d>>,A2<BV<FV<1>>>,A2<BV<FV<2>>>,A2<V<A2<d>>>,V<A2<V<d>>>,A2<A2<V<d>>>,V<V<V<d>>>,V<A2<A2<d>>>,
  M<BV<FV<1>>,BV<FV<1>>>,M<BV<FV<2>>,BV<FV<1>>>,M<BV<FV<1>>,BV<FV<2>>>,U<V<d>>,U<V<d>,V<d>,V<d>>,U<V<d>,V<V<d>>>,U<A2<V<d>>,V<d>>,U<V<FV<2>>,V<d>>,V<U<d,d>>,V<U<FV<2>,d>>,U<d,V<d>>,U<FV<3>,V<d>>>;
template<class C> void preset(C& c, std::size_t n)
{
  if constexpr (isScalarC<C>) c=0;
  else if constexpr (requires { c.resize(0); }) { c.resize(n); for (std::size_t i=0;i<n;++i) preset(c[i],n); }
  else if constexpr (requires { c[std::size_t(0)]; }) { for (std::size_t i=0;i<c.size();++i) preset(c[i],n); }
  else Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::Hybrid::size(c)),[&](auto i) { preset(c[i],n); });
}
// can this container be brought to the shape of the index tree below prefix p?  Entries below a complete index are padded with zeros.
template<class C> bool fits(const C& c, const IndexTree& t, Index p)
{
  std::size_t n=t.size(p);
  if constexpr (isScalarC<C>) return n==0;
  else {
    if (n==0) return Dune::Hybrid::size(c)!=0;
    p.push_back(0); bool r=true;
    if constexpr (requires(C& q) { q.resize(0); }) {
      auto def=std::decay_t<decltype(c[0])>{};
      for (std::size_t i=0;i<n;++i) { p.back()=i; r=r && (i<c.size() ? fits(c[i],t,p) : fits(def,t,p)); }
    } else {
      if (n!=std::size_t(Dune::Hybrid::size(c))) return false;
      if constexpr (requires { c[std::size_t(0)]; }) { for (std::size_t i=0;i<n;++i) { p.back()=i; r=r && fits(c[i],t,p); } }
      else Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::Hybrid::size(c)),[&](auto i) { p.back()=i; r=r && fits(c[i],t,p); });
    }
    return r;
  }
}
template<class C> void sizesCover(const C& c, const IndexTree& t, Index p)
{
  std::size_t n=t.size(p);
  if constexpr (isScalarC<C>) mc::equal(n,std::size_t(0),[&]{ return cat("scalar at the incomplete index ",show(p)); });
  else {
    if (n==0) { mc::check(Dune::Hybrid::size(c)>0,[&]{ return cat("no entry for the index ",show(p)); }); return; }
    mc::equal(std::size_t(Dune::Hybrid::size(c)),n,[&]{ return cat("size of the resized container at ",show(p)); });
    p.push_back(0);
    if constexpr (requires { c[std::size_t(0)]; }) { for (std::size_t i=0;i<n;++i) { p.back()=i; sizesCover(c[i],t,p); } }
    else Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::Hybrid::size(c)),[&](auto i) { p.back()=i; sizesCover(c[i],t,p); });
  }
}
} // namespace shapes
template<class T, class B> void shapesOf(const B& basis, const GV& gv)
{
  Ref ref(gv); auto m=T::model(); auto t=modelTree(gv,ref,m);
  std::size_t h=0, number=0;
  shapes::All::forEach([&](auto empty) {
    using C=decltype(empty);
    for (std::size_t n : {0,1,2,7}) {
      C c{}; shapes::preset(c,n);
      bool expected=shapes::fits(c,t,{}), accepted=true;
      std::string what=cat("container type ",number," with preset size ",n);
      mc::op("resize "+what); mc::transition();
      try { F::istlVectorBackend(c).resize(basis); } catch (const Dune::Exception&) { accepted=false; }
      if (expected) mc::check(accepted,[&]{ return "resize of a fitting container is refused: "+what; });
      else mc::check(!accepted,[&]{ return "resize of a container that cannot hold the coefficients is accepted: "+what; });
      mc::combine(h,std::size_t(accepted));
      if (accepted) shapes::sizesCover(c,t,{});
    }
    ++number;
  });
  mc::combine(h,t.all.size()); mc::outcome(h);
}
#endif

// ------------------------------------------------------------------ C06
// affine function, different for each leaf
inline double leafFunction(const Path& p, const Dune::FieldVector<double,2>& x, int which)
{ double c=1; for (auto q : p) c=3*c+q; return which==0 ? c+x[0]*(1+c)-2*x[1] : c*x[0]*x[1]+x[1]*x[1]-c; }
template<class R> void fillRange(R& r, Path p, const Dune::FieldVector<double,2>& x, int which)
{
  if constexpr (std::is_arithmetic_v<R>) r=leafFunction(p,x,which);
  else { p.push_back(0);
    if constexpr (requires { r[std::size_t(0)]; }) { for (std::size_t i=0;i<r.size();++i) { p.back()=i; fillRange(r[i],p,x,which); } }
    else Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::Hybrid::size(r)),[&](auto i) { p.back()=i; fillRange(r[i],p,x,which); }); }
}
template<class R> struct TreeFunction { Path prefix; int which; R operator()(const Dune::FieldVector<double,2>& x) const { R r{}; fillRange(r,prefix,x,which); return r; } };

// expected coefficient of every index, and the leaf path it belongs to
inline std::map<Index,std::pair<double,Path>> expectedCoefficients(const GV& gv, Ref& ref, const Model& m, int which)
{
  std::map<Index,std::pair<double,Path>> r;
  for (const auto& e : elements(gv)) {
    ref.bind(e);
    for (auto& d : dofs(m,ref.oracle())) {
      auto c=ref.interpolate(leafOrder(m,d.path),[&](const auto& x) { return leafFunction(d.path,x,which); });
      r[d.index]={c.at(d.shape),d.path};
    }
  }
  return r;
}
inline bool startsWith(const Path& p, const Path& pre) { return p.size()>=pre.size() && std::equal(pre.begin(),pre.end(),p.begin()); }
static const double sentinel=-12345.678;

template<class SB> void masked(const SB& sub, const Path& prefix, const std::map<Index,std::pair<double,Path>>& expected, auto&& f, const std::set<Index>* mask)
{
  MapVector<double> x; MapVector<char> bits;
  for (auto& [i,v] : expected) { x.data[i]=sentinel; bits.data[i]= mask && mask->count(i); }
  mc::transition();
  if (mask) { mc::op("interpolate with mask"); F::interpolate(sub,x,f,bits); }
  else { mc::op("interpolate"); F::interpolate(sub,x,f); }
  for (auto& [i,v] : expected) {
    bool touched = startsWith(v.second,prefix) && (!mask || mask->count(i));
    if (touched) mc::close(x.data[i],v.first,1e-12,[&]{ return cat("coefficient ",show(i)," of leaf ",show(v.second)); });
    else mc::check(x.data[i]==sentinel,[&]{ return cat("unselected coefficient ",show(i)," of leaf ",show(v.second)," was changed to ",x.data[i]); });
    if (mask) mc::equal(bool(bits.data[i]),bool(mask->count(i)),"the mask was modified at an index");
  }
}
template<class T, class B> void interpolation(const B& basis, const GV& gv)
{
  Ref ref(gv); auto m=T::model(); std::size_t h=0;
  auto lv=basis.localView(); lv.bind(*elements(gv).begin());
  auto run=[&](const auto& sub, const auto& node, const Path& prefix, int which, bool deep) {
    using R=typename RangeOf<std::decay_t<decltype(node)>>::type;
    TreeFunction<R> f{prefix,which};
    auto expected=expectedCoefficients(gv,ref,m,which);
    masked(sub,prefix,expected,f,nullptr);
    std::vector<Index> all; for (auto& [i,v] : expected) { all.push_back(i); mc::combine(h,v.first); }
    std::set<Index> none, full(all.begin(),all.end());
    masked(sub,prefix,expected,f,&none); masked(sub,prefix,expected,f,&full);
    if (!deep) return;
    if (all.size()<=(mc::thorough()?12u:10u)) {
      for (unsigned long b=1;b+1<(1ul<<all.size());++b) { std::set<Index> s; for (std::size_t k=0;k<all.size();++k) if (b>>k&1) s.insert(all[k]); masked(sub,prefix,expected,f,&s); }
    } else {
      for (auto& i : all) { std::set<Index> s{i}; masked(sub,prefix,expected,f,&s); auto c=full; c.erase(i); if (mc::thorough()) masked(sub,prefix,expected,f,&c); }
    }
  };
  // the whole tree and every subspace
  run(basis,lv.tree(),{},0,true); run(basis,lv.tree(),{},1,false);
  Dune::TypeTree::forEachNode(lv.tree(),[&](auto& node, auto tp) {
    if constexpr (decltype(tp)::size()>0) run(F::subspaceBasis(basis,tp),node,pathOf(tp),0,mc::thorough());
  });
  // through generated containers: interpolation into a shrunk vector yields the same coefficients
  auto desc=F::containerDescriptor(basis);
  if constexpr (!std::is_same_v<decltype(desc),CD::Unknown>) {
    using R=typename RangeOf<std::decay_t<decltype(lv.tree())>>::type;
    auto v=F::makeISTLVector<double>(desc);
    auto bits=F::makeContainer<char>(desc,0);
    auto expected=expectedCoefficients(gv,ref,m,0);
    auto bv=F::istlVectorBackend(bits); std::size_t k=0;
    for (int round=0;round<2;++round) {
      forAllIndices(basis,[&](const auto& i) { F::istlVectorBackend(v)[i]=sentinel; auto pos=std::distance(expected.begin(),expected.find(vec(i))); bv[i]=(pos%2)==round; });
      F::interpolate(basis,v,TreeFunction<R>{{},0},bits);
      forAllIndices(basis,[&](const auto& i) { auto it=expected.find(vec(i)); auto pos=std::distance(expected.begin(),it);
        mc::close(F::istlVectorBackend(v)[i],(pos%2)==round?it->second.first:sentinel,1e-12,[&]{ return cat("coefficient ",show(vec(i))," of the ISTL vector with alternating mask"); }); });
    }
    shrink(v);
    F::interpolate(basis,v,TreeFunction<R>{{},0});
    forAllIndices(basis,[&](const auto& i) { mc::close(F::istlVectorBackend(v)[i],expected.at(vec(i)).first,1e-12,"coefficient of a freshly sized ISTL vector"); });
  }
  mc::outcome(h);
}

// ------------------------------------------------------------------ C07
inline std::vector<Dune::FieldVector<double,2>> points() { return {{0.2,0.3},{0.55,0.1}}; }
template<class T, class B> void discreteFunctions(const B& basis, const GV& gv)
{
  Ref ref(gv); auto m=T::model(); auto t=modelTree(gv,ref,m); std::size_t h=0;
  auto lv=basis.localView(); lv.bind(*elements(gv).begin());
  using Element=typename GV::template Codim<0>::Entity;
  std::vector<Element> elems; for (const auto& e : elements(gv)) elems.push_back(e);
  // reference values: element -> list of (index, path, values at points, gradients at points)
  struct RefDof { Index index; Path path; std::vector<double> v; std::vector<Dune::FieldVector<double,2>> g; };
  std::vector<std::vector<RefDof>> table(elems.size());
  for (std::size_t k=0;k<elems.size();++k) { ref.bind(elems[k]); for (auto& d : dofs(m,ref.oracle())) { RefDof r{d.index,d.path,{},{}};
      for (auto& x : points()) { r.v.push_back(ref.values(leafOrder(m,d.path),x)[d.shape]); r.g.push_back(ref.gradients(leafOrder(m,d.path),x)[d.shape]); } table[k].push_back(r); } }
  auto run=[&](const auto& sub, const auto& node, const Path& prefix) {
    using R=typename RangeOf<std::decay_t<decltype(node)>>::type;
    auto checkAll=[&](const std::map<Index,double>& coeff, const std::string& what) {
      MapVector<double> x; x.data=coeff;
      mc::op("makeDiscreteGlobalBasisFunction"); mc::transition();
      auto f=F::makeDiscreteGlobalBasisFunction<R>(sub,x);
      auto lf=localFunction(f);
      // every ordered pair of elements occurs as consecutive bindings
      for (std::size_t a=0;a<elems.size();++a) for (std::size_t b=0;b<elems.size();++b) for (std::size_t k : {a,b}) {
        mc::op("bind local function"); mc::transition(); lf.bind(elems[k]);
        for (std::size_t q=0;q<points().size();++q) {
          std::map<Path,double> y; std::map<Path,Dune::FieldVector<double,2>> dy;
          for (auto& d : table[k]) if (startsWith(d.path,prefix)) { Path p(d.path.begin()+prefix.size(),d.path.end()); y[p]+=coeff.at(d.index)*d.v[q]; dy[p].axpy(coeff.at(d.index),d.g[q]); }
          R r=lf(points()[q]);
          for (auto& [p,v] : y) { mc::close(at(r,p),v,1e-12,[&]{ return cat("value of component ",show(p)," of the function with ",what," on element ",k); }); mc::combine(h,v); }
          if constexpr (std::is_arithmetic_v<R> || (requires { R::dimension; } && std::is_same_v<typename Dune::FieldTraits<R>::field_type,double>)) {
            auto df=derivative(f); auto dlf=localFunction(df); dlf.bind(elems[k]);
            auto dlf2=derivative(lf);
            auto compare=[&](const auto& J, const char* how) {
              for (auto& [p,g] : dy) for (int d=0;d<2;++d) {
                double v; if constexpr (requires { J[0][0]; }) v=J[p.empty()?0:p[0]][d]; else v=J[d];
                mc::close(v,g[d],1e-11,[&]{ return cat(how," of component ",show(p)," direction ",d," of the function with ",what," on element ",k); }); } };
            mc::op("evaluate derivative");
            compare(dlf(points()[q]),"derivative"); compare(dlf2(points()[q]),"derivative of the local function");
          }
        }
      }
      // changed coefficients take effect at the next binding, also to the element bound last
      for (std::size_t k=0;k<elems.size();++k) for (double scale : {-3.,2.}) {
        lf.bind(elems[k]);
        for (auto& [i,v] : x.data) v=scale*coeff.at(i);
        mc::op("rebind after a change of the coefficients"); mc::transition(2); lf.bind(elems[k]);
        std::map<Path,double> y; for (auto& d : table[k]) if (startsWith(d.path,prefix)) y[Path(d.path.begin()+prefix.size(),d.path.end())]+=scale*coeff.at(d.index)*d.v[0];
        R r=lf(points()[0]);
        for (auto& [p,v] : y) mc::close(at(r,p),v,1e-12,[&]{ return cat("value of component ",show(p)," of the function with ",what," scaled by ",scale," on element ",k," rebound after a change of the coefficients"); });
      }
    };
    for (auto& i : t.all) { std::map<Index,double> c; for (auto& j : t.all) c[j]=0; c[i]=1; checkAll(c,"unit coefficient "+show(i)); }
    std::map<Index,double> c; for (auto& j : t.all) c[j]=0.5+1.25*c.size()*(c.size()%2?1:-1); checkAll(c,"mixed coefficients");
  };
  run(basis,lv.tree(),{});
  if (mc::thorough() || t.all.size()<=24) Dune::TypeTree::forEachNode(lv.tree(),[&](auto& node, auto tp) {
    if constexpr (decltype(tp)::size()>0) run(F::subspaceBasis(basis,tp),node,pathOf(tp));
  });
  mc::outcome(h);
}

// ------------------------------------------------------------------ C11
template<class T, class B> void subspaces(const B& basis, const GV& gv)
{
  Ref ref(gv); auto m=T::model(); std::size_t h=0;
  auto rlv=basis.localView(); rlv.bind(*elements(gv).begin());
  auto check=[&](const auto& sub, const Path& prefix) {
    mc::transition();
    mc::check(&sub.rootBasis()==&basis,"root basis of a subspace basis");
    mc::check(pathOf(sub.prefixPath())==prefix,[&]{ return cat("prefix path is ",show(pathOf(sub.prefixPath())),", expected ",show(prefix)); });
    mc::equal(sub.dimension(),basis.dimension(),"dimension"); mc::equal(sub.size(),basis.size(),"size");
    auto t=modelTree(gv,ref,m);
    for (auto& [p,c] : t.children) mc::equal(sub.size(prefixOf<B>(p)),c.size(),"size of a prefix");
    mc::check(&sub.gridView()==&basis.gridView(),"grid view");
    auto lv=sub.localView();
    mc::check(!lv.bound(),"a new local view is bound");
    for (const auto& e : elements(gv)) {
      mc::op("bind subspace view"); lv.bind(e); mc::transition(); ref.bind(e);
      mc::check(lv.bound(),"bound() after bind"); mc::check(lv.element()==e,"element of a bound view");
      mc::check(&lv.globalBasis()==&sub,"globalBasis of a subspace view");
      std::vector<Dof> mine; std::vector<std::size_t> pos; auto d=dofs(m,ref.oracle());
      for (std::size_t i=0;i<d.size();++i) if (startsWith(d[i].path,prefix)) { mine.push_back(d[i]); pos.push_back(i); }
      mc::equal(lv.tree().size(),mine.size(),"size of the sub-tree");
      mc::equal(lv.size(),d.size(),"size of the underlying local view"); mc::check(lv.size()<=lv.maxSize(),"maxSize");
      for (std::size_t i=0;i<lv.tree().size();++i) {
        mc::equal(lv.tree().localIndex(i),pos[i],"local index of a degree of freedom of the sub-tree");
        mc::check(vec(lv.index(lv.tree().localIndex(i)))==mine[i].index,[&]{ return cat("index of sub-tree dof ",i,": ",show(vec(lv.index(lv.tree().localIndex(i)))),", root index is ",show(mine[i].index)); });
        for (auto q : mine[i].index) mc::combine(h,q);
      }
      std::size_t k=0;
      Dune::TypeTree::forEachLeafNode(lv.tree(),[&](auto& node, auto tp) { for (std::size_t i=0;i<node.size();++i,++k) {
        auto p=prefix; for (auto q : pathOf(tp)) p.push_back(q);
        mc::check(p==mine.at(k).path && mine[k].shape==i,"leaf order in the sub-tree"); } 
        mc::equal(node.finiteElement().size(),node.size(),"finite element of a leaf of the sub-tree"); });
      lv.unbind(); mc::check(!lv.bound(),"bound() after unbind");
      lv.bind(e);
    }
  };
  Dune::TypeTree::forEachNode(rlv.tree(),[&](auto& node, auto tp) {
    auto sub=F::subspaceBasis(basis,tp);
    check(sub,pathOf(tp));
    // as a chain of subspaces: child by child
    if constexpr (!leafNode<std::decay_t<decltype(node)>>) {
      Dune::TypeTree::forEachNode(node,[&](auto&, auto tp2) {
        auto p=pathOf(tp); for (auto q : pathOf(tp2)) p.push_back(q);
        if constexpr (decltype(tp2)::size()>0) check(F::subspaceBasis(sub,tp2),p);
      });
    }
  });
  // individual indices, static and run-time
  if constexpr (!leafNode<std::decay_t<decltype(rlv.tree())>>) {
    check(F::subspaceBasis(basis,Dune::Indices::_0),{0});
    if constexpr (Dune::TypeTree::Concept::UniformInnerTreeNode<std::decay_t<decltype(rlv.tree())>>) for (std::size_t i=0;i<rlv.tree().degree();++i) check(F::subspaceBasis(basis,i),{i});
  }
  mc::outcome(h);
}

// ------------------------------------------------------------------ C12
template<class T, class B> void boundary(const B& basis, const GV& gv)
{
  Ref ref(gv); auto m=T::model(); std::size_t h=0;
  auto keyIn=[](const auto& re, const Dune::LocalKey& k, int i, int c) {
    // the sub-entity of the key is contained iff all its vertices are
    std::set<int> s; for (int v=0;v<re.size(i,c,2);++v) s.insert(re.subEntity(i,c,v,2));
    for (int v=0;v<re.size(k.subEntity(),k.codim(),2);++v) if (!s.count(re.subEntity(k.subEntity(),k.codim(),v,2))) return false;
    return true; };
  auto run=[&](const auto& bas, const Path& prefix) {
    auto lv=bas.localView();
    auto reused=F::subEntityDOFs(bas);
    std::set<Index> expectedBoundary; std::map<std::tuple<std::size_t,int,std::size_t>,int> expectedLocal;
    for (const auto& e : elements(gv)) {
      lv.bind(e); ref.bind(e); mc::transition();
      auto d=dofs(m,ref.oracle());
      auto re=Dune::referenceElement<double,2>(e.type());
      auto expect=[&](int i, int c) { std::set<std::size_t> s; for (std::size_t k=0;k<d.size();++k) if (startsWith(d[k].path,prefix) && keyIn(re,ref.keys(leafOrder(m,d[k].path))[d[k].shape],i,c)) s.insert(k); return s; };
      auto compare=[&](const auto& r, const std::set<std::size_t>& exp, const char* what) {
        std::vector<std::size_t> got(r.begin(),r.end()); std::set<std::size_t> gs(got.begin(),got.end());
        mc::equal(got.size(),gs.size(),[&]{ return cat(what,": a dof is listed twice; listed"); });
        mc::equal(r.size(),exp.size(),[&]{ return cat(what,": number of dofs"); });
        mc::check(gs==exp,[&]{ return cat(what,": wrong set of dofs"); });
        for (std::size_t k=0;k<got.size();++k) mc::check(r[k]==got[k],"operator[]");
        for (std::size_t k=0;k<d.size();++k) mc::equal(r.contains(k),bool(exp.count(k)),[&]{ return cat(what,": contains(",k,")"); });
        for (auto k : gs) mc::combine(h,k);
      };
      for (int c=0;c<=2;++c) for (int i=0;i<re.size(c);++i) {
        mc::op("subEntityDOFs"); mc::transition();
        compare(F::subEntityDOFs(lv,i,c),expect(i,c),"subEntityDOFs(localView,i,codim)");
        compare(reused.bind(lv,i,c),expect(i,c),"rebound subEntityDOFs");
      }
      for (const auto& is : intersections(gv,e)) {
        compare(F::subEntityDOFs(lv,is),expect(is.indexInInside(),1),"subEntityDOFs(localView,intersection)");
        compare(reused.bind(lv,is),expect(is.indexInInside(),1),"rebound subEntityDOFs(intersection)");
        if (is.boundary()) for (auto k : expect(is.indexInInside(),1)) { expectedBoundary.insert(d[k].index); ++expectedLocal[{gv.indexSet().index(e),is.indexInInside(),k}]; }
      }
    }
    mc::op("forEachBoundaryDOF"); mc::transition(3);
    std::set<Index> a; F::forEachBoundaryDOF(bas,[&](auto&& i) { a.insert(vec(i)); });
    mc::check(a==expectedBoundary,[&]{ return cat("forEachBoundaryDOF(index) visits ",a.size()," indices, expected ",expectedBoundary.size()); });
    std::map<std::tuple<std::size_t,int,std::size_t>,int> b;
    F::forEachBoundaryDOF(bas,[&](auto&& li, auto&& v, auto&& is) { ++b[{gv.indexSet().index(v.element()),is.indexInInside(),li}]; mc::check(is.boundary(),"callback with an interior intersection"); mc::check(is.inside()==v.element(),"intersection and view do not belong together"); });
    mc::check(b==expectedLocal,"forEachBoundaryDOF(local,view,intersection) visits other dofs");
    std::map<std::pair<std::size_t,std::size_t>,int> c, ec; for (auto& [k,n] : expectedLocal) ec[{std::get<0>(k),std::get<2>(k)}]+=n;
    F::forEachBoundaryDOF(bas,[&](auto&& li, auto&& v) { ++c[{gv.indexSet().index(v.element()),li}]; });
    mc::check(c==ec,"forEachBoundaryDOF(local,view) visits other dofs");
  };
  run(basis,{});
  auto lv=basis.localView(); lv.bind(*elements(gv).begin());
  Dune::TypeTree::forEachNode(lv.tree(),[&](auto&, auto tp) { if constexpr (decltype(tp)::size()>0) run(F::subspaceBasis(basis,tp),pathOf(tp)); });
  mc::outcome(h);
}

int main(int argc, char** argv)
{
  mc::init(argc,argv); MC_SANITIZER_INIT;
  using All=
#include TREES_INC
  ;
  int per=2; bool patch=true;
#if PROP==1 || PROP==2
  per=mc::thorough()?40:12;
#elif PROP==11 || PROP==12
  per=mc::thorough()?24:4;
#endif
  auto ms=meshList(per,patch);
  All::forEach([&](auto tree) {
    using T=decltype(tree);
    for (auto& [n,spec] : ms) {
      mc::state(T::name()+"/"+n,[&]{
        Grid grid(spec); auto gv=grid.leafGridView();
        mc::op("construct basis"); mc::transition();
        auto basis=mk(gv,T::factory());
#if PROP==1
        indexTree<T>(basis,gv);
#elif PROP==2
        mergeRules<T>(basis,gv);
#elif PROP==3
        containers<T>(basis,gv);
#elif PROP==6
        interpolation<T>(basis,gv);
#elif PROP==7
        discreteFunctions<T>(basis,gv);
#elif PROP==11
        subspaces<T>(basis,gv);
#elif PROP==21
        shapesOf<T>(basis,gv);
#elif PROP==12
        boundary<T>(basis,gv);
#endif
      });
    }
  });
  return mc::finish();
}
