// C13: periodic identification for all sets (and sequences) of index pairs, and user supplied index transformations.
// PART 0 periodic bases, 1 transformed indices
#include <config.h>
#include "trees.hh"
#include <algorithm>
#include <numeric>
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/functionspacebases/containerdescriptors.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
using namespace trees;
using mc::cat;
namespace F=Dune::Functions;
namespace BF=Dune::Functions::BasisFactory;
namespace EX=Dune::Functions::BasisFactory::Experimental;

// a chain of n line elements with scrambled vertex numbers
using Grid1=Dune::MockGrid<1,0>;
inline typename Grid1::Spec chain(int n)
{
  typename Grid1::Spec s;
  for (int i=0;i<=n;++i) { s.vertices.push_back({0.1+i+0.1*i*i}); s.vertexIndices.push_back((i*3+1)%(n+1)==0&&false?0:(n+1-i)); s.vertexIds.push_back(i); }
  for (int i=0;i<n;++i) { if (i%2) s.elements.push_back({Dune::GeometryTypes::line,{i+1,i}}); else s.elements.push_back({Dune::GeometryTypes::line,{i,i+1}}); }
  return s;
}
template<class B> std::vector<std::vector<Index>> table(const B& b)
{
  std::vector<std::vector<Index>> r; auto lv=b.localView();
  for (const auto& e : elements(b.gridView())) { lv.bind(e); r.emplace_back(); for (std::size_t i=0;i<lv.size();++i) r.back().push_back(vec(lv.index(i))); }
  return r;
}
// shape functions, local sizes and the tree are those of the raw basis
template<class A, class B> void sameLocal(const A& a, const B& b)
{
  auto la=a.localView(); auto lb=b.localView();
  mc::equal(la.maxSize(),lb.maxSize(),"maxSize");
  for (const auto& e : elements(a.gridView())) {
    la.bind(e); lb.bind(e);
    mc::equal(la.size(),lb.size(),"local size");
    std::vector<std::pair<Path,std::vector<double>>> va,vb;
    auto collect=[&](auto& lv, auto& out) { Dune::TypeTree::forEachLeafNode(lv.tree(),[&](auto&& n, auto&& tp) {
      std::vector<typename std::decay_t<decltype(n)>::FiniteElement::Traits::LocalBasisType::Traits::RangeType> o; typename std::decay_t<decltype(n)>::FiniteElement::Traits::LocalBasisType::Traits::DomainType x(0.3);
      n.finiteElement().localBasis().evaluateFunction(x,o); std::vector<double> f; for (auto& q : o) f.push_back(q[0]); for (std::size_t i=0;i<n.size();++i) f.push_back(n.localIndex(i)); out.push_back({pathOf(tp),f}); }); };
    collect(la,va); collect(lb,vb);
    mc::check(va==vb,"shape functions or local indices differ from those of the raw basis");
  }
}
struct UF { std::vector<int> p; UF(int n) : p(n) { std::iota(p.begin(),p.end(),0); } int find(int i) { while (p[i]!=i) i=p[i]; return i; } void join(int a, int b) { a=find(a); b=find(b); if (a!=b) p[std::max(a,b)]=std::min(a,b); } };

template<class Raw, class Basis>
void checkPeriodic(const Raw& raw, const Basis& b, const std::vector<std::pair<int,int>>& pairs)
{
  std::size_t n=raw.dimension();
  UF uf(n); for (auto [x,y] : pairs) uf.join(x,y);
  std::set<int> classes; for (std::size_t i=0;i<n;++i) classes.insert(uf.find(i));
  auto tr=table(raw), tb=table(b); mc::transition(tr.size());
  std::map<int,std::size_t> cls; std::map<std::size_t,int> inv; std::size_t h=0;
  for (std::size_t e=0;e<tr.size();++e) for (std::size_t i=0;i<tr[e].size();++i) {
    mc::equal(tb[e][i].size(),std::size_t(1),"index length");
    int c=uf.find(tr[e][i][0]); std::size_t g=tb[e][i][0]; mc::combine(h,g);
    auto [it,ins]=cls.insert({c,g});
    mc::check(it->second==g,[&]{ return cat("raw index ",tr[e][i][0]," has index ",g," but the identified index ",c," has ",it->second); });
    auto [jt,jns]=inv.insert({g,c});
    mc::check(jt->second==c,[&]{ return cat("raw indices ",c," and ",jt->second," share index ",g," without being identified"); });
    mc::check(g<classes.size(),[&]{ return cat("index ",g," beyond the number of classes ",classes.size()); });
  }
  mc::outcome(h);
  mc::equal(inv.size(),classes.size(),"number of distinct indices (gaps)");
  mc::equal(b.dimension(),classes.size(),"dimension");
  mc::equal(b.size(),classes.size(),"size");
  for (std::size_t i=0;i<classes.size();++i) { typename Basis::SizePrefix p; p.push_back(i); mc::equal(b.size(p),std::size_t(0),"size at a complete index"); }
  auto cd=b.containerDescriptor();
  mc::equal(std::size_t(Dune::Hybrid::size(cd)),classes.size(),"size of the container descriptor");
  auto v=F::makeContainer<double>(cd,1.); mc::equal(v.size(),classes.size(),"size of the generated container");
  auto w=F::makeISTLVector<double>(cd); mc::equal(w.size(),classes.size(),"size of the generated ISTL vector");
}
template<class GV, class Factory>
void periodicState(const GV& gv, const Factory& f, const std::vector<std::pair<int,int>>& pairs, const std::string& key, bool local)
{
  mc::state(key,[&]{
    auto raw=BF::makeBasis(gv,f);
    EX::PeriodicIndexSet set; for (auto [x,y] : pairs) { mc::op(cat("unify ",x,",",y)); set.unifyIndexPair(x,y); mc::transition(); }
    { auto b=BF::makeBasis(gv,EX::periodic(f,set)); mc::op("compare (factory)"); checkPeriodic(raw,b,pairs); if (local) sameLocal(raw,b); }
    if (local) {
      auto b=BF::makeBasis(gv,EX::periodic(raw,set)); mc::op("compare (global basis)"); checkPeriodic(raw,b,pairs);
      auto c=BF::makeBasis(gv,EX::periodic(raw.preBasis(),set)); mc::op("compare (pre-basis)"); checkPeriodic(raw,c,pairs);
      auto copy=c; checkPeriodic(raw,copy,pairs);
    }
  });
}
inline std::string showPairs(const std::vector<std::pair<int,int>>& p) { std::string s; for (auto [a,b] : p) s+=cat("(",a,",",b,")"); return s; }

#if PART==0
// all subsets of the pairs of n indices
template<class GV, class Factory> void subsets(const GV& gv, const Factory& f, int n, const std::string& name)
{
  std::vector<std::pair<int,int>> all; for (int i=0;i<n;++i) for (int j=i+1;j<n;++j) all.push_back({i,j});
  for (unsigned long m=0;m<(1ul<<all.size());++m) {
    std::vector<std::pair<int,int>> p; for (std::size_t k=0;k<all.size();++k) if (m>>k&1) p.push_back((k+m)%2?std::pair{all[k].second,all[k].first}:all[k]);
    periodicState(gv,f,p,name+"/"+showPairs(p),m%7==0);
  }
}
// all sequences of up to d ordered pairs (including trivial and repeated ones)
template<class GV, class Factory> void sequences(const GV& gv, const Factory& f, int n, int d, const std::string& name, std::vector<std::pair<int,int>> p={})
{
  periodicState(gv,f,p,name+"/seq"+showPairs(p),false);
  if ((int)p.size()==d) return;
  for (int i=0;i<n;++i) for (int j=0;j<n;++j) { auto q=p; q.push_back({i,j}); sequences(gv,f,n,d,name,q); }
}
void explore()
{
  bool t=mc::thorough();
  Grid1 g; for (int k=1;k<=6;++k) g.set(k,chain(k));
  for (int k=1;k<=5;++k) { auto gv=g.view(k); subsets(gv,BF::lagrange<1>(),k+1,cat("P1chain",k)); }
  if (t) { auto gv=g.view(6); subsets(gv,BF::lagrange<1>(),7,"P1chain6"); }
  { auto gv=g.view(2); sequences(gv,BF::lagrange<1>(),3,t?4:3,"P1chain2"); }
  { auto gv=g.view(3); sequences(gv,BF::lagrange<1>(),4,t?4:3,"P1chain3"); }
  { auto gv=g.view(2); subsets(gv,BF::lagrange<2>(),5,"P2chain2"); }
  { auto gv=g.view(1); subsets(gv,BF::power<2>(BF::lagrange<1>(),BF::flatLexicographic()),4,"power2FL"); subsets(gv,BF::power<2>(BF::lagrange<1>(),BF::flatInterleaved()),4,"power2FI");
    subsets(gv,BF::composite(BF::lagrange<1>(),BF::power<2>(BF::lagrange<0>(),BF::flatLexicographic()),BF::flatLexicographic()),4,"composite");
    subsets(gv,BF::power(BF::lagrange<1>(),2,BF::flatLexicographic()),4,"dynamic2FL"); }
  // 2d: triangle-quadrilateral mesh
  Grid g2; int s=0;
  for (auto& [n,spec] : meshList(2,false)) { g2.set(s,spec); auto gv=g2.view(s); ++s; int dofs=gv.size(2); if (dofs<=5 && (s<3||t)) subsets(gv,BF::lagrange<1>(),dofs,"P1/"+n); }
}
#else
// apply a transformation given as a function on plain indices
template<class Raw, class Basis, class T, class S>
void checkTransformed(const Raw& raw, const Basis& b, const T& t, const S& sizeOf)
{
  auto tr=table(raw), tb=table(b); mc::transition(tr.size()); std::size_t h=0; std::set<Index> all;
  for (std::size_t e=0;e<tr.size();++e) for (std::size_t i=0;i<tr[e].size();++i) {
    Index x=t(tr[e][i]); all.insert(x); for (auto d : tb[e][i]) mc::combine(h,d);
    mc::check(tb[e][i]==x,[&]{ return cat("index ",show(tr[e][i])," becomes ",show(tb[e][i]),", the transformation gives ",show(x)); });
  }
  mc::outcome(h);
  mc::equal(b.dimension(),raw.dimension(),"dimension");
  std::set<Index> prefixes={{}}; for (auto& x : all) for (std::size_t k=1;k<=x.size();++k) prefixes.insert(Index(x.begin(),x.begin()+k));
  for (auto& p : prefixes) { typename Basis::SizePrefix q; for (auto d : p) q.push_back(d); mc::equal(b.size(q),sizeOf(p),[&]{ return cat("size at prefix ",show(p)); }); }
  mc::equal(b.size(),sizeOf(Index{}),"size");
  sameLocal(raw,b);
}
template<class MI> void assign(MI& m, const Index& x) { m.resize(x.size()); for (std::size_t i=0;i<x.size();++i) m[i]=x[i]; }

template<class GV, class Factory> void permutations(const GV& gv, const Factory& f, const std::string& name)
{
  auto raw=BF::makeBasis(gv,f);
  std::vector<std::size_t> perm(raw.dimension()); std::iota(perm.begin(),perm.end(),0);
  do {
    mc::state(name+"/permutation"+show(perm),[&]{
      auto index=[perm](auto& mi, const auto&) { mi[0]=perm[mi[0]]; };
      auto size=[](const auto& prefix, const auto& pb) -> std::size_t { return prefix.size()==0 ? pb.dimension() : 0; };
      auto model=[&](Index i) { i[0]=perm[i[0]]; return i; };
      auto msize=[&](const Index& p) { return p.empty()?perm.size():0; };
      using namespace Dune::Indices;
      auto trafo=EX::indexTransformation(index,size,_1,_1);
      auto b=BF::makeBasis(gv,EX::transformIndices(f,trafo)); mc::op("permuted");
      checkTransformed(raw,b,model,msize);
      static_assert(std::is_same_v<decltype(b.containerDescriptor()),F::ContainerDescriptors::Unknown>);
      // with a descriptor callback, and twice: the second transformation acts on the result of the first
      auto trafo2=EX::indexTransformation(index,size,[](const auto& pb) { return F::ContainerDescriptors::FlatVector(pb.dimension()); },_1,_1);
      auto c=BF::makeBasis(gv,EX::transformIndices(EX::transformIndices(f,trafo),trafo2)); mc::op("permuted twice");
      checkTransformed(raw,c,[&](Index i) { i[0]=perm[perm[i[0]]]; return i; },msize);
      mc::equal(c.containerDescriptor().size(),perm.size(),"descriptor");
      // as a child of other nodes
      auto d=BF::makeBasis(gv,BF::composite(BF::lagrange<0>(),EX::transformIndices(f,trafo2),BF::flatLexicographic()));
      auto draw=BF::makeBasis(gv,BF::composite(BF::lagrange<0>(),f,BF::flatLexicographic()));
      std::size_t n0=gv.size(0);
      checkTransformed(draw,d,[&](Index i) { if (i[0]>=n0) i[0]=n0+perm[i[0]-n0]; return i; },[&](const Index& p) { return p.empty()?n0+perm.size():0; });
      auto e=BF::makeBasis(gv,BF::power<2>(EX::transformIndices(f,trafo2),BF::blockedInterleaved()));
      auto eraw=BF::makeBasis(gv,BF::power<2>(f,BF::blockedInterleaved()));
      checkTransformed(eraw,e,[&](Index i) { i[0]=perm[i[0]]; return i; },[&](const Index& p) { return p.empty()?perm.size():p.size()==1?2:0; });
    });
  } while (std::next_permutation(perm.begin(),perm.end()));
}
template<class GV> void shapes(const GV& gv, const std::string& name)
{
  using namespace Dune::Indices;
  auto L=BF::lagrange<1>(); std::size_t n=gv.size(GV::dimension);
  // two digits swapped
  mc::state(name+"/swap-digits",[&]{
    auto f=BF::power<3>(L,BF::blockedLexicographic()); auto raw=BF::makeBasis(gv,f);
    auto t=EX::indexTransformation([](auto& mi, const auto&) { std::swap(mi[0],mi[1]); },
      [](const auto& p, const auto& pb) -> std::size_t { return p.size()==0?pb.subPreBasis().dimension():p.size()==1?3:0; },_2,_2);
    auto b=BF::makeBasis(gv,EX::transformIndices(f,t));
    checkTransformed(raw,b,[](Index i) { std::swap(i[0],i[1]); return i; },[&](const Index& p) { return p.size()==0?n:p.size()==1?3:0; });
  });
  // flattened: shorter indices than the raw ones
  mc::state(name+"/flatten",[&]{
    auto f=BF::power<3>(L,BF::blockedLexicographic()); auto raw=BF::makeBasis(gv,f);
    auto t=EX::indexTransformation([](auto& mi, const auto& pb) { std::size_t v=mi[1]*3+mi[0]; mi.resize(1); mi[0]=v; },
      [](const auto& p, const auto& pb) -> std::size_t { return p.size()==0?pb.dimension():0; },_1,_2);
    auto b=BF::makeBasis(gv,EX::transformIndices(f,t));
    checkTransformed(raw,b,[](Index i) { return Index{i[1]*3+i[0]}; },[&](const Index& p) { return p.size()==0?3*n:0; });
  });
  // flattened with exact bounds on the index sizes, from two and three digits, also nested in other nodes and copied
  auto flatten=[&](const char* what, const auto& f, auto one, auto number) {
    mc::state(name+"/flatten-exact/"+what,[&]{
      auto raw=BF::makeBasis(gv,f); std::size_t d=raw.dimension();
      auto t=EX::indexTransformation([number](auto& mi, const auto& pb) { Index x; for (std::size_t k=0;k<mi.size();++k) x.push_back(mi[k]); std::size_t v=number(x); mi.resize(1); mi[0]=v; },
        [](const auto& p, const auto& pb) -> std::size_t { return p.size()==0?pb.dimension():0; },[](const auto& pb) { return F::ContainerDescriptors::FlatVector(pb.dimension()); },one,one);
      auto model=[&](const Index& i) { return Index{number(i)}; };
      auto b=BF::makeBasis(gv,EX::transformIndices(f,t)); mc::op("flattened");
      checkTransformed(raw,b,model,[&](const Index& p) { return p.empty()?d:0; });
      mc::equal(b.containerDescriptor().size(),d,"descriptor");
      auto copy=b; copy.update(gv); checkTransformed(raw,copy,model,[&](const Index& p) { return p.empty()?d:0; });
      // twice: the second transformation reverses the flat indices
      auto rev=EX::indexTransformation([](auto& mi, const auto& pb) { mi[0]=pb.dimension()-1-mi[0]; },[](const auto& p, const auto& pb) -> std::size_t { return p.size()==0?pb.dimension():0; },one,one);
      auto c=BF::makeBasis(gv,EX::transformIndices(EX::transformIndices(f,t),rev)); mc::op("flattened and reversed");
      checkTransformed(raw,c,[&](const Index& i) { return Index{d-1-number(i)}; },[&](const Index& p) { return p.empty()?d:0; });
      // as a child of blocked nodes: the raw indices of the child follow the child index
      auto e=BF::makeBasis(gv,BF::composite(EX::transformIndices(f,t),EX::transformIndices(f,t))); auto eraw=BF::makeBasis(gv,BF::composite(f,f)); mc::op("flattened, in a composite");
      checkTransformed(eraw,e,[&](const Index& i) { return Index{i[0],number(Index(i.begin()+1,i.end()))}; },[&](const Index& p) { return p.empty()?2:p.size()==1?d:0; });
      auto h=BF::makeBasis(gv,BF::power<2>(EX::transformIndices(f,t),BF::flatLexicographic())); auto hraw=BF::makeBasis(gv,BF::power<2>(f,BF::blockedLexicographic())); mc::op("flattened, in a power");
      checkTransformed(hraw,h,[&](const Index& i) { return Index{i[0]*d+number(Index(i.begin()+1,i.end()))}; },[&](const Index& p) { return p.empty()?2*d:0; });
    });
  };
  flatten("power-BL",BF::power<3>(L,BF::blockedLexicographic()),_1,[](const Index& i) { return i[1]*3+i[0]; });
  flatten("power-BI",BF::power<2>(L,BF::blockedInterleaved()),_1,[n](const Index& i) { return i[1]*n+i[0]; });
  flatten("dynamic-BL",BF::power(L,3,BF::blockedLexicographic()),_1,[n](const Index& i) { return i[0]*n+i[1]; });
  flatten("composite-BL",BF::composite(BF::lagrange<0>(),L,BF::blockedLexicographic()),_1,[n](const Index& i) { return i[0]==0?i[1]+n:i[1]; });
  flatten("power-power",BF::power<2>(BF::power<2>(L,BF::blockedLexicographic()),BF::blockedLexicographic()),_1,[](const Index& i) { return i[2]*4+2*i[1]+i[0]; });
  flatten("composite-power",BF::composite(L,BF::power<2>(L,BF::blockedInterleaved()),BF::blockedLexicographic()),_1,[n](const Index& i) { return i[0]==0?i[1]:n+2*i[1]+i[2]; });
  flatten("power-leaf-flat",BF::power<2>(L,BF::flatLexicographic()),_1,[n](const Index& i) { return 2*n-1-i[0]; });
  // three digits become two
  mc::state(name+"/regroup",[&]{
    auto f=BF::power<2>(BF::power<2>(L,BF::blockedLexicographic()),BF::blockedLexicographic()); auto raw=BF::makeBasis(gv,f);
    auto t=EX::indexTransformation([](auto& mi, const auto&) { std::size_t a=mi[0], b=mi[1], c=mi[2]; mi.resize(2); mi[0]=c; mi[1]=2*b+a; },
      [](const auto& p, const auto& pb) -> std::size_t { return p.size()==0?pb.dimension()/4:p.size()==1?4:0; },_2,_2);
    auto b=BF::makeBasis(gv,EX::transformIndices(f,t));
    checkTransformed(raw,b,[](Index i) { return Index{i[2],2*i[1]+i[0]}; },[&](const Index& p) { return p.size()==0?n:p.size()==1?4:0; });
  });
  // blocked: longer indices than the raw ones
  mc::state(name+"/block",[&]{
    auto raw=BF::makeBasis(gv,L);
    auto t=EX::indexTransformation([](auto& mi, const auto&) { std::size_t v=mi[0]; mi.resize(2); mi[0]=v/2; mi[1]=v%2; },
      [](const auto& p, const auto& pb) -> std::size_t { auto d=pb.dimension(); return p.size()==0?(d+1)/2:p.size()==1?(2*p[0]+1<d?2:1):0; },_2,_2);
    auto b=BF::makeBasis(gv,EX::transformIndices(L,t));
    checkTransformed(raw,b,[](Index i) { return Index{i[0]/2,i[0]%2}; },[&](const Index& p) { return p.size()==0?(n+1)/2:p.size()==1?(2*p[0]+1<n?2:1):0; });
  });
  // indices of different lengths
  mc::state(name+"/mixed",[&]{
    auto raw=BF::makeBasis(gv,L);
    auto t=EX::indexTransformation([](auto& mi, const auto&) { std::size_t v=mi[0]; if (v==0) { mi[0]=0; } else { mi.resize(2); mi[0]=1; mi[1]=v-1; } },
      [](const auto& p, const auto& pb) -> std::size_t { return p.size()==0?2:(p.size()==1 && p[0]==1)?pb.dimension()-1:0; },_1,_2);
    auto b=BF::makeBasis(gv,EX::transformIndices(L,t));
    checkTransformed(raw,b,[](Index i) { return i[0]==0?Index{0}:Index{1,i[0]-1}; },[&](const Index& p) { return p.size()==0?std::size_t(2):(p.size()==1&&p[0]==1)?n-1:0; });
  });
}
void explore()
{
  bool t=mc::thorough();
  Grid1 g; for (int k=1;k<=5;++k) g.set(k,chain(k));
  for (int k=1;k<=(t?5:4);++k) { auto gv=g.view(k); permutations(gv,BF::lagrange<1>(),cat("P1chain",k)); shapes(gv,cat("chain",k)); }
  { auto gv=g.view(2); permutations(gv,BF::lagrange<2>(),"P2chain2"); permutations(gv,BF::power<2>(BF::lagrange<0>(),BF::flatLexicographic()),"powerP0"); }
  Grid g2; int s=0;
  for (auto& [n,spec] : meshList(2,true)) { g2.set(s,spec); auto gv=g2.view(s); ++s; shapes(gv,n); if (gv.size(2)<=(t?6:4)) permutations(gv,BF::lagrange<1>(),"P1/"+n); }
}
#endif
MC_MAIN(explore())
