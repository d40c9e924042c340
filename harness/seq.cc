// C16: sequence semantics of the multi-index containers, index access, flat views.
#include <config.h>
#include <deque>
#include <sstream>
#include <algorithm>
#include <cassert>
#include "mc.hh"
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/tuplevector.hh>
#include <dune/common/reservedvector.hh>
#include <dune/common/indices.hh>
#include <dune/common/typetree/treepath.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/common/multiindex.hh>
#include <dune/functions/common/overflowarray.hh>
#include <dune/functions/common/reserveddeque.hh>
#include <dune/functions/common/indexaccess.hh>
#include <dune/functions/common/densevectorview.hh>
#include <dune/functions/functionspacebases/flatvectorview.hh>
#include <dune/functions/functionspacebases/flatmultiindex.hh>
using mc::cat;
namespace F=Dune::Functions;
#ifndef PART
#define PART 0
#endif

#if PART==0 || PART==1
// ---------------------------------------------------------------- operation sequences against std::deque
template<class S> concept HasPushFront = requires(S s, typename S::value_type v) { s.push_front(v); };
template<class S> concept HasPopFront = requires(S s) { s.pop_front(); };
template<class S> concept HasEqual = requires(S a, S b) { { a==b } -> std::convertible_to<bool>; };
template<class S> concept HasHash = requires(S a) { hash_value(a); };

template<class S> void compare(const S& s, const std::deque<std::size_t>& m, const char* who)
{
  mc::equal(s.size(),m.size(),[&]{ return cat("size of ",who); });
  mc::equal(s.empty(),m.empty(),[&]{ return cat("empty() of ",who); });
  for (std::size_t i=0;i<m.size();++i) mc::equal(s[i],m[i],[&]{ return cat("entry ",i," of ",who); });
  std::size_t k=0; for (auto it=s.begin();it!=s.end();++it,++k) { mc::check(k<m.size(),"iteration runs past the end"); mc::equal(*it,m[k],[&]{ return cat("iterated entry ",k," of ",who); }); }
  mc::equal(k,m.size(),"length of the iteration");
  auto& ms=const_cast<S&>(s); k=0; for (auto& x : ms) { mc::equal(x,m.at(k),"mutable iteration"); ++k; }
  mc::equal(k,m.size(),"length of the mutable iteration");
  for (std::size_t i=0;i<m.size();++i) mc::equal(ms[i],m[i],"mutable access");
  if (!m.empty()) { mc::equal(s.front(),m.front(),"front()"); mc::equal(s.back(),m.back(),"back()"); mc::equal(ms.front(),m.front(),"mutable front()"); mc::equal(ms.back(),m.back(),"mutable back()"); }
  std::ostringstream o; o<<s; std::istringstream in(o.str()); std::size_t x; k=0; while (in>>x) { mc::check(k<m.size() && m[k]==x,"stream output"); ++k; } mc::equal(k,m.size(),"entries written to the stream");
}

struct Op { int code; std::size_t arg; };
template<class S> void sequences(const std::string& name, int depth)
{
  constexpr std::size_t cap=S::capacity();
  mc::state(name+"/capacity",[&]{ mc::equal(S::max_size(),cap,"max_size"); S s; mc::equal(s.size(),std::size_t(0),"size of a new container"); mc::check(s.empty(),"a new container is empty"); });
  std::vector<Op> ops={{0,1},{0,2},{2,0},{4,0},{6,0},{7,0},{8,0},{9,0},{10,0}};
  if constexpr (HasPushFront<S>) { ops.push_back({1,1}); ops.push_back({1,3}); ops.push_back({11,0}); }
  if constexpr (HasPopFront<S>) ops.push_back({3,0});
  for (std::size_t n=1;n<=cap;++n) ops.push_back({5,n});
  auto label=[](const Op& o) { static const char* n[]={"push_back","push_front","pop_back","pop_front","clear","resize","set","b=a","a=b","a=S(b)","list","push_front(back)"}; return cat(n[o.code],o.code<=1||o.code==5?cat("(",o.arg,")"):""); };
  // both containers; the second one only changes by copying, so that copies are compared with later states
  std::vector<int> seq;
  std::function<void(int)> rec=[&](int left) {
    if (!seq.empty() && left==0) {
      std::string key=name; for (int k : seq) key+="/"+label(ops[k]);
      mc::state(key,[&]{
        S a, b; std::deque<std::size_t> ma, mb; std::size_t fresh=10;
        for (int k : seq) {
          auto& o=ops[k]; mc::op(label(o)); mc::transition();
          switch (o.code) {
            case 0: a.push_back(o.arg); ma.push_back(o.arg); break;
            case 1: if constexpr (HasPushFront<S>) { a.push_front(o.arg); ma.push_front(o.arg); } break;
            case 2: a.pop_back(); if (!ma.empty()) ma.pop_back(); break;
            case 3: if constexpr (HasPopFront<S>) { a.pop_front(); if (!ma.empty()) ma.pop_front(); } break;
            case 4: a.clear(); ma.clear(); break;
            case 5: { std::size_t old=ma.size(); a.resize(o.arg); ma.resize(o.arg); for (std::size_t i=old;i<o.arg;++i) a[i]=ma[i]=fresh++; break; }
            case 6: if (!ma.empty()) { std::size_t i=ma.size()-1; a[i]=ma[i]=fresh++; a.front()=ma.front()=fresh++; } break;
            case 7: b=a; mb=ma; break;
            case 8: a=b; ma=mb; break;
            case 9: { S c(b); S d(std::move(c)); a=d; ma=mb; break; }
            case 10: { if constexpr (cap>=2) { a=S{std::size_t(4),std::size_t(5)}; ma={4,5}; } else { a=S{std::size_t(4)}; ma={4}; } break; }
            case 11: if constexpr (HasPushFront<S>) { std::size_t v=ma.back(); a.push_front(a.back()); ma.push_front(v); } break;
          }
          compare(a,ma,"the container"); compare(b,mb,"the copy");
          if constexpr (HasEqual<S>) { mc::equal(a==b,ma==mb,"equality"); mc::equal(b==a,ma==mb,"equality"); }
          if constexpr (HasHash<S>) if (ma==mb) mc::equal(hash_value(a),hash_value(b),"hash of equal containers");
        }
        std::size_t h=0; for (auto x : ma) mc::combine(h,x); mc::combine(h,ma.size()); mc::outcome(h);
      });
      return;
    }
    // sizes are tracked to stay within the documented preconditions
    for (std::size_t k=0;k<ops.size();++k) {
      std::size_t n=0, nb=0; bool ok=true;
      seq.push_back(k);
      for (int q : seq) { auto& o=ops[q]; switch (o.code) {
          case 0: case 1: ok=ok&&n<cap; ++n; break;
          case 2: if constexpr (!HasPopFront<S>) ok=ok&&n>0; if (n) --n; break;
          case 3: if (n) --n; break;
          case 4: n=0; break;
          case 5: n=o.arg; break;
          case 7: nb=n; break; case 8: case 9: n=nb; break;
          case 10: n=std::min<std::size_t>(cap,2); break;
          case 11: ok=ok&&n>0&&n<cap; ++n; break; } }
      if (ok) rec(left-1);
      seq.pop_back();
    }
  };
  for (int d=1;d<=depth;++d) rec(d);
}
#endif

#if PART==2
// ---------------------------------------------------------------- static multi-indices
template<std::size_t n> void staticIndices()
{
  using I=F::StaticMultiIndex<std::size_t,n>;
  static_assert(std::tuple_size<I>::value==n && I::size()==n && I::max_size()==n);
  constexpr int K=4; int N=1; for (std::size_t i=0;i<n;++i) N*=K;
  auto make=[](int c) { std::array<std::size_t,n> r; for (auto& x : r) { x=c%K; c/=K; } return r; };
  for (int a=0;a<N;++a) mc::state(cat("static",n,"/",a),[&]{
    auto A=make(a); I i; for (std::size_t k=0;k<n;++k) i[k]=A[k];
    if constexpr (n==1) { std::size_t v=i; mc::equal(v,A[0],"conversion to the digit"); std::size_t& r=i; r=A[0]+1; mc::equal(i[0],A[0]+1,"write through the conversion"); r=A[0]; const I ci=i; const std::size_t& cr=ci; mc::equal(cr,A[0],"const conversion"); std::vector<int> v4{1,2,3,4}; mc::equal(v4[i],int(A[0]+1),"use as an index"); }
    // through the growing storage used by local views
    for (std::size_t b=n;b<=n+2;++b) {
      auto through=[&](auto& st) { const I& base=st; for (std::size_t k=0;k<n;++k) mc::equal(base[k],A[k],"digit after building in the overflow array"); };
      { F::OverflowArray<I,n+2> st; for (std::size_t k=0;k<n;++k) st.push_back(A[k]); through(st); }
      { F::OverflowArray<I,n+2> st; for (std::size_t k=0;k<b;++k) st.push_back(99); st.resize(n); for (std::size_t k=0;k<n;++k) st[k]=A[k]; through(st); }
    }
    std::size_t k=0; for (auto x : i) mc::equal(x,A[k++],"iteration"); mc::equal(k,n,"length");
    std::ostringstream o; o<<i; std::istringstream in(o.str()); std::size_t x; k=0; while (in>>x) { mc::check(k<n && A[k]==x,"stream output"); ++k; } mc::equal(k,n,"entries written");
    std::size_t h=0; for (auto y : A) mc::combine(h,y); mc::outcome(h);
    for (int c=0;c<N;++c) { auto C=make(c); I j; for (std::size_t q=0;q<n;++q) j[q]=C[q];
      mc::transition();
      mc::equal(i==j,A==C,"=="); mc::equal(i<j,A<C,"<"); mc::equal(i!=j,A!=C,"!=");
      if (a==c) { mc::equal(hash_value(i),hash_value(j),"hash"); mc::equal(std::hash<I>{}(i),std::hash<I>{}(j),"std::hash"); }
      else mc::check(std::hash<I>{}(i)!=std::hash<I>{}(j),"indices of a small box collide in the hash"); }
  });
}
#endif

#if PART==3
// ---------------------------------------------------------------- nested containers
using Path=std::vector<std::size_t>;
template<class C> concept DynIndex = requires(C c) { c[std::size_t(0)]; };
template<class C> concept StatIndex = requires(C c) { c[Dune::Indices::_0]; };
template<class T> void grow(T& t, std::size_t n)
{
  if constexpr (std::is_arithmetic_v<T>) { static double v=0; t=++v; }
  else if constexpr (requires { t.resize(n); t[0]; }) { t.resize(n); std::size_t k=0; for (auto& x : t) grow(x,2+(n+k++)%2); }
  else if constexpr (DynIndex<T>) { std::size_t k=0; for (auto& x : t) grow(x,2+(n+k++)%2); }
  else Dune::Hybrid::forEach(t,[&](auto& x) { grow(x,n); });
}
// the chain of subscripts: f(entry, path) for every node of the nested container
template<class T, class V> void walk(T& t, const Path& p, V&& f)
{
  f(t,p);
  if constexpr (std::is_arithmetic_v<std::remove_const_t<T>>) return;
  else if constexpr (DynIndex<T>) for (std::size_t i=0;i<t.size();++i) { auto q=p; q.push_back(i); walk(t[i],q,f); }
  else Dune::Hybrid::forEach(std::make_index_sequence<std::decay_t<decltype(Dune::Hybrid::size(t))>::value>{},[&](auto i) { auto q=p; q.push_back(i); walk(t[i],q,f); });
}
// all static tree paths of tuple-like containers
template<class T, class P, class V> void staticWalk(T& t, P p, V&& f)
{
  f(t,p);
  if constexpr (std::is_arithmetic_v<std::remove_const_t<T>>) return;
  else if constexpr (!DynIndex<T>) Dune::Hybrid::forEach(std::make_index_sequence<std::decay_t<decltype(Dune::Hybrid::size(t))>::value>{},[&](auto i) { staticWalk(t[i],push_back(p,i),f); });
  else if constexpr (DynIndex<T>) for (std::size_t i=0;i<t.size();++i) staticWalk(t[i],push_back(p,i),f);
}
inline std::string show(const Path& p) { std::string s; for (auto x : p) s+=std::to_string(x)+"."; return s; }

template<class T, class Leaf> constexpr bool uniformLeaf() { return true; }
template<class C> void access(const std::string& name)
{
  for (std::size_t n=1;n<=3;++n) mc::state(cat("access/",name,"/n",n),[&]{
    C c; grow(c,n);
    std::size_t h=0;
    auto dynamic=[&](auto& cc) {
      using D=std::conditional_t<std::is_const_v<std::remove_reference_t<decltype(cc)>>,const double,double>;
      walk(cc,{},[&](auto& entry, const Path& p) {
        using E=std::remove_cvref_t<decltype(entry)>;
        if constexpr (std::is_same_v<E,double>) {
          mc::transition();
          for (auto q : p) mc::combine(h,q);
          auto same=[&](const double& x, const char* how) { mc::check(&x==&entry,[&]{ return cat(how," with index ",show(p)," reaches another entry"); }); };
          mc::op(cat("hybridMultiIndexAccess ",show(p)));
          same(F::hybridMultiIndexAccess<D&>(cc,p),"hybridMultiIndexAccess");
          Dune::ReservedVector<std::size_t,8> rv; for (auto q : p) rv.push_back(q);
          same(F::hybridMultiIndexAccess<D&>(cc,rv),"hybridMultiIndexAccess(ReservedVector)");
          std::array<std::size_t,6> fixed{}; for (std::size_t k=0;k<p.size();++k) fixed[k]=p[k];
          same(F::hybridMultiIndexAccess<D&>(cc,fixed),"hybridMultiIndexAccess(array)");
          mc::op(cat("resolveDynamicMultiIndex ",show(p)));
          same(F::resolveDynamicMultiIndex(cc,p),"resolveDynamicMultiIndex");
          same(F::resolveDynamicMultiIndex(cc,rv),"resolveDynamicMultiIndex(ReservedVector)");
          // trailing zeros may be omitted
          Path t=p; while (!t.empty() && t.back()==0) { t.pop_back(); same(F::resolveDynamicMultiIndex(cc,t),"resolveDynamicMultiIndex with omitted zeros"); }
          // with an explicit termination criterion
          auto isDouble=[](auto&& x) { return std::bool_constant<std::is_same_v<std::remove_cvref_t<decltype(x)>,double>>{}; };
          same(F::resolveDynamicMultiIndex(cc,p,isDouble),"resolveDynamicMultiIndex with predicate");
        }
      });
    };
    dynamic(c); const C& cc=c; dynamic(cc);
    // a single level
    if constexpr (!std::is_same_v<C,double>) {
      std::vector<const void*> child;
      if constexpr (DynIndex<C>) for (std::size_t i=0;i<c.size();++i) child.push_back(&c[i]);
      else Dune::Hybrid::forEach(c,[&](auto& x) { child.push_back(&x); });
      for (std::size_t i=0;i<child.size();++i) { const void* a=nullptr; F::hybridIndexAccess(c,i,[&](auto&& x) { a=&x; }); mc::check(a==child[i],[&]{ return cat("hybridIndexAccess(",i,")"); });
        a=nullptr; F::hybridIndexAccess(cc,i,[&](auto&& x) { a=&x; }); mc::check(a==child[i],[&]{ return cat("const hybridIndexAccess(",i,")"); }); }
    }
    staticWalk(c,Dune::TypeTree::treePath(),[&](auto& entry, auto p) {
      mc::transition(); mc::op("resolveStaticMultiIndex");
      auto&& r=F::resolveStaticMultiIndex(c,p);
      static_assert(std::is_same_v<std::remove_cvref_t<decltype(r)>,std::remove_cvref_t<decltype(entry)>>);
      mc::check((const void*)&r==(const void*)&entry,"resolveStaticMultiIndex reaches another entry");
      auto&& r2=F::resolveStaticMultiIndex(cc,p);
      mc::check((const void*)&r2==(const void*)&entry,"const resolveStaticMultiIndex reaches another entry");
    });
    mc::outcome(h);
  });
}
template<class T> using V=std::vector<T>;
template<class T> using A=std::array<T,2>;
template<class T> using A3=std::array<T,3>;
template<class... T> using TV=Dune::TupleVector<T...>;
using FV=Dune::FieldVector<double,2>;
template<template<class> class... W, class X> void forWrap(X&& x) { (x.template operator()<W>(),...); }

template<class C> void access2(const std::string& n)   // all wrappers of C
{
  access<V<C>>("V<"+n+">"); access<A<C>>("A<"+n+">"); access<TV<C>>("T<"+n+">"); access<TV<C,C>>("T<"+n+","+n+">");
  access<TV<C,V<C>>>("T<"+n+",V<"+n+">>"); access<TV<A<C>,C>>("T<A<"+n+">,"+n+">"); access<TV<C,V<C>,A3<C>>>("T<"+n+",V,A3>");
}
template<class C> void access3(const std::string& n) { access<C>(n); access2<C>(n); access2<V<C>>("V<"+n+">"); access2<A<C>>("A<"+n+">"); access2<TV<C,C>>("T<"+n+","+n+">"); access2<TV<V<C>,C>>("T<V<"+n+">,"+n+">"); }

// flat views: entries in lexicographic order, by address
template<class T> void flat(const std::string& name, std::size_t runtime=0)
{
  mc::state("flat/"+name+(runtime?cat(runtime):""),[&]{
    T t{}; grow(t,runtime);
    std::vector<double*> addr; walk(t,{},[&](auto& e, const Path&) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(e)>,double>) addr.push_back(&e); });
    auto v=F::flatVectorView(t); mc::transition(3);
    mc::equal(std::size_t(v.size()),addr.size(),"size of the flat view");
    std::size_t h=0;
    for (std::size_t i=0;i<addr.size();++i) { mc::check((void*)&v[i]==(void*)addr[i],[&]{ return cat("flat entry ",i); }); v[i]=100.+i; mc::equal(*addr[i],100.+i,"write through the flat view"); mc::combine(h,i); }
    const T& ct=t; auto cv=F::flatVectorView(ct);
    mc::equal(std::size_t(cv.size()),addr.size(),"size of the const flat view");
    for (std::size_t i=0;i<addr.size();++i) mc::check((const void*)&cv[i]==(const void*)addr[i],[&]{ return cat("const flat entry ",i); });
    auto ov=F::flatVectorView(T(t));
    mc::equal(std::size_t(ov.size()),addr.size(),"size of the owning flat view");
    for (std::size_t i=0;i<addr.size();++i) mc::equal(ov[i],100.+i,"owning flat entry");
    for (std::size_t i=0;i<addr.size();++i) { ov[i]=-1.; mc::equal(*addr[i],100.+i,"the owning view must not refer to the original"); }
    mc::combine(h,std::hash<std::string>{}(name)); mc::outcome(h);
  });
}
template<class R> void dense(const std::string& name, R r)
{
  mc::state("dense/"+name,[&]{
    using View=F::Impl::DenseVectorView<R>; using CView=F::Impl::DenseVectorView<const R>;
    std::size_t n=r.size(); R s=r; for (auto& x : s) x*=3.;
    View v(r); CView cs(s); mc::transition();
    mc::equal(v.size(),n,"size"); for (std::size_t i=0;i<n;++i) mc::check(&v[i]==&r[i],"entry");
    R expect=r; for (std::size_t i=0;i<n;++i) expect[i]+=2.*s[i];
    v.axpy(2.,cs); for (std::size_t i=0;i<n;++i) mc::check(r[i]==expect[i],"axpy");
    View w(s); R old=s; v=w; for (std::size_t i=0;i<n;++i) mc::check(r[i]==old[i] && s[i]==old[i],"assignment copies entries");
    double q=0; for (std::size_t i=0;i<n;++i) q+=r[i]*s[i]; mc::close(v*w,q,1e-12,"scalar product");
    std::size_t k=0; for (auto& x : v) mc::check(&x==&r[k++],"iteration"); mc::equal(k,n,"length of iteration");
    mc::outcome(n);
  });
}
#endif

int main(int argc, char** argv)
{
  mc::init(argc,argv); MC_SANITIZER_INIT;
#if PART==0
  int d=mc::thorough()?6:4;
  using A1=std::array<std::size_t,1>; using A2=std::array<std::size_t,2>; using A3=std::array<std::size_t,3>;
  sequences<F::OverflowArray<A1>>("overflow<1,1>",d+1); sequences<F::OverflowArray<A1,2>>("overflow<1,2>",d); sequences<F::OverflowArray<A1,3>>("overflow<1,3>",d);
  sequences<F::OverflowArray<A2>>("overflow<2,2>",d); sequences<F::OverflowArray<A2,4>>("overflow<2,4>",d); sequences<F::OverflowArray<A3,4>>("overflow<3,4>",d);
  sequences<F::OverflowArray<F::StaticMultiIndex<std::size_t,2>,3>>("overflow<S2,3>",d); sequences<F::OverflowArray<F::StaticMultiIndex<std::size_t,1>,2>>("overflow<S1,2>",d);
#elif PART==1
  int d=mc::thorough()?6:5;
  sequences<F::ReservedDeque<std::size_t,1>>("deque<1>",d); sequences<F::ReservedDeque<std::size_t,2>>("deque<2>",d); sequences<F::ReservedDeque<std::size_t,3>>("deque<3>",d); sequences<F::ReservedDeque<std::size_t,4>>("deque<4>",d-(mc::thorough()?0:1));
#elif PART==2
  staticIndices<1>(); staticIndices<2>(); staticIndices<3>(); staticIndices<4>();
#elif PART==3
  access3<double>("d"); access3<FV>("F2");
  access<Dune::BlockVector<FV>>("BV<F2>"); access<Dune::MultiTypeBlockVector<Dune::BlockVector<FV>,Dune::BlockVector<double>>>("MTBV<BV<F2>,BV<d>>");
  access<TV<TV<double,FV>,V<TV<double,double>>,double>>("T<T<d,F2>,V<T<d,d>>,d>");
  flat<double>("d"); flat<FV>("F2"); flat<Dune::FieldVector<double,1>>("F1"); flat<Dune::FieldVector<double,4>>("F4");
  flat<Dune::FieldMatrix<double,2,3>>("M23"); flat<Dune::FieldMatrix<double,3,2>>("M32"); flat<Dune::FieldMatrix<double,1,3>>("M13"); flat<Dune::FieldMatrix<double,3,1>>("M31"); flat<Dune::FieldMatrix<double,1,1>>("M11");
  flat<A<double>>("A<d>"); flat<A3<FV>>("A3<F2>"); flat<A<A3<FV>>>("A<A3<F2>>"); flat<A3<A<double>>>("A3<A<d>>"); flat<A<Dune::FieldMatrix<double,2,3>>>("A<M23>"); flat<A3<A<Dune::FieldMatrix<double,1,2>>>>("A3<A<M12>>"); flat<std::array<Dune::FieldVector<double,1>,1>>("A1<F1>"); flat<A<Dune::FieldVector<double,3>>>("A<F3>");
  for (int n=1;n<=4;++n) flat<V<double>>("V<d>",n);
  dense("V3",std::vector<double>{1,2,3}); dense("V1",std::vector<double>{4}); dense("A2",std::array<double,2>{1,-2}); dense("A4",std::array<double,4>{1,-2,3,4});
#endif
  return mc::finish();
}
