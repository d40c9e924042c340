// C17: analytic functions and their derivatives against the defining formula in exact arithmetic.
// PART 0 run-time polynomials, 1 compile-time polynomials, 2 monomial sets, 3 trigonometric functions and callables
#include <config.h>
#include "mc.hh"
#include <array>
#include <complex>
#include <memory>
#include <tuple>
#include <vector>
#include <dune/common/exceptions.hh>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/rangeutilities.hh>
#include <dune/functions/analyticfunctions/polynomial.hh>
#include <dune/functions/analyticfunctions/monomialset.hh>
#include <dune/functions/analyticfunctions/trigonometricfunction.hh>
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
using namespace Dune::Functions;
using mc::cat;

// d-th derivative of sum c_i x^i
template<class K> K reference(const std::vector<K>& c, int d, K x)
{
  K y(0);
  for (int i=(int)c.size()-1;i>=d;--i) { K f(1); for (int k=0;k<d;++k) f*=K(i-k); K p(1); for (int k=0;k<i-d;++k) p*=x; y+=c[i]*f*p; }
  return y;
}
template<class K> const std::vector<K>& points() { static std::vector<K> p = []{ std::vector<K> r; for (int i=-3;i<=3;++i) r.push_back(K(i)); return r; }(); return p; }
template<> inline const std::vector<double>& points<double>() { static std::vector<double> p={-3,-1.5,-1,-0.5,0,0.25,1,2,2.5}; return p; }
template<> inline const std::vector<std::complex<double>>& points<std::complex<double>>() { static std::vector<std::complex<double>> p={{0,0},{1,0},{0,1},{-1,2},{0.5,-0.5}}; return p; }

// the polynomial and all its derivatives up to one order beyond the degree
template<int order, class P, class K> void compare(const P& p, const std::vector<K>& c, int upTo)
{
  std::size_t h=order;
  for (K x : points<K>()) {
    mc::op(cat("derivative ",order," at ",x));
    K v=p(x), e=reference(c,order,x); mc::transition();
    mc::check(v==e,[&]{ return cat("derivative of order ",order," at ",x,": got ",v,", expected ",e); });
    mc::combine(h,std::size_t(std::hash<double>()(std::abs(v))));
  }
  mc::outcome(h);
  if constexpr (order<8) { if (order<upTo) { auto dp=derivative(p); compare<order+1>(dp,c,upTo); } }
}
template<class C> std::string show(const std::vector<C>& c) { std::string s="["; for (auto x : c) s+=cat(x,","); return s+"]"; }

template<class F> void vectors(int n, int lo, int hi, F&& f)
{
  std::vector<int> c(n,lo);
  while (true) {
    f(c);
    int i=0; for (;i<n && c[i]==hi;++i) c[i]=lo;
    if (i==n) break;
    ++c[i];
  }
}
template<class K, class V> std::vector<K> conv(const V& v) { std::vector<K> r; for (auto x : v) r.push_back(K(x)); return r; }

#if PART==0
template<class K> void runtimePoly(const char* name, int maxSize, int lo, int hi)
{
  for (int n=0;n<=maxSize;++n) vectors(n,lo,hi,[&](const std::vector<int>& ci) {
    mc::state(cat("vector<",name,">",show(ci)),[&]{
      auto c=conv<K>(ci);
      Polynomial<K> p(c);
      compare<0>(p,c,n+2);
      mc::equal(p.coefficients().size(),c.size(),"number of coefficients");
      Polynomial q(std::vector<K>{c});                         // deduced
      mc::check(q==p,"deduced polynomial differs");
      Polynomial<K> r; r=p; auto d=derivative(r); (void)d;
      mc::check(r==p,"copy differs / derivative changed its argument");
      if (n) { auto c2=c; c2[n-1]+=K(1); mc::check(!(Polynomial<K>(c2)==p),"different coefficients compare equal"); compare<0>(p,c,0); }
      if constexpr (std::is_same_v<K,double>) {
        DifferentiableFunction<double(double)> f=p;
        for (double x : points<double>()) { mc::equal(f(x),reference(c,0,x),"type erased value"); auto df=derivative(f); mc::equal(df(x),reference(c,1,x),"type erased derivative");
          mc::equal(derivative(df)(x),reference(c,2,x),"type erased second derivative"); }
      }
    });
  });
}
template<class K, class C, std::size_t n> void arrayPoly(const char* name, int lo, int hi)
{
  vectors(n,lo,hi,[&](const std::vector<int>& ci) {
    mc::state(cat("array<",name,">",show(ci)),[&]{
      std::array<C,n> a{}; for (std::size_t i=0;i<n;++i) a[i]=C(ci[i]);
      auto p=makePolynomial<K>(a);
      compare<0>(p,conv<K>(ci),n+2);
      if constexpr (std::is_same_v<K,C> && n>0) { Polynomial q(a); mc::check(q==p,"deduced polynomial differs"); }
      auto v=makePolynomial<K>(conv<C>(ci));
      compare<0>(v,conv<K>(ci),n+2);
    });
  });
}
void explore()
{
  int s=mc::thorough();
  runtimePoly<long>("long",5+s,-2,2);
  runtimePoly<double>("double",4+s,-2,2);
  runtimePoly<double>("double-long",6+2*s,0,1+s);
  runtimePoly<std::complex<double>>("complex",3+s,-1,1);
  // scalar and coefficient types differ
  arrayPoly<long,long,0>("long,long",-2,2); arrayPoly<long,long,1>("long,long",-2,2); arrayPoly<long,long,2>("long,long",-2,2); arrayPoly<long,long,3>("long,long",-2,2); arrayPoly<long,long,4>("long,long",-2,2);
  arrayPoly<double,int,0>("double,int",-2,2); arrayPoly<double,int,1>("double,int",-2,2); arrayPoly<double,int,2>("double,int",-2,2); arrayPoly<double,int,3>("double,int",-2,2); arrayPoly<double,int,4>("double,int",-2,2);
  arrayPoly<double,int,5>("double,int",-1,2);
  arrayPoly<std::complex<double>,double,3>("complex,double",-1,2);
  mc::state("initializer-list",[]{
    Polynomial p({1.0,-2.0,3.0,0.0,-1.0}); compare<0>(p,std::vector<double>{1,-2,3,0,-1},7);
    auto q=makePolynomial<double>({1.0,-2.0,3.0}); compare<0>(q,std::vector<double>{1,-2,3},5);
    auto r=makePolynomial<double>({1,-2,3,4}); compare<0>(r,std::vector<double>{1,-2,3,4},6);
    static_assert(std::is_same_v<decltype(r),Polynomial<double,std::vector<int>>>);
    Polynomial<double> e; compare<0>(e,std::vector<double>{},3);
    static_assert(std::is_same_v<decltype(p),Polynomial<double,std::vector<double>>>);
  });
  // equality is equality of the coefficient sequences
  for (int n=0;n<=3;++n) for (int m=0;m<=3;++m) vectors(n,0,2,[&](const std::vector<int>& a) { vectors(m,0,2,[&](const std::vector<int>& b) {
    mc::state(cat("equal",show(a),show(b)),[&]{ mc::equal(Polynomial<int>(a)==Polynomial<int>(b), a==b, "operator=="); });
  }); });
}
#elif PART==1
template<int... c> void seq()
{
  std::vector<int> ci={c...};
  mc::state(cat("sequence",show(ci)),[&]{
    Polynomial p(std::integer_sequence<int,c...>{}); compare<0>(p,ci,sizeof...(c)+2);
    auto q=makePolynomial<double>(std::integer_sequence<long,c...>{}); compare<0>(q,conv<double>(ci),sizeof...(c)+2);
    mc::check(p==p,"equality");
    auto t=makePolynomial<double>(std::tuple<std::integral_constant<int,c>...>{}); compare<0>(t,conv<double>(ci),sizeof...(c)+2);
  });
}
template<int depth, int... c> void seqs()
{
  seq<c...>();
  if constexpr (depth>0) { seqs<depth-1,-2,c...>(); seqs<depth-1,0,c...>(); seqs<depth-1,3,c...>(); }
}
struct Any {};
template<class... T> void tup(T... t)
{
  auto val=[](auto x) -> double { return double(x); };
  std::vector<double> c={val(t)...};
  std::string types; ((types+= std::is_same_v<T,double>?"d":std::is_same_v<T,int>?"i":"c"),...);
  mc::state(cat("tuple",types,show(c)),[&]{
    auto p=makePolynomial<double>(std::tuple<T...>(t...));
    compare<0>(p,c,sizeof...(T)+2);
    auto p2=p; mc::check(p2==p,"copy compares equal");
  });
}
template<int depth, class... T> void tups(T... t)
{
  tup(t...);
  if constexpr (depth>0) {
    tups<depth-1>(std::integral_constant<int,0>{},t...); tups<depth-1>(std::integral_constant<int,-2>{},t...);
    tups<depth-1>(1.5,t...); tups<depth-1>(-3,t...); tups<depth-1>(0,t...);
  }
}
void explore() { seqs<4>(); tups<3>(); }
#elif PART==2
template<class K, class D, int dim, int deg> void monomials()
{
  using M=MonomialSet<K,dim,deg>;
  // documented order: by degree, then by the power of the last coordinate, ...
  std::vector<std::array<int,dim>> ex;
  for (int d=0;d<=deg;++d) {
    if constexpr (dim==1) ex.push_back({d});
    if constexpr (dim==2) for (int k=0;k<=d;++k) ex.push_back({d-k,k});
    if constexpr (dim==3) for (int k=0;k<=d;++k) for (int l=0;l<=d-k;++l) ex.push_back({d-k-l,l,k});
  }
  auto pw=[](K x, int n) { K y(1); for (int i=0;i<n;++i) y*=x; return y; };
  auto mono=[&](const std::array<int,dim>& e, std::array<int,dim> der, const Dune::FieldVector<D,dim>& x) {
    K y(1); for (int j=0;j<dim;++j) { if (der[j]>e[j]) return K(0); for (int k=0;k<der[j];++k) y*=K(e[j]-k); y*=pw(K(x[j]),e[j]-der[j]); } return y; };
  int r = dim==3 ? 2 : 3;
  vectors(dim,-r,r,[&](const std::vector<int>& xi) {
    mc::state(cat("monomials",sizeof(K),typeid(K).name(),typeid(D).name(),"/dim",dim,"/deg",deg,"/",show(xi)),[&]{
      Dune::FieldVector<D,dim> x; for (int j=0;j<dim;++j) x[j]=D(xi[j])/ (std::is_floating_point_v<D> ? D(2) : D(1));
      constexpr M m{};
      mc::equal(std::size_t(M::size),ex.size(),"size");
      auto exps=M::exponents(); mc::equal(exps.size(),ex.size(),"number of exponents");
      auto v=m(x); mc::transition(); mc::equal(v.size(),ex.size(),"number of values");
      auto dm=derivative(m); auto J=dm(x); mc::transition();
      auto ddm=derivative(dm); auto H=ddm(x); mc::transition();
      std::size_t h=0;
      for (std::size_t i=0;i<ex.size();++i) {
        for (int j=0;j<dim;++j) mc::equal(exps[i][j],std::size_t(ex[i][j]),"exponent");
        mc::equal(v[i],mono(ex[i],{},x),[&]{ return cat("monomial ",i); });
        mc::combine(h,double(v[i]));
        for (int a=0;a<dim;++a) {
          std::array<int,dim> da{}; da[a]=1;
          mc::equal(J[i][a],mono(ex[i],da,x),[&]{ return cat("derivative ",a," of monomial ",i); });
          for (int b=0;b<dim;++b) { auto dd=da; ++dd[b]; mc::equal(H[i][a][b],mono(ex[i],dd,x),[&]{ return cat("second derivative ",a,b," of monomial ",i); }); }
        }
      }
      mc::outcome(h);
    });
  });
}
template<int dim, int deg> void degrees()
{
  monomials<double,double,dim,deg>(); monomials<long,long,dim,deg>(); monomials<double,int,dim,deg>();
  if constexpr (deg>0) degrees<dim,deg-1>();
}
void explore() { degrees<1,8>(); degrees<2,6>(); degrees<3,5>(); }
#else
template<int order, class T> void trig(const T& f, int s, int c)
{
  for (int k=-6;k<=6;++k) {
    double x=0.7*k; double e = order%4==0 ? s*std::sin(x)+c*std::cos(x) : order%4==1 ? s*std::cos(x)-c*std::sin(x) : order%4==2 ? -s*std::sin(x)-c*std::cos(x) : -s*std::cos(x)+c*std::sin(x);
    mc::close(f(x),e,1e-13,[&]{ return cat("derivative ",order," at ",x); }); mc::transition();
  }
  if constexpr (order<6) trig<order+1>(derivative(f),s,c);
}
template<int s, int c> void trigs()
{
  mc::state(cat("trig",s,",",c),[]{ TrigonometricFunction<double,s,c> f; trig<0>(f,s,c); mc::outcome(s*100+c);
    DifferentiableFunction<double(double)> g=f; auto dg=derivative(g); auto ddg=derivative(dg);
    for (double x : {-2.,0.,1.3}) { mc::close(g(x),s*std::sin(x)+c*std::cos(x),1e-13,"erased value"); mc::close(dg(x),s*std::cos(x)-c*std::sin(x),1e-13,"erased derivative"); mc::close(ddg(x),-s*std::sin(x)-c*std::cos(x),1e-13,"erased second derivative"); } });
}
template<int s, int c> void trigRow() { trigs<s,c>(); if constexpr (c<3) trigRow<s,c+1>(); }
template<int s> void trigAll() { trigRow<s,-3>(); if constexpr (s<3) trigAll<s+1>(); }

// callables: value depends on the order and on a mutable state shared by nobody
template<class R> R mk(double v) { if constexpr (std::is_arithmetic_v<R>) return R(v); else { R r; r=v; return r; } }
template<class R> double rd(const R& r) { if constexpr (std::is_arithmetic_v<R>) return r; else if constexpr (requires { r[0][0]; }) return r[0][0]; else return r[0]; }
template<class D> double arg(const D& x) { if constexpr (std::is_arithmetic_v<D>) return x; else { double s=0; for (auto v : x) s+=v; return s; } }
template<class R, class D> struct Callable { std::shared_ptr<int> owner; double tag; R operator()(const D& x) const { return mk<R>(*owner*1000+tag*10+arg(x)); } };

template<class F> bool refuses(const F& f) { try { auto d=derivative(f); (void)d; return false; } catch (const Dune::NotImplemented&) { return true; } }

template<class D, class... R, class Tag> void callables(const char* sig, Tag tag, const std::vector<D>& xs)
{
  constexpr int n=sizeof...(R);
  for (int lvalue=0;lvalue<3;++lvalue) mc::state(cat("callables/",sig,"/n",n,"/",lvalue==0?"temporaries":lvalue==1?"named":"named, copied, originals gone"),[&]{
    auto own=std::make_shared<int>(3);
    auto check=[&](auto&& f) {
      auto all=[&](auto&& self, auto&& g, auto order) -> void {
        constexpr int o=decltype(order)::value;
        for (auto& x : xs) { mc::close(rd(g(x)),3000+o*10+arg(x),1e-12,[&]{ return cat("callable of order ",o); }); mc::transition(); }
        if constexpr (o+1<n) self(self,derivative(g),std::integral_constant<int,o+1>{});
        else mc::check(refuses(g),[&]{ return cat("derivative of order ",o+1," was not provided but is not refused"); });
      };
      all(all,f,std::integral_constant<int,0>{});
    };
    int k=0;
    const std::tuple<Callable<R,D>...> proto{Callable<R,D>{own,double(k++)}...};
    auto fromTemporaries=[&]{ return std::apply([&](const auto&... cc) { return makeDifferentiableFunctionFromCallables(tag,std::decay_t<decltype(cc)>(cc)...); },proto); };
    if (lvalue==0) { auto f=fromTemporaries(); check(f); auto g=f; check(g); check(std::move(g)); }
    else if (lvalue==1) { auto c=proto; std::apply([&](auto&... cc) { auto f=makeDifferentiableFunctionFromCallables(tag,cc...); check(f); },c); }
    else {
      // the function outlives the callables it was made from
      auto make=[&]{ auto c=std::make_unique<std::tuple<Callable<R,D>...>>(proto); return std::apply([&](auto&... cc) { return makeDifferentiableFunctionFromCallables(tag,cc...); },*c); };
      auto f=make(); check(f); auto g=f; check(g);
    }
    // type erased
    using S=typename Tag::Signature;
    DifferentiableFunction<S> e=fromTemporaries();
    for (auto& x : xs) mc::close(rd(e(x)),3000+arg(x),1e-12,"erased value");
    if constexpr (n>1) { auto de=derivative(e); for (auto& x : xs) mc::close(rd(de(x)),3010+arg(x),1e-12,"erased derivative");
      if constexpr (n>2) { auto dde=derivative(de); for (auto& x : xs) mc::close(rd(dde(x)),3020+arg(x),1e-12,"erased second derivative"); }
      else mc::check(refuses(de),"erased: missing second derivative not refused"); }
    else mc::check(refuses(e),"erased: missing derivative not refused");
    mc::outcome(n*10+lvalue);
  });
}
template<int n> using FV=Dune::FieldVector<double,n>;
template<int m, int n> using FM=Dune::FieldMatrix<double,m,n>;
void explore()
{
  trigAll<-3>();
  static_assert(std::is_same_v<DefaultDerivativeTraits<double(double)>::Range,double>);
  static_assert(std::is_same_v<DefaultDerivativeTraits<double(FV<3>)>::Range,FV<3>>);
  static_assert(std::is_same_v<DefaultDerivativeTraits<FV<2>(FV<3>)>::Range,FM<2,3>>);
  static_assert(std::is_same_v<DefaultDerivativeTraits<FM<1,2>(FV<3>)>::Range,FM<2,3>>);
  std::vector<double> x1={-1,0,2.5}; std::vector<FV<2>> x2={{0.,1.},{2.,-3.}}; std::vector<FV<3>> x3={{0.,1.,5.},{2.,-3.,0.5}};
  auto d=SignatureTag<double(double)>();
  callables<double,double>("R(R)",d,x1); callables<double,double,double>("R(R)",d,x1); callables<double,double,double,double>("R(R)",d,x1); callables<double,double,double,double,double>("R(R)",d,x1);
  auto s2=SignatureTag<double(FV<2>)>();
  callables<FV<2>,double>("R(R2)",s2,x2); callables<FV<2>,double,FV<2>>("R(R2)",s2,x2); callables<FV<2>,double,FV<2>,FM<2,2>>("R(R2)",s2,x2);
  auto v3=SignatureTag<FV<2>(FV<3>)>();
  callables<FV<3>,FV<2>>("R2(R3)",v3,x3); callables<FV<3>,FV<2>,FM<2,3>>("R2(R3)",v3,x3);
}
#endif
MC_MAIN(explore())
