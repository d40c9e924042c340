// Exploration of all leaf bases over all small meshes and numberings.  PROP selects the property decided.
#include <config.h>
#include "leafzoo.hh"
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/functionspacebases/functionaldescriptor.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/functionspacebases/subentitydofs.hh>
#if PROP==7
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#endif
#include <dune/geometry/quadraturerules.hh>
#include <dune/istl/bvector.hh>
#include <optional>
#ifndef PROP
#define PROP 4
#endif
using namespace zoo;
using mc::cat;

template<class B> using Index = typename B::MultiIndex;
template<class I> std::vector<std::size_t> vec(const I& i) { std::vector<std::size_t> r; for (std::size_t k=0;k<i.size();++k) r.push_back(i[k]); return r; }
inline std::string show(const std::vector<std::size_t>& v) { std::string s="("; for (auto x : v) s+=std::to_string(x)+","; return s+")"; }

// ------------------------------------------------------------------ C01
template<class B, class GV>
void indexTree(const B& basis, const GV& gv, const Props& p)
{
  auto lv=basis.localView();
  std::set<std::vector<std::size_t>> all;
  // entity -> indices seen from each adjacent element (via the local keys)
  std::map<std::pair<int,std::size_t>,std::vector<std::set<std::vector<std::size_t>>>> entity;
  std::size_t h=0;
  for (const auto& e : elements(gv)) {
    mc::op("bind"); lv.bind(e); mc::transition();
    mc::check(lv.size()<=lv.maxSize(),[&]{ return cat("local view size ",lv.size()," exceeds maxSize ",lv.maxSize()); });
    const auto& fe=lv.tree().finiteElement();
    mc::equal(lv.size(),fe.size(),"local view size vs finite element size");
    mc::equal(fe.localBasis().size(),fe.size(),"local basis size");
    mc::equal(fe.localCoefficients().size(),fe.size(),"local coefficients size");
    std::set<std::vector<std::size_t>> here;
    std::map<std::pair<int,std::size_t>,std::set<std::vector<std::size_t>>> local;
    for (std::size_t i=0;i<lv.size();++i) {
      auto idx=vec(lv.index(i));
      mc::check(here.insert(idx).second,[&]{ return cat("index ",show(idx)," occurs twice on one element"); });
      all.insert(idx);
      for (auto x : idx) mc::combine(h,x);
      auto key=fe.localCoefficients().localKey(i);
      std::size_t id = e.mesh().ents[key.codim()].at(e.mesh().sub[key.codim()].at(e.number()).at(key.subEntity())).id;
      local[{(int)key.codim(),id}].insert(idx);
    }
    for (auto& [k,s] : local) entity[k].push_back(s);
  }
  mc::outcome(h);
  mc::equal(basis.dimension(),all.size(),"dimension vs number of distinct indices");
  mc::equal(basis.size(),all.size(),"size() vs number of distinct indices");
  std::size_t k=0;
  for (auto& i : all) {
    mc::equal(i.size(),std::size_t(1),"leaf index length");
    mc::equal(i[0],k,"indices are consecutive from zero"); ++k;
    typename B::SizePrefix pre; pre.push_back(i[0]);
    mc::equal(basis.size(pre),std::size_t(0),"size of a full index as prefix");
  }
  // sharing structure: exactly the entity's own indices, from every element the same set
  std::map<std::vector<std::size_t>,std::pair<int,std::size_t>> owner;
  for (auto& [k,sets] : entity) for (auto& s : sets) {
    if (p.conf!=DG) mc::check(s==sets.front(),[&]{ return cat("elements sharing an entity of codim ",k.first," use different indices for it"); });
    for (auto& i : s) {
      auto [it,ins]=owner.insert({i,k});
      mc::check(ins || it->second==k,[&]{ return cat("index ",show(i)," is attached to two different entities"); });
      if (!ins && p.conf==DG && &s!=&sets.front()) mc::fail(cat("discontinuous space shares index ",show(i)));
    }
  }
}

// ------------------------------------------------------------------ C04
// Lagrange elements: equal indices belong to the same node, shared nodes have equal indices
template<class B, class GV>
void nodes(const B& basis, const GV& gv)
{
  constexpr int dim=GV::dimension;
  using X=Dune::FieldVector<double,dim>;
  auto lv=basis.localView();
  std::map<std::vector<long>,std::size_t> byPosition; std::map<std::size_t,std::vector<long>> byIndex;
  std::size_t h=0;
  for (const auto& e : elements(gv)) {
    mc::op("bind"); lv.bind(e); mc::transition();
    auto geo=e.geometry();
    std::vector<std::vector<long>> x; std::vector<double> y;
    lv.tree().finiteElement().localInterpolation().interpolate([&](const X& l) {
      auto g=geo.global(l); std::vector<long> k; for (int d=0;d<dim;++d) k.push_back(std::lround(g[d]*1e7)/10);
      x.push_back(k); return 0.; },y);
    mc::equal(x.size(),lv.size(),"number of Lagrange nodes");
    std::set<std::size_t> here;
    for (std::size_t i=0;i<lv.size();++i) {
      auto idx=lv.index(i)[0];
      mc::check(here.insert(idx).second,"index occurs twice on one element");
      auto near=[](auto& a, auto& b) { for (int d=0;d<dim;++d) if (std::abs(a[d]-b[d])>1) return false; return true; };
      auto [j,n]=byIndex.insert({idx,x[i]});
      mc::check(near(j->second,x[i]),[&]{ return cat("index ",idx," belongs to two different nodes"); });
      auto [k,m]=byPosition.insert({x[i],idx});
      mc::check(k->second==idx,[&]{ return cat("a shared node has the indices ",idx," and ",k->second); });
      mc::combine(h,idx);
    }
  }
  mc::outcome(h);
  mc::equal(basis.dimension(),byIndex.size(),"dimension vs number of distinct indices");
}

template<class B, class GV>
void conformity(const B& basis, const GV& gv, const Props& p)
{
  if (p.nodal) { if constexpr (requires { basis.preBasis().order(); }) return nodes(basis,gv); }
  constexpr int dim=GV::dimension;
  auto lin=basis.localView(), lout=basis.localView();
  std::size_t h=0;
  for (const auto& e : elements(gv)) for (const auto& is : intersections(gv,e)) {
    if (!is.neighbor()) continue;
    mc::op("bind both sides"); lin.bind(is.inside()); lout.bind(is.outside()); mc::transition(2);
    const auto& f1=lin.tree().finiteElement(); const auto& f2=lout.tree().finiteElement();
    std::map<std::vector<std::size_t>,std::pair<int,int>> g;
    for (std::size_t i=0;i<lin.size();++i) { g.insert({vec(lin.index(i)),{-1,-1}}).first->second.first=i; mc::combine(h,lin.index(i)[0]); }
    for (std::size_t i=0;i<lout.size();++i) { g.insert({vec(lout.index(i)),{-1,-1}}).first->second.second=i; mc::combine(h,lout.index(i)[0]); }
    if (p.conf==DG) {
      for (auto& [i,q] : g) mc::check(q.first<0||q.second<0,[&]{ return cat("discontinuous space shares index ",show(i)," between elements"); });
      continue;
    }
    // evaluate a list of functionals (traces) of all shape functions of one side at a face point
    auto g1=is.inside().geometry(), g2=is.outside().geometry();
    auto cmp=[&](const std::vector<std::vector<double>>& t1, const std::vector<std::vector<double>>& t2, const char* what, double tol) {
      bool any=false;
      for (auto& [i,q] : g) {
        std::size_t n = t1.empty()? t2[0].size() : t1[0].size();
        for (std::size_t r=0;r<n;++r) {
          double a = q.first>=0 ? t1[q.first][r] : 0., b = q.second>=0 ? t2[q.second][r] : 0.;
          if (std::abs(a)>1e-9) any=true;
          mc::close(a,b,tol,[&]{ return cat(what," of basis function ",show(i)," jumps across the face (component ",r,", faces ",is.indexInInside(),"/",is.indexInOutside(),")"); });
        }
      }
      return any;
    };
    auto traceOf=[&](const auto& fe, const auto& x, const auto& n) {
      auto v=ev::values(fe,x);
      if (p.conf==NORMAL) { for (auto& w : v) { double s=0; for (int d=0;d<dim;++d) s+=w[d]*n[d]; w={s}; } }
      if (p.conf==TANGENTIAL) { for (auto& w : v) { double s=0; for (int d=0;d<dim;++d) s+=w[d]*n[d]; for (int d=0;d<dim;++d) w[d]-=s*n[d]; } }
      return v;
    };
    auto gradOf=[&](const auto& fe, const auto& x, const auto& geo) {
      auto J=ev::jacobians(fe,x); auto Ji=geo.jacobianInverse(x);
      std::vector<std::vector<double>> r(J.size());
      for (std::size_t i=0;i<J.size();++i) for (int d=0;d<dim;++d) { double s=0; for (int l=0;l<dim;++l) s+=J[i][0][l]*Ji[l][d]; r[i].push_back(s); }
      return r;
    };
    auto hessOf=[&](const auto& fe, const auto& x, const auto& geo) {
      std::vector<std::vector<std::vector<double>>> H(dim); // H[d][i][c]: d-th local derivative of the global gradient
      for (int d=0;d<dim;++d) H[d]=ev::fd([&](auto y){ return gradOf(fe,y,geo); },x,d);
      auto Ji=geo.jacobianInverse(x);
      std::vector<std::vector<double>> r(H[0].size());
      for (std::size_t i=0;i<r.size();++i) for (int c=0;c<dim;++c) for (int d=0;d<dim;++d) { double s=0; for (int l=0;l<dim;++l) s+=H[l][i][c]*Ji[l][d]; r[i].push_back(s); }
      return r;
    };
    bool any=false;
    auto go=is.geometryInInside(), gO=is.geometryInOutside();
    if (p.conf==C0||p.conf==NORMAL||p.conf==TANGENTIAL||p.conf==HERMITE||p.conf==ARGYRIS) {
      for (auto& s : ev::lattice<dim-1>(is.type(),std::max(p.degree,1)+2)) {
        // keep away from the skeleton of the face where composite elements are multi-valued
        auto t=s; if (p.conf==NORMAL||p.conf==TANGENTIAL) for (int d=0;d<dim-1;++d) t[d]=0.94*s[d]+0.013*(d+1);
        auto x1=go.global(t), x2=gO.global(t);
        auto n=is.unitOuterNormal(t);
        any = cmp(traceOf(f1,x1,n),traceOf(f2,x2,n),p.conf==NORMAL?"normal trace":p.conf==TANGENTIAL?"tangential trace":"trace",1e-9) || any;
        if (p.conf==ARGYRIS) cmp(gradOf(f1,x1,g1),gradOf(f2,x2,g2),"gradient",1e-8);
      }
    }
    if (p.conf==HERMITE||p.conf==ARGYRIS||p.conf==MORLEY) {
      for (auto& s : ev::lattice<dim-1>(is.type(),1)) {
        auto x1=go.global(s), x2=gO.global(s);
        any = cmp(ev::values(f1,x1),ev::values(f2,x2),"vertex value",1e-9) || any;
        if (p.conf!=MORLEY) cmp(gradOf(f1,x1,g1),gradOf(f2,x2,g2),"vertex gradient",1e-8);
        if (p.conf==ARGYRIS) cmp(hessOf(f1,x1,g1),hessOf(f2,x2,g2),"vertex Hessian",1e-6);
      }
    }
    if (p.conf==MORLEY) {
      auto s=Dune::ReferenceElements<double,dim-1>::general(is.type()).position(0,0);
      auto n=is.centerUnitOuterNormal();
      auto nd=[&](const auto& fe, const auto& x, const auto& geo) { auto r=gradOf(fe,x,geo); for (auto& w : r) { double q=0; for (int d=0;d<dim;++d) q+=w[d]*n[d]; w={q}; } return r; };
      any = cmp(nd(f1,go.global(s),g1),nd(f2,gO.global(s),g2),"midpoint normal derivative",1e-9) || any;
    }
    if (p.conf==FACEMID) {
      auto s=Dune::ReferenceElements<double,dim-1>::general(is.type()).position(0,0);
      any = cmp(ev::values(f1,go.global(s)),ev::values(f2,gO.global(s)),"face midpoint value",1e-9);
    }
    mc::check(any,"no basis function has a nonzero trace on an interior face");
  }
  mc::outcome(h);
}

// ------------------------------------------------------------------ C05
// callable in local coordinates (scalar or vector) whose derivatives are central differences (exact for the polynomials used)
template<class R, class X, class V, class Geo>
struct LocalCallable
{
  V v; const Geo* geo;   // v(x): std::vector<std::vector<double>> with one row
  R operator()(const X& x) const { auto a=v(x)[0]; R r; if constexpr (requires { r[0]; }) for (std::size_t i=0;i<a.size();++i) r[i]=a[i]; else r=a[0]; return r; }
  struct D2 {
    V v; const Geo* geo;
    Dune::FieldMatrix<double,X::dimension,X::dimension> operator()(const X& x) const {
      constexpr int dim=X::dimension;
      Dune::FieldMatrix<double,dim,dim> H;
      for (int d=0;d<dim;++d) {
        auto g=ev::fd([&](auto y){ std::vector<std::vector<double>> r(1); for (int c=0;c<dim;++c) r[0].push_back(ev::fd(v,y,c)[0][0]); return r; },x,d);
        for (int c=0;c<dim;++c) H[c][d]=g[0][c];
      }
      auto Ji=geo->jacobianInverse(x);
      Dune::FieldMatrix<double,dim,dim> G(0);
      for (int a=0;a<dim;++a) for (int b=0;b<dim;++b) for (int c=0;c<dim;++c) for (int d=0;d<dim;++d) G[a][b]+=Ji[c][a]*H[c][d]*Ji[d][b];
      return G;
    }
  };
  struct D1 {
    V v; const Geo* geo;
    Dune::FieldMatrix<double,1,X::dimension> operator()(const X& x) const {
      Dune::FieldMatrix<double,1,X::dimension> g(0);
      auto Ji=geo->jacobianInverse(x);
      for (int l=0;l<X::dimension;++l) { double q=ev::fd(v,x,l)[0][0]; for (int d=0;d<X::dimension;++d) g[0][d]+=q*Ji[l][d]; }
      return g;
    }
    friend D2 derivative(const D1& d) { return {d.v,d.geo}; }
  };
  friend D1 derivative(const LocalCallable& f) { return {f.v,f.geo}; }
};
// global polynomial with (global) derivatives, usable with interpolate()
template<int dim>
struct Mono
{
  std::array<int,dim> a; std::array<int,dim> der{}; double c=1; Dune::FieldVector<double,dim> x0=Dune::FieldVector<double,dim>(0);
  double operator()(const Dune::FieldVector<double,dim>& y) const {
    auto x=y; x-=x0;
    double r=c; for (int d=0;d<dim;++d) { int p=a[d]; for (int k=0;k<der[d];++k) r*=p--; if (p<0) return 0; for (int k=0;k<p;++k) r*=x[d]; } return r;
  }
  struct H { Mono m; Dune::FieldMatrix<double,dim,dim> operator()(const Dune::FieldVector<double,dim>& x) const {
      Dune::FieldMatrix<double,dim,dim> r; for (int i=0;i<dim;++i) for (int j=0;j<dim;++j) { auto q=m; q.der[i]++; q.der[j]++; r[i][j]=q(x); } return r; } };
  struct G { Mono m; auto operator()(const Dune::FieldVector<double,dim>& x) const {
      Dune::FieldVector<double,dim> r; for (int i=0;i<dim;++i) { auto q=m; q.der[i]++; r[i]=q(x); } return r; }
      friend H derivative(const G& g) { return {g.m}; } };
  friend G derivative(const Mono& m) { return {m}; }
};
template<int dim> struct VectorMono { Mono<dim> m; int comp; Dune::FieldVector<double,dim> operator()(const Dune::FieldVector<double,dim>& x) const { Dune::FieldVector<double,dim> r(0); r[comp]=m(x); return r; } };

template<int dim, class F> void forEachMonomial(int deg, F&& f)
{
  std::array<int,dim> a{};
  while (true) {
    int s=0; for (int x : a) s+=x;
    if (s<=deg) f(a);
    int d=0; while (d<dim && ++a[d]>deg) a[d++]=0;
    if (d==dim) break;
  }
}

// a global function seen from an element: local coordinates, global derivatives
template<class F, class Geo>
struct OnElement
{
  F f; Geo geo;
  template<class X> auto operator()(const X& x) const { return f(geo.global(x)); }
  friend auto derivative(const OnElement& o) requires requires(F f) { derivative(f); } { auto d=derivative(o.f); return OnElement<decltype(d),Geo>{d,o.geo}; }
};

// elements that describe their degrees of freedom: the functional is what its description says
template<class B, class GV>
void descriptors(const B& basis, const GV& gv)
{
  constexpr int dim=GV::dimension;
  auto lv=basis.localView();
  for (const auto& e : elements(gv)) {
    lv.bind(e); mc::transition();
    const auto& fe=lv.tree().finiteElement();
    auto geo=e.geometry();
    if constexpr (requires { fe.localInterpolation().functionalDescriptor(0); }) {
      mc::op("functional descriptors");
      auto ref=referenceElement(geo);
      for (std::size_t i=0;i<fe.size();++i) {
        const auto& d=fe.localInterpolation().functionalDescriptor(i);
        auto key=fe.localCoefficients().localKey(i);
        auto x0=geo.global(ref.position(key.subEntity(),key.codim()));
        unsigned int order=0; for (int k=0;k<dim;++k) order+=d.partialDerivativeOrder()[k];
        mc::check(d.isPartialDerivative()==(order>0),"isPartialDerivative()");
        mc::check(d.isNormalDerivative()==(d.normalDerivativeOrder()>0),"isNormalDerivative()");
        mc::check(!(d.isNormalDerivative() && d.isPartialDerivative()),"a partial or a normal derivative");
        mc::check(d.normalDerivativeOrder()<=1,"normal derivatives of order one");
        Dune::FieldVector<double,dim> normal(0), grad(0);
        if (d.isNormalDerivative()) {
          mc::check(key.codim()==dim-1,"normal derivatives belong to edges");
          if constexpr (dim==2) {
            auto t=geo.corner(ref.subEntity(key.subEntity(),1,1,2))-geo.corner(ref.subEntity(key.subEntity(),1,0,2));
            normal={t[1],-t[0]}; normal/=normal.two_norm();
          }
        }
        forEachMonomial<dim>(3,[&](auto a) {
          Mono<dim> f{a}; f.x0=x0;
          std::vector<double> c; fe.localInterpolation().interpolate(OnElement<Mono<dim>,decltype(geo)>{f,geo},c);
          int deg=0, which=0; bool same=true;
          for (int k=0;k<dim;++k) { deg+=a[k]; if (a[k]) which=k; same = same && a[k]==int(d.partialDerivativeOrder()[k]); }
          auto what=[&]{ std::string m; for (int q : a) m+=std::to_string(q); return cat("functional ",i," of monomial ",m," at its node"); };
          if (d.isNormalDerivative()) { if (deg==1) grad[which]=c[i]; else mc::close(c[i],0.,1e-9,what); }
          else if (!same) mc::close(c[i],0.,1e-9,what);
          else if (deg==0) mc::close(c[i],1.,1e-12,what);
          else mc::check(c[i]>1e-6,what);      // derivatives may be scaled by mesh sizes
        });
        if constexpr (dim==2) if (d.isNormalDerivative()) {
          mc::check(std::abs(grad*normal)>1e-6,"normal derivative of linear functions");
          mc::close(grad[0]*normal[1]-grad[1]*normal[0],0.,1e-9,"tangential part of a normal derivative");
        }
      }
    }
  }
}

template<bool localOnly, class B, class GV>
void interpolation(const B& basis, const GV& gv, const Props& p, bool affine, int degree)
{
  constexpr int dim=GV::dimension;
  auto lv=basis.localView();
  std::size_t h=0;
  for (const auto& e : elements(gv)) {
    mc::op("bind"); lv.bind(e); mc::transition();
    const auto& fe=lv.tree().finiteElement();
    using T=ev::Traits<decltype(fe)>;
    auto geo=e.geometry();
    std::map<std::vector<double>,std::vector<std::vector<double>>> memo;
    for (std::size_t i=0;i<fe.size();++i) {
      auto v=[&](const auto& x) {
        std::vector<double> k(x.begin(),x.end());
        auto it=memo.find(k); if (it==memo.end()) it=memo.insert({k,ev::values(fe,x)}).first;
        return std::vector<std::vector<double>>{it->second[i]}; };
      LocalCallable<typename T::RangeType,typename T::DomainType,decltype(v),decltype(geo)> f{v,&geo};
      std::vector<double> c;
      mc::op("local interpolation of a shape function");
      fe.localInterpolation().interpolate(f,c);
      mc::equal(c.size(),fe.size(),"number of interpolation coefficients");
      for (std::size_t j=0;j<c.size();++j) mc::close(c[j],i==j?1.:0.,2e-8,[&]{ return cat("coefficient ",j," of the interpolation of shape function ",i); });
    }
  }
  if (!affine) return;
  // reproduction of polynomials by the global interpolation
  Dune::BlockVector<double> x;
  forEachMonomial<dim>(degree,[&](auto a) {
    auto test=[&](auto&& f, auto&& comp) {
      x=0.;
      mc::op("global interpolate"); mc::transition();
      if constexpr (localOnly) {   // the global interpolation needs more derivatives than it forwards: assemble element by element
        x.resize(basis.dimension());
        for (const auto& e : elements(gv)) {
          lv.bind(e); auto geo=e.geometry(); const auto& fe=lv.tree().finiteElement();
          std::vector<double> c; fe.localInterpolation().interpolate(OnElement<std::decay_t<decltype(f)>,decltype(geo)>{f,geo},c);
          for (std::size_t i=0;i<lv.size();++i) x[lv.index(i)[0]]=c[i];
        }
      }
      else Dune::Functions::interpolate(basis,x,f);
      mc::equal(x.size(),basis.dimension(),"size of interpolated vector");
      for (const auto& e : elements(gv)) {
        lv.bind(e); auto geo=e.geometry(); const auto& fe=lv.tree().finiteElement();
        for (auto& xi : ev::interiorPoints<dim>(e.type(),3)) {
          auto v=ev::values(fe,xi);
          std::vector<double> s(v[0].size(),0.);
          for (std::size_t i=0;i<lv.size();++i) for (std::size_t r=0;r<s.size();++r) s[r]+=x[lv.index(i)[0]]*v[i][r];
          for (std::size_t r=0;r<s.size();++r) mc::close(s[r],comp(f(geo.global(xi)),r),1e-9,[&]{ std::string m; for (int q : a) m+=std::to_string(q); return cat("interpolant of monomial ",m," component ",r); });
          for (double q : s) mc::combine(h,q);
        }
      }
    };
    using R=typename ev::Traits<decltype(lv.tree().finiteElement())>::RangeType;
    if constexpr (R::dimension==1) test(Mono<dim>{a},[](double v,int){ return v; });
    else for (int c=0;c<dim;++c) test(VectorMono<dim>{{a},c},[](auto v,int r){ return v[r]; });
  });
  mc::outcome(h);
}

// ------------------------------------------------------------------ C08
template<class B, class GV>
void derivatives(const B& basis, const GV& gv, const Props& p, bool affine)
{
  constexpr int dim=GV::dimension;
  auto lv=basis.localView();
  std::size_t h=0;
  for (const auto& e : elements(gv)) {
    mc::op("bind"); lv.bind(e); mc::transition();
    const auto& fe=lv.tree().finiteElement();
    using T=ev::Traits<decltype(fe)>;
    const auto& lb=fe.localBasis();
    auto pts=ev::interiorPoints<dim>(e.type(),3);
    for (auto& x : pts) {
      auto V=[&](auto y){ return ev::values(fe,y); };
      std::vector<std::vector<std::vector<double>>> d1(dim);
      for (int d=0;d<dim;++d) d1[d]=ev::fd(V,x,d);
      mc::op("evaluateJacobian");
      auto J=ev::jacobians(fe,x);
      mc::equal(J.size(),fe.size(),"number of Jacobians");
      for (std::size_t i=0;i<J.size();++i) for (int r=0;r<(int)T::dimRange;++r) for (int d=0;d<dim;++d) {
        mc::close(J[i][r][d],d1[d][i][r],1e-8,[&]{ return cat("Jacobian of shape function ",i," component ",r," direction ",d); });
        mc::combine(h,J[i][r][d]);
      }
      // partial derivatives of every order up to 3: anchored at the values, each compared with the difference of a lower one
      auto part=[&](std::array<unsigned int,dim> o, const auto& y) {
        std::vector<typename T::RangeType> out;
        lb.partial(o,y,out);
        std::vector<std::vector<double>> r(out.size());
        for (std::size_t i=0;i<out.size();++i) for (int j=0;j<(int)T::dimRange;++j) r[i].push_back(ev::comp(out[i],j));
        return r;
      };
      // dune-localfunctions' RefinedP1LocalBasis<D,R,3>::partial and HierarchicalSimplexP2WithElementBubbleLocalBasis::partial
      // are wrong by themselves (not part of this repository); their Jacobians are checked above
      if ((dim==3 && p.name=="refinedLagrange<1>") || p.name=="hierarchicalP2B") continue;
      // elements taken unchanged from dune-localfunctions (family 4): first order only, higher orders are that library's business
      forEachMonomial<dim>(FAMILY==4 ? 1 : 3,[&](auto a) {
        std::array<unsigned int,dim> o; int total=0; for (int d=0;d<dim;++d) { o[d]=a[d]; total+=a[d]; }
        mc::op("partial");
        std::vector<std::vector<double>> got;
        try { got=part(o,x); } catch (const std::exception&) { mc::check(total>=2,"first order partial derivatives are refused"); return; }
        std::vector<std::vector<double>> ref;
        if (total==0) ref=ev::values(fe,x);
        else {
          int d=0; while (o[d]==0) ++d;
          auto lower=o; lower[d]--;
          try { ref=ev::fd([&](auto y){ return part(lower,y); },x,d); } catch (const std::exception&) { return; }
        }
        mc::equal(got.size(),fe.size(),"number of partial derivatives");
        for (std::size_t i=0;i<got.size();++i) for (std::size_t r=0;r<got[i].size();++r)
          mc::close(got[i][r],ref[i][r],1e-6,[&]{ std::string m; for (int q : a) m+=std::to_string(q); return cat("partial derivative ",m," of shape function ",i," component ",r); });
      });
      if constexpr (requires (std::vector<typename T::HessianType>& H) { lb.evaluateHessian(x,H); }) {
        std::vector<typename T::HessianType> H; lb.evaluateHessian(x,H);
        mc::equal(H.size(),fe.size(),"number of Hessians");
        for (int d=0;d<dim;++d) {
          auto g=ev::fd([&](auto y){ auto J=ev::jacobians(fe,y); std::vector<std::vector<double>> r; for (auto& q : J) r.push_back(q[0]); return r; },x,d);
          for (std::size_t i=0;i<H.size();++i) for (int c=0;c<dim;++c) mc::close(H[i][c][d],g[i][c],1e-6,[&]{ return cat("Hessian entry ",c,",",d," of shape function ",i); });
        }
      }
    }
  }
  mc::outcome(h);
}

// ------------------------------------------------------------------ C07
#if PROP==7
template<class B, class GV>
void discreteFunctions(const B& basis, const GV& gv, const Props& p, bool derivatives)
{
  namespace F=Dune::Functions;
  constexpr int dim=GV::dimension;
  auto lv=basis.localView(); std::size_t h=0;
  lv.bind(*elements(gv).begin());
  using SR=typename ev::Traits<decltype(lv.tree().finiteElement())>::RangeType;
  constexpr int sr=SR::dimension;
  using Element=typename GV::template Codim<0>::Entity;
  std::vector<Element> elems; for (const auto& e : elements(gv)) elems.push_back(e);
  // reference: values and global Jacobians of all shape functions
  struct T { std::vector<std::size_t> index; std::vector<std::vector<std::vector<double>>> v; std::vector<std::vector<std::vector<std::vector<double>>>> J; std::vector<Dune::FieldVector<double,dim>> x; };
  std::vector<T> table;
  for (auto& e : elems) {
    lv.bind(e); T t; const auto& fe=lv.tree().finiteElement();
    for (std::size_t i=0;i<lv.size();++i) t.index.push_back(lv.index(i)[0]);
    t.x=ev::interiorPoints<dim>(e.type(),2);
    for (auto& x : t.x) {
      t.v.push_back(ev::values(fe,x));
      auto J=ev::jacobians(fe,x); auto Ji=e.geometry().jacobianInverse(x);
      for (auto& a : J) for (auto& row : a) { std::vector<double> g(dim,0.); for (int l=0;l<dim;++l) for (int d=0;d<dim;++d) g[d]+=row[l]*Ji[l][d]; row=g; }
      t.J.push_back(J);
    }
    table.push_back(t);
  }
  // coefficient component cc of dof i
  auto run=[&](auto rangeTag, auto coeffTag, std::size_t unit, auto&& entry, auto&& dentry) {
    using R=typename decltype(rangeTag)::type; using C=typename decltype(coeffTag)::type;
    constexpr int cd=[]{ if constexpr (std::is_arithmetic_v<C>) return 1; else return int(C::dimension); }();
    std::vector<C> x(basis.dimension());
    auto coeff=[&](std::size_t i, int c) { double v= unit==std::size_t(-1) ? 0.5+1.25*double(i)*(i%2?1:-1)+0.3*c : (i==unit?1.+2*c:0.); return v; };
    for (std::size_t i=0;i<x.size();++i) { if constexpr (cd==1 && std::is_arithmetic_v<C>) x[i]=coeff(i,0); else for (int c=0;c<cd;++c) x[i][c]=coeff(i,c); }
    mc::op("makeDiscreteGlobalBasisFunction"); mc::transition();
    auto f=F::makeDiscreteGlobalBasisFunction<R>(basis,x);
    auto lf=localFunction(f);
    for (std::size_t a=0;a<elems.size();++a) for (std::size_t b=0;b<elems.size();++b) for (std::size_t k : {a,b}) {
      lf.bind(elems[k]); mc::transition();
      for (std::size_t q=0;q<table[k].x.size();++q) {
        R y=lf(table[k].x[q]);
        for (int c=0;c<cd;++c) for (int r=0;r<sr;++r) {
          double e=0; for (std::size_t i=0;i<table[k].index.size();++i) e+=coeff(table[k].index[i],c)*table[k].v[q][i][r];
          mc::close(entry(y,c,r),e,1e-11,[&]{ return cat("value (coefficient component ",c,", shape function component ",r,") on element ",k," with unit coefficient ",(long)unit); });
          mc::combine(h,e);
        }
        if constexpr (!std::is_same_v<std::decay_t<decltype(dentry)>,std::nullptr_t>) if (derivatives) {
          auto df=derivative(f); auto dlf=localFunction(df); dlf.bind(elems[(k+1)%elems.size()]); dlf.bind(elems[k]);
          auto cmp=[&](const auto& D, const char* how) {
            for (int c=0;c<cd;++c) for (int r=0;r<sr;++r) for (int d=0;d<dim;++d) {
              double e=0; for (std::size_t i=0;i<table[k].index.size();++i) e+=coeff(table[k].index[i],c)*table[k].J[q][i][r][d];
              mc::close(dentry(D,c,r,d),e,1e-10,[&]{ return cat(how," (coefficient component ",c,", shape function component ",r,", direction ",d,") on element ",k," with unit coefficient ",(long)unit); });
            } };
          cmp(dlf(table[k].x[q]),"derivative"); cmp(derivative(lf)(table[k].x[q]),"derivative of the local function");
        }
      }
    }
    // changed coefficients take effect at the next binding, also to the element bound last
    for (std::size_t k=0;k<elems.size();++k) for (double scale : {-3.,2.}) {
      lf.bind(elems[k]);
      for (std::size_t i=0;i<x.size();++i) { if constexpr (cd==1 && std::is_arithmetic_v<C>) x[i]=scale*coeff(i,0); else for (int c=0;c<cd;++c) x[i][c]=scale*coeff(i,c); }
      mc::op("rebind after a change of the coefficients"); mc::transition(2); lf.bind(elems[k]);
      R y=lf(table[k].x[0]);
      for (int c=0;c<cd;++c) for (int r=0;r<sr;++r) {
        double e=0; for (std::size_t i=0;i<table[k].index.size();++i) e+=scale*coeff(table[k].index[i],c)*table[k].v[0][i][r];
        mc::close(entry(y,c,r),e,1e-11,[&]{ return cat("value (coefficient component ",c,", shape function component ",r,") on element ",k," rebound after a change of the coefficients (unit coefficient ",(long)unit," scaled by ",scale,")"); });
      }
    }
  };
  auto jac=[](const auto& D, int row, int d) -> double { if constexpr (requires { D[0][0]; }) return D[row][d]; else return D[d]; };
  auto all=[&](std::size_t u, bool wide) {
    if constexpr (sr==1) {
      run(std::type_identity<double>{},std::type_identity<double>{},u,[](auto& y,int,int){ return y; },[&](auto& D,int,int,int d){ return jac(D,0,d); });
      if (wide) {
        run(std::type_identity<Dune::FieldVector<double,2>>{},std::type_identity<Dune::FieldVector<double,2>>{},u,[](auto& y,int c,int){ return y[c]; },[&](auto& D,int c,int,int d){ return jac(D,c,d); });
        run(std::type_identity<std::array<Dune::FieldVector<double,1>,3>>{},std::type_identity<Dune::FieldVector<double,3>>{},u,[](auto& y,int c,int){ return y[c][0]; },nullptr);
      }
    } else {
      run(std::type_identity<Dune::FieldVector<double,sr>>{},std::type_identity<double>{},u,[](auto& y,int,int r){ return y[r]; },[&](auto& D,int,int r,int d){ return jac(D,r,d); });
      if (wide) run(std::type_identity<Dune::FieldMatrix<double,2,sr>>{},std::type_identity<Dune::FieldVector<double,2>>{},u,[](auto& y,int c,int r){ return y[c][r]; },nullptr);
    }
  };
  std::size_t n=basis.dimension();
  for (std::size_t u=0;u<n;u+=(mc::thorough()?1:std::max<std::size_t>(1,n/12))) all(u,false);
  all(-1,true); all(n-1,true);
  mc::outcome(h);
}
#endif

// ------------------------------------------------------------------ C12
template<class B, class GV>
void subEntities(const B& basis, const GV& gv)
{
  namespace F=Dune::Functions;
  constexpr int dim=GV::dimension;
  auto lv=basis.localView(); std::size_t h=0;
  auto reused=F::subEntityDOFs(basis);
  std::map<std::tuple<std::size_t,int,std::size_t>,int> expected; std::set<std::vector<std::size_t>> expectedIndex;
  for (const auto& e : elements(gv)) {
    lv.bind(e); mc::transition();
    auto re=Dune::ReferenceElements<double,dim>::general(e.type());
    const auto& lc=lv.tree().finiteElement().localCoefficients();
    auto expect=[&](int i, int c) {
      std::set<int> s; for (int v=0;v<re.size(i,c,dim);++v) s.insert(re.subEntity(i,c,v,dim));
      std::set<std::size_t> r;
      for (std::size_t k=0;k<lv.size();++k) { auto key=lc.localKey(k); bool in=true;
        for (int v=0;v<re.size(key.subEntity(),key.codim(),dim);++v) in = in && s.count(re.subEntity(key.subEntity(),key.codim(),v,dim));
        if (in) r.insert(k); }
      return r; };
    auto compare=[&](const auto& r, const std::set<std::size_t>& exp, int i, int c) {
      std::vector<std::size_t> got(r.begin(),r.end()); std::set<std::size_t> gs(got.begin(),got.end());
      mc::equal(got.size(),gs.size(),"a dof is listed twice");
      mc::check(gs==exp,[&]{ return cat("dofs of sub-entity ",i," of codimension ",c,": got ",gs.size(),", expected ",exp.size()); });
      for (std::size_t k=0;k<lv.size();++k) mc::equal(r.contains(k),bool(exp.count(k)),"contains()");
      for (auto k : gs) mc::combine(h,k); };
    for (int c=0;c<=dim;++c) for (int i=0;i<re.size(c);++i) {
      mc::op("subEntityDOFs"); mc::transition();
      compare(F::subEntityDOFs(lv,i,c),expect(i,c),i,c); compare(reused.bind(lv,i,c),expect(i,c),i,c); }
    for (const auto& is : intersections(gv,e)) {
      compare(reused.bind(lv,is),expect(is.indexInInside(),1),is.indexInInside(),1);
      if (is.boundary()) for (auto k : expect(is.indexInInside(),1)) { ++expected[{gv.indexSet().index(e)+100*e.type().id(),is.indexInInside(),k}]; expectedIndex.insert(vec(lv.index(k))); }
    }
  }
  mc::op("forEachBoundaryDOF"); mc::transition(2);
  std::map<std::tuple<std::size_t,int,std::size_t>,int> b; std::set<std::vector<std::size_t>> bi;
  F::forEachBoundaryDOF(basis,[&](auto&& li, auto&& v, auto&& is) { ++b[{gv.indexSet().index(v.element())+100*v.element().type().id(),is.indexInInside(),li}]; });
  mc::check(b==expected,"forEachBoundaryDOF(local,view,intersection) visits other dofs");
  F::forEachBoundaryDOF(basis,[&](auto&& i) { bi.insert(vec(i)); });
  mc::check(bi==expectedIndex,"forEachBoundaryDOF(index) visits other dofs");
  mc::outcome(h);
}

// ------------------------------------------------------------------ C21
// Construction, update or bind refuse a configuration with an exception, or the basis is a correct one.
// What construction refuses, update refuses as well.
#if PROP==21
template<int dim, int kind>
void refusal(const Props& p, const std::string& name, const std::vector<std::pair<std::string,typename Dune::MockGrid<dim,kind>::Spec>>& others,
             const typename Dune::MockGrid<dim,kind>::Spec& spec, auto&& factory)
{
  using Grid=Dune::MockGrid<dim,kind>;
  auto decide=[&](auto&& make) {
    Grid grid(spec); auto gv=grid.leafGridView();
    using Basis=decltype(Dune::Functions::BasisFactory::makeBasis(gv,factory));
    std::optional<Basis> basis;
    bool refused=false;
    try {
      make(basis,gv);
      mc::op("bind"); auto lv=basis->localView(); for (const auto& e : elements(gv)) { lv.bind(e); mc::transition(); }
    } catch (const Dune::Exception&) { refused=true; }
    mc::outcome(refused); mc::check(true,"");
    if (!refused) { indexTree(*basis,gv,p); conformity(*basis,gv,p); }
  };
  mc::state(name,[&]{
    decide([&](auto& b, auto& gv) { mc::op("construct basis"); mc::transition(); b.emplace(Dune::Functions::BasisFactory::makeBasis(gv,factory)); });
  });
  for (auto& [n,s] : others) mc::state(name+"/from/"+n,[&,s=s]{
    Grid first(s);
    decide([&](auto& b, auto& gv) {
      mc::op("construct basis"); b.emplace(Dune::Functions::BasisFactory::makeBasis(first.leafGridView(),factory));
      auto lv=b->localView(); for (const auto& e : elements(first.leafGridView())) lv.bind(e);
      // update() refuses the grids the constructor refuses
      bool constructible=true, updated=true;
      try { Dune::Functions::BasisFactory::makeBasis(gv,factory); } catch (const Dune::Exception&) { constructible=false; }
      mc::op("update basis"); mc::transition();
      try { b->update(gv); } catch (const Dune::Exception&) { updated=false; }
      mc::check(updated==constructible,[&]{ return cat("the constructor ",constructible?"accepts":"refuses"," this grid, update() ",updated?"accepts":"refuses"," it"); });
      if (!updated) DUNE_THROW(Dune::NotImplemented,"refused by update()");
    });
  });
}
#endif

template<int dim, int kind>
void explore(const Props& p, const std::string& name, const typename Dune::MockGrid<dim,kind>::Spec& spec, bool affine, auto&& factory)
{
  mc::state(name,[&]{
    Dune::MockGrid<dim,kind> grid(spec);
    auto gv=grid.leafGridView();
    mc::op("construct basis"); mc::transition();
    auto basis=Dune::Functions::BasisFactory::makeBasis(gv,factory);
#if PROP==1
    indexTree(basis,gv,p);
#elif PROP==4
    conformity(basis,gv,p);
#elif PROP==5
    // composite elements on pyramids contain linear functions only; RT1 on hexahedra relies on aligned neighbours
    int degree=p.degree;
    if (name.find("pyramid")!=std::string::npos) degree=std::min(degree,1);
    bool reproduce=affine;
    if (dim==3 && p.name=="raviartThomas<1>" && name.find("/p0,0/")==std::string::npos) reproduce=false;
    if (p.positiveOnly && name.find("/o++")==std::string::npos) reproduce=false;
    interpolation<FAMILY==8>(basis,gv,p,reproduce,degree);
    descriptors(basis,gv);
#elif PROP==8
    derivatives(basis,gv,p,affine);
#elif PROP==7
    discreteFunctions(basis,gv,p,affine || !(p.conf==NORMAL||p.conf==TANGENTIAL));
#elif PROP==12
    subEntities(basis,gv);
#endif
  });
}

int main(int argc, char** argv)
{
  mc::init(argc,argv); MC_SANITIZER_INIT;
  zoo::forEach([&](auto dimC, auto kindC, const Props& p, auto factory) {
    constexpr int dim=decltype(dimC)::value, kind=decltype(kindC)::value;
    for (int affine=0;affine<2;++affine) {
      if (dim!=2 && affine==0) continue;         // only 2d quadrilaterals come in a non-affine version
      for (auto& m : meshes::pairsOf<dim>(affine)) {
        if (dim==2 && affine==0 && meshes::isSimplexPair(m.name)) continue;
        if (kind==1 && !meshes::isSimplexPair(m.name)) continue;
        if (kind==2 && !meshes::isCubePair(m.name)) continue;
#if PROP!=21
        if (!accepts(p,m.name)) continue;
#endif
        if (p.affineOnly && !affine) continue;
#if PROP==8   // documented restriction: derivatives of Piola transformed elements need affine geometries
        if ((p.conf==NORMAL||p.conf==TANGENTIAL) && !affine) continue;
#endif
#if PROP==21  // nor are Piola transformed and nonconforming elements conforming on bilinear quadrilaterals
        if ((p.conf==NORMAL||p.conf==TANGENTIAL||p.conf==FACEMID) && !affine) continue;
#endif
        bool isAffine = affine;
        std::string pre=cat(dim,"d/",kind==0?"mixed":kind==1?"simplex":"cube","/",p.name,affine?"":"/bilinear","/");
        if (!mc::group(pre)) continue;
        bool full = mc::thorough() || dim<3;
        int maxNum = 1000;
#if PROP==5 || PROP==8
        full=mc::thorough(); maxNum = mc::thorough() ? 1000 : 2;
#endif
#if PROP==7 || PROP==12 || PROP==21
        full=mc::thorough(); maxNum = mc::thorough() ? 2 : 1;
#endif
        if (p.nodal) { full=mc::thorough() && p.degree<10; maxNum = mc::thorough() ? 2 : 1; }
        meshes::forEachNumbering<dim>(m,[&](const std::string& n, const auto& spec) {
          std::string o;
          if (p.positiveOnly) { Dune::MockGrid<dim,kind> g(spec); for (const auto& e : elements(g.leafGridView())) o+=ev::positivelyOriented(e.geometry())?"+":"-"; o="/o"+o; }
#if PROP==21
          std::vector<std::pair<std::string,typename Dune::MockGrid<dim,kind>::Spec>> others;
          for (auto& q : meshes::pairsOf<dim>(true))
            if (mc::thorough() || meshes::isSimplexPair(q.name) || meshes::isCubePair(q.name) || q.name=="quad-tri" || q.name=="prism-hex")
            if (kind==0 || (kind==1 && meshes::isSimplexPair(q.name)) || (kind==2 && meshes::isCubePair(q.name))) others.push_back({q.name,q.spec});
          if (o.find('-')!=std::string::npos) return;   // documented elsewhere: higher moments need positively oriented elements
          refusal<dim,kind>(p,pre+n+o,others,spec,factory);
#else
          explore<dim,kind>(p,pre+n+o,spec,isAffine,factory);
#endif
        },full,maxNum);
      }
    }
  });
#if PROP==21 && FAMILY==23
  // a run-time order for a pre-basis with compile-time order is refused or respected
  Dune::Hybrid::forEach(std::integer_sequence<int,0,1,2,3>{},[&](auto k) { Dune::Hybrid::forEach(std::integer_sequence<int,1,2,3>{},[&](auto dimC) {
    constexpr int dim=dimC; auto m=meshes::pairsOf<dim>(true)[0];
    for (unsigned int order=0;order<6;++order) mc::state(cat(dim,"d/LagrangePreBasis<",int(k),">/order",order),[&]{
      Dune::MockGrid<dim,0> grid(m.spec); auto gv=grid.leafGridView(); using GV=std::decay_t<decltype(gv)>;
      mc::op("construct pre-basis"); mc::transition();
      try {
        Dune::Functions::DefaultGlobalBasis<Dune::Functions::LagrangePreBasis<GV,int(k)>> basis(gv,order);
        mc::equal(basis.preBasis().order(),order,"order of the basis");
        conformity(basis,gv,Props{"",order?C0:DG,int(order)});
      } catch (const Dune::RangeError&) { mc::check(true,""); }
      mc::outcome(order);
    });
  }); });
#endif
  return mc::finish();
}
