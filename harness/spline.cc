// C18: B-spline bases against the Cox-de Boor definition, for all knot vectors, orders and grids within bounds.
#include <config.h>
#include "mc.hh"
#include <array>
#include <memory>
#include <optional>
#include <dune/grid/yaspgrid.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
using mc::cat;
namespace DF=Dune::Functions;
namespace BF=Dune::Functions::BasisFactory;
using Real=long double;
using Poly=std::vector<Real>;   // in the global coordinate

inline Poly linear(Real a, Real b, const Poly& p) { Poly r(p.size()+1,0); for (std::size_t i=0;i<p.size();++i) { r[i]+=a*p[i]; r[i+1]+=b*p[i]; } return r; }
inline Poly add(const Poly& p, const Poly& q) { Poly r(std::max(p.size(),q.size()),0); for (std::size_t i=0;i<p.size();++i) r[i]+=p[i]; for (std::size_t i=0;i<q.size();++i) r[i]+=q[i]; return r; }
inline Poly diff(const Poly& p) { Poly r; for (std::size_t i=1;i<p.size();++i) r.push_back(p[i]*i); return r; }
inline Real value(const Poly& p, Real x) { Real s=0; for (std::size_t i=p.size();i-->0;) s=s*x+p[i]; return s; }

// Cox-de Boor: polynomial piece of B_{i,p} on the non-empty knot span s
inline Poly piece(const std::vector<double>& t, int i, int p, int s)
{
  if (p==0) return i==s ? Poly{1} : Poly{};
  Poly r; Real a=Real(t[i+p])-t[i], b=Real(t[i+p+1])-t[i+1];
  if (a>0) r=add(r,linear(-t[i]/a,1/a,piece(t,i,p-1,s)));
  if (b>0) r=add(r,linear(t[i+p+1]/b,-1/b,piece(t,i+1,p-1,s)));
  return r;
}

// univariate splines: all pieces with two derivatives
struct Line
{
  std::vector<double> t, breaks; std::vector<int> mult, spans; int p, n; bool full;   // full: p+1 functions on every span
  std::vector<std::vector<std::array<Poly,3>>> f;   // [span][function]
  Line(const std::vector<double>& knots, int p, bool open) : p(p)
  {
    if (open) t.assign(p,knots.front());
    t.insert(t.end(),knots.begin(),knots.end());
    if (open) t.insert(t.end(),p,knots.back());
    n=int(t.size())-p-1;
    for (double x : t) if (breaks.empty() || breaks.back()!=x) { breaks.push_back(x); mult.push_back(1); } else ++mult.back();
    for (std::size_t i=0;i+1<t.size();++i) if (t[i]<t[i+1]) spans.push_back(i);
    for (int s : spans) { f.emplace_back(); for (int i=0;i<n;++i) { auto q=piece(t,i,p,s); f.back().push_back({q,diff(q),diff(diff(q))}); } }
    full=mult.front()>=p+1 && mult.back()>=p+1;
  }
  // functions not vanishing identically on the span with this number
  std::vector<int> active(int k) const { std::vector<int> r; for (int i=0;i<n;++i) if (i<=spans[k] && spans[k]<=i+p) r.push_back(i); return r; }
};

template<int dim> using Grid=Dune::YaspGrid<dim,Dune::TensorProductCoordinates<double,dim>>;
template<int dim> std::unique_ptr<Grid<dim>> makeGrid(const std::array<std::vector<double>,dim>& breaks)
{
  return std::make_unique<Grid<dim>>(breaks,std::bitset<dim>(),0);
}

template<int dim> using Tuple=std::array<int,dim>;
template<int dim> std::string str(const Tuple<dim>& a) { std::string s="("; for (int i : a) s+=cat(i,","); s.back()=')'; return s; }
template<int dim, class F> void lattice(const Tuple<dim>& n, F&& f)
{
  Tuple<dim> a{}; for (int i : n) if (i==0) return;
  for (;;) { f(a); int d=0; while (d<dim && ++a[d]==n[d]) a[d++]=0; if (d==dim) return; }
}

// scale of the values and derivatives in one direction
inline double scaleOf(const Line& l) { double h=1e9; for (std::size_t i=0;i+1<l.breaks.size();++i) h=std::min(h,l.breaks[i+1]-l.breaks[i]); return h; }

// everything about one basis; lines: univariate splines per direction; path-less leaf node access via 'leaf'
template<int dim, class Basis, class Leaf>
std::map<Tuple<dim>,std::size_t> checkBasis(const Basis& basis, const std::array<Line,dim>& lines, std::size_t copies, Leaf leaf, bool open)
{
  auto gv=basis.gridView();
  std::size_t total=1; for (auto& l : lines) total*=l.n;
  mc::equal(std::size_t(basis.dimension()),total*copies,"dimension");
  std::size_t maxLocal=1; for (auto& l : lines) { std::size_t m=0; for (std::size_t k=0;k<l.spans.size();++k) m=std::max(m,l.active(k).size()); maxLocal*=m; }
  mc::check(basis.preBasis().maxNodeSize()>=maxLocal*copies,"maxNodeSize is too small");

  std::map<std::vector<std::size_t>,Tuple<dim>> function;            // which tensor product B-spline carries a global index
  auto view=basis.localView();
  std::optional<decltype(view)> older;                              // copy bound to the previous element
  std::vector<std::array<double,3>> olderValues; Dune::FieldVector<double,dim> olderPoint(0.3);
  const auto& ref=Dune::referenceElement<double,dim>(Dune::GeometryTypes::cube(dim));
  // per global index and face centre/point: values from both sides
  std::map<std::vector<std::size_t>,std::map<std::array<long,dim>,std::array<std::vector<double>,1+2*dim>>> traces;
  std::size_t seen=0;
  int npts=3; for (auto& l : lines) npts=std::max(npts,l.p+1);
  for (const auto& e : elements(gv)) {
    ++seen; mc::transition();
    view.bind(e);
    auto geo=e.geometry();
    // position of the element from its geometry (not from its index)
    Tuple<dim> pos; auto centre=geo.center();
    for (int d=0;d<dim;++d) { pos[d]=0; while (!(centre[d]<lines[d].breaks[pos[d]+1])) ++pos[d]; }
    std::array<std::vector<int>,dim> act; Tuple<dim> counts; std::size_t expected=1;
    for (int d=0;d<dim;++d) { act[d]=lines[d].active(pos[d]); counts[d]=act[d].size(); expected*=counts[d]; }
    std::vector<Tuple<dim>> candidates;
    lattice<dim>(counts,[&](const Tuple<dim>& a) { Tuple<dim> f; for (int d=0;d<dim;++d) f[d]=act[d][a[d]]; candidates.push_back(f); });
    mc::equal(std::size_t(view.size()),expected*copies,[&]{ return cat("number of local functions on element ",str<dim>(pos)); });

    for (std::size_t c=0;c<copies;++c) {
      const auto& node=leaf(view,c); const auto& fe=node.finiteElement();
      mc::equal(std::size_t(node.size()),expected,"node size"); mc::equal(std::size_t(fe.size()),expected,"finite element size");
      mc::equal(std::size_t(fe.localBasis().size()),expected,"local basis size"); mc::equal(std::size_t(fe.localCoefficients().size()),expected,"number of local keys");
      mc::check(fe.type()==e.type(),"geometry type");
      int maxOrder=0; for (auto& l : lines) maxOrder=std::max(maxOrder,l.p);
      mc::equal(int(fe.localBasis().order()),maxOrder,"order");
      auto copy=fe;                              // the shape functions of a copy are the same
      // points: tensor grid with npts points including end points
      std::vector<std::vector<double>> mismatch(expected,std::vector<double>(expected,0));
      std::vector<std::vector<std::string>> what(expected,std::vector<std::string>(expected));
      Tuple<dim> np; np.fill(npts);
      lattice<dim>(np,[&](const Tuple<dim>& a) {
        Dune::FieldVector<double,dim> x; for (int d=0;d<dim;++d) x[d]=a[d]/double(npts-1);
        auto X=geo.global(x); auto H=geo.jacobianTransposed(x);
        using LB=std::decay_t<decltype(fe.localBasis())>; using T=typename LB::Traits;
        auto evaluateAll=[&](const auto& lb, std::vector<std::vector<double>>& out) {
          std::vector<typename T::RangeType> v; std::vector<typename T::JacobianType> J;
          out.assign(expected,{});
          v.resize(2); lb.evaluateFunction(x,v); mc::equal(v.size(),expected,"size of values"); for (std::size_t i=0;i<expected;++i) out[i].push_back(v[i][0]);
          std::vector<typename T::RangeType> v0; lb.template evaluate<0>({},x,v0); mc::equal(v0.size(),expected,"size of evaluate<0>"); for (std::size_t i=0;i<expected;++i) mc::check(v0[i]==v[i],"evaluate<0> differs from the values");
          lb.evaluateJacobian(x,J); mc::equal(J.size(),expected,"size of Jacobians"); for (std::size_t i=0;i<expected;++i) for (int d=0;d<dim;++d) out[i].push_back(J[i][0][d]/H.diagonal(d));
          for (int d=0;d<dim;++d) { lb.template evaluate<1>({d},x,v); mc::equal(v.size(),expected,"size of first derivatives"); for (std::size_t i=0;i<expected;++i) out[i].push_back(v[i][0]/H.diagonal(d)); }
          for (int d=0;d<dim;++d) for (int k=0;k<dim;++k) { lb.template evaluate<2>({d,k},x,v); mc::equal(v.size(),expected,"size of second derivatives"); for (std::size_t i=0;i<expected;++i) out[i].push_back(v[i][0]/H.diagonal(d)/H.diagonal(k)); }
        };
        std::vector<std::vector<double>> got, again; evaluateAll(fe.localBasis(),got); evaluateAll(copy.localBasis(),again);
        mc::check(got==again,"shape functions of a copied finite element differ");
        double sum=0; for (std::size_t i=0;i<expected;++i) { sum+=got[i][0]; mc::check(got[i][0]>=-1e-12,"negative value"); }
        bool unity=true; for (int d=0;d<dim;++d) unity=unity && counts[d]==lines[d].p+1;
        if (unity) mc::close(sum,1,1e-11,"sum of all values"); else mc::check(sum<=1+1e-11,"the sum of all values exceeds one");
        for (std::size_t j=0;j<expected;++j) {
          std::vector<double> want; std::array<std::array<Real,3>,dim> w;
          for (int d=0;d<dim;++d) for (int k=0;k<3;++k) w[d][k]=value(lines[d].f[pos[d]][candidates[j][d]][k],X[d]);
          auto product=[&](Tuple<dim> o) { Real r=1; for (int d=0;d<dim;++d) r*=w[d][o[d]]; want.push_back(r); };
          product({}); for (int r=0;r<2;++r) for (int d=0;d<dim;++d) { Tuple<dim> o{}; o[d]=1; product(o); }
          for (int d=0;d<dim;++d) for (int k=0;k<dim;++k) { Tuple<dim> o{}; ++o[d]; ++o[k]; product(o); }
          for (std::size_t i=0;i<expected;++i) {
            double m=0; for (std::size_t q=0;q<want.size();++q) { double err=std::abs(got[i][q]-want[q])/(1+std::abs(want[q])); if (!(err<=m)) { m=std::isnan(err)?1e99:err; } }
            if (!(m<=mismatch[i][j])) { mismatch[i][j]=m; std::string s; for (std::size_t q=0;q<want.size();++q) s+=cat(" ",got[i][q],"|",double(want[q])); what[i][j]=cat("at ",X," (computed|Cox-de Boor):",s); }
          }
        }
        // traces on the faces of the element: functions and derivatives agree from both sides as far as the multiplicity allows
        for (int d=0;d<dim;++d) if (a[d]==0 || a[d]==npts-1) {
          bool inner=true; for (int k=0;k<dim;++k) if (k!=d && (a[k]==0 || a[k]==npts-1)) inner=false;
          int knot=pos[d]+(a[d]!=0); if (!inner) continue;
          if (knot==0 || knot+1==(int)lines[d].breaks.size()) continue;
          int smooth=lines[d].p-lines[d].mult[knot];
          std::array<long,dim> key; for (int k=0;k<dim;++k) key[k]=std::lround(X[k]*1e6); if constexpr (dim>1) key[(d+1)%dim]=key[(d+1)%dim]*8+d;
          for (std::size_t i=0;i<expected;++i) {
            std::vector<std::size_t> g; for (auto q : view.index(node.localIndex(i))) g.push_back(q);
            auto& s=traces[g][key];
            if (smooth>=0) s[0].push_back(got[i][0]);
            if (smooth>=1) s[1+d].push_back(got[i][1+d]);
            if (smooth>=2) s[1+dim+d].push_back(got[i][1+2*dim+d*(dim+1)]);
            s[0].reserve(2);
          }
        }
      });
      // each local function is exactly one of the tensor product B-splines of this element, with one global index
      std::vector<int> used(expected,0);
      for (std::size_t i=0;i<expected;++i) {
        int match=-1; for (std::size_t j=0;j<expected;++j) if (mismatch[i][j]<1e-9) { mc::check(match<0,"ambiguous"); match=j; }
        mc::check(match>=0,[&]{ return cat("local function ",i," on element ",str<dim>(pos)," is none of the B-splines there, e.g. ",str<dim>(candidates[i])," ",what[i][i]); });
        mc::check(!used[match]++,[&]{ return cat("B-spline ",str<dim>(candidates[match])," twice on element ",str<dim>(pos)); });
        std::vector<std::size_t> g; for (auto q : view.index(node.localIndex(i))) g.push_back(q);
        if (copies==1) { mc::equal(g.size(),std::size_t(1),"length of the index"); mc::check(g[0]<total,"index out of range"); }
        auto tag=candidates[match]; auto [it,fresh]=function.try_emplace(g,tag);
        mc::check(it->second==tag,[&]{ return cat("global index ",g[0]," is ",str<dim>(it->second)," and ",str<dim>(tag)); });
        std::size_t hsh=0; mc::combine(hsh,g[0]); for (int d=0;d<dim;++d) { mc::combine(hsh,std::size_t(tag[d])); mc::combine(hsh,std::size_t(lines[d].n*16+lines[d].p)); mc::combine(hsh,std::size_t(pos[d])); } mc::outcome(hsh);
        // documented attachment: order of Qk elements, boundary dofs can be found if the knot vector is open
        bool keys=open && dim<=2; for (auto& l : lines) keys=keys && l.p>=1;
        if (keys) {
          auto key=fe.localCoefficients().localKey(i);
          mc::check(int(key.codim())<=dim && int(key.subEntity())<ref.size(key.codim()),"local key names no sub-entity");
          for (int f=0;f<ref.size(1);++f) {
            bool on=false; for (int k=0;k<ref.size(f,1,key.codim());++k) on=on || ref.subEntity(f,1,k,key.codim())==int(key.subEntity());
            int d=f/2, side=f%2; bool boundary= side==0 ? pos[d]==0 : pos[d]+2==(int)lines[d].breaks.size();
            if (boundary) mc::check(on==(tag[d]==(side==0?0:lines[d].n-1)),[&]{ return cat("dof ",str<dim>(tag)," is ",on?"":"not ","attached to face ",f," of boundary element ",str<dim>(pos)); });
          }
        }
      }
      bool keys=open && dim<=2; for (auto& l : lines) keys=keys && l.p>=1;
      if (keys) {
        std::map<std::pair<unsigned,unsigned>,std::vector<unsigned>> per; const auto& lc=fe.localCoefficients();
        for (std::size_t i=0;i<expected;++i) per[{lc.localKey(i).codim(),lc.localKey(i).subEntity()}].push_back(lc.localKey(i).index());
        for (auto& [s,v] : per) for (std::size_t k=0;k<v.size();++k) mc::check(v[k]==k,[&]{ std::string m; for (auto q : v) m+=cat(" ",q); return cat("indices of the local keys of sub-entity ",s.second," of codimension ",s.first," are not consecutive:",m); });
        for (int c=0;c<=dim;++c) for (int s=0;s<ref.size(c);++s) { unsigned n=1; for (int k=0;k<dim-c;++k) n*=lines[0].p-1; mc::equal(per[{unsigned(c),unsigned(s)}].size(),std::size_t(n),"number of local keys of a sub-entity as for Qk"); }
      }
    }
    // a copied local view keeps its own binding
    auto sample=[&](const auto& lv) { std::vector<std::array<double,3>> r; const auto& fe=leaf(lv,0).finiteElement(); std::vector<Dune::FieldVector<double,1>> v,w; std::vector<Dune::FieldMatrix<double,1,dim>> J;
      fe.localBasis().evaluateFunction(olderPoint,v); fe.localBasis().evaluateJacobian(olderPoint,J);
      for (std::size_t i=0;i<v.size();++i) r.push_back({v[i][0],J[i][0][dim-1],double(lv.index(leaf(lv,0).localIndex(i))[0])}); return r; };
    if (older) mc::check(sample(*older)==olderValues,"a copied local view changes when the original is bound to another element");
    older.emplace(view); olderValues=sample(view); mc::check(sample(*older)==olderValues,"a copied local view differs from the original");
  }
  std::size_t cells=1; for (auto& l : lines) cells*=l.spans.size();
  mc::equal(seen,cells,"number of elements");
  mc::equal(function.size(),total*copies,"number of global indices in use");
  std::map<Tuple<dim>,std::size_t> times; for (auto& [g,f] : function) ++times[f];
  for (auto& [f,n] : times) mc::equal(n,copies,[&]{ return cat("number of global indices of ",str<dim>(f)); });
  // smoothness: a function without a trace from one side vanishes there
  for (auto& [g,pts] : traces) for (auto& [x,s] : pts) for (auto& v : s) if (!v.empty()) {
    std::size_t sides=v.size(); mc::check(sides<=2,"more than two traces");
    if (sides==2) mc::close(v[0],v[1],1e-9,"jump of a function or derivative that the knot multiplicity excludes");
    else mc::close(v[0],0,1e-9,"jump to zero of a function or derivative that the knot multiplicity excludes");
  }
  std::map<Tuple<dim>,std::size_t> numbers; for (auto& [g,f] : function) numbers[f]=g[0];
  return numbers;
}

// a discrete function is the linear combination of the B-splines, globally (via values at element points) and with derivatives
template<int dim, class Basis> void checkFunction(const Basis& basis, const std::array<Line,dim>& lines, const std::map<Tuple<dim>,std::size_t>& numbers)
{
  std::vector<double> c(basis.dimension()); for (std::size_t i=0;i<c.size();++i) c[i]=(i*7)%5-1.5+0.25*i;
  auto f=DF::makeDiscreteGlobalBasisFunction<double>(basis,c); auto lf=localFunction(f); auto df=derivative(lf);
  auto gv=basis.gridView();
  auto whole=[&](const Dune::FieldVector<double,dim>& X, const Tuple<dim>& pos, int direction) {
    Real s=0; Tuple<dim> n; for (int d=0;d<dim;++d) n[d]=lines[d].n;
    lattice<dim>(n,[&](const Tuple<dim>& a) { Real v=c[numbers.at(a)]; for (int d=0;d<dim;++d) v*=value(lines[d].f[pos[d]][a[d]][d==direction],X[d]); s+=v; });
    return double(s);
  };
  for (const auto& e : elements(gv)) {
    lf.bind(e); df.bind(e); auto geo=e.geometry(); Tuple<dim> pos;
    for (int d=0;d<dim;++d) { pos[d]=0; while (!(geo.center()[d]<lines[d].breaks[pos[d]+1])) ++pos[d]; }
    for (double q : {0.0,0.3,1.0}) {
      Dune::FieldVector<double,dim> x(q); if (dim>1) x[dim-1]=0.6; auto X=geo.global(x);
      mc::close(lf(x),whole(X,pos,-1),1e-9,"value of a discrete function");
      auto J=df(x); for (int d=0;d<dim;++d) mc::close(J[d],whole(X,pos,d),1e-9,"derivative of a discrete function");
      if (q>0 && q<1) { mc::close(f(X),whole(X,pos,-1),1e-9,"global value of a discrete function"); mc::close(derivative(f)(X)[0],whole(X,pos,0),1e-9,"global derivative of a discrete function"); }
    }
    mc::transition();
  }
}

const auto single=[](const auto& lv, std::size_t) -> const auto& { return lv.tree(); };

template<int dim> void knotVectors(int maxOrder, int maxSpans, int maxMult)
{
  const double h[]={1,2,0.5};
  for (int p=0;p<=maxOrder;++p) for (int spans=1;spans<=maxSpans;++spans) for (bool open : {true,false}) {
    int total=1; for (int i=0;i<spans;++i) total*=3;
    int limit=std::min(p+1,maxMult);
    std::vector<std::vector<int>> mults; std::vector<int> m(spans+1,1);
    std::function<void(int)> choose=[&](int i) {
      if (i==spans+1) { mults.push_back(m); return; }
      bool end = i==0 || i==spans; int top = end ? (open ? 1 : p+1) : limit;
      for (m[i]=1;m[i]<=top;++m[i]) choose(i+1);
      m[i]=1;
    };
    choose(0);
    for (int sp=0;sp<total;++sp) for (auto& mu : mults) {
      std::vector<double> breaks{-0.5}, knots; int q=sp; for (int i=0;i<spans;++i,q/=3) breaks.push_back(breaks.back()+h[q%3]);
      for (int i=0;i<=spans;++i) knots.insert(knots.end(),mu[i],breaks[i]);
      if (!open && (int)knots.size()<p+2) continue;
      std::string key=cat("knots",dim,"d/p",p,open?"/open/":"/as-is/"); for (double k : knots) key+=cat(k,","); key.pop_back();
      mc::state(key,[&]{
        std::array<std::vector<double>,dim> b; b.fill(breaks); auto grid=makeGrid<dim>(b); auto gv=grid->leafGridView();
        auto lines=[&]{ if constexpr (dim==1) return std::array<Line,1>{Line(knots,p,open)}; else if constexpr (dim==2) return std::array<Line,2>{Line(knots,p,open),Line(knots,p,open)}; else return std::array<Line,3>{Line(knots,p,open),Line(knots,p,open),Line(knots,p,open)}; }();
        using GV=decltype(gv);
        mc::op("basis from a knot vector"); DF::BSplineBasis<GV> basis(gv,knots,p,open); auto numbers=checkBasis<dim>(basis,lines,1,single,open);
        mc::op("discrete function"); checkFunction<dim>(basis,lines,numbers);
        // the factory may outlive the knot vector it was given
        mc::op("factory");
        auto factory=[&]{ auto own=std::make_unique<std::vector<double>>(knots); auto f=BF::bSpline(*own,p,open); for (double& k : *own) k+=17; own.reset(); return f; }();
        auto made=BF::makeBasis(gv,factory); checkBasis<dim>(made,lines,1,single,open);
        if (open) {
          auto defaulted=BF::makeBasis(gv,BF::bSpline(knots,p)); mc::equal(std::size_t(defaulted.dimension()),std::size_t(basis.dimension()),"open by default");
          if (dim<3) { mc::op("power"); auto power=BF::makeBasis(gv,BF::power<2>(BF::bSpline(knots,p)));
          checkBasis<dim>(power,lines,2,[](const auto& lv, std::size_t c) -> const auto& { return lv.tree().child(c); },open); }
        }
      });
    }
  }
}

template<int dim> void uniform(int maxOrder, int maxElements)
{
  for (int p=0;p<=maxOrder;++p) for (bool open : {true,false}) for (int box=0;box<2;++box) {
    Tuple<dim> n; n.fill(maxElements);
    lattice<dim>(n,[&](const Tuple<dim>& m) {
      for (int d=0;d<dim;++d) if (!open && m[d]<p) return;    // fewer than order+2 knots
      std::string key=cat("uniform",dim,"d/p",p,open?"/open":"/as-is","/box",box,"/"); for (int i : m) key+=cat(i+1,"x"); key.pop_back();
      mc::state(key,[&]{
        Dune::FieldVector<double,dim> lower, upper; std::array<unsigned,dim> elements; std::array<std::vector<double>,dim> b;
        for (int d=0;d<dim;++d) {
          lower[d]= box==0 ? 0 : -1-0.5*d; upper[d]= box==0 ? 1 : 2+d; elements[d]=m[d]+1;
          for (unsigned j=0;j<=elements[d];++j) b[d].push_back(lower[d]+j*(upper[d]-lower[d])/elements[d]);
        }
        auto grid=makeGrid<dim>(b); auto gv=grid->leafGridView();
        auto lines=[&]{ if constexpr (dim==1) return std::array<Line,1>{Line(b[0],p,open)}; else if constexpr (dim==2) return std::array<Line,2>{Line(b[0],p,open),Line(b[1],p,open)}; else return std::array<Line,3>{Line(b[0],p,open),Line(b[1],p,open),Line(b[2],p,open)}; }();
        mc::op("basis with uniform knots"); DF::BSplineBasis<decltype(gv)> basis(gv,lower,upper,elements,p,open); auto numbers=checkBasis<dim>(basis,lines,1,single,open);
        mc::op("discrete function"); checkFunction<dim>(basis,lines,numbers);
        mc::op("copied basis"); auto other=std::make_unique<DF::BSplineBasis<decltype(gv)>>(gv,lower,upper,elements,p+1,true); auto copy=basis; *other=copy; checkBasis<dim>(*other,lines,1,single,open);
      });
    });
  }
}

int main(int argc, char** argv)
{
  int ac=1; char* av[]={argv[0],nullptr}; char** avp=av; Dune::MPIHelper::instance(ac,avp);
  mc::init(argc,argv); MC_SANITIZER_INIT;
  bool t=mc::thorough(); (void)t;
#if PART==0
  knotVectors<1>(t?5:4,t?4:3,9); uniform<1>(t?6:5,t?7:5);
#elif PART==1
  knotVectors<2>(3,t?3:2,9); uniform<2>(t?4:3,t?4:3);
#else
  knotVectors<3>(t?2:1,2,9); uniform<3>(t?3:2,t?3:2);
#endif
  return mc::finish();
}
