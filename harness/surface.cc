// Functions on curves and surfaces: grids whose elements have a smaller dimension than the world around them.
// PROP 5: interpolation reproduces, 7: discrete functions and their tangential derivatives, 19: wrapped grid functions.
#include <config.h>
#include "leafzoo.hh"
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
using mc::cat;
namespace DF=Dune::Functions;
namespace BF=Dune::Functions::BasisFactory;
template<int n> using Vec=Dune::FieldVector<double,n>;

// tangential part of a global vector: J J^+ v, from the corners' Jacobian alone
template<int d, int w> Vec<w> tangential(const Dune::FieldMatrix<double,d,w>& Jt, const Vec<w>& v)
{
  Dune::FieldMatrix<double,d,d> G; Vec<d> b, y;
  for (int i=0;i<d;++i) { b[i]=0; for (int k=0;k<w;++k) b[i]+=Jt[i][k]*v[k]; for (int j=0;j<d;++j) { G[i][j]=0; for (int k=0;k<w;++k) G[i][j]+=Jt[i][k]*Jt[j][k]; } }
  G.solve(y,b);
  Vec<w> r(0); for (int i=0;i<d;++i) for (int k=0;k<w;++k) r[k]+=Jt[i][k]*y[i];
  return r;
}
// global gradient of a function on the element with the given reference gradient: J (J^T J)^-1 g
template<int d, int w> Vec<w> lifted(const Dune::FieldMatrix<double,d,w>& Jt, const Vec<d>& g)
{
  Dune::FieldMatrix<double,d,d> G; Vec<d> y;
  for (int i=0;i<d;++i) for (int j=0;j<d;++j) { G[i][j]=0; for (int k=0;k<w;++k) G[i][j]+=Jt[i][k]*Jt[j][k]; }
  G.solve(y,g);
  Vec<w> r(0); for (int i=0;i<d;++i) for (int k=0;k<w;++k) r[k]+=Jt[i][k]*y[i];
  return r;
}
template<class G> auto transposedJacobian(const G& geo, const typename G::LocalCoordinate& x)
{
  Dune::FieldMatrix<double,G::mydimension,G::coorddimension> r; auto J=geo.jacobianTransposed(x);
  for (int i=0;i<G::mydimension;++i) for (int k=0;k<G::coorddimension;++k) r[i][k]=J[i][k];
  return r;
}
template<class D> double entry(const D& D_, int row, int k) { if constexpr (requires { D_[0][0]; }) return D_[row][k]; else return D_[k]; }

template<int w> double poly(const Vec<w>& x, int q) { double r=1; for (int k=0;k<w;++k) r+=(k+1+q)*x[k]; return r; }

template<int dim, int w, class Factory>
void discrete(const std::string& name, const zoo::Props& p, const Dune::MockMeshSpec<dim,w>& spec, const Factory& factory, bool affine)
{
  mc::state(name,[&]{
    Dune::MockGrid<dim,0,w> grid(spec); auto gv=grid.leafGridView();
    mc::op("construct basis"); mc::transition();
    auto basis=BF::makeBasis(gv,factory);
    auto lv=basis.localView(); std::size_t h=0;
    using Element=typename std::decay_t<decltype(gv)>::template Codim<0>::Entity;
    std::vector<Element> elems; for (const auto& e : elements(gv)) elems.push_back(e);
    auto points=[&](auto gt) { auto r=ev::interiorPoints<dim>(gt,3); r.push_back(Dune::ReferenceElements<double,dim>::general(gt).position(1,dim)); return r; };
#if PROP==5
    // affine global functions are reproduced on all elements whose geometry is affine or isoparametric
    for (int q=0;q<3;++q) {
      auto f=[&](const Vec<w>& x) { return p.degree>0 ? poly<w>(x,q) : 2.+q; };
      std::vector<double> c(basis.dimension(),77.); mc::op("interpolate"); mc::transition();
      DF::interpolate(basis,c,f);
      for (auto& e : elems) { lv.bind(e); const auto& fe=lv.tree().finiteElement();
        for (auto& x : points(e.type())) { auto v=ev::values(fe,x); double s=0; for (std::size_t i=0;i<lv.size();++i) s+=c[lv.index(i)[0]]*v[i][0];
          mc::close(s,f(e.geometry().global(x)),1e-10,[&]{ return cat("interpolated affine function ",q," on element ",e.number()); }); mc::combine(h,s); } }
      // the same for a discrete function that is interpolated: identity
      auto g=DF::makeDiscreteGlobalBasisFunction<double>(basis,c);
      std::vector<double> c2(basis.dimension(),-5.); mc::op("interpolate a discrete function"); mc::transition();
      DF::interpolate(basis,c2,g);
      for (std::size_t i=0;i<c.size();++i) mc::close(c2[i],c[i],1e-10,[&]{ return cat("coefficient ",i," after interpolating the discrete function"); });
    }
#elif PROP==7
    for (std::size_t unit=0;unit<=basis.dimension();++unit) {
      std::vector<double> c(basis.dimension(),0.); if (unit<c.size()) c[unit]=1.5; else for (std::size_t i=0;i<c.size();++i) c[i]=0.5+1.25*i*(i%2?1:-1);
      std::vector<Vec<2>> c2(basis.dimension()); for (std::size_t i=0;i<c.size();++i) { c2[i][0]=c[i]; c2[i][1]=3*c[i]-(unit==c.size()); }
      mc::op("makeDiscreteGlobalBasisFunction"); mc::transition(2);
      auto f=DF::makeDiscreteGlobalBasisFunction<double>(basis,c); auto lf=localFunction(f); auto df=derivative(f); auto dlf=localFunction(df);
      auto f2=DF::makeDiscreteGlobalBasisFunction<Vec<2>>(basis,c2); auto lf2=localFunction(f2); auto dlf2=localFunction(derivative(f2));
      for (auto& a : elems) for (auto& b : elems) for (auto* e : {&a,&b}) {
        mc::op("bind"); mc::transition(4); lf.bind(*e); dlf.bind(*e); lf2.bind(*e); dlf2.bind(*e); lv.bind(*e);
        const auto& fe=lv.tree().finiteElement();
        for (auto& x : points(e->type())) {
          auto v=ev::values(fe,x); auto J=ev::jacobians(fe,x);
          double s=0, s1=0; Vec<dim> g(0), g1(0);
          for (std::size_t i=0;i<lv.size();++i) { auto k=lv.index(i)[0]; s+=c[k]*v[i][0]; s1+=c2[k][1]*v[i][0]; for (int d=0;d<dim;++d) { g[d]+=c[k]*J[i][0][d]; g1[d]+=c2[k][1]*J[i][0][d]; } }
          auto Jt=transposedJacobian(e->geometry(),x); auto G=lifted<dim,w>(Jt,g), G1=lifted<dim,w>(Jt,g1);
          mc::op("evaluate"); mc::transition(4);
          auto what=[&](const char* t) { return [&,t]{ return cat(t," on element ",e->number()," with unit coefficient ",unit); }; };
          mc::close(lf(x),s,1e-11,what("value")); auto y=lf2(x); mc::close(y[0],s,1e-11,what("first component")); mc::close(y[1],s1,1e-11,what("second component"));
          auto D=dlf(x); auto D2=dlf2(x); auto D3=derivative(lf)(x);
          for (int k=0;k<w;++k) {
            mc::close(entry(D,0,k),G[k],1e-9,what("tangential derivative")); mc::close(entry(D3,0,k),G[k],1e-9,what("derivative of the local function"));
            mc::close(entry(D2,0,k),G[k],1e-9,what("derivative of the first component")); mc::close(entry(D2,1,k),G1[k],1e-9,what("derivative of the second component"));
            mc::combine(h,G[k]);
          }
        }
      }
    }
    // vector fields on the surface: a power of the basis
    if constexpr (w==3 || dim==1) {
      auto pb=BF::makeBasis(gv,BF::power<w>(factory,BF::flatLexicographic())); 
      std::vector<double> c(pb.dimension(),0.); for (std::size_t i=0;i<c.size();++i) c[i]=0.5+0.75*i*(i%2?1:-1);
      mc::op("vector field"); mc::transition(2);
      auto f=DF::makeDiscreteGlobalBasisFunction<Vec<w>>(pb,c); auto lf=localFunction(f); auto dlf=localFunction(derivative(f)); auto lp=pb.localView();
      for (auto& e : elems) {
        lf.bind(e); dlf.bind(e); lp.bind(e); lv.bind(e); const auto& fe=lv.tree().finiteElement();
        for (auto& x : points(e.type())) {
          auto v=ev::values(fe,x); auto J=ev::jacobians(fe,x); auto y=lf(x); auto D=dlf(x); auto Jt=transposedJacobian(e.geometry(),x);
          for (int q=0;q<w;++q) {
            double s=0; Vec<dim> g(0);
            for (std::size_t i=0;i<lv.size();++i) { double k=c[lp.index(lp.tree().child(q).localIndex(i))[0]]; s+=k*v[i][0]; for (int d=0;d<dim;++d) g[d]+=k*J[i][0][d]; }
            auto G=lifted<dim,w>(Jt,g);
            mc::close(y[q],s,1e-11,[&]{ return cat("component ",q," of a vector field on element ",e.number()); });
            for (int k=0;k<w;++k) mc::close(D[q][k],G[k],1e-9,[&]{ return cat("derivative of component ",q," of a vector field on element ",e.number()); });
          }
        }
      }
    }
#endif
    mc::outcome(h);
  });
}

template<int dim, int w>
void wrapped(const std::string& name, const Dune::MockMeshSpec<dim,w>& spec)
{
  mc::state(name,[&]{
    Dune::MockGrid<dim,0,w> grid(spec); auto gv=grid.leafGridView(); std::size_t h=0;
    using Element=typename std::decay_t<decltype(gv)>::template Codim<0>::Entity;
    std::vector<Element> elems; for (const auto& e : elements(gv)) elems.push_back(e);
    auto value=[](const Vec<w>& x) { double r=1; for (int k=0;k<w;++k) r+=x[k]*x[k]*(k+1)-x[(k+1)%w]*x[k]; return r; };
    auto gradient=[](const Vec<w>& x) { Vec<w> r(0); for (int k=0;k<w;++k) { r[k]+=2*x[k]*(k+1)-x[(k+1)%w]; r[(k+1)%w]-=x[k]; } return r; };
    mc::op("wrap"); mc::transition(5);
    auto F=DF::makeDifferentiableFunctionFromCallables(DF::SignatureTag<double(Vec<w>)>(),value,gradient);
    auto f=DF::makeAnalyticGridViewFunction(F,gv); auto df=derivative(f);
    auto fw=DF::makeGridViewFunction(F,gv); auto lw=localFunction(fw);
    auto fp=DF::makeGridViewFunction([&](const Vec<w>& x) { return 2*value(x); },gv); auto lp=localFunction(fp);
    DF::GridViewFunction<double(Vec<w>),std::decay_t<decltype(gv)>> erased=f; auto le=localFunction(erased); auto de=localFunction(derivative(erased));
    auto comp=DF::makeComposedGridFunction([](double a, double b) { return a*b+1; },f,fp); auto lc=localFunction(comp);
    auto lf=localFunction(f); auto dl=localFunction(df); auto dd=derivative(lf);
    DF::FaceNormalGridFunction<std::decay_t<decltype(gv)>> normals(gv); auto ln=localFunction(normals);
    for (auto& a : elems) for (auto& b : elems) for (auto* e : {&a,&b}) {
      mc::op("bind"); mc::transition(8);
      lf.bind(*e); dl.bind(*e); dd.bind(*e); lw.bind(*e); lp.bind(*e); le.bind(*e); de.bind(*e); lc.bind(*e); ln.bind(*e);
      auto geo=e->geometry();
      auto pts=ev::interiorPoints<dim>(e->type(),3); for (int i=0;i<geo.corners();++i) pts.push_back(Dune::ReferenceElements<double,dim>::general(e->type()).position(i,dim));
      for (auto& x : pts) {
        auto X=geo.global(x); double v=value(X); auto g=gradient(X); mc::transition(8); mc::combine(h,v);
        auto what=[&](const char* t) { return [&,t]{ return cat(t," on element ",e->number()); }; };
        mc::close(lf(x),v,1e-12,what("local function")); mc::close(lw(x),v,1e-12,what("grid view function")); mc::close(lp(x),2*v,1e-12,what("plain callable")); mc::close(le(x),v,1e-12,what("erased function"));
        mc::close(lc(x),2*v*v+1,1e-12,what("composed function")); mc::close(f(X),v,1e-12,what("global evaluation")); mc::close(erased(X),v,1e-12,what("erased global evaluation")); mc::close(comp(X),2*v*v+1,1e-12,what("composed global evaluation"));
        auto D=dl(x), D1=dd(x), D2=de(x), D3=df(X);
        for (int k=0;k<w;++k) { mc::close(entry(D,0,k),g[k],1e-12,what("derivative")); mc::close(entry(D1,0,k),g[k],1e-12,what("derivative of the local function")); mc::close(entry(D2,0,k),g[k],1e-12,what("derivative of the erased function")); mc::close(entry(D3,0,k),g[k],1e-12,what("global derivative")); }
      }
      for (const auto& is : intersections(gv,*e))
        for (auto& s : ev::lattice<dim-1>(is.type(),3)) {
          auto t=s; for (int d=0;d<dim-1;++d) t[d]=0.9*s[d]+0.02*(d+1);     // corners belong to several faces
          mc::op("face normal"); mc::transition();
          auto x=is.geometryInInside().global(t); auto n=ln(x); auto Jt=transposedJacobian(geo,x);
          // characterised without the geometry's inverse Jacobian: unit length, tangential to the surface, orthogonal to the face, pointing outwards
          auto ref=Dune::ReferenceElements<double,dim>::general(e->type()); auto what=[&](const char* t) { return [&,t]{ return cat("face normal on face ",is.indexInInside()," of element ",e->number(),": ",t); }; };
          mc::close(n.two_norm(),1.,1e-10,what("length")); auto T=tangential<dim,w>(Jt,n);
          for (int k=0;k<w;++k) mc::close(T[k],n[k],1e-9,what("leaves the tangent space"));
          auto fj=is.geometry().jacobianTransposed(t); for (int i=0;i<dim-1;++i) { double q=0; for (int k=0;k<w;++k) q+=fj[i][k]*n[k]; mc::close(q,0.,1e-9,what("not orthogonal to the face")); }
          auto local=ref.integrationOuterNormal(is.indexInInside()); double out=0; for (int i=0;i<dim;++i) for (int k=0;k<w;++k) out+=local[i]*Jt[i][k]*n[k]; mc::check(out>0,what("points inwards"));
        }
    }
    mc::outcome(h);
  });
}

template<int dim, int w> Dune::MockMeshSpec<dim,w> lift(const Dune::MockMeshSpec<dim>& s)
{
  Dune::MockMeshSpec<dim,w> r;
  for (auto& v : s.vertices) { Vec<w> y(0); for (int k=0;k<dim;++k) y[k]=v[k]; y[dim]=0.4*v[0]*v[0]+0.3*v[0]+(dim>1?0.5*v[dim-1]*v[0]-0.2*v[dim-1]:0.); if (w>dim+1) y[w-1]=0.7-0.6*v[0]*v[0]*v[0]; r.vertices.push_back(y); }
  for (auto& e : s.elements) r.elements.push_back({e.type,e.v});
  r.vertexIds=s.vertexIds; r.vertexIndices=s.vertexIndices; r.elementIndices=s.elementIndices; r.reverseSubIndices=s.reverseSubIndices; r.reverseIds=s.reverseIds;
  return r;
}

template<int dim, int w> void run()
{
  for (int affine=0;affine<2;++affine) for (auto& m : meshes::pairsOf<dim>(affine)) {
    if (affine && (dim==1 || meshes::isSimplexPair(m.name))) continue;
    auto pre=cat(dim,"d in ",w,"d/",m.name,affine?"/affine":"","/");
    if (!mc::group(pre)) continue;
    auto each=[&](int numberings, auto&& f) { meshes::forEachNumbering<dim>(m,[&](const std::string& n, const auto& s) { f(n,lift<dim,w>(s)); },PROP!=7||mc::thorough(),numberings); };
#if PROP==19
    each(mc::thorough()?4:1,[&](const std::string& n, const auto& s) { wrapped<dim,w>(pre+n,s); });
#else
    auto go=[&](const zoo::Props& p, auto factory) { each(mc::thorough()?3:1,[&](const std::string& n, const auto& s) { discrete<dim,w>(pre+p.name+"/"+n,p,s,factory,affine); }); };
    using namespace BF;
    go({"lagrange(1)",zoo::C0,1},lagrange(1)); go({"lagrange(2)",zoo::C0,2},lagrange(2)); go({"lagrange(3)",zoo::C0,3},lagrange(3)); go({"lagrange<1>",zoo::C0,1},lagrange<1>()); go({"lagrange<2>",zoo::C0,2},lagrange<2>());
    go({"lagrange<0>",zoo::DG,0},lagrange<0>()); go({"lagrangeDG(2)",zoo::DG,2},lagrangeDG(2));
#endif
  }
}
int main(int argc, char** argv)
{
  mc::init(argc,argv); MC_SANITIZER_INIT;
  run<1,2>(); run<1,3>(); run<2,3>();
  return mc::finish();
}
