// All leaf bases of the library, grouped in families (one translation unit each), with what each promises.
#ifndef VERIF_LEAFZOO_HH
#define VERIF_LEAFZOO_HH
#include "meshes.hh"
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>

namespace zoo {
enum Conf { C0, DG, NORMAL, TANGENTIAL, FACEMID, HERMITE, ARGYRIS, MORLEY };

struct Props {
  std::string name;
  Conf conf = C0;
  int degree = 1;           // contains (and interpolation reproduces) all polynomials of this degree on affine meshes
  bool pyramidsPrisms = true;
  bool noQuadFace2 = false;
  bool mixed = true;        // allowed on meshes with several element types
  bool piecewise = false;   // shape functions are only piecewise polynomial
  bool duality = true;      // interpolation is dual to the basis functions
  bool positiveOnly = false; // higher edge moments: needs consistently (positively) oriented elements, as all simplex grid managers provide
  bool affineOnly = false;
  bool nodal = false;       // Lagrange element of high order: decided by the positions of the nodes
};

inline bool accepts(const Props& p, const std::string& mesh)
{
  if (!p.pyramidsPrisms && (mesh.find("prism")!=std::string::npos || mesh.find("pyramid")!=std::string::npos)) return false;
  if (!p.mixed && !meshes::isSimplexPair(mesh) && !meshes::isCubePair(mesh)) return false;
  return true;
}

#ifndef FAMILY
#define FAMILY 0
#endif

// f(std::integral_constant<int,dim>, std::integral_constant<int,kind>, Props, factory)
template<class F> void forEach(F&& f)
{
  using namespace Dune::Functions::BasisFactory;
  [[maybe_unused]] auto d1=std::integral_constant<int,1>{};
  [[maybe_unused]] auto d2=std::integral_constant<int,2>{};
  [[maybe_unused]] auto d3=std::integral_constant<int,3>{};
  [[maybe_unused]] auto mixed=std::integral_constant<int,0>{};
  [[maybe_unused]] auto simplex=std::integral_constant<int,1>{};
  [[maybe_unused]] auto cube=std::integral_constant<int,2>{};
#if FAMILY==0   // Lagrange 1d/2d
  for (int k=1;k<=(mc::thorough()?8:5);++k) {
    f(d1,mixed,Props{"lagrange("+std::to_string(k)+")",C0,k},lagrange(k));
    f(d2,mixed,Props{"lagrange("+std::to_string(k)+")",C0,k},lagrange(k));
  }
  f(d2,mixed,Props{"lagrange(0)",DG,0},lagrange(0));
  f(d2,mixed,Props{"lagrange<0>",DG,0},lagrange<0>());
  f(d2,mixed,Props{"lagrange<1>",C0,1},lagrange<1>());
  f(d2,mixed,Props{"lagrange<2>",C0,2},lagrange<2>());
  f(d2,simplex,Props{"lagrange<3>",C0,3},lagrange<3>());
  f(d2,cube,Props{"lagrange<3>",C0,3},lagrange<3>());
  f(d2,cube,Props{"lagrange<4>",C0,4},lagrange<4>());
#elif FAMILY==1 // Lagrange 3d, mixed meshes
  f(d3,mixed,Props{"lagrange(1)",C0,1},lagrange(1));
  f(d3,mixed,Props{"lagrange(2)",C0,2},lagrange(2));
  f(d3,mixed,Props{"lagrange<0>",DG,0},lagrange<0>());
  f(d3,mixed,Props{"lagrange<1>",C0,1},lagrange<1>());
  f(d3,mixed,Props{"lagrange<2>",C0,2},lagrange<2>());
#elif FAMILY==2 // Lagrange 3d, simplex meshes
  for (int k=3;k<=(mc::thorough()?6:5);++k)
    f(d3,simplex,Props{"lagrange("+std::to_string(k)+")",C0,k},lagrange(k));
  f(d3,simplex,Props{"lagrange<3>",C0,3},lagrange<3>());
#elif FAMILY==3 // Lagrange 3d, cube meshes
  for (int k=2;k<=(mc::thorough()?5:4);++k)
    f(d3,cube,Props{"lagrange("+std::to_string(k)+")",C0,k},lagrange(k));
  f(d3,cube,Props{"lagrange<3>",C0,3},lagrange<3>());
#elif FAMILY==4 // other scalar spaces
  { Props p{"lagrangeDG<1>",DG,1}; f(d2,mixed,p,lagrangeDG<1>()); f(d3,mixed,p,lagrangeDG<1>()); f(d1,mixed,p,lagrangeDG<1>()); }
  { Props p{"lagrangeDG(2)",DG,2}; f(d2,mixed,p,lagrangeDG(2)); f(d3,mixed,p,lagrangeDG(2)); }
  { Props p{"lagrangeDG(3)",DG,3}; f(d2,mixed,p,lagrangeDG(3)); }
  { Props p{"lagrangeDG<0>",DG,0}; f(d2,mixed,p,lagrangeDG<0>()); }
  { Props p{"refinedLagrange<1>",C0,1}; p.piecewise=true; f(d1,simplex,p,refinedLagrange<1>()); f(d2,simplex,p,refinedLagrange<1>()); f(d3,simplex,p,refinedLagrange<1>()); }
  { Props p{"refinedLagrange<0>",DG,0}; p.piecewise=true; f(d1,simplex,p,refinedLagrange<0>()); f(d2,simplex,p,refinedLagrange<0>()); f(d3,simplex,p,refinedLagrange<0>()); }
  { Props p{"hierarchicalLagrange<1>",C0,1}; f(d2,simplex,p,hierarchicalLagrange<1>()); }
  { Props p{"hierarchicalLagrange<2>",C0,2}; f(d1,simplex,p,hierarchicalLagrange<2>()); f(d2,simplex,p,hierarchicalLagrange<2>()); f(d3,simplex,p,hierarchicalLagrange<2>()); }
  { Props p{"hierarchicalP1B",C0,1}; f(d1,simplex,p,hierarchicalP1B()); f(d2,simplex,p,hierarchicalP1B()); f(d3,simplex,p,hierarchicalP1B()); }
  { Props p{"hierarchicalP2B",C0,2}; f(d1,simplex,p,hierarchicalP2B()); f(d2,simplex,p,hierarchicalP2B()); f(d3,simplex,p,hierarchicalP2B()); }
  { Props p{"rannacherTurek",FACEMID,1}; p.affineOnly=true; p.pyramidsPrisms=false; f(d2,mixed,p,rannacherTurek<>()); f(d2,cube,p,rannacherTurek<>()); f(d2,simplex,p,rannacherTurek<>());
    f(d3,cube,p,rannacherTurek<>()); f(d3,simplex,p,rannacherTurek<>()); }
#elif FAMILY==5 // H(div) 2d
  { Props p{"raviartThomas<0>",NORMAL,0}; f(d2,simplex,p,raviartThomas<0>()); f(d2,cube,p,raviartThomas<0>()); f(d2,mixed,p,raviartThomas<0>()); }
  { Props p{"raviartThomas<1>",NORMAL,1}; p.positiveOnly=true; f(d2,simplex,p,raviartThomas<1>()); f(d2,cube,p,raviartThomas<1>()); }
  { Props p{"raviartThomas<2>",NORMAL,2}; p.positiveOnly=true; f(d2,cube,p,raviartThomas<2>()); }
  { Props p{"brezziDouglasMarini<1>",NORMAL,1}; p.mixed=false; p.positiveOnly=true; f(d2,simplex,p,brezziDouglasMarini<1>()); f(d2,cube,p,brezziDouglasMarini<1>()); }
  { Props p{"brezziDouglasMarini<2>",NORMAL,2}; p.mixed=false; p.positiveOnly=true; f(d2,simplex,p,brezziDouglasMarini<2>()); f(d2,cube,p,brezziDouglasMarini<2>()); }
#elif FAMILY==6 // H(div) 3d, H(curl)
  { Props p{"raviartThomas<0>",NORMAL,0}; f(d3,simplex,p,raviartThomas<0>()); f(d3,cube,p,raviartThomas<0>()); f(d3,mixed,p,raviartThomas<0>()); }
  { Props p{"raviartThomas<1>",NORMAL,1}; p.positiveOnly=true; f(d3,cube,p,raviartThomas<1>()); }
  { Props p{"nedelec<1,1>",TANGENTIAL,0}; p.pyramidsPrisms=false; f(d2,simplex,p,nedelec<1,1>()); f(d2,cube,p,nedelec<1,1>()); f(d2,mixed,p,nedelec<1,1>());
    f(d3,simplex,p,nedelec<1,1>()); f(d3,cube,p,nedelec<1,1>()); }
#elif FAMILY==7 // H2 type elements
  { Props p{"cubicHermite",HERMITE,3}; f(d1,simplex,p,cubicHermite()); f(d2,simplex,p,cubicHermite()); f(d3,simplex,p,cubicHermite()); }
  { Props p{"reducedCubicHermite",HERMITE,2}; f(d2,simplex,p,reducedCubicHermite()); }
  { Props p{"morley",MORLEY,2}; f(d2,simplex,p,morley()); }
#elif FAMILY==9  // Lagrange 3d, high order
  auto high=[&](auto k) {
    const std::string n="lagrange<"+std::to_string(int(k))+">"; Props p{n,C0,k}; p.nodal=true;
    f(d3,simplex,p,lagrange<int(k)>()); f(d3,cube,p,lagrange<int(k)>()); };
  high(std::integral_constant<int,7>{});
  high(std::integral_constant<int,17>{});
  if (mc::thorough()) Dune::Hybrid::forEach(std::integer_sequence<int,6,8,9,10,11,12,13,14,15,16>{},high);
#elif FAMILY==23  // beyond the supported order
  { Props p{"lagrange<18>",C0,18}; p.nodal=true; f(d3,simplex,p,lagrange<18>()); f(d3,cube,p,lagrange<18>()); f(d3,mixed,p,lagrange<18>()); }
  { Props p{"lagrange<24>",C0,24}; p.nodal=true; f(d3,simplex,p,lagrange<24>()); }
#elif FAMILY==20  // configurations outside of the supported ones: 1d/2d
  { Props p{"refinedLagrange<1>",C0,1}; p.piecewise=true; f(d2,mixed,p,refinedLagrange<1>()); }
  { Props p{"refinedLagrange<0>",DG,0}; p.piecewise=true; f(d2,mixed,p,refinedLagrange<0>()); }
  { Props p{"hierarchicalLagrange<1>",C0,1}; f(d2,mixed,p,hierarchicalLagrange<1>()); }
  { Props p{"hierarchicalLagrange<2>",C0,2}; f(d2,mixed,p,hierarchicalLagrange<2>()); }
  { Props p{"hierarchicalP1B",C0,1}; f(d2,mixed,p,hierarchicalP1B()); }
  { Props p{"hierarchicalP2B",C0,2}; f(d2,mixed,p,hierarchicalP2B()); }
  { Props p{"rannacherTurek",FACEMID,1}; f(d2,mixed,p,rannacherTurek<>()); }
  { Props p{"raviartThomas<1>",NORMAL,1}; p.positiveOnly=true; f(d2,mixed,p,raviartThomas<1>()); }
  { Props p{"brezziDouglasMarini<1>",NORMAL,1}; p.positiveOnly=true; f(d2,mixed,p,brezziDouglasMarini<1>()); }
  { Props p{"brezziDouglasMarini<2>",NORMAL,2}; p.positiveOnly=true; f(d2,mixed,p,brezziDouglasMarini<2>()); }
  { Props p{"nedelec<1,1>",TANGENTIAL,0}; f(d2,mixed,p,nedelec<1,1>()); }
  { Props p{"lagrangeDG(4)",DG,4}; f(d2,mixed,p,lagrangeDG(4)); }
  { Props p{"lagrange(3)",C0,3}; f(d2,mixed,p,lagrange(3)); }
#elif FAMILY==21  // 3d
  { Props p{"refinedLagrange<1>",C0,1}; p.piecewise=true; f(d3,mixed,p,refinedLagrange<1>()); }
  { Props p{"hierarchicalLagrange<1>",C0,1}; f(d3,mixed,p,hierarchicalLagrange<1>()); }
  { Props p{"hierarchicalLagrange<2>",C0,2}; f(d3,mixed,p,hierarchicalLagrange<2>()); }
  { Props p{"hierarchicalP1B",C0,1}; f(d3,mixed,p,hierarchicalP1B()); }
  { Props p{"hierarchicalP2B",C0,2}; f(d3,mixed,p,hierarchicalP2B()); }
  { Props p{"rannacherTurek",FACEMID,1}; p.affineOnly=true; f(d3,mixed,p,rannacherTurek<>()); }
  { Props p{"nedelec<1,1>",TANGENTIAL,0}; f(d3,mixed,p,nedelec<1,1>()); }
  { Props p{"lagrangeDG(2)",DG,2}; f(d3,mixed,p,lagrangeDG(2)); }
  { Props p{"lagrangeDG(3)",DG,3}; f(d3,mixed,p,lagrangeDG(3)); }
#elif FAMILY==22
  for (int k=2;k<=(mc::thorough()?5:4);++k) f(d3,mixed,Props{"lagrange("+std::to_string(k)+")",C0,k},lagrange(k));
  f(d3,mixed,Props{"lagrange<3>",C0,3},lagrange<3>());
#elif FAMILY==8
  { Props p{"argyris",ARGYRIS,5}; f(d2,simplex,p,argyris()); }
#endif
}
static constexpr int families = 9;
} // namespace zoo

// ---------------------------------------------------------------- evaluation helpers
namespace ev {
template<class V> double comp(const V& v, int i) { if constexpr (requires { v[0]; }) return v[i]; else return v; }
template<class FE> using Traits = typename std::decay_t<FE>::Traits::LocalBasisType::Traits;

// shape function values [i][r]
template<class FE, class X>
std::vector<std::vector<double>> values(const FE& fe, const X& x)
{
  std::vector<typename Traits<FE>::RangeType> out;
  fe.localBasis().evaluateFunction(x,out);
  std::vector<std::vector<double>> r(out.size());
  for (std::size_t i=0;i<out.size();++i) for (int j=0;j<(int)Traits<FE>::dimRange;++j) r[i].push_back(comp(out[i],j));
  return r;
}
// derivatives w.r.t. local coordinates [i][r][d]
template<class FE, class X>
std::vector<std::vector<std::vector<double>>> jacobians(const FE& fe, const X& x)
{
  std::vector<typename Traits<FE>::JacobianType> out;
  fe.localBasis().evaluateJacobian(x,out);
  std::vector<std::vector<std::vector<double>>> r(out.size());
  for (std::size_t i=0;i<out.size();++i) {
    r[i].resize(Traits<FE>::dimRange);
    for (int j=0;j<(int)Traits<FE>::dimRange;++j) for (int d=0;d<(int)Traits<FE>::dimDomain;++d) r[i][j].push_back(out[i][j][d]);
  }
  return r;
}
// exact (up to degree 8) central difference
template<class G, class X>
auto fd(G&& g, X x, int dir, double h=0.004)
{
  static const double c[4]={4./5.,-1./5.,4./105.,-1./280.};
  using T = std::decay_t<decltype(g(x))>;
  T r{}; bool first=true;
  for (int k=1;k<=4;++k) for (int s : {1,-1}) {
    X y=x; y[dir]+=s*k*h;
    T v=g(y);
    if (first) { r=v; for (auto& a : r) for (auto& b : a) b=0; first=false; }
    for (std::size_t i=0;i<v.size();++i) for (std::size_t j=0;j<v[i].size();++j) r[i][j]+=s*c[k-1]*v[i][j]/h;
  }
  return r;
}
// generic interior points of a reference element (away from lines x_i=1/2, sum x_i=1/2)
template<int dim>
std::vector<Dune::FieldVector<double,dim>> interiorPoints(Dune::GeometryType gt, int n)
{
  std::vector<Dune::FieldVector<double,dim>> r;
  auto re = Dune::ReferenceElements<double,dim>::general(gt);
  // also away from x_i+x_j=1/2 and x_i=x_j, where composite elements have kinks
  static const double a[3][6]={{0.13,0.72,0.28,0.08,0.36,0.62},{0.18,0.11,0.57,0.31,0.41,0.23},{0.24,0.06,0.07,0.45,0.18,0.04}};
  for (int k=0;k<6 && (int)r.size()<n;++k) {
    Dune::FieldVector<double,dim> x;
    for (int d=0;d<dim;++d) x[d]=a[d][k];
    if (re.checkInside(x)) r.push_back(x);
  }
  return r;
}
// lattice of a face (including its corners), fine enough for polynomials of degree n
template<int dim>
std::vector<Dune::FieldVector<double,dim>> lattice(Dune::GeometryType gt, int n)
{
  std::vector<Dune::FieldVector<double,dim>> r;
  if constexpr (dim==0) { r.push_back({}); return r; }
  else {
    auto re = Dune::ReferenceElements<double,dim>::general(gt);
    int N=1; for (int d=0;d<dim;++d) N*=n+1;
    for (int k=0;k<N;++k) {
      Dune::FieldVector<double,dim> x; int q=k;
      for (int d=0;d<dim;++d) { x[d]=double(q%(n+1))/n; q/=n+1; }
      if (re.checkInside(x)) r.push_back(x);
    }
    return r;
  }
}
template<class G>
bool positivelyOriented(const G& geo)
{
  constexpr int dim=G::mydimension;
  auto J=geo.jacobianTransposed(Dune::ReferenceElements<double,dim>::general(geo.type()).position(0,0));
  Dune::FieldMatrix<double,dim,dim> A; for (int i=0;i<dim;++i) for (int j=0;j<dim;++j) A[i][j]=J[i][j];
  return A.determinant()>0;
}
} // namespace ev
#endif
