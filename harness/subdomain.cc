// C14: all subsets of the elements of small meshes as subdomains.
// Oracle: a mesh consisting of the selected elements only (another mock grid), and set operations on the selection.
#include <config.h>
#include "observe.hh"
#include <memory>
#include <dune/functions/common/subdomain.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/grid/yaspgrid.hh>
#include <dune/grid/onedgrid.hh>
#include <dune/grid/geometrygrid.hh>
#include <dune/grid/identitygrid.hh>
using mc::cat;
namespace BF=Dune::Functions::BasisFactory;
namespace EX=Dune::Functions::Experimental;
namespace GT=Dune::GeometryTypes;

// ---------------------------------------------------------------- meshes
template<int dim> using Spec=Dune::MockMeshSpec<dim>;
template<int dim> Spec<dim> mesh(int kind)
{
  Spec<dim> s;
  if constexpr (dim==1) { s.vertices={{0.},{0.4},{1.1},{1.5},{2.2}}; s.elements={{GT::line,{0,1}},{GT::line,{2,1}},{GT::line,{2,3}},{GT::line,{4,3}}}; }
  else if constexpr (dim==2) {
    if (kind==0) { s.vertices={{0,0},{1,0.1},{2,0},{0,1},{1,1.1},{2.1,1},{0.3,2},{1.8,2}};
      s.elements={{GT::quadrilateral,{0,1,3,4}},{GT::triangle,{3,4,6}},{GT::quadrilateral,{5,4,2,1}},{GT::triangle,{4,5,7}},{GT::triangle,{7,6,4}}}; }
    if (kind==1) { s.vertices={{0,0},{1,0.1},{1.5,1},{0.4,1.4},{-0.8,0.7},{-0.5,-0.9}};
      s.elements={{GT::triangle,{0,1,2}},{GT::triangle,{3,2,0}},{GT::triangle,{0,3,4}},{GT::triangle,{5,0,4}},{GT::triangle,{1,5,0}}}; }
    if (kind==2) { s.vertices={{0,0},{1,0},{2,0},{0,1},{1,1},{2,1},{0,2},{1,2},{2,2}};
      s.elements={{GT::quadrilateral,{0,1,3,4}},{GT::quadrilateral,{2,1,5,4}},{GT::quadrilateral,{6,3,7,4}},{GT::quadrilateral,{4,7,5,8}}}; }
  } else {
    if (kind==0) { s.vertices={{0,0,0},{1.2,0,0},{0.1,1,0},{0,0,1},{1.2,0,1},{0.1,1,1},{2.0,0.9,0},{0.9,1.9,0},{2.0,0.9,1},{0.9,1.9,1},{0.4,0.3,1.8},{2.3,2.2,0.4}};
      s.elements={{GT::hexahedron,{1,6,2,7,4,8,5,9}},{GT::prism,{0,1,2,3,4,5}},{GT::tetrahedron,{10,3,4,5}},{GT::pyramid,{6,7,8,9,11}}}; }
    if (kind==1) { s.vertices={{0,0.1,0},{1.1,0,0.1},{0.1,1,0},{0.2,0.1,1.2},{1.0,1.1,0.9},{-0.7,0.6,0.5}};
      s.elements={{GT::tetrahedron,{0,1,2,3}},{GT::tetrahedron,{4,1,3,2}},{GT::tetrahedron,{2,5,3,0}}}; }
    if (kind==2) { s.vertices={{0,0,0},{1,0,0},{0,1,0},{1,1,0},{0,0,1},{1,0,1},{0,1,1},{1,1,1},{2,0,0},{2,1,0},{2,0,1},{2,1,1},{0,0,2},{1,0,2},{0,1,2},{1,1,2}};
      s.elements={{GT::hexahedron,{0,1,2,3,4,5,6,7}},{GT::hexahedron,{8,1,9,3,10,5,11,7}},{GT::hexahedron,{12,13,14,15,4,5,6,7}}}; }
  }
  return s;
}
// host numberings: as given, and scrambled
template<int dim> std::vector<Spec<dim>> hosts(int kind)
{
  auto a=mesh<dim>(kind), b=a; int nv=a.vertices.size(), ne=a.elements.size();
  for (int i=0;i<nv;++i) { b.vertexIndices.push_back((i*5+3)%nv*100+i); b.vertexIds.push_back((i*3+2)%nv*100-i); }
  for (int e=0;e<ne;++e) { b.elementIndices.push_back(ne-e); auto& S=meshes::symmetries<dim>(b.elements[e].type); b.elements[e].v=meshes::permuted(b.elements[e].v,S[(7*e+1)%S.size()]); }
  b.reverseSubIndices=b.reverseIds=true;
  return {a,b};
}
using Selection=std::vector<int>;   // element numbers in insertion order
inline std::string str(const Selection& s) { std::string r="{"; for (int e : s) r+=char('0'+e); return r+"}"; }
// all subsets in ascending order, and all insertion orders of the small ones
inline std::vector<Selection> selections(int n, bool orders, int maxOrders=3)
{
  std::vector<Selection> r;
  for (int m=0;m<(1<<n);++m) { Selection s; for (int e=0;e<n;++e) if (m>>e&1) s.push_back(e);
    if (orders && (int)s.size()<=maxOrders) { do r.push_back(s); while (std::next_permutation(s.begin(),s.end())); }
    else { r.push_back(s); if (orders) { std::reverse(s.begin(),s.end()); r.push_back(s); } } }
  return r;
}
// the mesh consisting of the selected elements only, its entities numbered in the order in which they are inserted
template<int dim> Spec<dim> alone(const Spec<dim>& host, const Selection& sel)
{
  Spec<dim> s; std::map<int,int> number; s.typesAsFound=true;
  for (int e : sel) {
    auto el=host.elements[e];
    for (int& v : el.v) { auto [it,fresh]=number.emplace(v,(int)number.size()); if (fresh) { s.vertices.push_back(host.vertices[v]); s.vertexIds.push_back(host.vertexIds.empty()?v:host.vertexIds[v]); } v=it->second; }
    s.elements.push_back(el);
  }
  return s;
}
template<class GV> auto hostElements(const GV& gv) { std::vector<typename GV::template Codim<0>::Entity> r; for (const auto& e : elements(gv)) r.push_back(e); return r; }
template<class SD, class E> void fill(SD& sd, const std::vector<E>& es, const Selection& sel) { for (int e : sel) sd.insertElement(es[e]); }

// ---------------------------------------------------------------- index sets, iterators
template<int dim, int kind> void indexSets(const char* name)
{
  if (!mc::group(std::string(name)+"/")) return;
  int h=0;
  for (auto& spec : hosts<dim>(kind)) {
    Dune::MockGrid<dim,kind> host(spec); auto gv=host.leafGridView(); auto es=hostElements(gv);
    for (auto& sel : selections(es.size(),true,mc::thorough()?5:3)) for (int twice=0;twice<2;++twice)
      mc::state(cat(name,"/h",h,"/",str(sel),twice?"/repeated":""),[&]{
        EX::SubDomain sd(gv); mc::op("inserting elements"); fill(sd,es,sel); if (twice) fill(sd,es,sel);
        Dune::MockGrid<dim,kind> own(alone<dim>(spec,sel)); auto og=own.leafGridView();
        auto sg=sd.gridView(); auto copy=sg; const auto& is=copy.indexSet(); const auto& os=og.indexSet();
        std::size_t out=0;
        mc::op("sizes");
        for (int c=0;c<=dim;++c) {
          mc::equal(int(is.size(c)),int(os.size(c)),cat("size of codim ",c)); mc::equal(sg.size(c),int(os.size(c)),cat("size of codim ",c," of the view"));
          std::set<Dune::GeometryType> a,b; for (auto t : is.types(c)) mc::check(a.insert(t).second,"geometry type listed twice"); for (auto t : os.types(c)) b.insert(t);
          mc::check(a==b,cat("geometry types of codim ",c));
          for (auto t : gv.indexSet().types(c)) { mc::equal(int(is.size(t)),int(os.size(t)),cat("number of entities of type ",t)); mc::equal(sg.size(t),int(os.size(t)),cat("size of type ",t)); }
        }
        mc::op("elements");
        std::vector<int> visited, expected=sel; std::sort(expected.begin(),expected.end());
        for (const auto& e : elements(sg)) { int k=-1; for (std::size_t i=0;i<es.size();++i) if (es[i]==e) k=i; visited.push_back(k); mc::transition(); }
        mc::check(visited==expected,"elements visited by the iterator");
        visited.clear(); for (const auto& e : elements(sg,Dune::Partitions::all)) { int k=-1; for (std::size_t i=0;i<es.size();++i) if (es[i]==e) k=i; visited.push_back(k); }
        mc::check(visited==expected,"elements visited by the iterator of a partition");
        mc::op("indices");
        std::vector<typename Dune::MockGrid<dim,kind>::template Codim<0>::Entity> oe; for (const auto& e : elements(og)) oe.push_back(e);
        for (std::size_t i=0;i<es.size();++i) {
          bool in=std::count(sel.begin(),sel.end(),(int)i);
          mc::equal(sd.contains(es[i]),in,cat("subdomain contains element ",i)); mc::equal(sg.contains(es[i]),in,cat("view contains element ",i)); mc::equal(is.contains(es[i]),in,cat("index set contains element ",i));
          auto re=referenceElement(es[i].geometry());
          int pos=std::find(sel.begin(),sel.end(),(int)i)-sel.begin();
          if (in) mc::equal(is.index(es[i]),os.index(oe[pos]),cat("index of element ",i));
          Dune::Hybrid::forEach(std::make_index_sequence<dim+1>{},[&](auto c) {
            for (int k=0;k<re.size(c);++k) {
              auto sub=es[i].template subEntity<c>(k);
              // contained iff it belongs to a selected element
              bool member=false; std::size_t id=gv.grid().globalIdSet().id(sub);
              for (int e : sel) for (unsigned j=0;j<es[e].subEntities(c);++j) member|=gv.grid().globalIdSet().subId(es[e],j,c)==id;
              mc::equal(is.contains(sub),member,cat("contains sub-entity ",k," of codim ",int(c)," of element ",i));
              bool thrown=false; std::size_t a=0,b=0;
              try { a=is.index(sub); b=is.subIndex(es[i],k,c); } catch (const Dune::InvalidStateException&) { thrown=true; }
              mc::equal(thrown,!member,cat("access to sub-entity ",k," of codim ",int(c)," of element ",i," fails"));
              if (in) { auto x=os.subIndex(oe[pos],k,c); mc::equal(a,x,cat("index of sub-entity ",k," of codim ",int(c)," of element ",i)); mc::equal(b,x,cat("subIndex ",k," of codim ",int(c)," of element ",i)); mc::combine(out,a); }
            }
          });
          if (in) { std::vector<int> a,b; for (const auto& x : intersections(sg,es[i])) a.push_back(x.indexInInside()); for (const auto& x : intersections(gv,es[i])) b.push_back(x.indexInInside()); mc::check(a==b,"intersections of an element"); }
        }
        mc::outcome(out);
      });
    ++h;
  }
}

// ---------------------------------------------------------------- interfaces and skeletons
template<class GV> void interfacesOn(const std::string& name, const GV& gv)
{
  if (!mc::group(name+"/")) return;
  auto es=hostElements(gv);
  auto number=[&](const auto& e) { for (std::size_t i=0;i<es.size();++i) if (es[i]==e) return int(i); return -1; };
  auto sels=selections(es.size(),false);
  auto has=[](const Selection& s, int e) { return std::count(s.begin(),s.end(),e)>0; };
  for (auto& a : sels) {
    mc::state(cat(name,"/skeleton/",str(a)),[&]{
      EX::SubDomain sd(gv); fill(sd,es,a); EX::SubDomainSkeleton sk(sd); std::size_t out=0;
      for (std::size_t i=0;i<es.size();++i) for (const auto& x : intersections(gv,es[i])) {
        bool in = x.neighbor() && has(a,i) && has(a,number(x.outside()));
        mc::equal(sk.contains(x),in,cat("skeleton contains face ",x.indexInInside()," of element ",i)); mc::combine(out,std::size_t(in));
      }
      mc::outcome(out);
    });
    for (auto& b : sels) mc::state(cat(name,"/",str(a),"-",str(b)),[&]{
      EX::SubDomain A(gv), B(gv); fill(A,es,a); fill(B,es,b);
      EX::SubDomainInterface iface(A,B); const auto& c=iface;
      std::vector<std::pair<int,int>> visited, expected; std::size_t out=0;
      for (const auto& x : c) { mc::transition(); visited.push_back({number(x.inside()),x.indexInInside()}); mc::check(c.contains(x) && c.isOriented(x),"visited intersection is contained and oriented"); }
      for (std::size_t i=0;i<es.size();++i) for (const auto& x : intersections(gv,es[i])) {
        int o = x.neighbor() ? number(x.outside()) : -1;
        bool ab = o>=0 && has(a,i) && has(b,o), ba = o>=0 && has(b,i) && has(a,o);
        if (ab) expected.push_back({i,x.indexInInside()});
        mc::equal(c.contains(x),ab||ba,cat("interface contains face ",x.indexInInside()," of element ",i));
        if (ab||ba) mc::equal(c.isOriented(x),ab,cat("orientation of face ",x.indexInInside()," of element ",i));
        mc::combine(out,std::size_t(ab+2*ba));
      }
      mc::check(visited==expected,[&]{ return cat(visited.size()," intersections visited, expected ",expected.size()); });
      // two iterators over the same range are independent
      auto it=c.begin(); auto end=c.end(); std::size_t n=0;
      for (;!(it==end);++it,++n) { auto copy=it; ++copy; mc::check((*it).indexInInside()==expected[n].second && number((*it).inside())==expected[n].first,"copy of an iterator moved the original"); }
      mc::equal(n,expected.size(),"number of intersections");
      mc::outcome(out);
    });
  }
}

// ---------------------------------------------------------------- restricted bases
template<class Basis, class GV> Obs sizesOf(const Basis& basis, const GV& gv)
{
  Obs o; o.push_back(basis.dimension()); o.push_back(basis.size()); o.push_back(basis.preBasis().maxNodeSize());
  std::set<std::vector<std::size_t>> prefixes{{}}; auto lv=basis.localView();
  for (const auto& e : elements(gv)) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) { std::vector<std::size_t> p; for (auto d : lv.index(i)) { prefixes.insert(p); p.push_back(d); } } }
  for (auto& p : prefixes) { typename Basis::SizePrefix q; for (auto d : p) q.push_back(d); o.push_back(basis.size(q)); }
  return o;
}
template<class A, class B> void same(const A& r, const B& q, const std::string& what)
{
  // averages are summed up in different orders: compare up to rounding
  auto eq=[](double a, double b) { return std::abs(a-b)<=1e-10*(1+std::abs(a)); };
  mc::check(std::equal(r.begin(),r.end(),q.begin(),q.end(),eq),[&]{ std::size_t k=0; while (k<r.size() && k<q.size() && eq(r[k],q[k])) ++k; return cat(what,": entry ",k," of ",q.size(),": ",k<r.size()?r[k]:-1,", expected ",k<q.size()?q[k]:-1); });
}
template<class LV> void empty(const LV& lv, int e)
{
  mc::equal(lv.size(),std::size_t(0),cat("number of degrees of freedom on element ",e," outside of the subdomain"));
  mc::check(lv.bound(),"view bound outside of the subdomain");
  Dune::TypeTree::forEachNode(lv.tree(),[&](auto&& node, auto&&) { mc::equal(node.size(),std::size_t(0),cat("size of a node on element ",e," outside of the subdomain")); mc::check(node.empty(),"node is empty"); });
}
template<int dim, int kind, class Factory> void restricted(const std::string& name, const Factory& factory)
{
  if (!mc::group(name+"/")) return;
  int h=0;
  for (auto& spec : hosts<dim>(kind)) {
    Dune::MockGrid<dim,kind> host(spec); auto gv=host.leafGridView(); auto es=hostElements(gv); int n=es.size();
    for (auto& sel : selections(n,true,mc::thorough()?4:2)) if (!sel.empty()) mc::state(cat(name,"/h",h,"/",str(sel)),[&]{
      std::vector<char> in(n); for (int e : sel) in[e]=1;
      Dune::MockGrid<dim,kind> own(alone<dim>(spec,sel)); auto og=own.leafGridView(); auto oe=hostElements(og);
      EX::SubDomain sd(gv); fill(sd,es,sel); auto sg=sd.gridView();
      mc::op("creating the bases");
      auto basis=BF::makeBasis(gv,EX::BasisFactory::restrict(factory,sd)); auto ref=BF::makeBasis(og,factory);
      same(sizesOf(basis,gv),sizesOf(ref,og),"sizes of the restricted basis");
      mc::equal(basis.gridView().size(0),n,"grid view of the restricted basis");
      auto lr=ref.localView(); std::size_t out=0; std::vector<Obs> expected(n);
      for (int e=0;e<n;++e) if (in[e]) { lr.bind(oe[std::find(sel.begin(),sel.end(),e)-sel.begin()]); expected[e]=observeView(og,lr); for (double x : expected[e]) mc::combine(out,x); }
      auto look=[&](const auto& lv, int e, const char* when) { if (in[e]) same(observeView(sg,lv),expected[e],cat("local view on element ",e,when)); else empty(lv,e); };
      for (int e=0;e<n;++e) for (int f=0;f<n;++f) {   // one view bound to a pair of elements, copies
        mc::op(cat("local view bound to ",e," and ",f)); mc::transition();
        auto lv=basis.localView(); lv.bind(es[e]); if (f==e) look(lv,e,"");
        if (f==e) { auto copy=lv; look(copy,e," of a copy"); lv.unbind(); mc::check(!lv.bound(),"unbound"); lv.bind(es[e]); }
        lv.bind(es[f]); look(lv,f," after another element");
      }
      // as a child of larger trees
      { using namespace BF; mc::op("composite");
        auto big=makeBasis(gv,composite(EX::BasisFactory::restrict(factory,sd),lagrange<1>(),EX::BasisFactory::restrict(factory,sd),blockedLexicographic()));
        auto plain=makeBasis(gv,lagrange<1>()); auto lv=big.localView(); auto lp=plain.localView();
        mc::equal(big.dimension(),2*ref.dimension()+plain.dimension(),"dimension of a composite basis with restricted children");
        for (int e=0;e<n;++e) { lv.bind(es[e]); lp.bind(es[e]);
          std::size_t k=0; if (in[e]) lr.bind(oe[std::find(sel.begin(),sel.end(),e)-sel.begin()]);
          for (int child=0;child<3;++child) {
            std::size_t m = child==1 ? lp.size() : in[e] ? lr.size() : 0;
            for (std::size_t i=0;i<m;++i,++k) { std::vector<std::size_t> a,b{(std::size_t)child}; for (auto d : lv.index(k)) a.push_back(d); if (child==1) for (auto d : lp.index(i)) b.push_back(d); else for (auto d : lr.index(i)) b.push_back(d);
              mc::check(a==b,cat("index ",i," of child ",child," on element ",e)); } }
          mc::equal(lv.size(),k,cat("number of degrees of freedom of the composite basis on element ",e)); }
      }
      mc::outcome(out);
    });
    // extending the subdomain, then updating the basis
    for (auto& sel : selections(n,false)) if (!sel.empty()) for (int e=0;e<n;++e) if (!std::count(sel.begin(),sel.end(),e)) mc::state(cat(name,"/h",h,"/",str(sel),"+",e),[&]{
      EX::SubDomain sd(gv), fresh(gv); fill(sd,es,sel); fill(fresh,es,sel); fresh.insertElement(es[e]);
      auto basis=BF::makeBasis(gv,EX::BasisFactory::restrict(factory,sd)); auto copy=basis;
      sd.insertElement(es[e]); mc::op("update"); basis.update(gv); copy=basis;
      auto ref=BF::makeBasis(gv,EX::BasisFactory::restrict(factory,fresh));
      for (const auto* b : {&basis,&copy}) {
        same(sizesOf(*b,gv),sizesOf(ref,gv),"sizes after extending the subdomain and updating");
        auto lv=b->localView(); auto lr=ref.localView();
        for (int k=0;k<n;++k) { lv.bind(es[k]); lr.bind(es[k]); if (fresh.contains(es[k])) same(observeView(sd.gridView(),lv),observeView(fresh.gridView(),lr),cat("local view on element ",k," after updating")); else empty(lv,k); }
      }
      mc::outcome(std::size_t(basis.dimension()));
    });
    ++h;
  }
}
// discrete functions on restricted bases
template<int dim, int kind, class Factory> void functions(const std::string& name, const Factory& factory)
{
  if (!mc::group(name+"/")) return;
  auto spec=hosts<dim>(kind)[1];
  Dune::MockGrid<dim,kind> host(spec); auto gv=host.leafGridView(); auto es=hostElements(gv); int n=es.size();
  for (auto& sel : selections(n,false)) if (!sel.empty()) mc::state(cat(name,"/",str(sel)),[&]{
    Dune::MockGrid<dim,kind> own(alone<dim>(spec,sel)); auto og=own.leafGridView(); auto oe=hostElements(og);
    EX::SubDomain sd(gv); fill(sd,es,sel);
    auto basis=BF::makeBasis(gv,EX::BasisFactory::restrict(factory,sd)); auto ref=BF::makeBasis(og,factory);
    auto f=[](const auto& x) { double r=1; for (int d=0;d<dim;++d) r+=(d+1)*x[d]+x[d]*x[0]*0.5; return r; };
    std::vector<double> x,y; mc::op("interpolation"); F::interpolate(basis,x,f); F::interpolate(ref,y,f);
    same(x,y,"interpolated coefficients");
    auto a=F::makeDiscreteGlobalBasisFunction<double>(basis,x); auto b=F::makeDiscreteGlobalBasisFunction<double>(ref,y);
    auto la=localFunction(a); auto lb=localFunction(b); std::size_t out=0;
    for (int e=0;e<n;++e) { mc::op("evaluation"); la.bind(es[e]); bool in=sd.contains(es[e]); if (in) lb.bind(oe[std::find(sel.begin(),sel.end(),e)-sel.begin()]);
      for (auto& p : pts<dim>()) { double v=la(p); mc::combine(out,v); mc::close(v,in?lb(p):0.,1e-12,cat("value on element ",e)); } }
    mc::outcome(out);
  });
}

void explore()
{
  using namespace BF;
#if PART==0
  indexSets<1,1>("1d"); indexSets<2,0>("2d mixed"); indexSets<2,1>("2d triangles"); indexSets<2,2>("2d quadrilaterals"); indexSets<3,0>("3d mixed"); indexSets<3,1>("3d tetrahedra"); indexSets<3,2>("3d hexahedra");
#elif PART==1
  auto on=[](auto d, auto k, const char* name) { constexpr int dim=decltype(d)::value, kind=decltype(k)::value; int h=0; for (auto& s : hosts<dim>(kind)) { Dune::MockGrid<dim,kind> g(s); interfacesOn(cat(name,"/h",h++),g.leafGridView()); } };
  using Dune::index_constant; index_constant<0> i0; index_constant<1> i1; index_constant<2> i2; index_constant<3> i3;
  on(i1,i1,"1d"); on(i2,i0,"2d mixed"); on(i2,i1,"2d triangles"); on(i2,i2,"2d quadrilaterals"); on(i3,i0,"3d mixed"); on(i3,i1,"3d tetrahedra");
  { Dune::YaspGrid<2> g({1.,1.},{2,2}); interfacesOn("yasp",g.leafGridView()); }
  { Dune::YaspGrid<2> g({1.,1.},std::array<int,2>{2,2},std::bitset<2>("01"),0); interfacesOn("yasp periodic",g.leafGridView()); }
  { Dune::OneDGrid g(4,0.,1.); interfacesOn("oned",g.leafGridView()); }
  // grids whose iterators return entities by value
  { Dune::YaspGrid<2> y({1.,1.},{2,2}); Dune::IdentityGrid<Dune::YaspGrid<2>> g(y); interfacesOn("identity",g.leafGridView()); }
#elif PART>=10
  int count=0; std::set<std::string> seen;
  zoo::forEach([&](auto d, auto kind, const zoo::Props& p, auto factory) {
    constexpr int dim=decltype(d)::value, k=decltype(kind)::value;
    if (k==0 && (!p.mixed || (dim==3 && !p.pyramidsPrisms))) return;
    if (p.degree>3 && FAMILY<4) return;
    if (dim==3 && p.degree>3) return;
    std::string name=cat(dim,"d/",k==0?"mixed":k==1?"simplex":"cube","/",p.name);
    if (seen.insert(name).second) restricted<dim,k>(name,factory);
  });
#elif PART==2
  restricted<2,0>("power<2>",power<2>(lagrange<1>()));
  restricted<2,0>("power(2)/flatLexicographic",power(lagrange(2),2,flatLexicographic()));
  restricted<2,0>("composite",composite(lagrange<1>(),lagrange<0>(),blockedLexicographic()));
  restricted<2,0>("composite/raviartThomas",composite(raviartThomas<0>(),lagrange<0>(),flatLexicographic()));
  restricted<2,0>("taylorHood",taylorHood());
  restricted<2,0>("nested",power<2>(composite(power<2>(lagrange<1>()),lagrangeDG<1>()),blockedLexicographic()));
  functions<2,0>("functions/lagrange<1>",lagrange<1>()); functions<2,0>("functions/lagrange(2)",lagrange(2)); functions<1,1>("functions/1d/lagrange<2>",lagrange<2>()); functions<3,0>("functions/3d/lagrange<1>",lagrange<1>());
#endif
}
MC_MAIN(explore())
