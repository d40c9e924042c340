// Enumeration of small meshes: all vertex orders of every element, all relevant global numberings.
#ifndef VERIF_MESHES_HH
#define VERIF_MESHES_HH
#include "mockgrid.hh"
#include "mc.hh"
namespace meshes {
using Dune::GeometryType;
namespace GT = Dune::GeometryTypes;

template<int dim>
const std::vector<std::vector<int>>& symmetries(GeometryType gt)
{
  static std::map<unsigned,std::vector<std::vector<int>>> cache;
  auto& out = cache[gt.id()];
  if (!out.empty()) return out;
  auto re = Dune::ReferenceElements<double,dim>::general(gt);
  int n = re.size(dim);
  std::set<std::vector<int>> faceSets;
  for (int c=1;c<dim;++c) for (int i=0;i<re.size(c);++i) {
    std::vector<int> s; for (int k=0;k<re.size(i,c,dim);++k) s.push_back(re.subEntity(i,c,k,dim));
    std::sort(s.begin(),s.end()); faceSets.insert(s);
  }
  std::vector<int> p(n); std::iota(p.begin(),p.end(),0);
  do {
    bool ok=true;
    for (auto& s : faceSets) { std::vector<int> t; for (int i : s) t.push_back(p[i]); std::sort(t.begin(),t.end()); if (!faceSets.count(t)) { ok=false; break; } }
    if (ok) out.push_back(p);
  } while (std::next_permutation(p.begin(),p.end()));
  return out;
}
inline std::vector<int> permuted(const std::vector<int>& v, const std::vector<int>& p)
{ std::vector<int> r; for (int i : p) r.push_back(v[i]); return r; }

template<int dim> struct Named { std::string name; Dune::MockMeshSpec<dim> spec; std::vector<int> shared; };

// two neighbouring elements; generic (non symmetric) positions; `shared` are the vertices of the common face
inline std::vector<Named<1>> pairs1()
{
  Named<1> a{"line-line",{},{1}};
  a.spec.vertices={{0.1},{1.0},{1.7}};
  a.spec.elements={{GT::line,{0,1}},{GT::line,{1,2}}};
  return {a};
}
inline std::vector<Named<2>> pairs2(bool affine)
{
  std::vector<Named<2>> r;
  { Named<2> a{"tri-tri",{},{1,2}}; a.spec.vertices={{0.0,0.1},{1.1,0.0},{0.2,1.0},{1.3,1.2}};
    a.spec.elements={{GT::triangle,{0,1,2}},{GT::triangle,{1,2,3}}}; r.push_back(a); }
  if (affine) {
    { Named<2> a{"quad-quad",{},{1,3}}; a.spec.vertices={{0.0,0.0},{1.0,0.2},{0.1,1.0},{1.1,1.2},{1.9,0.1},{2.0,1.1}};
      a.spec.elements={{GT::quadrilateral,{0,1,2,3}},{GT::quadrilateral,{1,4,3,5}}}; r.push_back(a); }
    { Named<2> a{"quad-tri",{},{1,3}}; a.spec.vertices={{0.0,0.0},{1.0,0.2},{0.1,1.0},{1.1,1.2},{1.8,0.5}};
      a.spec.elements={{GT::quadrilateral,{0,1,2,3}},{GT::triangle,{1,4,3}}}; r.push_back(a); }
  } else {
    { Named<2> a{"quad-quad",{},{1,3}}; a.spec.vertices={{0.0,0.0},{1.0,0.1},{0.1,1.0},{1.2,1.3},{2.0,0.0},{1.9,1.1}};
      a.spec.elements={{GT::quadrilateral,{0,1,2,3}},{GT::quadrilateral,{1,4,3,5}}}; r.push_back(a); }
    { Named<2> a{"quad-tri",{},{1,3}}; a.spec.vertices={{0.0,0.0},{1.0,0.1},{0.1,1.0},{1.2,1.3},{1.8,0.5}};
      a.spec.elements={{GT::quadrilateral,{0,1,2,3}},{GT::triangle,{1,4,3}}}; r.push_back(a); }
  }
  return r;
}
inline std::vector<Named<3>> pairs3()
{
  std::vector<Named<3>> r;
  auto add=[&](std::string n, std::vector<Dune::FieldVector<double,3>> v, std::vector<typename Dune::MockMeshSpec<3>::Elem> e, std::vector<int> sh) {
    Named<3> a; a.name=n; a.spec.vertices=v; a.spec.elements=e; a.shared=sh; r.push_back(a); };
  add("tet-tet",{{0.0,0.1,0.0},{1.1,0,0.1},{0.1,1.0,0},{0.2,0.1,1.2},{1.0,1.1,0.9}},{{GT::tetrahedron,{0,1,2,3}},{GT::tetrahedron,{1,2,3,4}}},{1,2,3});
  add("hex-hex",{{0,0,0},{1.1,0,0},{0,1,0},{1.1,1,0.0},{0,0,1.2},{1.1,0,1.2},{0,1,1.2},{1.1,1,1.2},{2,0,0},{2,1,0},{2,0,1.2},{2,1,1.2}},
      {{GT::hexahedron,{0,1,2,3,4,5,6,7}},{GT::hexahedron,{1,8,3,9,5,10,7,11}}},{1,3,5,7});
  // prisms: base triangle 0,1,2 extruded to 3,4,5
  std::vector<Dune::FieldVector<double,3>> pv={{0,0,0},{1.2,0,0},{0.1,1,0},{0,0,1},{1.2,0,1},{0.1,1,1}};
  { auto v=pv; v.push_back({0.3,0.4,1.9}); add("prism-tet",v,{{GT::prism,{0,1,2,3,4,5}},{GT::tetrahedron,{3,4,5,6}}},{3,4,5}); }
  { auto v=pv; v.push_back({0,0,1.7}); v.push_back({1.2,0,1.7}); v.push_back({0.1,1,1.7}); add("prism-prism-tri",v,{{GT::prism,{0,1,2,3,4,5}},{GT::prism,{3,4,5,6,7,8}}},{3,4,5}); }
  { auto v=pv; v.push_back({1.1,1.2,0}); v.push_back({1.1,1.2,1}); add("prism-prism-quad",v,{{GT::prism,{0,1,2,3,4,5}},{GT::prism,{1,2,6,4,5,7}}},{1,2,4,5}); }
  { auto v=pv; v.push_back({2.0,0.9,0}); v.push_back({0.9,1.9,0}); v.push_back({2.0,0.9,1}); v.push_back({0.9,1.9,1});
    add("prism-hex",v,{{GT::prism,{0,1,2,3,4,5}},{GT::hexahedron,{1,6,2,7,4,8,5,9}}},{1,2,4,5}); }
  { auto v=pv; v.push_back({1.5,1.4,0.5}); add("prism-pyramid-quad",v,{{GT::prism,{0,1,2,3,4,5}},{GT::pyramid,{1,2,4,5,6}}},{1,2,4,5}); }
  std::vector<Dune::FieldVector<double,3>> yv={{0,0,0},{1,0,0},{0,1.1,0},{1,1.1,0},{0.4,0.5,1.1}};
  { auto v=yv; v.push_back({1.6,0.5,0.9}); add("pyramid-tet",v,{{GT::pyramid,{0,1,2,3,4}},{GT::tetrahedron,{1,3,4,5}}},{1,3,4}); }
  { auto v=yv; v.push_back({0.5,0.5,-1.2}); add("pyramid-pyramid-quad",v,{{GT::pyramid,{0,1,2,3,4}},{GT::pyramid,{0,1,2,3,5}}},{0,1,2,3}); }
  { auto v=yv; for (auto p : std::vector<Dune::FieldVector<double,3>>{{0,0,-1},{1,0,-1},{0,1.1,-1},{1,1.1,-1}}) v.push_back(p);
    add("pyramid-hex",v,{{GT::pyramid,{0,1,2,3,4}},{GT::hexahedron,{5,6,7,8,0,1,2,3}}},{0,1,2,3}); }
  { auto v=yv; v.push_back({1.9,0,0.4}); v.push_back({1.9,1.1,0.4}); v.push_back({1.3,0.5,1.5});
    // prism with triangle face 1,3,4
    add("pyramid-prism-tri",v,{{GT::pyramid,{0,1,2,3,4}},{GT::prism,{1,3,4,5,6,7}}},{1,3,4}); }
  return r;
}
template<int dim> std::vector<Named<dim>> pairsOf(bool affine=false)
{
  if constexpr (dim==1) return pairs1();
  else if constexpr (dim==2) return pairs2(affine);
  else return pairs3();
}
inline bool isSimplexPair(const std::string& n) { return n=="line-line"||n=="tri-tri"||n=="tet-tet"; }
inline bool isCubePair(const std::string& n) { return n=="line-line"||n=="quad-quad"||n=="hex-hex"; }

// representatives of all orders of the shared vertices, modulo the symmetries of the shared face
// (the element vertex orders are enumerated completely, so symmetric ones give nothing new)
inline std::vector<std::vector<int>> sharedRankings(int nShared)
{
  if (nShared==1) return {{0}};
  if (nShared==2) return {{0,1}};
  if (nShared==3) return {{0,1,2}};
  return {{0,1,2,3},{0,1,3,2},{0,2,3,1}};
}
struct Numbering { std::vector<int> rank; std::string name; };
// ranks for all vertices: shared vertices in the given order, other vertices before / after / interleaved
template<int dim>
std::vector<Numbering> numberings(const Named<dim>& m)
{
  std::vector<Numbering> out;
  int nv=m.spec.vertices.size(), k=0;
  for (auto& sr : sharedRankings(m.shared.size())) {
    for (int mode=0;mode<3;++mode) {
      std::vector<int> rank(nv,-1);
      for (std::size_t i=0;i<m.shared.size();++i) rank[m.shared[i]]=100+10*sr[i];
      int c=0;
      for (int i=0;i<nv;++i) if (rank[i]<0) { rank[i] = mode==0 ? c : mode==1 ? 200+c : 95+10*(c%5)+c/5; ++c; }
      out.push_back({rank,"s"+std::to_string(k)+"m"+std::to_string(mode)});
    }
    ++k;
  }
  return out;
}

// Visit every mesh obtained from the pair m by permuting the vertices of both elements and renumbering.
// full: enumerate the product of both symmetry groups, otherwise every permutation of each element with the other fixed
template<int dim, class F>
void forEachNumbering(const Named<dim>& m, F&& f, bool full=true, int maxNumberings=1000)
{
  auto base = m.spec;
  auto& S0=symmetries<dim>(base.elements[0].type);
  auto& S1=symmetries<dim>(base.elements[1].type);
  auto nums = numberings<dim>(m);
  for (std::size_t i=0;i<S0.size();++i) for (std::size_t j=0;j<S1.size();++j) {
    if (!full && i!=0 && j!=0 && i!=j) continue;
    for (int k=0;k<(int)nums.size() && k<maxNumberings;++k) for (int swap=0;swap<2;++swap) {
      // element order is coupled to the numbering mode to keep the product small: both orders occur with every pair (i,j)
      auto s=base;
      s.elements[0].v=permuted(base.elements[0].v,S0[i]);
      s.elements[1].v=permuted(base.elements[1].v,S1[j]);
      s.vertexIds=nums[k].rank;
      // independent index numbering: reversed relative to the ids for every other numbering
      s.vertexIndices=nums[(k+swap)%nums.size()].rank;
      if (k%2) for (auto& x : s.vertexIndices) x=-x;
      s.elementIndices={swap,1-swap};
      s.reverseSubIndices = (k%2)!=swap;
      s.reverseIds = k%2;
      f(m.name+"/p"+std::to_string(i)+","+std::to_string(j)+"/"+nums[k].name+"/e"+std::to_string(swap), s);
    }
  }
}
} // namespace meshes
#endif
