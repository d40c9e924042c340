// A minimal unstructured mixed-element grid used as the environment model of the exploration:
// vertex order inside elements, entity indices and entity ids are all freely chosen by the explorer.
#ifndef VERIF_MOCKGRID_HH
#define VERIF_MOCKGRID_HH
#include <algorithm>
#include <array>
#include <cassert>
#include <map>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <tuple>
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/parallel/communication.hh>
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/grid/common/gridenums.hh>
#include <dune/grid/common/capabilities.hh>
#include <dune/grid/common/rangegenerators.hh>
#include <dune/grid/common/mcmgmapper.hh>

namespace Dune {

// kind: 0 mixed element types, 1 simplices only, 2 cubes only
template<int dim, int kind, int dimworld=dim> class MockGrid;
template<int dim, int kind, int dimworld=dim> class MockGridView;
template<int codim, class G> class MockEntity;

// Description of a mesh: what the explorer enumerates
template<int dim, int dimworld=dim>
struct MockMeshSpec
{
  struct Elem { GeometryType type; std::vector<int> v; };
  std::vector<FieldVector<double,dimworld>> vertices;
  std::vector<Elem> elements;
  // optional permutations: position p in order of appearance gets rank perm[p]
  std::vector<int> vertexIds;       // rank of vertex i in the id order
  std::vector<int> vertexIndices;   // index of vertex i
  std::vector<int> elementIndices;  // rank of element e (re-ranked within its geometry type)
  bool reverseSubIndices = false;   // number the intermediate codimensions in reverse order
  bool reverseIds = false;          // ids of intermediate entities reversed
  bool typesAsFound = false;        // list the geometry types in order of appearance
};

template<int dim, int dimworld=dim>
struct MockMesh
{
  struct Ent { GeometryType type; std::vector<int> v; std::size_t index=0; std::size_t id=0; };
  struct Face { int outside=-1; int indexInOutside=-1; };
  std::vector<FieldVector<double,dimworld>> vertices;
  std::array<std::vector<Ent>,dim+1> ents;
  // sub[c][e][i] : number of i-th codim c subentity of element e
  std::array<std::vector<std::vector<int>>,dim+1> sub;
  std::vector<std::vector<Face>> faces;
  std::array<std::vector<GeometryType>,dim+1> types;
  std::vector<std::size_t> sizes;  // per GlobalGeometryTypeIndex

  MockMesh() : sizes(GlobalGeometryTypeIndex::size(dim),0) {}

  explicit MockMesh(const MockMeshSpec<dim,dimworld>& s) : MockMesh()
  {
    vertices = s.vertices;
    const int nv = vertices.size();
    auto& V = ents[dim];
    V.resize(nv);
    for (int i=0;i<nv;++i) V[i] = {GeometryTypes::vertex,{i}};
    std::array<std::map<std::vector<int>,int>,dim+1> lookup;
    for (std::size_t e=0;e<s.elements.size();++e) {
      const auto& el = s.elements[e];
      auto re = ReferenceElements<double,dim>::general(el.type);
      if ((int)el.v.size()!=re.size(dim)) throw std::logic_error("mock mesh: wrong number of vertices");
      ents[0].push_back({el.type,el.v});
      for (int c=0;c<=dim;++c) {
        sub[c].emplace_back();
        for (int i=0;i<re.size(c);++i) {
          if (c==0) { sub[c].back().push_back(e); continue; }
          std::vector<int> vs;
          for (int k=0;k<re.size(i,c,dim);++k) vs.push_back(el.v[re.subEntity(i,c,k,dim)]);
          if (c==dim) { sub[c].back().push_back(vs[0]); continue; }
          auto key = vs; std::sort(key.begin(),key.end());
          auto it = lookup[c].find(key);
          int num;
          if (it==lookup[c].end()) { num=ents[c].size(); ents[c].push_back({re.type(i,c),vs}); lookup[c][key]=num; }
          else num = it->second;
          sub[c].back().push_back(num);
        }
      }
    }
    // faces
    faces.resize(s.elements.size());
    std::map<int,std::vector<std::pair<int,int>>> f2e;
    for (std::size_t e=0;e<s.elements.size();++e) for (std::size_t i=0;i<sub[1][e].size();++i) f2e[sub[1][e][i]].push_back({(int)e,(int)i});
    for (std::size_t e=0;e<s.elements.size();++e) {
      faces[e].resize(sub[1][e].size());
      for (std::size_t i=0;i<sub[1][e].size();++i)
        for (auto [o,j] : f2e[sub[1][e][i]]) if (o!=(int)e) faces[e][i]={o,j};
    }
    // indices
    for (int c=0;c<=dim;++c) {
      std::vector<int> order(ents[c].size()); std::iota(order.begin(),order.end(),0);
      if (c==dim && !s.vertexIndices.empty()) std::sort(order.begin(),order.end(),[&](int a,int b){return s.vertexIndices[a]<s.vertexIndices[b];});
      else if (c==0 && !s.elementIndices.empty()) std::sort(order.begin(),order.end(),[&](int a,int b){return s.elementIndices[a]<s.elementIndices[b];});
      else if (c>0 && c<dim && s.reverseSubIndices) std::reverse(order.begin(),order.end());
      for (int k : order) {
        auto gt = ents[c][k].type;
        ents[c][k].index = sizes[GlobalGeometryTypeIndex::index(gt)]++;
        if (std::find(types[c].begin(),types[c].end(),gt)==types[c].end()) types[c].push_back(gt);
      }
      if (!s.typesAsFound) std::sort(types[c].begin(),types[c].end());
    }
    // ids: unique over all codimensions
    std::size_t next=7;
    for (int c=dim;c>=0;--c) {
      std::vector<int> order(ents[c].size()); std::iota(order.begin(),order.end(),0);
      if (c==dim && !s.vertexIds.empty()) std::sort(order.begin(),order.end(),[&](int a,int b){return s.vertexIds[a]<s.vertexIds[b];});
      else if (c<dim && s.reverseIds) std::reverse(order.begin(),order.end());
      for (int k : order) ents[c][k].id = (next+=3);
    }
  }
};

template<int codim, class G>
class MockEntity
{
public:
  static constexpr int codimension = codim;
  static constexpr int dimension = G::dimension;
  static constexpr int mydimension = dimension-codim;
  static constexpr int dimensionworld = G::dimensionworld;
  using Mesh = typename G::Mesh;
  using Geometry = MultiLinearGeometry<double,mydimension,dimensionworld>;
  struct EntitySeed { static constexpr int codimension = codim; const Mesh* m=nullptr; int n=-1; bool isValid() const { return m; } };
  template<int cd> struct Codim { using Entity = MockEntity<cd,G>; using Geometry = MultiLinearGeometry<double,dimension-cd,dimensionworld>; };
  using LocalGeometry = MultiLinearGeometry<double,mydimension,dimension>;
  using HierarchicIterator = const MockEntity*;

  MockEntity() = default;
  MockEntity(const Mesh& m, int n) : m_(&m), n_(n) {}
  GeometryType type() const { return data().type; }
  int level() const { return 0; }
  PartitionType partitionType() const { return InteriorEntity; }
  Geometry geometry() const {
    const auto& d = data();
    std::vector<FieldVector<double,dimensionworld>> c;
    for (int v : d.v) c.push_back(m_->vertices[v]);
    return Geometry(d.type,c);
  }
  EntitySeed seed() const { return {m_,n_}; }
  unsigned int subEntities(unsigned int cc) const {
    return ReferenceElements<double,mydimension>::general(type()).size(int(cc)-codim);
  }
  template<int cc> MockEntity<cc,G> subEntity(int i) const {
    static_assert(codim==0);
    return MockEntity<cc,G>(*m_, m_->sub[cc].at(n_).at(i));
  }
  bool hasBoundaryIntersections() const {
    static_assert(codim==0);
    for (auto& f : m_->faces.at(n_)) if (f.outside<0) return true;
    return false;
  }
  bool isLeaf() const { return true; }
  bool isRegular() const { return true; }
  bool hasFather() const { return false; }
  MockEntity father() const { throw std::logic_error("mock entity has no father"); }
  LocalGeometry geometryInFather() const { throw std::logic_error("mock entity has no father"); }
  friend bool operator==(const MockEntity& a, const MockEntity& b) { return a.m_==b.m_ && a.n_==b.n_; }
  friend bool operator!=(const MockEntity& a, const MockEntity& b) { return !(a==b); }
  const Mesh& mesh() const { return *m_; }
  int number() const { return n_; }
  const typename Mesh::Ent& data() const { return m_->ents[codim].at(n_); }
private:
  const Mesh* m_ = nullptr;
  int n_ = -1;
};

// qualified lookup as for the geometry wrappers of real grids
template<class ct, int m, int c, class Traits>
auto referenceElement(const MultiLinearGeometry<ct,m,c,Traits>& g) { return ReferenceElements<ct,m>::general(g.type()); }
template<class G>
auto referenceElement(const MockEntity<0,G>& e) { return ReferenceElements<double,G::dimension>::general(e.type()); }
template<class G>
auto referenceElement(const MockEntity<0,G>& e, Dim<G::dimension>) { return ReferenceElements<double,G::dimension>::general(e.type()); }

template<int codim, class G>
class MockIterator
{
public:
  using Entity = MockEntity<codim,G>;
  using value_type = Entity; using reference = const Entity&; using pointer = const Entity*;
  using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
  MockIterator() = default;
  MockIterator(const typename G::Mesh& m, int n) : e_(m,n) {}
  const Entity& operator*() const { return e_; }
  const Entity* operator->() const { return &e_; }
  MockIterator& operator++() { e_ = Entity(e_.mesh(),e_.number()+1); return *this; }
  MockIterator operator++(int) { auto r=*this; ++*this; return r; }
  friend bool operator==(const MockIterator& a, const MockIterator& b) { return a.e_==b.e_; }
  friend bool operator!=(const MockIterator& a, const MockIterator& b) { return !(a==b); }
private:
  Entity e_;
};

template<class G>
class MockIntersection
{
public:
  static constexpr int dimension = G::dimension;
  static constexpr int dimensionworld = G::dimensionworld;
  static constexpr int mydimension = dimension-1;
  static constexpr int codimension = 1;
  using Mesh = typename G::Mesh;
  using ctype = double;
  using Entity = MockEntity<0,G>;
  using Geometry = MultiLinearGeometry<double,dimension-1,dimensionworld>;
  using LocalGeometry = MultiLinearGeometry<double,dimension-1,dimension>;
  using LocalCoordinate = FieldVector<double,dimension-1>;
  using GlobalCoordinate = FieldVector<double,dimensionworld>;
  MockIntersection() = default;
  MockIntersection(const Mesh& m, int e, int f) : m_(&m), e_(e), f_(f) {}
  bool boundary() const { return face().outside<0; }
  bool neighbor() const { return face().outside>=0; }
  bool conforming() const { return true; }
  Entity inside() const { return Entity(*m_,e_); }
  Entity outside() const { if (!neighbor()) throw std::logic_error("outside() called on a boundary intersection"); return Entity(*m_,face().outside); }
  int indexInInside() const { return f_; }
  int indexInOutside() const { if (!neighbor()) throw std::logic_error("indexInOutside() called on a boundary intersection"); return face().indexInOutside; }
  std::size_t boundarySegmentIndex() const { return m_->sub[1].at(e_).at(f_); }
  GeometryType type() const { return ReferenceElements<double,dimension>::general(inside().type()).type(f_,1); }
  Geometry geometry() const { return Geometry(type(),corners(e_,[&](int v){ return m_->vertices[v]; })); }
  LocalGeometry geometryInInside() const { return LocalGeometry(type(),local(e_)); }
  LocalGeometry geometryInOutside() const { return LocalGeometry(type(),local(outside().number())); }
  GlobalCoordinate integrationOuterNormal(const LocalCoordinate& x) const {
    auto n = outerNormal(x); n *= geometry().integrationElement(x)/n.two_norm(); return n;
  }
  GlobalCoordinate unitOuterNormal(const LocalCoordinate& x) const { auto n = outerNormal(x); n /= n.two_norm(); return n; }
  GlobalCoordinate outerNormal(const LocalCoordinate& x) const {
    auto geo = inside().geometry();
    auto re = ReferenceElements<double,dimension>::general(inside().type());
    GlobalCoordinate n(0);
    geo.jacobianInverseTransposed(geometryInInside().global(x)).mv(re.integrationOuterNormal(f_),n);
    return n;
  }
  GlobalCoordinate centerUnitOuterNormal() const {
    return unitOuterNormal(ReferenceElements<double,dimension-1>::general(type()).position(0,0));
  }
  friend bool operator==(const MockIntersection& a, const MockIntersection& b) { return a.m_==b.m_ && a.e_==b.e_ && a.f_==b.f_; }
  friend bool operator!=(const MockIntersection& a, const MockIntersection& b) { return !(a==b); }
  int insideNumber() const { return e_; }
  const Mesh& mesh() const { return *m_; }
private:
  const typename Mesh::Face& face() const { return m_->faces.at(e_).at(f_); }
  template<class F> auto corners(int, F f) const {
    auto re = ReferenceElements<double,dimension>::general(inside().type());
    std::vector<decltype(f(0))> c;
    for (int k=0;k<re.size(f_,1,dimension);++k) c.push_back(f(m_->ents[0][e_].v[re.subEntity(f_,1,k,dimension)]));
    return c;
  }
  auto local(int el) const {
    auto re = ReferenceElements<double,dimension>::general(m_->ents[0][el].type);
    const auto& vs = m_->ents[0][el].v;
    return corners(el,[&](int v){
      int i = std::find(vs.begin(),vs.end(),v)-vs.begin();
      return re.position(i,dimension);
    });
  }
  const Mesh* m_ = nullptr; int e_=-1; int f_=-1;
};

template<class G>
class MockIntersectionIterator
{
public:
  using Intersection = MockIntersection<G>;
  using value_type = Intersection; using reference = const Intersection&; using pointer = const Intersection*;
  using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
  MockIntersectionIterator() = default;
  MockIntersectionIterator(const typename G::Mesh& m, int e, int f) : i_(m,e,f) {}
  const Intersection& operator*() const { return i_; }
  const Intersection* operator->() const { return &i_; }
  MockIntersectionIterator& operator++() { i_ = Intersection(i_.mesh(),i_.insideNumber(),i_.indexInInside()+1); return *this; }
  MockIntersectionIterator operator++(int) { auto r=*this; ++*this; return r; }
  friend bool operator==(const MockIntersectionIterator& a, const MockIntersectionIterator& b) { return a.i_==b.i_; }
  friend bool operator!=(const MockIntersectionIterator& a, const MockIntersectionIterator& b) { return !(a==b); }
private:
  Intersection i_;
};

template<class G>
class MockIndexSet
{
public:
  static constexpr int dimension = G::dimension;
  using IndexType = unsigned int;
  using Types = std::vector<GeometryType>;
  template<int cd> struct Codim { using Entity = MockEntity<cd,G>; };
  explicit MockIndexSet(const typename G::Mesh& m) : m_(&m) {}
  template<int cc> IndexType index(const MockEntity<cc,G>& e) const { if (&e.mesh()!=m_) throw std::logic_error("index of an entity of another view"); return e.data().index; }
  template<class E> IndexType index(const E& e) const { return index<E::codimension>(e); }
  template<int cc> IndexType subIndex(const MockEntity<cc,G>& e, int i, unsigned int codim) const {
    static_assert(cc==0);
    if (&e.mesh()!=m_) throw std::logic_error("index of an entity of another view");
    return m_->ents[codim].at(m_->sub[codim].at(e.number()).at(i)).index;
  }
  template<class E> IndexType subIndex(const E& e, int i, unsigned int codim) const { return subIndex<E::codimension>(e,i,codim); }
  const Types& types(int codim) const { return m_->types.at(codim); }
  IndexType size(GeometryType gt) const {
    if (gt.dim()>(unsigned)dimension || gt.isNone()) return 0;
    return m_->sizes.at(GlobalGeometryTypeIndex::index(gt));
  }
  IndexType size(int codim) const { return m_->ents.at(codim).size(); }
  template<class E> bool contains(const E& e) const { return &e.mesh()==m_; }
private:
  const typename G::Mesh* m_;
};

template<class G>
class MockIdSet
{
public:
  static constexpr int dimension = G::dimension;
  using IdType = std::size_t;
  template<class E> IdType id(const E& e) const { return e.data().id; }
  template<int cc> IdType id(const MockEntity<cc,G>& e) const { return e.data().id; }
  IdType subId(const MockEntity<0,G>& e, int i, unsigned int codim) const {
    const auto& m = e.mesh();
    return m.ents[codim].at(m.sub[codim].at(e.number()).at(i)).id;
  }
};

// A view: (grid, mesh slot).  A grid owns several slots; all their views have the same type,
// like the level views of a real grid; a slot's mesh can be replaced, like a leaf view after adaptation.
template<class G>
struct MockGridViewTraits
{
  using Grid = G;
  using IndexSet = MockIndexSet<G>;
  using Intersection = MockIntersection<G>;
  using IntersectionIterator = MockIntersectionIterator<G>;
  template<int cd> struct Codim {
    using Entity = MockEntity<cd,G>;
    using Iterator = MockIterator<cd,G>;
    using Geometry = typename Entity::Geometry;
    using EntitySeed = typename Entity::EntitySeed;
    using LocalGeometry = typename Entity::LocalGeometry;
    template<PartitionIteratorType pit> struct Partition { using Iterator = MockIterator<cd,G>; };
  };
};

template<int dim, int kind, int dimworld_>
class MockGridView
{
public:
  using Grid = MockGrid<dim,kind,dimworld_>;
  using ctype = double;
  static constexpr int dimension = dim;
  static constexpr int dimensionworld = dimworld_;
  static constexpr bool conforming = true;
  using Traits = MockGridViewTraits<Grid>;
  using IndexSet = typename Traits::IndexSet;
  using Intersection = typename Traits::Intersection;
  using IntersectionIterator = typename Traits::IntersectionIterator;
  using Communication = Dune::Communication<No_Comm>;
  template<int cd> struct Codim : public Traits::template Codim<cd> {};

  MockGridView() = default;
  MockGridView(const Grid& g, int slot) : g_(&g), slot_(slot) {}
  const Grid& grid() const { return *g_; }
  const IndexSet& indexSet() const;
  bool isConforming() const { return true; }
  int size(int codim) const { return mesh().ents.at(codim).size(); }
  int size(const GeometryType& gt) const { return indexSet().size(gt); }
  template<class E> bool contains(const E& e) const { return &e.mesh()==&mesh(); }
  template<int cd> MockIterator<cd,Grid> begin() const { return {mesh(),0}; }
  template<int cd> MockIterator<cd,Grid> end() const { return {mesh(),(int)mesh().ents[cd].size()}; }
  template<int cd, PartitionIteratorType pit> MockIterator<cd,Grid> begin() const {
    if constexpr (pit==Ghost_Partition || pit==Overlap_Partition) return end<cd>();
    return begin<cd>(); }
  template<int cd, PartitionIteratorType pit> MockIterator<cd,Grid> end() const { return end<cd>(); }
  IntersectionIterator ibegin(const MockEntity<0,Grid>& e) const { return {mesh(),e.number(),0}; }
  IntersectionIterator iend(const MockEntity<0,Grid>& e) const { return {mesh(),e.number(),(int)mesh().faces.at(e.number()).size()}; }
  Communication comm() const { return {}; }
  int overlapSize(int) const { return 0; }
  int ghostSize(int) const { return 0; }
  const MockMesh<dim,dimworld_>& mesh() const;
  int slot() const { return slot_; }
private:
  const Grid* g_ = nullptr;
  int slot_ = -1;
};

template<int dim, int kind, int dimworld_>
class MockGrid
{
public:
  static constexpr int dimension = dim;
  static constexpr int dimensionworld = dimworld_;
  using ctype = double;
  using Mesh = MockMesh<dim,dimworld_>;
  using Spec = MockMeshSpec<dim,dimworld_>;
  using GlobalIdSet = MockIdSet<MockGrid>;
  using LocalIdSet = GlobalIdSet;
  using LeafGridView = MockGridView<dim,kind,dimworld_>;
  using LevelGridView = LeafGridView;
  using LeafIndexSet = MockIndexSet<MockGrid>;
  using LevelIndexSet = LeafIndexSet;
  using Communication = Dune::Communication<No_Comm>;
  template<int cd> struct Codim : public MockGridViewTraits<MockGrid>::template Codim<cd> {
    using EntitySeed = typename MockEntity<cd,MockGrid>::EntitySeed;
    using Geometry = typename MockEntity<cd,MockGrid>::Geometry;
    using LocalGeometry = typename MockEntity<cd,MockGrid>::LocalGeometry;
  };
  struct Traits {
    using GlobalIdSet = typename MockGrid::GlobalIdSet;
    using LeafGridView = typename MockGrid::LeafGridView;
    using LevelGridView = typename MockGrid::LevelGridView;
    template<int cd> using Codim = typename MockGrid::template Codim<cd>;
  };

  MockGrid() { slot(0); }
  explicit MockGrid(const Spec& s) { set(0,s); }
  MockGrid(const MockGrid&) = delete;
  MockGrid& operator=(const MockGrid&) = delete;
  //! replace the mesh of a slot in place (entities of the old mesh become invalid)
  void set(int i, const Spec& s) { *slot(i).mesh = Mesh(s); }
  LeafGridView view(int i) const { return LeafGridView(*this,i); }
  LeafGridView leafGridView() const { return view(0); }
  LeafGridView levelGridView(int i) const { return view(i); }
  int maxLevel() const { return int(slots_.size())-1; }
  const GlobalIdSet& globalIdSet() const { return ids_; }
  const GlobalIdSet& localIdSet() const { return ids_; }
  Communication comm() const { return {}; }
  template<class Seed> auto entity(const Seed& s) const { return MockEntity<Seed::codimension,MockGrid>(*s.m,s.n); }
  struct Slot { std::unique_ptr<Mesh> mesh; std::unique_ptr<MockIndexSet<MockGrid>> is; };
  const Slot& slot(int i) const { return slots_.at(i); }
  Slot& slot(int i) {
    while ((int)slots_.size()<=i) {
      slots_.emplace_back();
      slots_.back().mesh = std::make_unique<Mesh>();
      slots_.back().is = std::make_unique<MockIndexSet<MockGrid>>(*slots_.back().mesh);
    }
    return slots_[i];
  }
private:
  std::vector<Slot> slots_;
  GlobalIdSet ids_;
};

template<int dim, int kind, int dw>
auto MockGridView<dim,kind,dw>::indexSet() const -> const IndexSet& { return *g_->slot(slot_).is; }
template<int dim, int kind, int dw>
const MockMesh<dim,dw>& MockGridView<dim,kind,dw>::mesh() const { return *g_->slot(slot_).mesh; }

namespace Capabilities {
  template<int dim, int kind, int dw> struct hasSingleGeometryType<MockGrid<dim,kind,dw>>
  {
    static const bool v = kind!=0;
    static const unsigned int topologyId = (kind==1) ? GeometryTypes::simplex(dim).id() : (kind==2) ? GeometryTypes::cube(dim).id() : ~0u;
  };
  template<int dim, int kind, int dw, int cd> struct hasEntity<MockGrid<dim,kind,dw>,cd> { static const bool v = true; };
  template<int dim, int kind, int dw> struct isLevelwiseConforming<MockGrid<dim,kind,dw>> { static const bool v = true; };
  template<int dim, int kind, int dw> struct isLeafwiseConforming<MockGrid<dim,kind,dw>> { static const bool v = true; };
}
} // namespace Dune
#endif
