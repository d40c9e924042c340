"""Which harness units decide which property, and what they cover."""

import treegen

MESH = ("meshes of two neighbouring elements (all pairings of element types meeting in a face: line, triangle, "
        "quadrilateral, tetrahedron, hexahedron, prism, pyramid), every vertex order of each element allowed by its "
        "symmetry group, representative orders of global vertex ids/indices, both element orders")
MOCK = ["the mock grid used as environment implements the dune-grid interface faithfully (entities, indices, ids, intersections)",
        "dune-common, dune-geometry, dune-localfunctions, dune-istl and dune-typetree behave as documented",
        "g++ 13 with -O1 compiles correctly; double arithmetic with the stated relative tolerances (1e-6..1e-9)"]
FAMILIES = 9


def leaf(prop, shards=None, families=range(FAMILIES), flags=None):
    return [{"src": "leaf.cc", "defs": ["PROP=%d" % prop, "FAMILY=%d" % f],
             "flags": (flags or {}).get(f, []), "shards": (shards or {}).get(f, {"quick": 1, "thorough": 6})} for f in families]


def surface(prop):
    return [{"src": "surface.cc", "defs": ["PROP=%d" % prop], "shards": {"quick": 2, "thorough": 4}}]


def tree(prop, quick, qn, thorough, tn):
    one = {"quick": 1, "thorough": 1}
    return ([{"src": "tree.cc", "defs": ["PROP=%d" % prop], "trees": [quick, k, qn], "tier": "quick", "shards": one} for k in range(qn)] +
            [{"src": "tree.cc", "defs": ["PROP=%d" % prop], "trees": [thorough, k, tn], "tier": "thorough", "shards": one} for k in range(tn)])


NOT_APPLICABLE = {}

TREES = ("basis trees over Lagrange leaves (orders 0,1,2; static and run-time order), powers of width 1-3 (static and run-time) with all four "
         "merging strategies, composites of 1-3 children with both strategies, Taylor-Hood")

EXHAUST = "exhaustive explicit enumeration of all meshes, vertex orders and numberings within the bounds, each executed on the real code and compared with "

CHECKS = {
    "C01": {
        "technique": EXHAUST + "an independent model of the index tree (entity ownership, gap-freeness)",
        "units": leaf(1) + tree(1, 0, 8, 1, 16),
        "bounds": {"quick": MESH + " (3d: one element permuted at a time); Lagrange orders 0-5 (1d,2d), 0-5 (tets), 0-4 (hexes), all other leaf bases",
                   "thorough": MESH + " (full product); Lagrange orders up to 8 (1d,2d), 6 (tets), 5 (hexes), all other leaf bases"},
        "rule": "one state = basis x mesh x vertex orders x numbering; non-trivial outcomes are distinct global index assignments",
        "assumptions": MOCK,
    },
    "C04": {
        "technique": EXHAUST + "the trace equality the space promises",
        "units": leaf(4, families=range(FAMILIES + 1)),
        "bounds": {"quick": MESH + " (3d: one element permuted at a time); Lagrange orders 0-5 (1d,2d), 0-5 (tets), 0-4 (hexes), all other leaf bases; traces on a lattice finer than the polynomial degree",
                   "thorough": MESH + " (full product); Lagrange orders up to 8 (1d,2d), 6 (tets), 5 (hexes)"},
        "rule": "one state = basis x mesh x vertex orders x numbering; every basis function's trace is compared from both sides of every interior face; outcomes = distinct index assignments",
        "assumptions": MOCK,
    },
    "C05": {
        "technique": EXHAUST + "the duality/reproduction identities",
        "units": leaf(5) + surface(5),
        "bounds": {"quick": MESH + " (one element permuted at a time, two global numberings); all shape functions, all monomials up to the degree; curves in 2d and 3d and surfaces in 3d for Lagrange bases",
                   "thorough": MESH + " (full product); all shape functions, all monomials up to the degree"},
        "rule": "one state = basis x mesh x vertex orders x numbering; all shape functions are interpolated locally and all monomials globally; outcomes = distinct interpolated value tables",
        "assumptions": MOCK,
    },
    "C08": {
        "technique": EXHAUST + "difference stencils that are exact on the polynomial spaces",
        "units": leaf(8),
        "bounds": {"quick": MESH + " (one element permuted at a time, two global numberings); all shape functions, all derivative multi-orders up to 3",
                   "thorough": MESH + " (full product)"},
        "rule": "one state = basis x mesh x vertex orders x numbering; Jacobians, partial derivatives and Hessians of all shape functions are compared with exact difference stencils; outcomes = distinct Jacobian tables",
        "assumptions": MOCK,
    },
}

TREE_RULE = "one state = basis tree x mesh (triangle/quadrilateral pairs in several vertex orders and numberings, and a patch with an interior element); "
CHECKS.update({
    "C02": {
        "technique": EXHAUST + "a reference model applying the documented merge rules to the scalar leaf indices",
        "units": tree(2, 1, 16, 2, 32),
        "bounds": {"quick": TREES + ", depth <= 4 (~410 trees)", "thorough": TREES + ", depth <= 4 (~750 trees)"},
        "rule": TREE_RULE + "all indices, sizes and tree offsets compared; outcomes = distinct index assignments",
        "assumptions": MOCK,
    },
})
L0B = {"quick": TREES + ": all trees of depth <= 2 and all powers/composites over the representative inner trees (161 trees)",
       "thorough": TREES + ": depth <= 3 and selected depth 4 (411 trees)"}
CHECKS.update({
    "C03": {
        "technique": EXHAUST + "the sizes of the reference index tree at every prefix and a write/read-back of every index",
        "units": tree(3, 5, 16, 1, 32),
        "bounds": {k: v.replace("(161 trees)", "and all flat powers of flat powers with static and run-time exponents (205 trees)") for k, v in L0B.items()},
        "rule": TREE_RULE + "descriptor, generated containers, ISTL vectors and resized vectors walked completely; outcomes = distinct (descriptor type, size) pairs",
        "assumptions": MOCK,
    },
    "C06": {
        "technique": EXHAUST + "the coefficients predicted leaf by leaf, for all masks (all subsets up to 10 dofs, all singletons beyond) and all subspaces",
        "units": tree(6, 0, 16, 1, 32),
        "bounds": L0B,
        "rule": TREE_RULE + "per state all masks and all subspaces are interpolated into a sentinel-filled vector; outcomes = distinct coefficient tables",
        "assumptions": MOCK,
    },
    "C07": {
        "technique": EXHAUST + "the coefficient-weighted sum of the scalar shape functions, for all unit coefficient vectors, elements and consecutive bindings",
        "units": leaf(7, shards={f: {"quick": 2, "thorough": 6} for f in (1, 3, 4, 6)}, flags={4: ["-Og"]}) + surface(7) + tree(7, 3, 10, 1, 32),
        "bounds": {"quick": TREES + ": all trees of depth <= 2, samples of powers/composites over the representative inner trees (%d trees); all leaf bases on all pairs of element types (representative vertex "
                            "orders), values and derivatives; curves and surfaces in 2d and 3d for Lagrange bases" % len(treegen.trees(3)),
                   "thorough": TREES + ": depth <= 3 and selected depth 4 (411 trees); all leaf bases with all vertex orders; curves and surfaces"},
        "rule": TREE_RULE + "per state all unit coefficient vectors, all sub-trees, all ordered pairs of bindings; outcomes = distinct value tables",
        "assumptions": MOCK,
    },
    "C11": {
        "technique": EXHAUST + "the dofs of the sub-tree selected in the reference model, for every node of the tree and every chain of two subspaces",
        "units": tree(11, 0, 16, 1, 32),
        "bounds": L0B,
        "rule": TREE_RULE + "per state all tree paths and all concatenations of two paths; outcomes = distinct sub-tree index tables",
        "assumptions": MOCK,
    },
    "C12": {
        "technique": EXHAUST + "vertex-set containment of the local keys' sub-entities",
        "units": leaf(12) + tree(12, 0, 16, 1, 32),
        "bounds": L0B,
        "rule": TREE_RULE + "per state all sub-entities of all codimensions, all boundary callbacks, all subspaces; outcomes = distinct dof sets",
        "assumptions": MOCK,
    },
})

SELF = ["g++ 13 with -O1 compiles correctly; dune-common behaves as documented"]
CHECKS.update({
    "C15": {
        "technique": "exhaustive enumeration of all operation histories up to a depth, with an injected fault at every copy, executed on the real code under "
                     "AddressSanitizer/UBSan and compared step by step with a value model and an object registry",
        "units": [{"src": "erasure.cc", "defs": ["PART=%d" % p], "asan": True, "shards": {"quick": 2, "thorough": 8}} for p in range(4)] +
                 [{"src": "erasure.cc", "defs": ["PART=0", "BUFFER=%d" % b], "asan": True, "tier": t, "shards": {"quick": 1, "thorough": 8}}
                  for b in (0, 39, 40) for t in ("quick", "thorough")],
        "bounds": {"quick": "all histories of <= 4 operations on 2 holders and <= 3 on 3 holders; contents: small, large, over-aligned, exactly fitting; holders: PolymorphicSmallObject (buffers 0,39,40,48), DifferentiableFunction, LocalFunction, GridViewFunction",
                   "thorough": "all histories of <= 5 operations on 2 holders and <= 4 on 3 holders; same contents and holders"},
        "rule": "one state = one operation history (construct, copy/move construct, copy/move assign incl. self, swap, reset, write/bind, each copy also failing); outcomes = distinct final holder states",
        "assumptions": SELF + ["contents have non-throwing moves; copying from moved-from holders is not explored (documented as unusable)"],
    },
    "C16": {
        "technique": "exhaustive enumeration of all operation sequences up to a depth (and of all contents/nested container shapes of a bounded grammar), "
                     "executed on the real code and compared after every step with std::deque / the chain of subscripts",
        "units": [{"src": "seq.cc", "defs": ["PART=%d" % p], "shards": {"quick": 1 if p > 1 else 2, "thorough": 1 if p > 1 else 8}} for p in range(4)],
        "bounds": {"quick": "OverflowArray base 1-3, capacity 1-4: all sequences of <= 4 (5 for the smallest) of 12-16 operations; ReservedDeque capacity 1-4: all of <= 5 (4); StaticMultiIndex n=1-4 over 4 digits: all pairs; nested containers up to depth 3 of vector/array/tuple/FieldVector and all their indices",
                   "thorough": "OverflowArray: all sequences of <= 6 operations; ReservedDeque: all of <= 6 operations; rest as quick"},
        "rule": "one state = one operation sequence or one container shape; outcomes = distinct final contents",
        "assumptions": SELF,
    },
})

CHECKS.update({
    "C17": {
        "technique": "exhaustive enumeration of all coefficient sequences, degrees, dimensions, derivative orders and lattice points within the bounds, "
                     "executed on the real code and compared with the defining formula in exact arithmetic",
        "units": [{"src": "analytic.cc", "defs": ["PART=%d" % p], "asan": p in (0, 3), "shards": {"quick": 1, "thorough": 4 if p == 0 else 1}} for p in range(4)],
        "bounds": {"quick": "polynomials with vector/array coefficients in {-2..2} of length <= 5 (long) / 4 (double), 0/1 coefficients of length <= 6, complex; all integer sequences over {-2,0,3} of length <= 4, all tuples over {constant 0, constant -2, 1.5, -3, 0} of length <= 3; derivatives to two orders beyond the degree; monomial sets dim 1-3, degree <= 8/6/5; trigonometric factors in {-3..3}, 6 derivatives; 1-4 callables for three signatures",
                   "thorough": "as quick with polynomials one to two coefficients longer"},
        "rule": "one state = one function (and point for monomial sets); outcomes = distinct value tables",
        "assumptions": ["g++ 13 with -O1 compiles correctly; integer-valued double arithmetic is exact in the explored range"],
    },
})

CHECKS.update({
    "C13": {
        "technique": "exhaustive enumeration of all sets of identification pairs and all index transformations within the bounds, "
                     "executed on the real code and compared with the transitive closure / the transformed reference indices",
        "units": [{"src": "transform.cc", "defs": ["PART=%d" % p], "shards": {"quick": 1, "thorough": 4}} for p in range(2)],
        "bounds": {"quick": "periodic: all 2^15 sets of pairs over <= 6 scrambled P1 dofs, all sequences of <= 3 ordered pairs over 3-4 dofs, all sets over P2, powers, composites and 2d meshes with <= 5 dofs; "
                            "transformations: all permutations of <= 5 dofs (single, repeated, as a child of composite/power), digit swap, flattening (from 1-3 digits, exact and loose index size bounds, nested, repeated, copied), regrouping, blocking, mixed length",
                   "thorough": "periodic: all 2^21 sets over 7 dofs, all sequences of <= 4 pairs; all permutations of <= 6 dofs"},
        "rule": "one state = basis x mesh x identification set or transformation; outcomes = distinct transformed index assignments",
        "assumptions": MOCK,
    },
})

CHECKS.update({
    "C09": {
        "technique": "exhaustive enumeration of all histories of bind/unbind/copy/move/assign up to a depth on pools of local views, local functions and "
                     "finite elements, executed on the real code under AddressSanitizer/UBSan and compared after every step with a freshly bound object",
        "units": [{"src": "views.cc", "defs": ["PART=%d" % p], "asan": True, "shards": {"quick": 2 if p < 3 else 1, "thorough": 8}} for p in range(9)],
        "bounds": {"quick": "all histories of <= 5 operations on two holders and two or three elements of different type/vertex order, for all leaf bases, powers, composites, subspace views, local functions and their derivatives, GeometryInAncestor",
                   "thorough": "all histories of <= 6 operations"},
        "rule": "one state = one operation history; after every history all holders are compared with newly bound ones; outcomes = distinct observations",
        "assumptions": MOCK,
    },
    "C10": {
        "technique": "exhaustive enumeration of all histories of grid changes, update/initialize, copies and assignments up to a depth, executed on the real code "
                     "and compared with a freshly constructed basis on the same grid view",
        "units": [{"src": "updates.cc", "defs": ["PART=%d" % p, "FAMILY=%d" % p], "shards": {"quick": 1, "thorough": 8}} for p in range(9)] +
                 [{"src": "updates.cc", "defs": ["PART=%d" % p], "shards": {"quick": 1, "thorough": 8}} for p in (9, 10)] +
                 [{"src": "updates.cc", "defs": ["PART=11"], "alberta": True, "shards": {"quick": 1, "thorough": 4}}],
        "bounds": {"quick": "all histories of <= 5 operations on two bases and three meshes (different element types, orientations, numberings, sizes) for all leaf bases and 6 basis trees; OneDGrid and Alberta refinement/coarsening histories",
                   "thorough": "all histories of <= 6 operations"},
        "rule": "one state = one history; outcomes = distinct observations of a basis (dimension, sizes of all prefixes, all indices, all shape function values)",
        "assumptions": MOCK + ["OneDGrid and AlbertaGrid refine and coarsen as documented"],
    },
    "C14": {
        "technique": "exhaustive enumeration of all subsets of elements (in all insertion orders of small ones) and all pairs of subsets of the bounded meshes, "
                     "executed on the real code and compared with a set model",
        "units": [{"src": "subdomain.cc", "defs": ["PART=%d" % p], "asan": p == 1, "shards": {"quick": 1, "thorough": 2}} for p in range(3)] +
                 [{"src": "subdomain.cc", "defs": ["PART=1%d" % f, "FAMILY=%d" % f], "shards": {"quick": 1, "thorough": 2}} for f in range(9)],
        "bounds": {"quick": "all subsets of meshes of up to 4-6 elements (mock grids of mixed element types, YaspGrid, OneDGrid, IdentityGrid), all pairs of subsets for interfaces; all restricted leaf bases and restricted trees",
                   "thorough": "as quick"},
        "rule": "one state = mesh x subset (x second subset) (x basis); outcomes = distinct index tables",
        "assumptions": MOCK,
    },
    "C18": {
        "technique": "exhaustive enumeration of all knot vectors (spacings, multiplicities, open or not), orders and element counts within the bounds, executed on the "
                     "real code and compared on every element with the piecewise polynomials of the Cox-de Boor recursion",
        "units": [{"src": "spline.cc", "defs": ["PART=%d" % p], "shards": {"quick": 2 if p == 0 else 1, "thorough": 8}} for p in range(3)],
        "bounds": {"quick": "1d: orders 0-4, 1-3 spans of length 1, 2 or 1/2, all multiplicities up to order+1; 2d: orders 0-3, 1-2 spans; 3d: orders 0-1, 1-2 spans; uniform constructors with all element counts up to 5/3/2 per direction and orders up to 5/3/2",
                   "thorough": "1d: orders 0-5, 1-4 spans; 2d: orders 0-3, 1-3 spans; 3d: orders 0-2, 1-2 spans; uniform: counts up to 7/4/3, orders up to 6/4/3"},
        "rule": "one state = knot vector or box x order x open; values, first and second derivatives of all functions at (order+1)^dim points per element, indices, keys, traces, copies, discrete functions; outcomes = distinct index-to-function assignments",
        "assumptions": ["YaspGrid with tensor product coordinates numbers its elements lexicographically (the documented precondition)",
                        "g++ 13 with -O1 compiles correctly; tolerance 1e-9 relative"],
    },
})

CHECKS.update({
    "C19": {
        "technique": "exhaustive enumeration of all refinement histories of small grids up to a depth, all pairs of the resulting leaf and level views, all elements and "
                     "consecutive bindings, executed on the real code and compared with the wrapped definition at the same global point",
        "units": surface(19) + [{"src": "wrappers.cc", "defs": ["PART=0"], "shards": {"quick": 4, "thorough": 8}},
                  {"src": "wrappers.cc", "defs": ["PART=2"], "alberta": True, "shards": {"quick": 4, "thorough": 8}},
                  {"src": "wrappers.cc", "defs": ["PART=3"], "shards": {"quick": 1, "thorough": 4}}] + [{"src": "wrappers.cc", "defs": ["PART=1", "YASP=%d" % k], "shards": {"quick": 1, "thorough": 2}} for k in range(5)],
        "bounds": {"quick": "OneDGrid and AlbertaGrid<2>: all refine/coarsen histories of depth 3 with at most 5 leaf elements; YaspGrid 1-3d with up to 3 levels; mock grids of all pairings of element types, also as curves and surfaces in 2d and 3d; "
                            "all ordered pairs of views, all coarse/fine/analytic/composed/normal wrappers and wrappers of wrappers",
                   "thorough": "depth 4 with at most 6 (OneDGrid) and 7 (AlbertaGrid) leaf elements"},
        "rule": "one state = grid history (x wrapper for mock grids); per state all pairs of views, elements, lattice points, bind orders, copies and derivatives; outcomes = distinct value tables",
        "assumptions": ["OneDGrid, YaspGrid and AlbertaGrid refine, coarsen and report father relations as documented"] + MOCK[1:],
    },
})

CHECKS.update({
    "C20": {
        "technique": "exhaustive enumeration of all Python descriptions of trees up to a depth and, for each of a pool of bases and subspaces, of all histories of operations on local views, "
                     "all orders of dropping references, all unit vectors and elements, executed through the real Python modules and compared with the tables of the equivalent C++ objects",
        "units": [{"py": "pybasis.py", "group": g, "shards": {"quick": q, "thorough": 4}} for g, q in (("TH", 3), ("RTL0", 2), ("PL1I", 2), ("L2", 1), ("PL1B", 1))]
                 + [{"py": "pybasis.py", "group": g, "tier": "thorough", "shards": 4} for g in ("N1", "RT0", "CB", "L1x3")]
                 + [{"py": "pytypes.py", "group": d, "shards": {"quick": 2, "thorough": 8}} for d in ("2", "3")],
        "bounds": {"quick": "all descriptions with Lagrange 0-3, Raviart-Thomas 0-1, Nedelec leaves, powers 1-3 and products of 1-3 children with every combination of (default) blocking and layout, two levels; "
                            "bases on a 2x1 grid: P2, interleaved P1^2, Taylor-Hood, RT0 x P0, blocked P1^2 and all their subspaces: all sequences of <= 4 operations on 2 local views and their nodes, "
                            "all orders of dropping 3 of 9 references",
                   "thorough": "also Nedelec, RT0, blocked products and 3d; sequences of <= 5 operations; orders of dropping 4 references; three levels of descriptions"},
        "rule": "one state = description of a tree, or basis x subspace x history / order / kind of array; outcomes = distinct generated types and index entries",
        "assumptions": ["dune.grid's Python bindings, pybind11 and the Python interpreter work as documented", "indices and values of the C++ objects are right (C01, C02, C05-C07, C11, C12)"],
    },
    "C21": {
        "technique": EXHAUST + "the alternative 'refused with an exception or correct': whatever is accepted must pass the index and conformity checks, containers must be refused exactly if they cannot hold the coefficients",
        "units": leaf(21, families=(20, 21, 22, 23), shards={21: {"quick": 2, "thorough": 6}, 22: {"quick": 3, "thorough": 8}}) +
                 tree(21, 4, 12, 3, 24),
        "bounds": {"quick": "every leaf space on all pairs of element types it does not support (and those it does), created there and updated from simplex, cube and mixed pairs it accepts; Lagrange spaces of order 2-4 on all 3d pairs, "
                            "orders 18 and 24 in 3d, static pre-bases with every run-time order 0-5; 45 basis trees x 33 container types x 4 preset sizes; " + MESH + " (one element permuted at a time)",
                   "thorough": "as quick with all vertex orders, updates between all pairs, Lagrange order 5, 108 basis trees"},
        "rule": "one state = basis x mesh (x mesh it was updated from), or basis tree x mesh; outcomes = refused, or distinct index assignments",
        "assumptions": MOCK,
    },
})
