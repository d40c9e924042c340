#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand: python3 gen_properties.py)."""
import json
F='dune/functions/functionspacebases/'; C='dune/functions/common/'; B='dune/functions/backends/'
G='dune/functions/gridfunctions/'; A='dune/functions/analyticfunctions/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

prop('C01','Global indices of every basis form a gap-free, collision-free index tree',
 'For every finite element basis on every grid, the global multi-indices handed out by bound local views form an index tree without gaps: each is distinct within an element (unless the basis is documented to identify degrees of freedom), no index is a prefix of another, and the children of every node are numbered consecutively from zero. The size reported for every prefix equals the number of children actually reached (and zero for full indices), the dimension equals the number of distinct indices, and every local view size is bounded by the advertised maximum.',
 ['inputs','configurations'],'all meshes (element types, vertex numberings, index/id numberings) and all bases and composition trees within the bounds',
 'Tests build each basis on one or two structured grids; the tests of many bases (Raviart-Thomas, Nedelec, BDM, Hermite, Argyris, Morley, Lagrange on mixed grids) need a grid manager with simplices/mixed elements that samples only one numbering.',
 [F+'lagrangebasis.hh',F+'leafprebasismixin.hh',F+'leafprebasismappermixin.hh',F+'lfeprebasismixin.hh',F+'nedelecbasis.hh',F+'raviartthomasbasis.hh',F+'brezzidouglasmarinibasis.hh',F+'lagrangedgbasis.hh',F+'refinedlagrangebasis.hh',F+'rannacherturekbasis.hh',F+'hierarchicallagrangebasis.hh',F+'hierarchicallagrangewithelementbubblebasis.hh',F+'cubichermitebasis.hh',F+'argyrisbasis.hh',F+'morleybasis.hh',F+'bsplinebasis.hh',F+'defaultglobalbasis.hh',F+'defaultlocalview.hh'],
 [('per-codimension offsets and mapper layouts','lagrangebasis.hh LagrangePreBasis::initializeIndices/indices'),('mapper based numbering','leafprebasismappermixin.hh')],
 ['basis.size(prefix)','basis.dimension()','localView.index(i)','localView.size()/maxSize()'])

prop('C02','Index merging of product bases follows the documented strategy rules',
 'For every composition of bases (heterogeneous products, static and run-time powers, Taylor-Hood) and every choice of merging strategy at every level, the multi-index of each degree of freedom is exactly the one obtained by applying the documented merge rule (lexicographic or interleaved, flat or blocked) to the index of the corresponding degree of freedom in the child basis. The local numbering of the tree lists the children depth first in declaration order, and a run-time power or Taylor-Hood basis is indistinguishable from the equivalent static power or composite basis.',
 ['programs','configurations','inputs'],'all basis trees up to a depth/width bound over all merging strategies, and all elements of the bounded meshes',
 'Tests check only consistency (no gaps) of a dozen hand picked trees, never the agreement with the documented rule, and deep nestings of strategies are not sampled.',
 [F+'compositebasis.hh',F+'powerbasis.hh',F+'dynamicpowerbasis.hh',F+'taylorhoodbasis.hh',F+'basistags.hh',F+'nodes.hh'],
 [('merge rules','compositebasis.hh / dynamicpowerbasis.hh indices(), size(), per strategy overloads'),('tree offsets','nodes.hh')],
 ['localView.index(i)','basis.size(prefix)','node.localIndex(i)'])

prop('C03','Containers generated for a basis match its index tree',
 'The container structure described for a basis, the containers created from that structure, and vectors resized through the vector backend all have, at every node of the index tree, exactly the size the basis reports. Every global multi-index then addresses one distinct scalar (or small block) entry, reads return what was last written under the same index, and newly created entries hold the requested initial value.',
 ['programs','configurations'],'all basis trees of the bounded grammar and all container types compatible with them',
 'Tests create containers for a few bases and check a handful of sizes; collisions in nested static/dynamic combinations (width one, uniform arrays, tuples) are unsampled.',
 [F+'containerdescriptors.hh',B+'containerfactory.hh',B+'istlvectorfactory.hh',B+'istlvectorbackend.hh',C+'indexaccess.hh',F+'flatvectorview.hh'],
 [('descriptor merging','containerdescriptors.hh'),('factory recursion','containerfactory.hh, istlvectorfactory.hh'),('resize / hybrid access','istlvectorbackend.hh')],
 ['basis.preBasis().containerDescriptor()','makeContainer','makeISTLVector','istlVectorBackend(v).resize(basis)','backend[index]'])

prop('C04','Shared degrees of freedom give conforming functions for every mesh numbering',
 'For every conforming finite element space offered (continuous, normal-continuous, tangentially continuous, weakly conforming, C1 or vertex/edge conforming), the restrictions of one global basis function to two neighbouring elements agree in exactly the trace the space promises on their common face, whatever the vertex order inside the elements and the numbering of the mesh. Discontinuous spaces never share a degree of freedom between elements.',
 ['configurations','inputs'],'all vertex permutations of two neighbouring elements, all index and id numberings of the bounded meshes, all orders in range',
 'Tests use structured grids or one unstructured grid whose numbering is fixed, so most relative orientations of two elements never occur; half of these tests do not build without a simplex grid manager.',
 [F+'lagrangebasis.hh',F+'refinedlagrangebasis.hh',F+'hierarchicallagrangebasis.hh',F+'hierarchicallagrangewithelementbubblebasis.hh',F+'raviartthomasbasis.hh',F+'brezzidouglasmarinibasis.hh',F+'nedelecbasis.hh',F+'rannacherturekbasis.hh',F+'cubichermitebasis.hh',F+'argyrisbasis.hh',F+'morleybasis.hh',F+'lagrangedgbasis.hh',F+'globalvaluedlocalfiniteelement.hh'],
 [('edge/face orientation','lagrangebasis.hh indices(), nedelecbasis.hh/raviartthomasbasis.hh orientation tables, morleybasis.hh/argyrisbasis.hh edge orientation'),('Piola transformations','globalvaluedlocalfiniteelement.hh')],
 ['localView.index(i)','shape function values/gradients on both sides of an intersection'])

prop('C05','Interpolation reproduces the space and is dual to its basis functions',
 'On every element the local interpolation of a basis applied to its i-th shape function yields the i-th unit vector (projection), and consequently the global interpolation of any function of the discrete space returns exactly its coefficients. Spaces of a given polynomial degree reproduce all polynomials up to that degree.',
 ['configurations','inputs'],'all bases/orders in range, all bounded element shapes and numberings, all coefficient unit vectors and all monomials up to the degree',
 'Tests check the duality only on their fixed meshes and, for most vector valued and C1 elements, not in a build without a simplex grid manager.',
 [F+'interpolate.hh',F+'lagrangebasis.hh',F+'globalvaluedlocalfiniteelement.hh',F+'cubichermitebasis.hh',F+'argyrisbasis.hh',F+'morleybasis.hh',F+'transformedfiniteelementmixin.hh',F+'functionaldescriptor.hh'],
 [('local interpolation of transformed elements','globalvaluedlocalfiniteelement.hh, cubichermitebasis.hh, argyrisbasis.hh, morleybasis.hh'),('global interpolation loop','interpolate.hh')],
 ['localInterpolation().interpolate','interpolate(basis, coefficients, f)'])

prop('C06','Interpolation and marking touch exactly the selected coefficients',
 'Interpolating a function into a (sub)space basis writes exactly the coefficients belonging to that (sub)space that are selected by the mask (if one is given), writes there the value of the dual functional, and leaves every other entry of the coefficient vector bit-identical. This holds for every element order of traversal, mask and subspace, and the coefficient vector is enlarged only as needed to match the basis.',
 ['inputs','configurations'],'all masks of the bounded degree-of-freedom sets, all subspaces of the bounded trees',
 'Tests interpolate with one mask at most and never compare the untouched entries.',
 [F+'interpolate.hh',F+'hierarchicnodetorangemap.hh',F+'subspacebasis.hh',B+'istlvectorbackend.hh'],
 [('bit vector handling','interpolate.hh')],['interpolate(basis, coeff, f, mask)'])

prop('C07','Discrete functions evaluate to the coefficient-weighted sum of shape functions',
 'A discrete function built from a basis and a coefficient vector evaluates, on every element and at every point, to the sum of coefficients times shape functions of that element mapped to the requested range, and its derivative evaluates to the corresponding sum of global shape function gradients. Results depend only on the bound element and the coefficients, not on the evaluation history, and sub-tree functions only use the coefficients of their sub-tree.',
 ['inputs','configurations','histories'],'all unit coefficient vectors, all elements and bind orders of the bounded meshes, all bounded basis trees and ranges',
 'Tests compare against interpolated smooth functions to a tolerance for two or three bases on structured grids.',
 [G+'discreteglobalbasisfunction.hh',F+'hierarchicnodetorangemap.hh',F+'subspacebasis.hh',G+'localderivativetraits.hh'],
 [('local coefficient cache and accumulation','discreteglobalbasisfunction.hh LocalFunctionBase/LocalFunction'),('range mapping','hierarchicnodetorangemap.hh')],
 ['makeDiscreteGlobalBasisFunction','localFunction(f)','derivative(f)'])

prop('C08','Shape function derivatives are the derivatives of the shape functions',
 'For every basis, element and local coordinate, the derivative values delivered by the local basis (Jacobians, partial derivatives of every supported order) are the exact derivatives of the shape function values delivered by the same local basis, including all geometry transformations and orientation signs. Requests for derivative orders that are not supported are refused rather than answered wrongly.',
 ['inputs','configurations'],'all bases/orders in range, all bounded element shapes, orientations and numberings, a unisolvent point set per element',
 'Tests compare finite differences at a few quadrature points on one grid; transformed and global-valued elements are untested in a build without a simplex grid manager.',
 [F+'globalvaluedlocalfiniteelement.hh',F+'cubichermitebasis.hh',F+'argyrisbasis.hh',F+'morleybasis.hh',F+'bsplinebasis.hh',F+'lagrangebasis.hh',F+'refinedlagrangebasis.hh',F+'transformedfiniteelementmixin.hh'],
 [('chain rule / Piola transformation of derivatives','globalvaluedlocalfiniteelement.hh'),('transformed basis','cubichermitebasis.hh, argyrisbasis.hh, morleybasis.hh')],
 ['localBasis().evaluateJacobian','localBasis().partial'])

prop('C09','Local views and local functions are independent values under any call history',
 'After any history of creating, binding, rebinding, unbinding, copying, assigning, moving and destroying local views and local functions, each live object behaves exactly like a freshly created one bound to the same element: same bound state, indices, tree, shape functions and values. Operations on one object never influence another, and no operation touches destroyed objects.',
 ['histories'],'all operation sequences up to a depth over a small pool of objects and elements, for every kind of basis and grid function',
 'Tests exercise one or two fixed sequences (copy then evaluate); most defects need a particular order such as assign-then-destroy-then-bind.',
 [F+'defaultlocalview.hh',F+'subspacelocalview.hh',F+'nodes.hh',G+'discreteglobalbasisfunction.hh',G+'analyticgridviewfunction.hh',G+'composedgridfunction.hh',C+'localfunction.hh',F+'transformedfiniteelementmixin.hh'],
 [('tree rebuilding on copy','defaultlocalview.hh'),('deep copy of local coefficients','discreteglobalbasisfunction.hh')],
 ['localView()','bind/unbind/bound','localFunction(f)'])

prop('C10','Updating a basis after a grid change equals building it anew',
 'After the grid has been changed (refined, coarsened, renumbered) and the basis has been updated with the new grid view, the basis is indistinguishable from one freshly constructed on that view: dimension, sizes, indices and shape functions of all newly created local views agree. Copies and moved-to bases are independent of their source.',
 ['histories','configurations'],'all sequences of refine/coarsen/renumber/update/copy/assign operations up to a depth, for every basis',
 'Only one or two tests call update at all and compare nothing but a dimension.',
 [F+'defaultglobalbasis.hh',F+'lagrangebasis.hh',F+'taylorhoodbasis.hh',F+'morleybasis.hh',F+'argyrisbasis.hh',F+'cubichermitebasis.hh',F+'nedelecbasis.hh',F+'raviartthomasbasis.hh',F+'brezzidouglasmarinibasis.hh',F+'leafprebasismappermixin.hh',F+'restrictedbasis.hh',F+'transformedindexbasis.hh',F+'dynamicpowerbasis.hh',F+'compositebasis.hh'],
 [('update chains','*::update(gridView), initializeIndices()')],
 ['basis.update(gridView)','localView.index(i)','basis.dimension()'])

prop('C11','Subspace bases are consistent views into their root basis',
 'A subspace basis (also a subspace of a subspace) exposes exactly the sub-tree selected by the concatenated path: its local degrees of freedom are those of the sub-tree, its indices are the root basis indices of the same degrees of freedom, and size and dimension are those of the root. This holds for every tree path, static or run-time indexed.',
 ['configurations','inputs'],'all paths of all bounded basis trees, in all ways of splitting the path over nested subspaces, all elements',
 'Tests look at two or three paths of one basis.',
 [F+'subspacebasis.hh',F+'subspacelocalview.hh',F+'nodes.hh'],
 [('path joining and tree descent','subspacebasis.hh, subspacelocalview.hh')],
 ['subspaceBasis(basis, path...)','localView().tree()','localView.index(i)'])

prop('C12','Boundary and sub-entity DOF queries return exactly the associated DOFs',
 'The degrees of freedom reported for a sub-entity of an element are exactly those associated with the sub-entity or any of its own sub-entities, each once, and the boundary traversal visits exactly the degrees of freedom associated with boundary faces, for every composite basis and callback form. Nothing in the interior is visited and nothing on the boundary is missed.',
 ['configurations','inputs'],'all sub-entities of all element types, all boundary/interior face patterns of the bounded meshes, all bounded basis trees',
 'Tests set boundary values on a structured grid and count; no wrong extra DOF would be noticed for other element types.',
 [F+'boundarydofs.hh',F+'subentitydofs.hh'],
 [('containment table per sub-entity','subentitydofs.hh'),('callback dispatch','boundarydofs.hh')],
 ['forEachBoundaryDOF','subEntityDOFs'])

prop('C13','Index transformations identify or permute DOFs exactly as requested',
 'A periodic basis identifies two degrees of freedom if and only if they are connected by a chain of requested identifications, and numbers the resulting classes consecutively without gaps. A basis with a user supplied index transformation reports exactly the transformed index and sizes, and everything else (tree, shape functions, local sizes) is unchanged.',
 ['inputs','histories'],'all sets of identification pairs up to a bound (in all insertion orders), all bounded trees and transformations',
 'The test uses one rectangular periodic identification in which every class is simply linked to one leader.',
 [F+'periodicbasis.hh',F+'transformedindexbasis.hh'],
 [('union of index sets and renumbering','periodicbasis.hh'),('transformation hooks','transformedindexbasis.hh')],
 ['BasisFactory::periodic','BasisFactory::transformIndices','basis.dimension()','localView.index(i)'])

prop('C14','Subdomain views and restricted bases behave like the subdomain alone',
 'For every selected set of elements, the subdomain view iterates exactly those elements and numbers exactly their sub-entities consecutively per geometry type; its intersections, interfaces and skeletons are exactly those with the respective neighbourhood relation, each visited once with the documented orientation. A basis restricted to the subdomain has exactly the degrees of freedom of the same basis on the subdomain and none outside.',
 ['inputs','histories'],'all subsets of the elements of the bounded meshes (in all insertion orders for small ones), all pairs of disjoint subsets for interfaces',
 'The test uses one or two fixed subdomains and needs a grid manager missing in many builds.',
 [C+'subdomain.hh',F+'restrictedbasis.hh',C+'mapperutilities.hh'],
 [('index tables per geometry type','subdomain.hh SubDomainIndexSet'),('zero-size nodes outside','restrictedbasis.hh')],
 ['SubDomain','SubDomainInterface','restrict'])

prop('C15','Type-erased functions keep value semantics over every object lifetime history',
 'After any history of constructing, copying, moving, assigning (including self assignment, from empty and across storage sizes), swapping and destroying type-erased functions and small-object holders, each non-empty holder contains an independent equal copy of the value put in, evaluates and differentiates like it, and every contained object is destroyed exactly once. A failing copy leaves no holder referring to a destroyed object.',
 ['histories','fault_sequences'],'all operation sequences up to a depth on a small pool of holders with small, large and throwing contents, with a fault at every copy',
 'Tests run a single hand written sequence; double destruction, leaks and dangling references depend on rare orders and throwing copies.',
 [C+'polymorphicsmallobject.hh',C+'typeerasure.hh',C+'differentiablefunction.hh',C+'localfunction.hh',G+'gridfunction.hh',G+'gridviewfunction.hh'],
 [('in-place versus heap storage','polymorphicsmallobject.hh'),('clone/move wrappers','typeerasure.hh')],
 ['PolymorphicSmallObject','DifferentiableFunction','GridViewFunction','LocalFunction'])

prop('C16','Multi-index containers and index access obey their sequence semantics',
 'The fixed-capacity sequences used as multi-indices behave, after every sequence of operations within their capacity, exactly like an ordinary sequence (contents, size, order, comparison, hash, iteration), and static and dynamic access of a nested container by a multi-index reaches the same entry as the chain of subscripts. Flat views of nested containers enumerate every scalar exactly once in lexicographic order.',
 ['histories','inputs'],'all operation sequences up to a depth and all contents up to capacity; all nested containers of a bounded grammar and all their indices',
 'Tests check a few pushes; wrap-around and front insertion are not exercised at all.',
 [C+'overflowarray.hh',C+'reserveddeque.hh',C+'multiindex.hh',C+'indexaccess.hh',F+'flatvectorview.hh',F+'flatmultiindex.hh',C+'densevectorview.hh'],
 [('ring buffer','reserveddeque.hh'),('overflow slots','overflowarray.hh'),('recursive access','indexaccess.hh')],
 ['OverflowArray','ReservedDeque','StaticMultiIndex','hybridMultiIndexAccess','resolveDynamicMultiIndex','resolveStaticMultiIndex','flatVectorView'])

prop('C17','Analytic functions and their derivatives are mathematically exact',
 'Polynomials, monomial families and trigonometric functions evaluate to their defining formula and their derivatives of any order are the exact derivatives, for every degree, dimension and coefficient type including the degenerate cases (empty, constant, degree zero). Functions assembled from callables return exactly the callable of the requested derivative order and refuse orders that were not provided.',
 ['inputs','programs'],'all coefficient vectors/degrees/dimensions up to a bound at a unisolvent set of integer points; all derivative orders',
 'Tests evaluate a few polynomials at a few points with a tolerance.',
 [A+'polynomial.hh',A+'monomialset.hh',A+'trigonometricfunction.hh',C+'differentiablefunctionfromcallables.hh',C+'differentiablefunction.hh'],
 [('derivative construction','polynomial.hh derivative, monomialset.hh recursions')],
 ['f(x)','derivative(f)(x)'])

prop('C18','B-spline bases are genuine spline spaces for every knot vector and order',
 'For every admissible knot vector, order and dimension, the B-spline shape functions are exactly the Cox-de Boor basis functions of the (possibly open) knot vector: nonnegative, summing to one, with the support and the global indices of a tensor product spline space, and as smooth across element faces as the knot multiplicity allows. First and second derivatives equal the derivatives of the values.',
 ['inputs','configurations'],'all knot multiplicity patterns and orders up to a bound in one to three dimensions, all elements, a unisolvent point set',
 'The test uses uniform open knots with a few orders and checks smoothness to a tolerance only.',
 [F+'bsplinebasis.hh'],
 [('Cox-de Boor recursion and knot span bookkeeping','bsplinebasis.hh')],
 ['BSplinePreBasis','localBasis().evaluateFunction/evaluateJacobian/evaluate<k>','localView.index(i)'])

prop('C19','Grid function wrappers agree pointwise with the functions they wrap',
 'A grid function obtained by wrapping, composing or transferring other functions (analytic functions on a grid view, compositions, coarse functions on finer views, fine functions on coarser views, unit normals on faces) takes at every point of every element the value of the wrapped definition at the same global point, globally and locally, likewise for derivatives, for every level difference between the views. The wrapper keeps nothing from earlier bindings.',
 ['inputs','configurations','histories'],'all refinement histories of a small grid up to a depth, all pairs of grid views, all elements and bind orders, points on a lattice',
 'Tests use one refinement level and one bind order.',
 [G+'analyticgridviewfunction.hh',G+'composedgridfunction.hh',G+'coarsefunctiononfinegridview.hh',G+'finefunctiononcoarsegridview.hh',C+'geometryinancestor.hh',G+'facenormalgridfunction.hh',G+'gridviewfunction.hh',G+'gridfunction.hh'],
 [('ancestor traversal and coordinate composition','geometryinancestor.hh, coarsefunctiononfinegridview.hh'),('child search','finefunctiononcoarsegridview.hh')],
 ['localFunction(f)(x)','derivative(f)'])

prop('C20','Python bases, views and functions behave like their C++ counterparts',
 'Every description of a basis that the Python interface accepts (Lagrange, Raviart-Thomas and Nedelec spaces, powers and products with every blocking and layout, given or by default) yields the basis of the equivalent C++ construction: same tree, dimension, sizes and global indices on every element. Interpolation into an array writes exactly the entries of the (sub)space and refuses arrays of the wrong size, functions created from an array take the values of its current coefficients when bound, sub-space bases and boundary traversal give the C++ indices, and views, tree nodes and functions stay valid and follow their local view whatever other references are dropped first.',
 ['programs','histories','configurations'],'all descriptions up to a depth, all histories of operations on two local views, all orders of dropping references, all unit coefficient vectors and elements',
 'The Python tests create a few bases on one grid, hold everything alive and never compare indices or values with the C++ objects.',
 ['python/dune/functions/tree.py','python/dune/functions/globalbasis.py','python/dune/functions/subspacebasis.py','python/dune/functions/boundarydofs.py','dune/python/functions/globalbasis.hh','dune/python/functions/tree.hh','dune/python/functions/discretefunction.hh','dune/python/functions/hierarchicvectorwrapper.hh','dune/python/functions/interpolate.hh','dune/python/functions/subspacebasis.hh'],
 [('generated type names','globalbasis.py preBasisTypeName'),('lifetime policies','globalbasis.hh, tree.hh keep_alive'),('buffer access','discretefunction.hh, interpolate.hh')],
 ['basis.localView().index(i)','basis.size(prefix)','basis.interpolate(x,f)','basis.asFunction(x)(e,x)','node.child(i)'])
prop('C21','Unsupported configurations are refused, never silently wrong',
 'A basis that is created on, or updated to, a grid view whose element types or polynomial order its space does not support (higher-order Lagrange on prisms and pyramids or beyond the maximal 3d order, higher Raviart-Thomas and BDM spaces on grids with several element types, Nedelec and Rannacher-Turek spaces on prisms and pyramids, simplicial spaces on other elements, a run-time order for a compile-time basis) throws an exception at the latest when a view is bound, and an update is refused exactly when construction on that grid view is; whatever is accepted has a gap-free index tree and is conforming. Resizing a vector backend throws exactly if the container cannot hold the coefficients of the basis, and otherwise leaves a container with the sizes of the index tree.',
 ['configurations','histories'],'all element type pairs x spaces x vertex orders; all updates between them; all container shapes x basis trees',
 'Tests never ask for an unsupported configuration, and a wrongly accepted one shows only for some element types, vertex orders or containers.',
 ['dune/functions/functionspacebases/lagrangebasis.hh','dune/functions/functionspacebases/raviartthomasbasis.hh','dune/functions/functionspacebases/brezzidouglasmarinibasis.hh','dune/functions/functionspacebases/nedelecbasis.hh','dune/functions/functionspacebases/rannacherturekbasis.hh','dune/functions/functionspacebases/refinedlagrangebasis.hh','dune/functions/functionspacebases/hierarchicallagrangebasis.hh','dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh','dune/functions/backends/istlvectorbackend.hh'],
 [('grid and order checks','constructors and update() of the pre-bases'),('resize','ISTLVectorBackend::resize')],
 ['makeBasis(gv,factory) throws','basis.update(gv) throws','backend.resize(basis) throws'])

with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(p)+'\n')
