"""C20, part 2: bases, local views, trees, interpolation, discrete functions and subspace bases used through Python,
against the tables of the equivalent C++ objects."""
import gc, itertools, json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pybuild as pb

mc = pb.MC()
work = os.path.join(os.path.dirname(mc.out), "py")
pb.setup(work)
import warnings
warnings.simplefilter("ignore")
import numpy as np
import dune.grid
import dune.functions as F

BOX = {2: ([0, 0], [1, 2], [2, 1]), 3: ([0, 0, 0], [1, 2, 1], [1, 2, 1])}
L1, L2, L0 = ("L", 1), ("L", 2), ("L", 0)
FL, FI, BL, BI = (False, "lexicographic"), (False, "interleaved"), (True, "lexicographic"), (True, "interleaved")
# group: dimension, tree, subspaces (path, interpolation and functions available)
GROUPS = {
    "L2": (2, L2, []),
    "PL1I": (2, ("P", L1, 2) + FI, [(0,), (1,)]),
    "TH": (2, ("C", [("P", L2, 2, None, None), L1], None, None), [(0,), (1,), (0, 0), (0, 1)]),
    "RTL0": (2, ("C", [("RT", 0), L0]) + FL, [(0,), (1,)]),
    "N1": (2, ("N", 1, 1), []),
    "RT0": (2, ("RT", 0), []),
    "PL1B": (2, ("P", L1, 2) + BL, []),
    "CB": (2, ("C", [L2, ("P", L1, 2) + BI]) + BL, []),
    "L1x3": (3, ("P", L1, 3) + FL, [(2,)]),
}
dim, spec, subs = GROUPS[mc.group]
parts = [()] + subs
POINTS = [(0.25, 0.25, 0.5)[:dim], (0.8, 0.3, 0.1)[:dim], (1.0, 0.0, 0.0)[:dim]]


# ---- the same in C++
def oracle():
    path = lambda p: "Dune::TypeTree::treePath(%s)" % ",".join("Dune::index_constant<%d>()" % k for k in p)
    src = "#include <config.h>\n#include <iostream>\n#include <set>\n#include <dune/grid/yaspgrid.hh>\n#include <dune/common/parallel/mpihelper.hh>\n#include <dune/functions/functionspacebases/boundarydofs.hh>\n" + pb.HEADERS + """
namespace BF=Dune::Functions::BasisFactory; constexpr int dim=%d;
using X=Dune::FieldVector<double,dim>;
template<class V> void list(const V& v) { std::cout<<"["; bool c=false; for (auto&& x : v) { if (c) std::cout<<","; c=true; std::cout<<x; } std::cout<<"]"; }
template<class M> std::vector<std::size_t> idx(const M& m) { std::vector<std::size_t> r; for (std::size_t k=0;k<m.size();++k) r.push_back(m[k]); return r; }
inline double g(const X& x) { return 1+x[0]+2*x[1]+x[0]*x[1]; }
template<int n> auto fn() { if constexpr (n==1) return [](const X& x) { return g(x); }; else return [](const X& x) { Dune::FieldVector<double,n> r; for (int k=0;k<n;++k) r[k]=(k+1)*g(x)+k; return r; }; }
template<int n, class B> void interp(const B& b)
{
  std::cout<<",\\n";
  if constexpr (n>0) { std::vector<double> v(b.dimension(),-7.5); interpolate(b,v,fn<n>()); list(v); } else std::cout<<"null";
}
int main(int c, char** a)
{
  Dune::MPIHelper::instance(c,a); std::cout.precision(17);
  Dune::FieldVector<double,dim> u; std::array<int,dim> n; for (int i=0;i<dim;++i) { u[i]=std::array<double,3>{%s}[i]; n[i]=std::array<int,3>{%s}[i]; }
  Dune::YaspGrid<dim,Dune::EquidistantOffsetCoordinates<double,dim>> grid(X(0.),u,n);
  std::cout<<"[";
  for (int level=0;level<2;++level) {
  if (level) { grid.globalRefine(1); std::cout<<","; }
  auto gv=grid.leafGridView();
  auto b=BF::makeBasis(gv,%s); using B=decltype(b); auto lv=b.localView();
  std::cout<<"["<<b.dimension()<<","<<b.size()<<","<<lv.maxSize()<<",[";
  std::set<std::vector<std::size_t>> prefixes; bool first=true;
  for (const auto& e : elements(gv)) {
    lv.bind(e); std::cout<<(first?"":",\\n")<<"["; first=false; list(e.geometry().center()); std::cout<<",[";
    for (std::size_t i=0;i<lv.size();++i) { auto m=idx(lv.index(i)); std::cout<<(i?",":""); list(m); for (std::size_t k=0;k<=m.size();++k) prefixes.insert(std::vector<std::size_t>(m.begin(),m.begin()+k)); }
    std::cout<<"],["; bool fl=true;
    Dune::TypeTree::forEachLeafNode(lv.tree(),[&](auto&& node, auto&& tp) {
      std::cout<<(fl?"":",")<<"["; fl=false; std::vector<std::size_t> p; Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::Hybrid::size(tp)),[&](auto i) { p.push_back(tp[i]); }); list(p);
      std::vector<std::size_t> li; for (std::size_t i=0;i<node.size();++i) li.push_back(node.localIndex(i)); std::cout<<","; list(li); std::cout<<",[";
      bool fp=true;
      for (auto x : std::vector<X>{%s}) {
        std::vector<typename std::decay_t<decltype(node)>::FiniteElement::Traits::LocalBasisType::Traits::RangeType> o; node.finiteElement().localBasis().evaluateFunction(x,o);
        std::cout<<(fp?"":",")<<"["; fp=false; for (std::size_t i=0;i<o.size();++i) { if (i) std::cout<<","; list(o[i]); } std::cout<<"]"; }
      std::cout<<"]]"; });
    std::cout<<"]]"; }
  std::cout<<"],["; bool fs=true;
  for (auto& p : prefixes) { typename B::SizePrefix q; for (auto k : p) q.push_back(k); std::cout<<(fs?"":",")<<"["; fs=false; list(p); std::cout<<","<<b.size(q)<<"]"; }
  std::cout<<"]";
""" % (dim, ",".join(str(float(k)) for k in BOX[dim][1]) + (",1" if dim == 2 else ""), ",".join(map(str, BOX[dim][2])) + (",1" if dim == 2 else ""), pb.factory(spec),
       ",".join("{%s}" % ",".join(map(str, p)) for p in POINTS))
    for p in parts:
        b = "Dune::Functions::subspaceBasis(b,%s)" % path(p) if p else "b"
        src += "  interp<%d>(%s);\n" % (rng(sub(spec, p)) if flat(spec) and uniform(sub(spec, p)) else 0, b)
    src += """  std::cout<<",\\n["; bool fb=true; std::set<std::vector<std::size_t>> bnd;
  Dune::Functions::forEachBoundaryDOF(b,[&](auto&& m) { bnd.insert(idx(m)); });
  for (auto& m : bnd) { std::cout<<(fb?"":","); fb=false; list(m); }
  std::cout<<"]]\\n";
  }
  std::cout<<"]";
}
"""
    exe = pb.executable(work, "oracle_" + mc.group, src)
    r = subprocess.run([exe], capture_output=True, text=True)
    return [dict(zip(("dimension", "size", "maxSize", "elements", "sizes"), v[:5]), interp=dict(zip(parts, v[5:-1])), boundary=v[-1]) for v in json.loads(r.stdout)]


def sub(t, p):
    for k in p:
        t = t[1][k] if t[0] == "C" else t[1]
    return t


def uniform(t):
    return t[0] in ("L", "RT", "N") or (t[0] == "P" and t[1][0] == "L")


def rng(t):
    return {"L": lambda: 1, "RT": lambda: dim, "N": lambda: dim, "P": lambda: t[2] * rng(t[1]), "C": lambda: 0}[t[0]]()


def flat(t):
    return t[0] not in "PC" or (not t[-2] and all(flat(c) for c in (t[1] if t[0] == "C" else [t[1]])))


def grid():
    return dune.grid.structuredGrid(*BOX[dim])


try:
    # compile what the states need before any of them starts; the shards begin with different modules
    g0 = grid()
    todo = list(range(-1, len(parts)))
    k = mc.shard[0] * len(todo) // mc.shard[1]
    for n in todo[k:] + todo[:k]:
        if n < 0:
            ref = oracle()
            continue
        p = parts[n]
        b0 = F.defaultGlobalBasis(g0, pb.tree(F, spec))
        if p:
            F.subspaceBasis(b0, *p)
    missing = None
except (pb.CompileError, ValueError) as e:
    missing = str(e)


gc.collect()
gc.freeze()   # what is there now need not be visited again


def nodes(n):
    return [n] + [m for k in range(0 if n.isLeaf else n.degree()) for m in nodes(n.child(k))]


def view(g, p, nested=False):
    b = F.defaultGlobalBasis(g, pb.tree(F, spec))
    if p and nested:
        s = b
        for k in p:
            s = F.subspaceBasis(s, k)
        return s
    return F.subspaceBasis(b, *p) if p else b


def under(p, leaf):
    return tuple(leaf[0][:len(p)]) == p


def localIndices(E, p):
    return [i for l in E[2] if under(p, l) for i in l[1]]


def checkNode(n, t, p, E, where):
    mine = localIndices(E, p)
    mc.equal((n.isLeaf, n.isPower, n.isComposite), (t[0] in ("L", "RT", "N"), t[0] == "P", t[0] == "C"), where + ": kind of node")
    mc.equal((n.size(), len(n)), (len(mine),) * 2, where + ": size of the node")
    mc.equal(sorted(n.localIndex(i) for i in range(n.size())), sorted(mine), where + ": local indices")
    if t[0] in ("L", "RT", "N"):
        mc.equal([n.localIndex(i) for i in range(n.size())], mine, where + ": local indices")
        fe = n.finiteElement()
        mc.equal((fe.size(), len(fe.localBasis)), (len(mine),) * 2, where + ": size of the finite element")
        for k, x in enumerate(POINTS):
            got = [np.ravel(v).tolist() for v in fe.localBasis.evaluateFunction(list(x))]
            want = [l for l in E[2] if tuple(l[0]) == p][0][2][k]
            for a, b in zip(got, want):
                mc.close(a, b, lambda: "%s: shape functions at %s" % (where, x))
            mc.equal(len(got), len(want), where + ": number of shape functions")
    else:
        d = t[2] if t[0] == "P" else len(t[1])
        mc.equal(n.degree(), d, where + ": degree")
        for k in range(d):
            checkNode(n.child(k), t[1][k] if t[0] == "C" else t[1], p + (k,), E, where + ".child(%d)" % k)
        for k in (d, d + 1):
            try:
                n.child(k)
            except IndexError:
                continue
            mc.check(False, where + ": child beyond the degree")


def checkHeld(held, E, p, where):
    """nodes obtained earlier are the nodes of the local view as it is bound now"""
    ts = []

    def walk(t, q):
        ts.append((t, q))
        if t[0] in "PC":
            for k in range(t[2] if t[0] == "P" else len(t[1])):
                walk(t[1][k] if t[0] == "C" else t[1], q + (k,))
    walk(sub(spec, p), p)
    for n, (t, q) in zip(held, ts):
        checkNode(n, t, q, E, "%s: held node %s" % (where, q))


def checkView(lv, e, E, p, where):
    # the local view of a subspace basis exposes the indices of the whole tree of the root and the tree of the subspace
    mc.transitions += 1
    mc.check(lv.element() == e, where + ": element()")
    mine = localIndices(E, p)
    mc.equal((len(lv), lv.size()), (len(E[1]) if not p else lv.size(),) * 2, where + ": size of the local view")
    for i in mine:
        mc.equal(list(lv.index(i)), E[1][i], lambda: "%s: index(%d)" % (where, i))
    checkNode(lv.tree(), sub(spec, p), p, E, where + ": tree")
    for t in E[1]:
        for k in t:
            mc.outcomes.add((len(t), k))


def checkBasis(b, R, p, where):
    mc.equal((len(b), b.dimension, b.size()), (R["dimension"], R["dimension"], R["size"]), where + ": len, dimension and size")
    for pre, n in R["sizes"]:
        mc.equal(b.size(pre), n, lambda: "%s: size(%s)" % (where, pre))
    lv = b.localView()
    mc.equal(lv.maxSize(), R["maxSize"], where + ": maxSize")
    gv = b.gridView
    mc.equal(gv.size(0), len(R["elements"]), where + ": elements of gridView")
    for e, E in zip(gv.elements, R["elements"]):
        mc.close(list(e.geometry.center), E[0], where + ": order of elements")
        lv.bind(e)
        checkView(lv, e, E, p, where)


# ---- states
def indices(p, nested):
    checkBasis(view(grid(), p, nested), ref[0], p, "basis")


def update():
    g = grid()
    b = view(g, ())
    old = b.localView()
    checkBasis(b, ref[0], (), "before the refinement")
    g.hierarchicalGrid.globalRefine(1)
    b.gridView = g.hierarchicalGrid.leafView
    checkBasis(b, ref[1], (), "after the refinement")
    checkBasis(F.defaultGlobalBasis(g.hierarchicalGrid.leafView, pb.tree(F, spec)), ref[1], (), "created after the refinement")


OPS = ["new0", "new1", "bind00", "bind01", "bind10", "bind11", "unbind0", "unbind1", "drop0", "drop1", "element"]


def histories(depth, p):
    """all sequences of operations on two local views"""
    g = grid()
    b = view(g, p)
    es = lambda: list(b.gridView.elements)[:2]
    R = ref[0]["elements"]

    def valid(h, o):
        st = {}
        for q in h:
            run(q, st, None)
        k = int(o[-2] if o.startswith("bind") else o[-1]) if o != "element" else None
        if o == "element":
            return len(h) > 0 and h[-1] != "element"
        if o.startswith("new"):
            return k not in st and (k == 0 or 0 in st)
        return k in st and not (o.startswith("unbind") and st[k][0] is None)

    def run(o, st, objs):
        if o == "element":
            if objs is not None:
                objs["e"] = es()   # fresh element objects, the old ones are released
                gc.collect()
            return
        k = int(o[-2] if o.startswith("bind") else o[-1])
        if o.startswith("new"):
            st[k] = [None]
            if objs is not None:
                objs[k] = b.localView()
                objs["nodes", k] = None
        elif o.startswith("bind"):
            st[k] = [int(o[-1])]
            if objs is not None:
                objs[k].bind(objs["e"][int(o[-1])])
                if objs["nodes", k] is None:
                    objs["nodes", k] = nodes(objs[k].tree())   # kept for the life of the view
        elif o.startswith("unbind"):
            st[k] = [None]
            if objs is not None:
                objs[k].unbind()
        else:
            del st[k]
            if objs is not None:
                del objs[k], objs["nodes", k]
                gc.collect()

    def go(h):
        def one():
            st, objs = {}, {"e": es()}
            for o in h:
                mc.op(o)
                run(o, st, objs)
                mc.transitions += 1
                for k in st:
                    if st[k][0] is not None:
                        checkView(objs[k], list(b.gridView.elements)[st[k][0]], R[st[k][0]], p, "local view %d after %s" % (k, o))
                        checkHeld(objs["nodes", k], R[st[k][0]], p, "local view %d after %s" % (k, o))
        if h:
            mc.state("%s/%s/history/%s" % (mc.group, p, ".".join(h)), one)
        if len(h) < depth:
            for o in OPS:
                if valid(h, o):
                    go(h + [o])
    go([])


def g_(x):
    return 1 + x[0] + 2 * x[1] + x[0] * x[1]


def fn(n):
    from dune.common import FieldVector
    if n == 1:
        return g_
    return lambda x: FieldVector([(k + 1) * g_(x) + k for k in range(n)])


def ownIndices(R, p):
    return sorted({E[1][i][0] for E in R["elements"] for i in localIndices(E, p)})


def interpolation(p, kind):
    g = grid()
    b = view(g, p)
    R = ref[0]
    n = rng(sub(spec, p))
    if kind == "double":
        x = np.full(len(b), -7.5)
        b.interpolate(x, fn(n))
        mc.close(x, R["interp"][p], "interpolated coefficients", 1e-12)
        # again, from other functions and into used vectors
        x[:] = np.arange(len(b)) * 0.5 + 3
        y = x.copy()
        b.interpolate(x, fn(n))
        mine = ownIndices(R, p)
        mc.close([x[i] for i in mine], [R["interp"][p][i] for i in mine], "coefficients interpolated into a used vector", 1e-12)
        mc.equal([x[i] for i in range(len(b)) if i not in mine], [y[i] for i in range(len(b)) if i not in mine], "other coefficients")
        # a slice of a larger array
        z = np.full(2 * len(b), -7.5)
        b.interpolate(z[::2], fn(n))
        mc.close(z[::2], R["interp"][p], "coefficients interpolated into a strided array", 1e-12)
        mc.check((z[1::2] == -7.5).all(), "entries between those of a strided array were written")
    elif kind == "size":
        for m in sorted({0, 1, len(b) - 1, len(b) + 1, 2 * len(b)}):
            x = np.full(m, -7.5)
            try:
                b.interpolate(x, fn(n))
            except Exception:
                mc.check((x == -7.5).all(), "a refused array was written")
                continue
            mc.check(False, "an array of size %d instead of %d is accepted" % (m, len(b)))
    elif n == 1 and kind in ("bool", "int"):
        x = np.full(len(b), True) if kind == "bool" else np.full(len(b), -7, dtype=np.int32)
        f = (lambda x: bool(g_(x) > 3.3)) if kind == "bool" else (lambda x: int(7 * g_(x)))
        want = [R["interp"][p][i] if i in ownIndices(R, p) else None for i in range(len(b))]
        b.interpolate(x, f)
        # Lagrange only: the coefficient is the value at the node, of which g is known
        for i, w in enumerate(want):
            if w is None:
                mc.equal(x[i], True if kind == "bool" else -7, "coefficient %d outside of the subspace" % i)
            elif kind == "bool":
                mc.equal(bool(x[i]), w > 3.3, "marked coefficient %d" % i)
            else:
                mc.check(abs(7 * w - round(7 * w)) < 1e-9 and x[i] in (round(7 * w), round(7 * w) - 1) or x[i] == int(7 * w), lambda: "integer coefficient %d: %s for %s" % (i, x[i], 7 * w))


def value(E, k, p, c):
    """the value at point k from the tables"""
    out = []
    for l in E[2]:
        if under(p, l):
            v = np.zeros(len(l[2][k][0]))
            for i, phi in zip(l[1], l[2][k]):
                v += c[E[1][i][0]] * np.array(phi)
            out += v.tolist()
    return out


def functions(p):
    g = grid()
    b = view(g, p)
    R = ref[0]
    N = len(b)
    rows = [np.eye(N)[i] for i in range(N)] + [np.cos(3. * np.arange(N))]
    f0, c0 = None, np.zeros(N)
    live = b.asFunction(c0)
    cls = type(live)
    for c in rows:
        mc.transitions += 1
        fs = [b.asFunction(c), live] + ([cls(b, c)] if not p else [])
        c0[:] = c   # functions follow their array
        ls = [f.localFunction() for f in fs]
        for n, (e, E) in enumerate(zip(g.elements, R["elements"])):
            for l in ls:
                l.bind(e)
            for k, x in enumerate(POINTS):
                want = value(E, k, p, c)
                for f, l in zip(fs, ls):
                    mc.close(np.ravel(f(e, list(x))).tolist(), want, lambda: "f(e,x) on element %d" % n)
                    mc.close(np.ravel(l(list(x))).tolist(), want, lambda: "local function on element %d" % n)
            # another change of the array is seen after binding again
            c0 *= 2
            ls[1].bind(e)
            mc.close(np.ravel(ls[1](list(POINTS[0]))).tolist(), [2 * v for v in value(E, 0, p, c)], "local function after the coefficients changed")
            c0 /= 2
            for l in ls:
                l.unbind()
        if f0 is not None:
            mc.close(np.ravel(f0(list(g.elements)[0], list(POINTS[1]))).tolist(), value(R["elements"][0], 1, p, cc), "an earlier function")
        f0, cc = fs[0], c
    mc.check(live.basis.dimension == N and live.grid.size(0) == len(R["elements"]), "basis and grid of the function")


def lastNode(p):
    t, q = sub(spec, p), p
    while t[0] in "PC":
        k = (t[2] if t[0] == "P" else len(t[1])) - 1
        t, q = (t[1][k] if t[0] == "C" else t[1]), q + (k,)
    return t, q


def lifetimes(p, order):
    """all references are dropped in this order; what is left keeps working"""
    c = np.cos(3. * np.arange(ref[0]["dimension"]))
    o = {"grid": grid()}
    o["root"] = F.defaultGlobalBasis(o["grid"], pb.tree(F, spec))
    o["basis"] = F.subspaceBasis(o["root"], *p) if p else o["root"]
    o["view"] = o["basis"].localView()
    e = list(o["grid"].elements)[1]
    E = ref[0]["elements"][1]
    o["view"].bind(e)
    o["nodes"] = nodes(o["view"].tree())
    o["leaf"] = o["nodes"][-1]
    if flat(spec) and uniform(sub(spec, p)):
        o["coeff"] = c.copy()
        o["f"] = o["basis"].asFunction(o["coeff"])
        o["lf"] = o["f"].localFunction()
        o["lf"].bind(e)
    for what in order:
        if what in o:
            mc.op("dropping " + what)
            del o[what]
            gc.collect()
            junk = [np.full(len(c), 99.) for _ in range(8)]
            mc.transitions += 1
            if "view" in o:
                checkView(o["view"], e, E, p, "local view after dropping " + what)
            if "nodes" in o:
                checkHeld(o["nodes"], E, p, "after dropping " + what)
            if "leaf" in o:
                checkNode(o["leaf"], *lastNode(p), E, "last node after dropping " + what)
            if "basis" in o:
                mc.equal(len(o["basis"]), ref[0]["dimension"], "dimension after dropping " + what)
                lv = o["basis"].localView()
                lv.bind(e)
                checkView(lv, e, E, p, "new local view after dropping " + what)
            if "f" in o:
                mc.close(np.ravel(o["f"](e, list(POINTS[0]))).tolist(), value(E, 0, p, c), "function after dropping " + what)
            if "lf" in o:
                mc.close(np.ravel(o["lf"](list(POINTS[0]))).tolist(), value(E, 0, p, c), "local function after dropping " + what)
            del junk


def orders(p, names, k):
    """all orders of dropping k of the objects; objects which do not exist here are left out"""
    names = [n for n in names if n not in ("coeff", "f", "lf") or (flat(spec) and uniform(sub(spec, p)))]
    return itertools.permutations(names, k)


def boundary():
    b = view(grid(), ())
    seen = set()
    F.forEachBoundaryDOF(b, lambda i: seen.add(i))
    mc.equal(sorted([i] for i in seen), ref[0]["boundary"], "boundary degrees of freedom")


if missing:
    def bad():
        mc.check(False, "the Python interface of %s is unusable: %s" % (pb.show(spec), missing))
    mc.state(mc.group + "/modules", bad)
else:
    for p in parts:
        name = "%s/%s" % (mc.group, p)
        mc.state(name + "/indices", lambda: indices(p, False))
        if len(p) > 1 and mc.thorough:
            mc.state(name + "/indices/nested", lambda: indices(p, True))
        if flat(spec) and uniform(sub(spec, p)):
            for kind in ("double", "size") + (("bool", "int") if sub(spec, p)[0] == "L" else ()):
                mc.state(name + "/interpolate/" + kind, lambda: interpolation(p, kind))
            mc.state(name + "/functions", lambda: functions(p))
        for order in orders(p, ["grid", "root", "basis", "view", "nodes", "leaf", "coeff", "f", "lf"], 4 if mc.thorough else 3):
            mc.state(name + "/lifetimes/" + ".".join(order), lambda: lifetimes(p, order))
        histories(5 if mc.thorough else 4, p)
    mc.state(mc.group + "/update", update)
    if mc.group in ("L2", "PL1I") or (mc.thorough and flat(spec)):
        mc.state(mc.group + "/boundary", boundary)
mc.finish()
