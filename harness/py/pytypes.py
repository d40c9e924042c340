"""C20, part 1: the C++ basis generated for every Python description of a tree is the equivalent C++ construction."""
import itertools, os, re, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pybuild as pb

mc = pb.MC()
work = os.path.join(os.path.dirname(mc.out), "py")
pb.setup(work)
import warnings
warnings.simplefilter("ignore")
import dune.generator
import dune.grid
import dune.functions as F

dim = 2 if mc.group == "2" else 3
leafs = [("L", 0), ("L", 1), ("L", 2), ("L", 3), ("RT", 0)] + [("RT", 1)] * (dim == 2) + [("N", 1, 1)]
flat = [(b, l) for b in (None, False, True) for l in (None, "lexicographic", "interleaved")]
lex = [(b, l) for b in (None, False, True) for l in (None, "lexicographic")]


def powers(children, exponents):
    return [("P", c, e) + s for c in children for e in exponents for s in flat] + [("**", c, e) for c in children for e in exponents]


def composites(tuples):
    return [("C", list(c)) + s for c in tuples for s in lex] + [("*",) + tuple(c) for c in tuples if len(c) == 2]


small = [("L", 1), ("RT", 0)]
p1, c1 = powers(leafs, (1, 2, 3)), composites([(a,) for a in leafs] + list(itertools.product(leafs, repeat=2)) + list(itertools.product(small, repeat=3)))
inner = powers([("L", 1)], (2,)) + composites([(("L", 1), ("L", 0))])
p2 = [t for t in powers(inner, (2,))]
c2 = composites([(a, ("L", 1)) for a in inner] + [(("L", 2), a) for a in inner])
trees = leafs + p1 + c1 + p2 + c2
if mc.thorough:
    deep = [t for t in p2 + c2 if t[0] in "PC" and t[-1] is not None]
    trees += powers(deep[::3], (3,)) + composites([(a, b) for a in inner for b in inner])
parts = 8

# Everything is requested the way users do it; modules of this repository are recorded instead of compiled.
real = dune.generator.builder


class Recorder:
    """hands out modules; a name that exists already stands for the module it was made for, as on disk"""
    def __init__(self):
        self.mods = {}

    def initialize(self):
        pass

    def load(self, moduleName, source, pythonName, extraCMake=None):
        if "Dune::Functions::" not in source:
            return real.load(moduleName, source, pythonName, extraCMake)
        if moduleName not in self.mods:
            cls = re.search(r'insertClass<.*?\( *cls0 *, *"(\w+)"', source).group(1)
            m = types.ModuleType(moduleName)
            attr = dict(cppTypeName=re.search(r"using DuneType = (.*?);\n", source).group(1), cppIncludes=re.findall(r'#include <(.*?)>', source), __init__=lambda self, *a: setattr(self, "args", a))
            setattr(m, cls, type(cls, (), attr))
            self.mods[moduleName] = m
        return self.mods[moduleName]


class View:
    """a grid view with the C++ type name given here"""
    def __init__(self, view, name):
        self.view, self.cppTypeName = view, name

    def __getattr__(self, a):
        return getattr(self.view, a)


def paths(t):
    n = 0 if t[0] in ("L", "RT", "N") else t[2] if t[0] in ("P", "**") else 2 if t[0] == "*" else len(t[1])
    c = lambda k: t[1] if t[0] in ("P", "**") else t[1 + k] if t[0] == "*" else t[1][k]
    return [(k,) + q for k in range(n) for q in [()] + paths(c(k))]


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, e)


two = dune.grid.structuredGrid([0, 0], [1, 1], [1, 1])
two.cppIncludes, two.elements
GV = "Dune::YaspGrid<%d>::LeafGridView" % dim
views = [View(two, GV.replace("Leaf", "Level")), View(two, GV)]
dune.generator.builder = Recorder()
names, broken, subs, twice = {}, {}, {}, {}
# all descriptions one after the other for both views, then the other way round: what was asked for before does not matter
for i, t in enumerate(trees):
    for v in views:
        B, why = attempt(lambda: F.defaultGlobalBasis(v, pb.tree(F, t)))
    k = pb.show(t)
    if why:
        broken[k] = why
        continue
    names[k] = B.cppTypeName
    if B.args[:1] != (views[1],):
        broken[k] = "the basis is not made for the grid view given"
    # subspaces: all of the small descriptions, the last path of the others
    q = paths(t)
    for p in q if len(q) < 4 or i % 5 == 0 else q[-1:]:
        S, why = attempt(lambda: F.subspaceBasis(B, *p))
        if why or S.args[:1] != (B,):
            broken[k] = "subspace %s: %s" % (p, why or "not made for the basis given")
        else:
            subs.setdefault(k, []).append((p, S.cppTypeName))
for t in trees[::-1]:
    for n, v in enumerate(views[::-1]):
        B, why = attempt(lambda: F.defaultGlobalBasis(v, pb.tree(F, t)))
        k = pb.show(t)
        if k in names and (why or (B.cppTypeName != names[k]) == (n == 0)):
            twice[k] = why or "%s when asked for again%s" % (B.cppTypeName, " for level views" if n else "")

# the shard compiles and runs its part of the list; all states stay enumerated in the same order everywhere
todo = trees if mc.only is None else [t for t in trees if "%dd/%s" % (dim, pb.show(t)) == mc.only]
todo = [t for i, t in enumerate(todo) if mc.only is not None or i % mc.shard[1] == mc.shard[0]]
prologue = "#include <config.h>\n#include <iostream>\n#include <dune/grid/yaspgrid.hh>\n#include <dune/common/parallel/mpihelper.hh>\n" + pb.HEADERS + """
namespace BF=Dune::Functions::BasisFactory;
template<class B> auto table(const B& b) { std::vector<std::vector<std::size_t>> r; auto lv=b.localView(); for (const auto& e : elements(b.gridView())) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) { auto m=lv.index(i); r.emplace_back(); for (std::size_t k=0;k<m.size();++k) r.back().push_back(m[k]); } for (std::size_t i=0;i<lv.tree().size();++i) r.push_back({lv.tree().localIndex(i)}); } return r; }
template<class B, class GV, class F> void same(const char* key, const GV& gv, const F& f)
{
  using E=Dune::Functions::DefaultGlobalBasis<std::decay_t<decltype(f(gv))>>;
  bool ok=true;
  if constexpr (!std::is_same_v<B,E>) {
    B a(gv); E b(BF::makeBasis(gv,f));
    ok = a.dimension()==b.dimension() && a.size()==b.size() && table(a)==table(b) && B::LocalView::Tree::degree()==E::LocalView::Tree::degree();
  }
  std::cout << key << "\\t" << ok << "\\n";
}
template<class S, std::size_t... k, class GV, class F> void sub(const char* key, const GV& gv, const F& f)
{
  using Path=decltype(Dune::TypeTree::treePath(Dune::index_constant<k>()...)); using B=decltype(BF::makeBasis(gv,f));
  bool ok=true;
  if constexpr (!std::is_same_v<S,decltype(Dune::Functions::subspaceBasis(std::declval<const B&>(),Path()))>) { auto b=BF::makeBasis(gv,f); auto e=Dune::Functions::subspaceBasis(b,Path()); S s(b,{}); ok = s.dimension()==e.dimension() && table(s)==table(e); }
  std::cout << key << "\\t" << ok << "\\n";
}
int main(int c, char** v)
{
  Dune::MPIHelper::instance(c,v);
  std::array<int,%d> n; n.fill(2); n[0]=1; Dune::FieldVector<double,%d> u(1.); Dune::YaspGrid<%d> grid(u,n); auto gv=grid.leafGridView(); using GV=decltype(gv);
""" % (dim, dim, dim)
import subprocess
verdict, error = {}, {}


def decide(ts, name):
    """compile and run the comparison for these trees; halves of them where that fails"""
    src = prologue + "".join('same<%s>("%s",gv,%s);\n' % (names[pb.show(t)], pb.show(t), pb.factory(t)) for t in ts) + "".join(
        'sub<%s,%s>("%s@%s",gv,%s);\n' % (n, ",".join(map(str, p)), pb.show(t), p, pb.factory(t)) for t in ts for p, n in subs.get(pb.show(t), [])) + "}\n"
    try:
        r = subprocess.run([pb.executable(work, name, src)], capture_output=True, text=True)
        verdict.update(l.split("\t") for l in r.stdout.splitlines() if "\t" in l)
        why = "rc %d: %s" % (r.returncode, r.stderr[-300:]) if r.returncode else None
    except pb.CompileError as e:
        why = str(e)
    if why and len(ts) > 1:
        for k in (0, 1):
            if len(error) < 2:
                decide(ts[k::2], name + "_%d" % k)
    elif why:
        error[pb.show(ts[0])] = why


todo = [t for t in todo if pb.show(t) in names]
if todo:
    decide(todo, "types%d_%d_%d%s" % (dim, mc.shard[0], mc.shard[1], "_only" if mc.only else ""))


def check(t):
    k = pb.show(t)
    mc.transitions += 1
    mc.check(k not in broken, lambda: "the description %r is refused: %s" % (pb.tree(F, t), broken[k]))
    mc.outcomes.add(names[k])
    mc.check(k not in error, lambda: "the generated type %s cannot be used: %s" % (names[k], error[k]))
    if k not in verdict:
        return   # not decided: others failed
    mc.check(k not in twice, lambda: "%s is %s" % (names[k], twice[k]))
    for p, n in subs.get(k, []):
        mc.transitions += 1
        mc.check(verdict["%s@%s" % (k, p)] == "1", lambda: "the generated subspace basis %s differs from subspace %s of %s" % (n, p, pb.factory(t)))
    mc.check(verdict[k] == "1", lambda: "the generated basis %s differs from %s" % (names[k], pb.factory(t)))
    # the description itself
    d = pb.tree(F, t)
    mc.equal(len(d.children), 1 if t[0] in ("P", "**") else 2 if t[0] == "*" else len(t[1]) if t[0] == "C" else 0, "children of the description")


for t in trees:
    mc.state("%dd/%s" % (dim, pb.show(t)), lambda t=t: check(t))
mc.finish()
