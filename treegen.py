"""Bounded grammar of basis trees (C++ type expressions of harness/trees.hh)."""
import itertools

S4 = ["BL", "BI", "FL", "FI"]
S2 = ["BL", "FL"]
L0, L1, L2 = "L<0>", "L<1>", "L<2>"


def P(n, s, c): return "P<%d,%s,%s>" % (n, s, c)
def D(n, s, c): return "D<%d,%s,%s>" % (n, s, c)
def X(s, *c): return "X<%s,%s>" % (s, ",".join(c))


def unique(l):
    seen, r = set(), []
    for t in l:
        if t not in seen:
            seen.add(t)
            r.append(t)
    return r


def depth2():
    r = [L0, L1, L2, "Q<1>", "Q<2>"]
    for s in S4:
        for n in (1, 2, 3):
            r += [P(n, s, L1), D(n, s, L1)]
        r += [P(2, s, L0), P(2, s, L2), D(2, s, L2), P(2, s, "Q<2>")]
    r += [P(2, "DS", L1), D(2, "DS", L1), P(3, "DS", L2)]
    for s in S2:
        for c in [(L1,), (L1, L2), (L2, L1), (L1, L1), (L0, L1, L2), (L1, L0)]:
            r.append(X(s, *c))
    r.append(X("DS", L2, L1))
    return r


def inner():
    r = [P(2, s, L1) for s in S4] + [D(2, s, L1) for s in S4]
    r += [P(1, "BL", L1), P(1, "BI", L2), D(1, "BI", L1), P(3, "BI", L1)]
    r += [X("BL", L1, L2), X("FL", L1, L2), X("BL", L1, L1)]
    return r


def depth3(full):
    r = []
    I = inner()
    for s in S4:
        r += [P(2, s, i) for i in I] + [D(2, s, i) for i in I]
        if full:
            r += [P(3, s, i) for i in I] + [D(1, s, i) for i in I]
    r += [P(1, s, i) for s in S4 for i in (P(2, "BI", L1), X("BL", L1, L2))]
    r += [P(3, s, X("BL", L1, L2)) for s in S4]
    for s in S2:
        for i in I:
            r += [X(s, i, L1), X(s, L2, i)]
            if full:
                r += [X(s, i), X(s, L1, i, L0)]
        reps = [P(2, "BL", L1), P(2, "BI", L2), D(2, "FI", L1), D(2, "BI", L1), X("BL", L1, L2), X("FL", L2, L1), P(2, "FL", L0)]
        for a, b in itertools.product(reps, reps):
            if full or (reps.index(a) + 2 * reps.index(b)) % 5 == 0:
                r.append(X(s, a, b))
    return r


def depth4(full):
    r = ["TH<false>", "TH<true>"]
    for s3 in S4:
        th = {s2: X(s2, P(2, s3, L2), L1) for s2 in S2}
        for s in S4:
            r += [P(2, s, th["BL"]), D(2, s, th["FL"])]
            if full:
                r += [P(2, s, th["FL"]), D(2, s, th["BL"])]
        for s in S2:
            for s2 in S2:
                r.append(X(s, X(s2, P(2, s3, L1), L0), L2))
    for s in S2:
        for s2 in S4:
            for s3 in S2:
                r.append(X(s, P(2, s2, X(s3, L1, L2)), L1))
                if full:
                    r.append(X(s, L2, D(2, s2, X(s3, L1, L2))))
    for a, b, c in itertools.product(S4, S4, S4):
        if full or (S4.index(a) + S4.index(b) + S4.index(c)) % 2 == 0:
            r.append((P if S4.index(b) % 2 else D)(2, a, (D if S4.index(c) % 2 else P)(2, b, P(2, c, L1))))
    return r


def chains():
    """flat powers of flat powers: every combination of strategies and static/run-time exponents over blocked trees with different children"""
    r = []
    X1, X2 = X("BL", L1, L2), X("BL", L1, P(2, "BI", L1))
    for f in (P, D):
        for s in ("FL", "FI"):
            for g in (P, D):
                for t in ("FL", "FI"):
                    r += [f(2, s, g(2, t, X1))]
                    r += [f(2, s, g(3, t, X2)), f(3, s, g(2, t, P(2, "BL", L1)))] if f is not g else [X(s2, g(2, t, X1), L1) for s2 in S2 if f is P]
    return unique(r + [D(2, s, D(2, t, D(2, u, X1))) for s in ("FL", "FI") for t in ("FL", "FI") for u in ("FL", "FI")])


def trees(level):
    """level 0: depth <= 2 and samples of every deeper shape are complete in the strategies; 1: the quick set; 2: everything;
    3: as 0 with every inner tree below two of the four (one of the two) strategies"""
    if level == 5:  # for container descriptors
        return unique(trees(0) + chains())
    if level == 4:  # the shapes of the index trees, once each
        d = [L1, "Q<2>"] + [(P if k % 2 else D)(n, s, L1) for k, s in enumerate(S4) for n in (1, 2, 3)] + [P(2, "BI", L2), D(3, "BI", L1), D(2, "BI", L1)]
        d += [X(s, *c) for s in S2 for c in [(L1,), (L1, L2), (L0, L1, L2)]] + ["TH<false>", "TH<true>"]
        I = [P(2, "BI", L1), P(2, "BL", L1), D(2, "FL", L1), X("BL", L1, L2)]
        return unique(d + [P(2, s, i) for s in ("BL", "BI", "FI") for i in I] + [X(s, i, L1) for s in S2 for i in I])
    if level == 3:
        I = inner()
        r = depth2() + [P(2, s, i) for k, s in enumerate(S4) for l, i in enumerate(I) if (k + l) % 4 < 1] + [D(2, s, i) for k, s in enumerate(S4) for l, i in enumerate(I) if (k + l) % 4 == 2]
        return unique(r + [X(s, i, L1) for k, s in enumerate(S2) for l, i in enumerate(I) if (k + l) % 2] + ["TH<false>", "TH<true>"])
    if level == 0:
        r = depth2() + [P(2, s, i) for s in S4 for i in inner()] + [X(s, i, L1) for s in S2 for i in inner()] + ["TH<false>", "TH<true>"]
        r += [D(2, s, X(t, L1, L2)) for s in S4 for t in S2]
        return unique(r)
    return unique(depth2() + depth3(level == 2) + depth4(level == 2) + chains())


def chunks(level, n):
    t = trees(level)
    return [t[i::n] for i in range(n)]


if __name__ == "__main__":
    for l in range(3):
        print(l, len(trees(l)))
