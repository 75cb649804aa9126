"""C03: structural equality and atoms are truthful."""
import copy

import numpy as np
from hypothesis import strategies as st

from pv import exprs as X
from pv.core import Aspect, Check, Reject, Violation
from checks.c01 import SHAPES, numeric, points, pyshape

import pymbs.symbolics as S


def build(case, which):
    b = X.Builder(S, lets=())
    try:
        for l in case["lets"]:
            b.lets.append(b(l))
        r = b(case[which])
    except (ZeroDivisionError, OverflowError):
        raise Reject("constant folding in the interpreter")
    if isinstance(r, complex):
        raise Reject("complex")
    return b, (S.Number(r) if numeric(r) else r)


def value(case, which, env):
    ref = X.Ref(env, case["lets"], True)
    return np.asarray(ref(case[which]), float), ref.big


def eq(a, b, what):
    r = [a == b, b == a, not (a != b), not (b != a)]
    if len(set(r)) != 1:
        raise Violation("%s: a==b %s, b==a %s, a!=b %s, b!=a %s\n a %s\n b %s" % (
            what, r[0], r[1], not r[2], not r[3], str(a)[:600], str(b)[:600]))
    return r[0]


def compatible(case, a, b, what):
    """Equal objects must have equal values."""
    n = 0
    for env in points(case):
        try:
            (va, ba), (vb, bb) = value(case, a, env), value(case, b, env)
        except X.Fragile:
            continue
        n += 1
        zero = not va.any() and not vb.any()      # every zero equals 0, whatever its shape
        if not zero and not X.close(va, vb, max(ba, bb)):
            raise Violation("%s: the values differ: %s and %s" % (what, va.tolist(), vb.tolist()))
        if not zero and va.shape != vb.shape and va.size > 1:
            raise Violation("%s: the shapes differ: %s and %s" % (what, va.shape, vb.shape))
    if not n:
        raise Reject("no decidable point")


def distinct(case, a, b):
    for env in points(case):
        try:
            (va, ba), (vb, bb) = value(case, a, env), value(case, b, env)
        except X.Fragile:
            continue
        if va.shape != vb.shape or not X.close(va, vb, max(ba, bb), 1e-6):
            return True
    return False


def run_pair(case):
    _, a = build(case, "e")
    _, b = build(case, "m")
    tags = set()
    dif = distinct(case, "e", "m")
    what = "equality of %s and %s" % (str(a)[:500], str(b)[:500])
    if eq(a, b, what):
        compatible(case, "e", "m", what)
        tags.add("equal")
    a.simplify()
    b.simplify()
    what = "equality of the simplified %s and %s" % (str(a)[:500], str(b)[:500])
    if eq(a, b, what):
        compatible(case, "e", "m", what)
        tags.add("equal-simplified")
    if dif:
        tags.add("different")
        tags.add("nontrivial")
    return tags


def defined(case, trees, lets):
    """Reject formulas that are undefined, such as asin(2), whatever their symbols are."""
    for env in points(case):
        try:
            ref = X.Ref(env, lets, True)
            for t in trees:
                ref(t)
            return
        except X.Fragile:
            continue
    raise Reject("no decidable point")


def run_same(case):
    """The same formula written down twice is equal, before and after simplification."""
    defined(case, [case["e"]], case["lets"])
    _, a = build(case, "e")
    _, b = build(case, "e")
    if not eq(a, b, "twice the same formula"):
        raise Violation("the same formula written twice is unequal: %s" % str(a)[:800])
    if not eq(a, a, "itself"):
        raise Violation("unequal to itself: %s" % str(a)[:800])
    a.simplify()
    b.simplify()
    if not eq(a, b, "twice the same formula, simplified"):
        raise Violation("the same formula written and simplified twice is unequal:\n %s\n %s" % (str(a)[:800], str(b)[:800]))
    if a != b or str(a) != str(b):
        raise Violation("the same formula simplifies to different texts:\n %s\n %s" % (str(a)[:800], str(b)[:800]))
    # a sum and a product of scalars do not depend on the order of the operands
    return {"nontrivial"} if X.size(case["e"]) >= 3 else set()


def run_commute(case):
    defined({"seed": 5}, case["terms"], [])
    b = X.Builder(S, lets=())
    try:
        t = [b(e) for e in case["terms"]]
        if any(isinstance(x, complex) for x in t):
            raise Reject("complex")
        t = [S.Number(x) if numeric(x) else x for x in t]
        u = [t[i] for i in case["perm"]]
        r1, r2 = t[0], u[0]
        for x in t[1:]:
            r1 = r1 + x if case["op"] == "+" else r1 * x
        for x in u[1:]:
            r2 = r2 + x if case["op"] == "+" else r2 * x
    except (ZeroDivisionError, OverflowError):
        raise Reject("constant folding")
    r1, r2 = (S.Number(r) if numeric(r) else r for r in (r1, r2))
    s1, s2 = str(r1), str(r2)
    r1.simplify()
    r2.simplify()
    if not eq(r1, r2, "reordered operands"):
        raise Violation("reordering the operands gives another expression:\n %s -> %s\n %s -> %s" % (
            s1[:500], str(r1)[:500], s2[:500], str(r2)[:500]))
    return {"nontrivial"} if len(t) > 1 and case["perm"] != sorted(case["perm"]) else set()


def run_atoms(case):
    b, a = build(case, "e")
    used = X.syms_in(case["e"], case["lets"])
    for stage in ("as built", "simplified"):
        at = a.atoms()
        names = [str(x) for x in at]
        if len(names) != len(set(names)):
            raise Violation("%s: a symbol is listed twice: %s" % (stage, names))
        if not set(names) <= used:
            raise Violation("%s: foreign symbols %s in the atoms of %s" % (stage, set(names) - used, str(a)[:500]))
        for x in at:
            if not x == b.sym(str(x)) or tuple(x.shape()) != tuple(b.sym(str(x)).shape()):
                raise Violation("%s: atom %s is not the symbol it stands for" % (stage, x))
        # every symbol that influences the value is listed
        for env in points(case)[:2]:
            try:
                v, big = value(case, "e", env)
            except X.Fragile:
                continue
            other = X.point(case["seed"] + 991)
            for n in used - set(names):
                e2 = dict(env)
                e2[n] = other[n]
                try:
                    v2, big2 = value(case, "e", e2)
                except X.Fragile:
                    continue
                if not X.close(v2, v, max(big, big2), 1e-6):
                    raise Violation("%s: %s depends on %s, but its atoms are %s" % (stage, str(a)[:500], n, names))
        a.simplify()
    return {"nontrivial"} if len(used) >= 2 else set()


def paths(e, p=()):
    if isinstance(e, list):
        if e and isinstance(e[0], str):
            yield p
        for i, a in enumerate(e):
            yield from paths(a, p + (i,))


def at(e, p):
    for i in p:
        e = e[i]
    return e


SWAP = {"+": "-", "-": "+", "*": "/", "/": "*"}


def mutate(draw, e):
    e = copy.deepcopy(e)
    ps = list(paths(e))
    n = at(e, ps[draw(st.integers(0, len(ps) - 1))])
    k = n[0]
    pick = lambda s: s[draw(st.integers(0, len(s) - 1))]
    if k == "s":
        shp = X.ALL[n[1]]
        n[1] = pick([m for m, s in X.ALL.items() if s == shp])
    elif k in ("n", "N"):
        n[1] = pick([n[1] + 1, -n[1], float(n[1]), n[1] * 1.5, n[1] + 1e-9])
    elif k in ("+", "-", "*", "/"):
        if draw(st.booleans()) and k in "+-":
            n[0] = SWAP[k]
        else:
            n[1], n[2] = n[2], n[1]
    elif k in ("pow", "mpow"):
        n[2] = pick([n[2] + 1, -n[2], 2, 3])
    elif k == "f":
        n[1] = pick(["sin", "cos", "tan", "atan", "sign", "abs", "asin", "acos"])
    elif k == "atan2":
        n[1], n[2] = n[2], n[1]
    elif k == "if":
        w = draw(st.integers(0, 2))
        if w == 0:
            n[1] = pick(["<", ">", "=="])
        elif w == 1:
            n[2], n[3] = n[3], n[2]
        else:
            n[4], n[5] = n[5], n[4]
    elif k in ("el", "idx"):
        n[2], n[3] = n[3], n[2]
    elif k in ("outer", "solve"):
        n[1], n[2] = n[2], n[1]
    elif k in ("col", "row"):
        n[2] = 1 - min(1, n[2])
    elif k == "vec":
        n[1] = n[1][::-1]
    elif k == "mat":
        if len(n[1]) == len(n[1][0]):
            n[1] = [list(r) for r in zip(*n[1])]
        else:
            n[1] = n[1][::-1]
    elif k in ("eye", "zeros"):
        n[0:] = ["s", pick([m for m, s in X.ALL.items() if s != ()])]
    elif k in ("neg", "T", "skew", "inv", "scalar"):
        if k == "T":
            n[0:] = copy.deepcopy(n[1])
        else:
            n[0] = "neg"
    return e


def welltyped(e, lets):
    try:
        X.typeof(e, lets)
        return True
    except X.IllTyped:
        return False


@st.composite
def cases(draw, kind="pair", **kw):
    lets, lsh = [], []
    for i in range(draw(st.integers(0, 1))):
        g = X.Gen(draw, letshapes=list(lsh), **kw)
        s = g.pick(SHAPES)
        lets.append(g(s, draw(st.integers(1, 2))))
        lsh.append(s)
    g = X.Gen(draw, letshapes=list(lsh), **kw)
    e = g(g.pick(SHAPES), draw(st.integers(0, 3)))
    case = {"lets": lets, "e": e, "seed": draw(st.integers(0, 10 ** 6))}
    if kind == "pair":
        m = e
        for i in range(draw(st.integers(1, 2))):
            n = mutate(draw, m)
            if welltyped(n, lets):
                m = n
        case["m"] = m
    return case


@st.composite
def terms(draw):
    """Sums and products of symbols, which no rule but the reordering itself touches."""
    n = draw(st.integers(2, 6))
    op = draw(st.sampled_from("+*"))
    names = X.SCALARS if op == "*" else draw(st.sampled_from([X.SCALARS, ["u", "v"], ["A", "B"], ["p", "q"]]))
    fs = ["sin", "cos", "tan", "atan", "abs", None, None]

    def term():
        t = ["s", draw(st.sampled_from(names))]
        if X.ALL[t[1]] == ():
            f = draw(st.sampled_from(fs))
            return ["f", f, t] if f else t
        return t
    return {"op": op, "terms": [term() for _ in range(n)], "perm": list(draw(st.permutations(range(n))))}


CHECK = Check(
    "C03",
    [Aspect("pair", cases("pair"), run_pair, 24000),
     Aspect("pair-scalar", cases("pair", matrices=False), run_pair, 16000),
     Aspect("same", cases("one"), run_same, 12000),
     Aspect("commute", terms(), run_commute, 10000),
     Aspect("atoms", cases("one"), run_atoms, 10000)],
    rule="random expressions compared with slightly changed copies, with themselves rebuilt, and with reordered "
         "operands; non-trivial: the two formulas differ in value (pair), or at least three nodes (same), a real "
         "reordering (commute), at least two symbols (atoms)")
