"""C01: an expression built and simplified denotes the value it was written for."""
from hypothesis import strategies as st

from pv import exprs as X
from pv.core import Aspect, Check, Reject, Violation

import pymbs.symbolics as S

NPTS = 4


def numeric(o):
    return isinstance(o, (int, float)) and not isinstance(o, bool)


def build(case):
    b = X.Builder(S, lets=())
    try:
        for l in case["lets"]:
            b.lets.append(b(l))
        r = b(case["e"])
    except (ZeroDivisionError, OverflowError):
        raise Reject("constant folding in the interpreter")
    if isinstance(r, complex) or any(isinstance(o, complex) for o in b.lets):
        raise Reject("complex")
    return b, r


def points(case):
    return [X.point(case["seed"] * 16 + i, positive=(i == 0)) for i in range(NPTS)]


def reference(case, env, which=None):
    ref = X.Ref(env, case["lets"], case.get("principal", True),
                case.get("limit", 1e6))
    v = ref(case["e"] if which is None else case["lets"][which])
    return v, ref.big


def value_check(obj, case, which, stage):
    """Compares the value of obj with the reference at every decidable point."""
    done = 0
    text = str(obj)
    if "Error" in text:
        raise Violation("%s: no text form: %s" % (stage, text[:300]))
    for env in points(case):
        try:
            want, big = reference(case, env, which)
        except X.Fragile:
            continue
        try:
            got = X.pyval(text, env)
        except (ZeroDivisionError, OverflowError):
            got = float("nan")
        except Exception as e:
            raise Violation("%s: text form cannot be evaluated (%s: %s): %s" % (stage, type(e).__name__, e, text[:600]))
        if not X.close(got, want, big):
            raise Violation("%s: value differs\n  text %s\n  got  %s\n  want %s\n  at %s" % (
                stage, text[:800], got, want,
                {k: v for k, v in env.items() if k in X.syms_in([case["e"], case["lets"]])}))
        done += 1
    return done


def pyshape(obj):
    if numeric(obj):
        return ()
    s = tuple(obj.shape())
    return s


def want_shape(case, which):
    for env in points(case):
        try:
            v, _ = reference(case, env, which)
        except X.Fragile:
            continue
        s = X.shape_of(v)
        if s == ():
            return ()
        if s[1] == 1 or s[0] == 1:
            return (max(s),)          # the API reports rows and columns alike as (n,)
        return s
    return None


def run(case):
    b, r = build(case)
    tags = set()
    n = value_check(r, case, None, "as built") if not numeric(r) else 0
    ws = want_shape(case, None)
    if ws is not None and not numeric(r) and pyshape(r) != ws:
        raise Violation("as built: shape %s, want %s: %s" % (pyshape(r), ws, r))
    before = str(r)
    if not numeric(r):
        r.simplify()
        m = value_check(r, case, None, "simplified (was %s)" % before[:500])
        if ws is not None and pyshape(r) != ws:
            raise Violation("simplified: shape %s, want %s: %s" % (pyshape(r), ws, r))
        if str(r) != before:
            tags.add("changed")
        # the operands, which may share structure with the simplified expression
        for i, o in enumerate(b.lets):
            if not numeric(o):
                value_check(o, case, i, "operand %d after simplifying the whole" % i)
        r.simplify()
        value_check(r, case, None, "simplified twice (was %s)" % before[:500])
    if n == 0:
        raise Reject("no decidable point")
    sz = X.size(case["e"])
    tags.add("size<6" if sz < 6 else "size<16" if sz < 16 else "size>=16")
    for o in X.ops_in(case["e"]):
        tags.add("op:" + o)
    if sz >= 4 and X.syms_in([case["e"], case["lets"]]):
        tags.add("nontrivial")
    return tags


SHAPES = [(), (), (), (3, 1), (3, 3), (2, 1), (2, 2), (2, 3)]


@st.composite
def cases(draw, limit=1e6, **kw):
    depth = draw(st.integers(1, 4))
    lets, shapes = [], []
    nl = draw(st.integers(0, 2))
    for i in range(nl):
        g = X.Gen(draw, letshapes=list(shapes), **kw)
        s = g.pick(SHAPES)
        lets.append(g(s, draw(st.integers(1, 2))))
        shapes.append(s)
    g = X.Gen(draw, letshapes=list(shapes), **kw)
    e = g(g.pick(SHAPES), depth)
    return {"lets": lets, "e": e, "seed": draw(st.integers(0, 10 ** 6)), "limit": limit}


LARGE = [2, -3, 0.5, 46341, 65536, -100000, 2147483647, -2147483648, 3000000000, 1.0, 1e10, 10 ** 20]

CHECK = Check(
    "C01",
    [Aspect("mixed", cases(), run, 8000),
     Aspect("scalar", cases(matrices=False), run, 9000),
     Aspect("polynomial", cases(matrices=False, trig=False, conds=False), run, 9000),
     Aspect("large-numbers", cases(trig=False, matrices=False, limit=1e40, numbers=LARGE, powers=(1, 2, -1, 0.5)), run, 5000),
     Aspect("linear-algebra", cases(trig=False, conds=False, powers=(2,)), run, 8000)],
    rule="random typed expression trees (scalars, vectors, matrices; shared sub-expressions) built through the "
         "Python API; non-trivial: at least 4 nodes, contains a symbol, and at least one evaluation point away "
         "from poles, jumps and branch cuts")
