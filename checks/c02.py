"""C02: derivatives and Jacobians equal the numerical derivatives of the formula."""
import numpy as np
from hypothesis import strategies as st

from pv import exprs as X
from pv.core import Aspect, Check, Reject, Violation
from checks.c01 import build, numeric, points, value_check

import pymbs.symbolics as S

NPTS = 3


def values(case, env):
    ref = X.Ref(env, case["lets"], True)
    return np.asarray(ref(case["e"]), float), ref.big


def shifted(env, direc, t):
    out = dict(env)
    for n, d in direc.items():
        out[n] = env[n] + t * d
    return out


def numdiff(f, h0=2e-3):
    """Derivative of f at 0 with an error estimate: central differences, extrapolated."""
    tab = []
    for i in range(4):
        h = h0 / 2 ** i
        row = [(f(h) - f(-h)) / (2 * h)]
        for j in range(i):
            row.append(row[j] + (row[j] - tab[i - 1][j]) / (4 ** (j + 1) - 1))
        tab.append(row)
    d = tab[3][3]
    err = max(float(np.max(np.abs(tab[3][3] - tab[2][2]), initial=0.0)),
              float(np.max(np.abs(tab[3][3] - tab[3][2]), initial=0.0)))
    return d, err


def directional(case, env, direc):
    v0, big = values(case, env)

    def f(t):
        return values(case, shifted(env, direc, t))[0]
    d, err = numdiff(f)
    scale = 1 + float(np.max(np.abs(d), initial=0.0)) + 1e-3 * big
    if err > 1e-6 * scale:
        raise X.Fragile("not smooth enough for a numerical derivative")
    return d, 2e-5 * scale + 20 * err


def compare(text, env, want, tol, stage):
    if "Error" in text:
        raise Violation("%s: no text form: %s" % (stage, text[:600]))
    try:
        got = np.asarray(X.pyval(text, env), float)
    except (ZeroDivisionError, OverflowError):
        got = np.array(np.nan)
    except Exception as e:
        raise Violation("%s: text form cannot be evaluated (%s: %s): %s" % (stage, type(e).__name__, e, text[:600]))
    want = np.asarray(want, float)
    if got.shape != want.shape:
        if got.size == 1 and want.size == 1:
            got = got.reshape(want.shape)
        elif got.size == 1 and float(got.reshape(())) == 0.0:
            got = np.zeros(want.shape)      # a derivative that vanishes may be written as plain 0
        else:
            raise Violation("%s: shape %s, want %s: %s" % (stage, got.shape, want.shape, text[:600]))
    if not np.all(np.isfinite(got)) or not np.all(np.abs(got - want) <= tol):
        raise Violation("%s: value differs\n  text %s\n  got  %s\n  want %s (+- %.1e)\n  at %s" % (
            stage, text[:900], got.tolist(), want.tolist(), tol,
            {k: np.asarray(v).tolist() for k, v in env.items() if k in text}))


def result_shape(o):
    s = tuple(o.shape()) if not numeric(o) else ()
    return s


def check_all(case, obj, targets, stage):
    """targets: list of (env, want, tol)"""
    texts = [(stage, obj if numeric(obj) else str(obj))]
    if not numeric(obj):
        obj.simplify()
        texts.append((stage + " simplified", str(obj)))
    for stg, t in texts:
        for env, want, tol in targets:
            compare(str(t), env, want, tol, stg)


def collect(case, fn):
    out = []
    for env in points(case):
        try:
            out.append(fn(env))
        except X.Fragile:
            pass
    if not out:
        raise Reject("no decidable point")
    return out


def tagsof(case, targets):
    tags = {"op:" + o for o in X.ops_in([case["e"], case["lets"]])}
    if X.size(case["e"]) >= 3 and any(np.max(np.abs(w)) > 1e-9 for _, w, _ in targets):
        tags.add("nontrivial")
    return tags


def prep(case):
    b, r = build(case)
    if numeric(r):
        raise Reject("a number")
    if case.get("pre"):
        r.simplify()
    return b, r


def run_partial(case):
    b, r = prep(case)
    n, ij = case["wrt"], case.get("ij")
    base = b.sym(n)
    sym = base if ij is None else base[ij[0], ij[1]]
    before = str(r)

    def one(env):
        if ij is None:
            d = {n: 1.0}
        else:
            m = np.zeros(X.ALL[n])
            m[ij[0], ij[1]] = 1.0
            d = {n: m}
        want, tol = directional(case, env, d)
        return env, want, tol
    targets = collect(case, one)
    check_all(case, S.der(r, sym), targets, "der(%s, %s)" % (before[:300], sym))
    value_check(r, case, None, "the differentiated expression itself (was %s)" % before[:300])
    return tagsof(case, targets)


def run_total(case):
    b, r = prep(case)
    before = str(r)

    def one(env):
        rates = X.point(case["seed"] + 77)
        want, tol = directional(case, env, rates)
        full = dict(env)
        full.update({"der_" + k: v for k, v in rates.items()})
        return full, want, tol
    targets = collect(case, one)
    check_all(case, S.der(r), targets, "der(%s)" % before[:300])
    return tagsof(case, targets)


def run_second(case):
    """der(der(e, x), y) against the derivative of the numerical derivative."""
    b, r = prep(case)
    x, y = case["wrt"], case["wrt2"]
    d1 = S.der(r, b.sym(x))
    if not numeric(d1) and case.get("mid"):
        d1.simplify()
    if numeric(d1):
        raise Reject("a number")
    d2 = S.der(d1, b.sym(y))

    def one(env):
        v0, big = values(case, env)
        errs = []

        def g(t):
            d, err = numdiff(lambda s: values(case, shifted(shifted(env, {y: 1.0}, t), {x: 1.0}, s))[0], 1e-2)
            errs.append(err)
            return d
        d, err = numdiff(g, 1e-2)
        scale = 1 + float(np.max(np.abs(d), initial=0.0)) + 1e-2 * big
        if err > 1e-5 * scale or max(errs) > 1e-7 * scale:
            raise X.Fragile("not smooth enough")
        return env, d, 5e-4 * scale + 20 * err
    targets = collect(case, one)
    check_all(case, d2, targets, "der(der(%s, %s), %s)" % (str(r)[:300], x, y))
    return tagsof(case, targets)


def run_jacobian(case):
    b = X.Builder(S, lets=())
    try:
        for l in case["lets"]:
            b.lets.append(b(l))
        e = b(case["e"])
    except (ZeroDivisionError, OverflowError):
        raise Reject("constant folding in the interpreter")
    if isinstance(e, complex):
        raise Reject("complex")
    if numeric(e):
        raise Reject("a number")
    wrt = case["wrt"]
    if isinstance(wrt, str):
        n = X.ALL[wrt][0]
        syms = b.sym(wrt)
        dirs = []
        for i in range(n):
            m = np.zeros((n, 1))
            m[i, 0] = 1
            dirs.append({wrt: m})
    else:
        syms = S.Matrix([b.sym(n) for n in wrt])
        dirs = [{n: 1.0} for n in wrt]

    def one(env):
        cols, tol = [], 0.0
        for d in dirs:
            w, t = directional(case, env, d)
            cols.append(np.asarray(w, float).reshape(-1))
            tol = max(tol, t)
        return env, np.array(cols).T, tol
    targets = collect(case, one)
    J = S.jacobian(e, syms)
    rows, cols = targets[0][1].shape
    want = (rows, cols) if min(rows, cols) > 1 else ((max(rows, cols),) if max(rows, cols) > 1 else None)
    if want is not None and result_shape(J) != want:
        raise Violation("jacobian(%s): shape %s, want %s" % (str(e)[:300], result_shape(J), want))
    check_all(case, J, targets, "jacobian(%s, %s)" % (str(e)[:300], syms))
    # entry by entry
    J = S.jacobian(e, syms)
    if rows > 1 and cols > 1:
        i, j = case["seed"] % rows, (case["seed"] // 7) % cols
        el = J[i, j]
        for env, w, tol in targets:
            compare(str(el), env, w[i, j], tol, "jacobian(%s, %s)[%d,%d]" % (str(e)[:300], syms, i, j))
    return tagsof(case, targets) | {"rows:%d" % rows, "cols:%d" % cols}


SHAPES = [(), (), (), (3, 1), (3, 3), (2, 1), (2, 2), (2, 3)]


@st.composite
def cases(draw, kind, shapes=SHAPES, maxdepth=4, **kw):
    depth = draw(st.integers(1, maxdepth))
    lets, lsh = [], []
    for i in range(draw(st.integers(0, 2))):
        g = X.Gen(draw, letshapes=list(lsh), **kw)
        s = g.pick(SHAPES if kw.get("matrices", True) else [()])
        lets.append(g(s, draw(st.integers(1, 2))))
        lsh.append(s)
    g = X.Gen(draw, letshapes=list(lsh), **kw)
    e = g(g.pick(shapes), depth)
    case = {"lets": lets, "e": e, "seed": draw(st.integers(0, 10 ** 6)), "pre": draw(st.booleans())}
    used = sorted(X.syms_in(e, lets))
    su = [n for n in used if X.ALL[n] == ()] or X.SCALARS
    vu = [n for n in used if X.ALL[n] != ()]
    if kind == "partial":
        if vu and draw(st.integers(0, 2)) == 0:
            n = g.pick(vu)
            r, c = X.ALL[n]
            case["wrt"], case["ij"] = n, [draw(st.integers(0, r - 1)), draw(st.integers(0, c - 1))]
        else:
            case["wrt"] = g.pick(su)
    elif kind == "second":
        case["wrt"], case["wrt2"], case["mid"] = g.pick(su), g.pick(su), draw(st.booleans())
    elif kind == "jacobian":
        vv = [n for n in vu if X.ALL[n][1] == 1]
        if vv and draw(st.integers(0, 3)) == 0:
            case["wrt"] = g.pick(vv)
        else:
            k = draw(st.integers(2, 4))
            case["wrt"] = list(draw(st.permutations(X.SCALARS)))[:k]
    return case


SMOOTH = ["sin", "cos", "tan", "asin", "acos", "atan", "sign", "abs"]

CHECK = Check(
    "C02",
    [Aspect("partial", cases("partial"), run_partial, 5000),
     Aspect("partial-scalar", cases("partial", matrices=False, shapes=[()]), run_partial, 4000),
     Aspect("total", cases("total"), run_total, 5000),
     Aspect("second", cases("second", maxdepth=3), run_second, 1600),
     Aspect("jacobian", cases("jacobian", shapes=[(3, 1), (2, 1), (3, 1), ()], maxdepth=3), run_jacobian, 4000)],
    rule="random typed expressions, differentiated partially (by a scalar or one vector element), totally, twice, and "
         "as Jacobians; non-trivial: at least 3 nodes and a derivative that is not zero at a point where the numerical "
         "derivative is accurate")
