"""C07: the ordered assignments of a graph reproduce the system of equations."""
import re

import numpy as np
from hypothesis import strategies as st

from pv import exprs as X
from pv import graphs as GR
from pv.core import Aspect, Check, Reject, Violation

import pymbs.symbolics as S

NPTS = 3
WANT = {"state": 0x20, "sens": 0x100, "vis": 0x200}


def overflow(f):
    try:
        return f()
    except (ZeroDivisionError, OverflowError):
        raise Reject("constant folding in the interpreter")


def lhs_names(o):
    t = str(o)
    return t


def setvar(env, names, text, val):
    """Assigns val to the left hand side; returns the names that are complete."""
    m = re.fullmatch(r"(\w+)", text)
    if m:
        n = m.group(1)
        env[n] = val
        return
    m = re.fullmatch(r"(\w+)\[(\d+),(\d+)\]", text)
    if m:
        n = m.group(1)
        if n not in env:
            env[n] = np.full(names[n], np.nan)
        env[n][int(m.group(2)), int(m.group(3))] = float(val)
        return
    m = re.match(r"matrix\(\[(.*)\], dtype=float\)", text)
    if m:
        cells = re.findall(r"\w+(?:\[\d+,\d+\])?", m.group(1))
        vals = np.asarray(val).ravel()
        if len(cells) != len(vals):
            raise Violation("sizes of the sides differ: %s" % text)
        for c, v in zip(cells, vals):
            setvar(env, names, c, float(v))
        return
    raise Violation("unexpected left hand side %s" % text)


def aslist(o):
    return o if isinstance(o, list) else [o]


def execute(ass, env, names):
    """Runs the assignments in their order; returns the environment."""
    env = dict(env)
    given = set(env)
    for a in ass:
        ls, rs = aslist(a.lhs), aslist(a.rhs)
        if len(ls) != len(rs):
            raise Violation("%d left hand sides, %d right hand sides" % (len(ls), len(rs)))
        for l, r in zip(ls, rs):
            lt, rt = str(l), str(r)
            if lt in given:
                raise Violation("%s is assigned (%s)" % (lt, rt))
            if re.fullmatch(r"\w+", lt) and lt in env:
                raise Violation("%s is assigned twice" % lt)
            if "Error" in rt:
                raise Violation("no text form: %s = %s" % (lt, rt[:300]))
            try:
                v = X.pyval(rt, env)
            except NameError as e:
                raise Violation("%s = %s uses something that was not computed before: %s" % (lt, rt[:400], e))
            except (ZeroDivisionError, OverflowError):
                v = float("nan")
            except Exception as e:
                raise Violation("cannot be evaluated (%s: %s): %s = %s" % (type(e).__name__, e, lt, rt[:600]))
            setvar(env, names, lt, v)
    return env


def dump(g):
    out = []
    for k in WANT.values():
        out.append("[%s]" % hex(k) + "; ".join("%s=%s" % (a.lhs, a.rhs) for a in g.cgraph.getAssignments(k)))
    return "\n   ".join(out)[:1500]


def check_graph(g, case, tags, what):
    names = {n: s for n, s in GR.shapes(case).items()}
    for it in case["items"]:
        if it["kind"] == "state":
            names["der_" + it["name"]] = names[it["name"]]
    decided = 0
    for i in range(NPTS):
        try:
            env, ders, big = GR.solve(case, i)
        except X.Fragile:
            continue
        decided += 1
        start = GR.given(case, i)
        for kind, k in WANT.items():
            its = [it for it in case["items"] if it["kind"] == kind]
            if not its:
                continue
            ass = g.cgraph.getAssignments(k) if kind == "vis" else g.getAssignments(k)
            got = execute(ass, start, names)
            for it in its:
                n = "der_" + it["name"] if kind == "state" else it["name"]
                if n not in got:
                    raise Violation("%s: no assignment computes %s\n   %s" % (what, n, dump(g)))
                w = ders[it["name"]] if kind == "state" else env[it["name"]]
                if not X.close(got[n], w, big, 1e-8):
                    raise Violation("%s: %s is %s, by its definition %s\n   %s" % (what, n, got[n], w, dump(g)))
    return decided


def run(case):
    tags = set()
    decided = 0
    for opt in (False, True):
        g, b = overflow(lambda: GR.build(S, case))
        g.buildGraph(opt)
        decided += check_graph(g, case, tags, "optimized" if opt else "plain")
        # asking again gives the same
        t = dump(g)
        if dump(g) != t:
            raise Violation("the assignments change from one query to the next")
    if not decided:
        raise Reject("no decidable point")
    nv = sum(it["kind"] == "var" for it in case["items"])
    tags.add("vars=%d" % nv)
    if nv >= 2:
        tags.add("nontrivial")
    for it in case["items"]:
        tags.add("kind:" + it["kind"])
    return tags


SMALLPOOL = ["a", "b", "x", "phi", "F", "m", "k_", "s_1", "vel", "w0", "xx", "alpha", "d", "e1", "g", "h", "lam", "mu",
             "R", "tmp", "t0", "t1", "A1", "A2"]


@st.composite
def groups(draw):
    n = draw(st.integers(2, 3))
    opts = dict(pool=SMALLPOOL, maxvars=4, depth=2, var_shapes=((), (), (3, 1)), gen=dict(linalg=False, conds=False))
    return {"sys": [draw(GR.systems(**opts)) for _ in range(n)], "held": draw(GR.systems(**opts)),
            "opt": [draw(st.booleans()) for _ in range(n)], "order": draw(st.permutations(list(range(n)))),
            "late": draw(st.booleans())}


def run_group(case):
    """Systems in one session do not influence each other, nor expressions the user holds."""
    tags = set()
    hold = X.Builder(S, GR.shapes(case["held"]))
    exprs = [overflow(lambda: hold(it.get("e") or it["der"])) for it in case["held"]["items"] if it.get("e") or it["kind"] == "state"]
    texts = [str(e) for e in exprs]
    gs = [overflow(lambda: GR.build(S, s)[0]) for s in case["sys"]]
    for i in case["order"]:
        gs[i].buildGraph(case["opt"][i])
        if case["late"] and i % 2:
            check_graph(gs[i], case["sys"][i], tags, "right after it was built")
    decided = 0
    for i, g in enumerate(gs):
        decided += check_graph(g, case["sys"][i], tags, "system %d of %d in a session" % (i, len(gs)))
    for e, t in zip(exprs, texts):
        if str(e) != t:
            raise Violation("an expression that belongs to no graph changed from %s to %s" % (t, e))
    if not decided:
        raise Reject("no decidable point")
    if sum(case["opt"]) > 1 and decided > 1:
        tags.add("nontrivial")
    return tags


# --------------------------------------------------------------- simultaneous equations

UNK = ["u", "v", "w", "z", "Fx", "k1", "aa", "zz"]
SCAL = {"a": 0x04, "c": 0x02, "x": 0x01, "yy": 0x01, "inp": 0x08}


@st.composite
def simultaneous(draw):
    n = draw(st.integers(1, 5))
    names = list(UNK)
    import random
    random.Random(draw(st.integers(0, 10 ** 6))).shuffle(names)
    unk = names[:n]
    g = X.Gen(draw, scalars=list(SCAL) + ["time"], shaped={}, linalg=False, matrices=False, conds=False)
    coef = st.one_of(st.sampled_from([["n", 1], ["n", -1], ["n", 2], ["n", 0.5], ["n", 3]]),
                     st.sampled_from([["s", s] for s in ("a", "c", "x", "inp")]),
                     st.builds(lambda s: ["+", ["n", 2], ["f", "cos", ["s", s]]], st.sampled_from(["x", "yy", "time"])))
    rows = []
    perm = list(range(n))
    random.Random(draw(st.integers(0, 10 ** 6))).shuffle(perm)
    for i in range(n):
        row = {}
        for j in range(n):
            if j == perm[i] or draw(st.integers(0, 3)) == 0:
                row[j] = draw(coef)
        rows.append([[j, c, draw(st.booleans())] for j, c in row.items()])
    rhs = [g((), draw(st.integers(0, 2))) for i in range(n)]
    rev = [draw(st.integers(0, 3)) for i in range(n)]
    g2 = X.Gen(draw, scalars=list(SCAL) + unk, shaped={}, linalg=False, matrices=False, conds=False)
    use = [g2((), draw(st.integers(0, 2))) for i in range(3)]
    return {"unk": unk, "rows": rows, "rhs": rhs, "order": rev, "use": use, "seed": draw(st.integers(0, 10 ** 6))}


def sim_given(case, i):
    import random
    env = {}
    for k, n in enumerate(list(SCAL) + ["time"]):
        fixed = n in ("a", "c")
        r = random.Random("%d/%d/%d" % (case["seed"], k, 0 if fixed else i))
        env[n] = round(r.uniform(0.3, 2.2), 3) * (1 if n == "time" or r.random() < 0.6 else -1)
    return env


def sim_solve(case, i):
    env = sim_given(case, i)
    ref = X.Ref(env, limit=1e5)
    n = len(case["unk"])
    A, b = np.zeros((n, n)), np.zeros(n)
    for k, row in enumerate(case["rows"]):
        for j, c, neg in row:
            A[k, j] = float(ref(c)) * (-1 if neg else 1)
        b[k] = float(ref(case["rhs"][k]))
    if np.linalg.svd(A, compute_uv=False)[-1] < 1e-2:
        raise X.Fragile("nearly singular")
    u = np.linalg.solve(A, b)
    for n, v in zip(case["unk"], u):
        env[n] = float(v)
    ref = X.Ref(env, limit=1e6)
    out = [float(ref(e)) for e in case["use"]]
    return env, out, max(ref.big, np.abs(u).max(), 1.0) * 100


def sim_build(case):
    g = S.Graph()
    b = X.Builder(S, dict({n: () for n in list(SCAL) + case["unk"] + ["time"]}))
    b.syms["time"] = g.getVariable("time")
    e0 = sim_given(case, 0)
    for n, k in SCAL.items():
        b.syms[n] = g.addVariable(n, (), k, S.Number(e0[n]) if k in (1, 8) else None)
    for n in case["unk"]:
        b.syms[n] = g.addVariable(n, (), 1)
    for n in ("a", "c"):
        g.addEquation(b.syms[n], S.Number(e0[n]))
    for k, row in enumerate(case["rows"]):
        r = None
        for j, c, neg in row:
            t = b(c) * b.syms[case["unk"][j]]
            r = (-t if neg else t) if r is None else (r - t if neg else r + t)
        q = b(case["rhs"][k])
        o = case["order"][k]
        g.addEquation(None, r - q if o % 2 else q - r)
    g.addEquation(S.der(b.syms["x"]), b(case["use"][0]))
    g.addEquation(S.der(b.syms["yy"]), b(case["use"][1]))
    s = g.addVariable("sens", (), 0x100)
    g.addEquation(s, b(case["use"][2]))
    return g


def run_sim(case):
    tags = set()
    pts = []
    for i in range(NPTS):
        try:
            pts.append((i,) + sim_solve(case, i))
        except X.Fragile:
            pass
    if not pts:
        raise Reject("no decidable point")
    for opt in (False, True):
        g = overflow(lambda: sim_build(case))
        try:
            g.buildGraph(opt)
        except Exception as e:
            if "Cannot solve" in str(e) or "Unable to find" in str(e):
                raise Reject("not linear for the library: %s" % e)
            raise
        for i, ref, out, big in pts:
            for kind, wants in ((0x20, (("der_x", out[0]), ("der_yy", out[1]))), (0x100, (("sens", out[2]),))):
                env = dict(sim_given(case, i))
                for a in g.getAssignments(kind):
                    ls, rs = aslist(a.lhs), aslist(a.rhs)
                    if len(ls) != len(rs):
                        raise Violation("%d unknowns, %d equations" % (len(ls), len(rs)))
                    block = dict(env)
                    if len(ls) > 1:
                        tags.add("block")
                        # simultaneous: every equation holds for the solution
                        for l in ls:
                            block[str(l)] = ref[str(l)]
                    for l, r in zip(ls, rs):
                        l, t = str(l), str(r)
                        try:
                            v = float(X.pyval(t, block))
                        except NameError as e:
                            raise Violation("%s = %s uses something that was not computed before: %s\n%s" % (l, t, e, dump(g)))
                        except ZeroDivisionError:
                            continue
                        if l in env:
                            raise Violation("%s is assigned twice" % l)
                        w = dict(wants, **{n: ref[n] for n in case["unk"]}).get(l)
                        if w is not None and not X.close(v, w, big, 1e-7):
                            raise Violation("%s = %s gives %s, by the equations %s (optimized: %s)\n   %s" % (
                                l, t, v, w, opt, dump(g)))
                        block[l] = env[l] = v
                for n, w in wants:
                    if n not in env:
                        raise Violation("no assignment computes %s\n   %s" % (n, dump(g)))
    if len(case["unk"]) > 1:
        tags.add("nontrivial")
    return tags


# --------------------------------------------- implicit equations, one unknown after the other

VEC = ["vv", "Ww"]


@st.composite
def sequences(draw):
    """0 = c*u - f with u a scalar or an element of a vector; c and f may use what the other equations determine."""
    import random
    shp = {}
    for n in UNK[:draw(st.integers(0, 4))]:
        shp[n] = ()
    for n in VEC[:draw(st.integers(0, 2))]:
        shp[n] = (draw(st.integers(2, 3)), 1)
    cells = [[n, None] for n, s in shp.items() if s == ()] + [[n, i] for n, s in shp.items() if s != () for i in range(s[0])]
    random.Random(draw(st.integers(0, 10 ** 6))).shuffle(cells)
    scal, whole, left = list(SCAL) + ["time"], {}, {n: s[0] for n, s in shp.items() if s != ()}
    eqs, got = [], []

    def expr(dep):
        g = X.Gen(draw, scalars=scal, shaped=dict(whole), linalg=False)
        e = g((), dep)
        if whole and draw(st.integers(0, 2)) == 0:
            # an element next to the whole vector
            n = list(whole)[draw(st.integers(0, len(whole) - 1))]
            u, v = ["el", ["s", n], draw(st.integers(0, whole[n][0] - 1)), 0], ["*", ["T", ["s", n]], ["s", n]]
            return [["atan2", u, v], ["if", "<", u, ["n", 0.5], e, v], ["*", u, v], ["+", ["f", "sin", u], v]][draw(st.integers(0, 3))]
        if got and draw(st.integers(0, 2)):
            n, i = got[draw(st.integers(0, len(got) - 1))]
            u = ["s", n] if i is None else ["el", ["s", n], i, 0]
            e = ["*", u, e] if draw(st.booleans()) else ["+", u, e]
        return e
    for n, i in cells:
        kind = draw(st.integers(0, 3))
        coef = [["n", 1], ["n", -2.5], ["s", "a"], ["+", ["n", 2], ["f", "cos", expr(0)]]][kind]
        eqs.append([n, i, coef, expr(draw(st.integers(0, 2))), draw(st.integers(0, 3))])
        got.append([n, i])
        if i is None:
            scal.append(n)
        else:
            left[n] -= 1
            if not left[n]:
                whole[n] = shp[n]
    use = [expr(draw(st.integers(0, 2))) for i in range(3)]
    order = list(range(len(eqs)))
    random.Random(draw(st.integers(0, 10 ** 6))).shuffle(order)
    return {"shapes": {n: list(s) for n, s in shp.items()}, "eqs": eqs, "order": order, "use": use, "seed": draw(st.integers(0, 10 ** 6))}


def seq_solve(case, i):
    env = sim_given(case, i)
    for n, s in case["shapes"].items():
        if s:
            env[n] = np.zeros(s)
    big = 1.0
    for n, k, c, f, how in case["eqs"]:
        ref = X.Ref(env, limit=1e5)
        d = float(ref(c))
        if abs(d) < 1e-2:
            raise X.Fragile("coefficient")
        v = float(ref(f)) / d
        if not np.isfinite(v):
            raise X.Fragile("value")
        big = max(big, ref.big, abs(v))
        if k is None:
            env[n] = v
        else:
            env[n][k, 0] = v
    ref = X.Ref(env, limit=1e6)
    out = [float(ref(e)) for e in case["use"]]
    return env, out, max(big, ref.big) * 100


def seq_build(case):
    g = S.Graph()
    shp = {n: tuple(s) for n, s in case["shapes"].items()}
    b = X.Builder(S, dict({n: () for n in list(SCAL) + ["time"]}, **shp))
    b.syms["time"] = g.getVariable("time")
    e0 = sim_given(case, 0)
    for n, k in SCAL.items():
        b.syms[n] = g.addVariable(n, (), k, S.Number(e0[n]) if k in (1, 8) else None)
    for n, s in shp.items():
        b.syms[n] = g.addVariable(n, GR.pyshape(s), 1)
    for n in ("a", "c"):
        g.addEquation(b.syms[n], S.Number(e0[n]))
    for j in case["order"]:
        n, k, c, f, how = case["eqs"][j]
        u = b.syms[n] if k is None else S.element(b.syms[n], k, 0)
        l, r = b(c) * u, b(f)
        g.addEquation(None, [l - r, r - l, r * -1.0 + l, (r - l) * 2.0][how])
    g.addEquation(S.der(b.syms["x"]), b(case["use"][0]))
    g.addEquation(S.der(b.syms["yy"]), b(case["use"][1]))
    g.addEquation(g.addVariable("sens", (), 0x100), b(case["use"][2]))
    return g


def run_seq(case):
    tags = set()
    names = {n: tuple(s) for n, s in case["shapes"].items()}
    pts = []
    for i in range(NPTS):
        try:
            pts.append((i,) + seq_solve(case, i))
        except X.Fragile:
            pass
    if not pts:
        raise Reject("no decidable point")
    for opt in (False, True):
        g = overflow(lambda: seq_build(case))
        try:
            g.buildGraph(opt)
        except Exception as e:
            if str(e).startswith("Internal Error: Element "):
                raise Reject("implicit systems are split into elements, this expression cannot be: %s" % e)
            raise
        for i, ref, out, big in pts:
            every = {"der_x": out[0], "der_yy": out[1], "sens": out[2]}
            for kind, wants in ((0x20, ("der_x", "der_yy")), (0x100, ("sens",))):
                env = dict(sim_given(case, i))
                for a in g.getAssignments(kind):
                    for l, r in zip(aslist(a.lhs), aslist(a.rhs)):
                        lt, rt = str(l), str(r)
                        local = env
                        if lt == "0":
                            # implicit: holds for the solution, and makes the one quantity known that was not
                            tags.add("implicit")
                            free = [(n, k) for n, k, c, f, how in case["eqs"]
                                    if re.search(r"\b%s\b%s" % (n, "" if k is None else re.escape("[%d,0]" % k)), rt)
                                    and (n not in env if k is None else np.isnan(env.get(n, np.full(names[n], np.nan))[k, 0]))]
                            if len(free) != 1:
                                raise Violation("0 = %s determines %s\n   %s" % (rt, free, dump(g)))
                            n, k = free[0]
                            setvar(env, names, n if k is None else "%s[%d,0]" % (n, k), float(ref[n] if k is None else ref[n][k, 0]))
                        try:
                            v = float(X.pyval(rt, local))
                        except NameError as e:
                            raise Violation("%s = %s uses something that was not computed before: %s\n   %s" % (lt, rt, e, dump(g)))
                        except (ZeroDivisionError, OverflowError):
                            continue
                        if lt == "0":
                            w = 0.0
                        elif "[" in lt:
                            n, k = re.fullmatch(r"(\w+)\[(\d),0\]", lt).groups()
                            w = ref[n][int(k), 0]
                        else:
                            w = every[lt] if lt in every else ref.get(lt, v)
                        if not X.close(v, w, big, 1e-7):
                            raise Violation("%s = %s gives %s, by the equations %s (optimized: %s)\n   %s" % (lt, rt, v, w, opt, dump(g)))
                        if lt != "0":
                            if "[" not in lt and lt in env:
                                raise Violation("%s is assigned twice" % lt)
                            setvar(env, names, lt, v)
                for n in wants:
                    if n not in env:
                        raise Violation("no assignment computes %s\n   %s" % (n, dump(g)))
    if len(case["eqs"]) > 1:
        tags.add("nontrivial")
    if any(case["shapes"].values()):
        tags.add("elements")
    return tags


CHECK = Check(
    "C07",
    [Aspect("system", GR.systems(), run, 3000),
     Aspect("chain", GR.systems(maxvars=12, depth=1, gen=dict(linalg=False, conds=False)), run, 3000),
     Aspect("trigonometry", GR.systems(maxvars=8, depth=2, var_shapes=((),), sens_shapes=((),), state_shapes=((),),
                                       gen=dict(linalg=False, matrices=False, conds=False)), run, 3000),
     Aspect("simultaneous", simultaneous(), run_sim, 4000),
     Aspect("sequence", sequences(), run_seq, 3000),
     Aspect("neighbours", groups(), run_group, 2000)],
    rule="random systems of equations (1-3 states, parameters, constants, inputs, up to 12 intermediate variables, sensors, "
         "graphics; declarations and equations in shuffled order), built plain and optimized; non-trivial: at "
         "least two intermediate variables and one decidable point")
