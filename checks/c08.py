"""C08: the graph refuses systems that do not determine their unknowns, and only those."""
import random

import numpy as np
from hypothesis import strategies as st

from pv import exprs as X
from pv import graphs as GR
from pv.core import Aspect, Check, Reject, Violation

import pymbs.symbolics as S

FAULTS = ["missing", "missing_der", "missing_param", "twice", "twice_der", "self", "loop", "dup", "unknown", "foreign",
          "shape", "shape_der", "init", "init_shape", "eq_input", "eq_time", "eq_state", "count_more", "count_less"]


def candidates(items, fault):
    """The items that can be given the fault."""
    if fault == "missing_param":
        return [it for it in items if it["kind"] in ("param", "const")]
    if fault == "missing":
        c = [it for it in items if it["kind"] in ("var", "sens")]
        return c if any(d["kind"] in ("state", "sens", "vis") and d not in c[:1] for d in items) else []
    if fault == "missing_der":
        return [it for it in items if it["kind"] == "state"]
    if fault == "loop":
        c = [it for it in items if it["kind"] in ("var", "sens")]
        return c if len(c) > 1 else []
    if fault in ("twice_der", "shape_der", "init", "init_shape", "eq_state"):
        return [it for it in items if it["kind"] == "state"]
    if fault == "eq_input":
        return [it for it in items if it["kind"] == "input"]
    if fault == "self":
        return [it for it in items if it["kind"] == "var"]
    return [it for it in items if it["kind"] in ("var", "sens")]


@st.composite
def cases(draw):
    sysd = draw(GR.systems(maxvars=6, depth=2, sens=(1, 2), states=(1, 2)))
    return {"sys": sysd, "fault": draw(st.sampled_from([f for f in FAULTS if candidates(sysd["items"], f)])), "pick": draw(st.integers(0, 10 ** 6)),
            "opt": draw(st.booleans()), "mixed": draw(st.booleans()), "where": draw(st.integers(0, 3))}


def ones(S, shp):
    return S.Number(2.0) if shp == () else GR.literal(S, np.ones(shp) * 2.0)


def start(S, init, shp, good, rnd, bad):
    """A start value of parameters, with one symbol among them that is not."""
    def scalar(s):
        f = s.shape()
        if f in ((), None) or len(f) == 0:
            return s
        return S.element(s, rnd.randrange(f[0]), rnd.randrange(f[1]) if len(f) > 1 else 0)

    def term(v, worse):
        syms = [scalar(good[rnd.randrange(len(good))]) for _ in range(rnd.randint(0, 3))] if good else []
        if worse:
            syms.insert(rnd.randint(0, len(syms)), scalar(bad))
        rnd.shuffle(syms)
        for s in syms:
            w = rnd.randrange(4)
            v = v + s if w == 0 else v * (s * s + 1.5) if w == 1 else S.sin(s + v) if w == 2 else v - s * 0.3
        return v
    if shp == ():
        return term(init, bad is not None)
    n, m = shp[0], shp[1] if len(shp) > 1 else 1
    at = rnd.randrange(n), rnd.randrange(m)
    vals = [[term(S.element(init, i, j), bad is not None and (i, j) == at) for j in range(m)] for i in range(n)]
    return S.Matrix([r[0] for r in vals]) if m == 1 else S.Matrix(vals)


def attempt(case, fault):
    """Builds the system with the fault; returns the graph."""
    sysd = case["sys"]
    rnd = random.Random(case["pick"])
    items = [dict(it) for it in sysd["items"]]
    names = GR.shapes(sysd)
    if fault is None:
        it = items[0]
    else:
        cand = candidates(items, fault)
        it = cand[rnd.randrange(len(cand))]
    link = {}           # name: names it is made to depend on
    if fault == "loop":
        ring = [d["name"] for d in items if d["kind"] in ("var", "sens")]
        rnd.shuffle(ring)
        ring = ring[:rnd.randint(2, 5)]
        for u, v in zip(ring, ring[1:] + ring[:1]):
            link[u] = v
    if fault in ("missing", "missing_der", "missing_param"):
        use = [d for d in items if d is not it and d["kind"] in ("state", "sens", "vis")]
        link[use[rnd.randrange(len(use))]["name"]] = it["name"]
    g = S.Graph()
    env = GR.given(sysd, 0)
    b = X.Builder(S, names)
    b.syms["time"] = g.getVariable("time")
    decl = list(items)
    rnd.shuffle(decl)
    badname = None
    if case["mixed"]:
        # start values made of parameters, and of something that is not constant if they are to be refused
        decl.sort(key=lambda d: (d["kind"] not in ("param", "const"), d["kind"] == "state", d is it))
        bad = [d["name"] for d in decl if d["kind"] not in ("param", "const") and d is not it] + ["time"]
        badname = bad[rnd.randrange(len(bad))]

    def goods(d):
        return [b.syms[o["name"]] for o in items if o["kind"] in ("param", "const")]
    for d in decl:
        n, shp, k0 = d["name"], GR.pyshape(tuple(d["shape"])), d["kind"]
        init = None
        if d["kind"] in ("state", "input"):
            init = env[n] if shp == () else GR.literal(S, env[n])
            if case["mixed"] and k0 == "state":
                init = start(S, init, shp, goods(d), rnd, b.syms.get(badname) if d is it and fault == "init" else None)
            elif d is it and fault == "init":
                q = S.Symbol("qx", shp)
                init = q + init if shp != () else q * init
            if d is it and fault == "init_shape":
                init = S.Matrix([1.0, 2.0, 3.0, 4.0])
        b.syms[n] = g.addVariable(n, shp, GR.KINDS[d["kind"]], init)
    if fault == "dup":
        other = items[rnd.randrange(len(items))]
        g.addVariable(other["name"], GR.pyshape(tuple(other["shape"])), GR.KINDS[other["kind"]])
    eqs = list(items)
    rnd.shuffle(eqs)
    if fault == "count_less":
        v = g.addVariable("exc", (), 1)
        w = g.addVariable("exd", (), 1)
        g.addEquation(None, v * 2.0 + w - 1.0)
        g.addEquation(g.addVariable("exs", (), 0x100), v + w)
    if fault == "count_more":
        v = g.addVariable("exc", (), 1)
        w = g.addVariable("exd", (), 1)
        g.addEquation(None, v * 2.0 + w - 1.0)
        g.addEquation(None, v - w * 3.0 - 1.0)
        g.addEquation(None, v - w * 4.0 - 2.0)
        g.addEquation(g.addVariable("exs", (), 0x100), v + w)
    for d in eqs:
        s = b.syms[d["name"]]
        k = d["kind"]
        hit = d is it
        lhs = rhs = None
        if k in ("param", "const"):
            lhs, rhs = s, GR.literal(S, env[d["name"]])
            if hit and fault == "missing_param":
                continue
        elif k == "state":
            lhs, rhs = S.der(s), b(d["der"])
            if hit and fault == "missing_der":
                continue
            if hit and fault == "eq_state":
                g.addEquation(s, b(d["der"]))
        elif k == "input":
            if hit and fault == "eq_input":
                g.addEquation(s, GR.literal(S, env[d["name"]]))
            continue
        elif d.get("e") is not None:
            lhs, rhs = s, b(d["e"])
            if hit and fault == "missing":
                continue
        if hit and fault == "self":
            rhs = rhs + s if case["where"] % 2 else rhs - s * 0.5
        if d["name"] in link:
            # in a form that nothing else can cancel
            t = b.syms[link[d["name"]]]
            f = S.sin((t if names[link[d["name"]]] == () else S.element(t, 0, 0)) * 3.7 + 0.41)
            rhs = rhs + ones(S, names[d["name"]]) * f
        if hit and fault == "unknown":
            q = S.Symbol("stranger", ())
            rhs = rhs + ones(S, names[d["name"]]) * q
        if hit and fault == "foreign":
            g2 = S.Graph()
            q = g2.addVariable("stranger", (), 1)
            rhs = rhs + ones(S, names[d["name"]]) * q
        if hit and fault in ("shape", "shape_der"):
            rhs = S.Matrix([1.0, 2.0, 3.0, 4.0]) * (b.syms["time"] if case["where"] % 2 else 1.0)
        g.addEquation(lhs, rhs)
        if hit and fault in ("twice", "twice_der"):
            g.addEquation(lhs, rhs * 2.0)
        if hit and fault == "eq_time":
            g.addEquation(b.syms["time"], S.Number(1.0))
    g.buildGraph(case["opt"])
    for kind in (0x20, 0x100):
        g.getAssignments(kind)
    return g


def run(case):
    tags = set()
    try:
        attempt(case, None)
    except (ZeroDivisionError, OverflowError):
        raise Reject("constant folding in the interpreter")
    except Reject:
        raise
    except Exception as e:
        raise Violation("a system that determines all its unknowns is refused: %s: %s" % (type(e).__name__, e))
    try:
        g = attempt(case, case["fault"])
    except Reject:
        raise
    except (ZeroDivisionError, OverflowError):
        raise Reject("constant folding in the interpreter")
    except Exception as e:
        tags.add("nontrivial")
        tags.add("%s:%s" % (case["fault"], type(e).__name__))
        return tags
    out = "; ".join("%s=%s" % (a.lhs, a.rhs) for k in (0x20, 0x100) for a in g.getAssignments(k))
    raise Violation("a system with the fault '%s' is accepted: %s" % (case["fault"], out[:800]))


CHECK = Check("C08", [Aspect("fault", cases(), run, 8000)],
              rule="random systems of equations, first as they are (must be accepted), then with one fault (%s); "
                   "non-trivial: the sound system was accepted and the fault refused" % ", ".join(FAULTS))
