"""Random systems of equations for the graph: states with derivatives, parameters, constants,
inputs, intermediate variables, sensors and graphics; their construction through the Python
API and an independent evaluation by the definitions."""
import random

import numpy as np
from hypothesis import strategies as st

from . import exprs as X

# Names are part of the input: the graph keeps its symbols in ordered containers.
POOL = ["a", "b", "c1", "c2", "c10", "F", "m", "k_", "L1", "phi", "Tq", "r2", "s_1", "vel", "w0", "xx", "Y", "z9",
        "alpha", "B_x", "d", "e1", "g", "h", "len_1", "mass", "n", "omega", "P", "qq", "R", "u_in", "v0", "A1",
        "A2", "A10", "M_", "C_", "AB", "ab", "aB", "t0", "t1", "t2", "st_a", "st_b", "f_", "tmp", "lam", "mu"]

# for languages that do not distinguish upper and lower case
LOWER = sorted({n.lower() for n in POOL} - {"y", "time", "yd"})

KINDS = {"param": 0x04, "const": 0x02, "input": 0x08, "state": 0x01, "var": 0x01, "sens": 0x100, "vis": 0x200,
         "uexp": 0x40, "ctrl": 0x400}
VSHAPES = [(), (), (), (2, 1), (3, 1), (3, 1), (3, 3), (2, 2)]


def value(draw_seed, shp):
    r = random.Random(draw_seed)

    def one():
        # short decimals, so that text forms do not lose anything
        a = round(r.uniform(0.3, 2.2), 3)
        return a if r.random() < 0.6 else -a
    return one() if shp == () else [[one() for _ in range(shp[1])] for _ in range(shp[0])]


@st.composite
def systems(draw, maxvars=6, states=(1, 3), state_shapes=((), (), (2, 1), (3, 1)), equal_states=False,
            inputs=True, consts=True, gen=None, sens=(0, 3), vis=(0, 2), depth=3, input_shapes=((), (3, 1)),
            param_shapes=VSHAPES, sens_shapes=((), (2, 1), (3, 1), (3, 3)), uexp=False, time=True, var_shapes=VSHAPES,
            sparse=True, pool=POOL, topsolve=False, derived=True):
    pool = list(pool)
    random.Random(draw(st.integers(0, 10 ** 6))).shuffle(pool)

    def name():
        return pool.pop()

    def pick(seq):
        return seq[draw(st.integers(0, len(seq) - 1))]
    sysd = {"items": [], "seed": draw(st.integers(0, 10 ** 6)), "shuffle": draw(st.integers(0, 10 ** 6))}
    known, kinds = {}, {}

    def add(kind, shp, **kw):
        n = name()
        kinds[n] = kind
        it = dict(name=n, kind=kind, shape=list(shp), **kw)
        sysd["items"].append(it)
        known[n] = shp
        return it
    ns = draw(st.integers(*states))
    sshp = pick(list(state_shapes))
    for i in range(ns):
        add("state", sshp if equal_states else pick(list(state_shapes)), der=None)
    for i in range(draw(st.integers(0, 3))):
        add("param", pick(list(param_shapes)))
        if derived and draw(st.integers(0, 3)) == 0:
            # a parameter given by a formula of others
            n, shp = pick([(n, s) for n, s in known.items() if kinds[n] == "param"])
            same = [m for m, s in known.items() if s == shp and kinds[m] == "param"]
            add("param", shp, e=pick([["*", ["n", 2], ["s", n]], ["neg", ["s", n]], ["+", ["s", n], ["s", pick(same)]],
                                      ["*", ["s", n], ["n", -0.5]], ["s", n]]))
    if consts:
        for i in range(draw(st.integers(0, 1))):
            add("const", pick(list(param_shapes)))
    if inputs:
        for i in range(draw(st.integers(0, 2))):
            add("input", pick(list(input_shapes)))

    def expr(shp, dep):
        if draw(st.integers(0, 7)) == 0:
            # an alias, a negated alias or a constant: what the optimisation looks for
            same = [n for n, s in known.items() if s == shp]
            if same:
                e = ["s", pick(same)]
                return ["neg", e] if draw(st.booleans()) else e
        names = dict(known)
        if sparse and len(names) > 2:
            # a few of the known symbols only, the latest more often
            keep = list(names)[-1:] + [n for n in names if draw(st.integers(0, 2)) == 0]
            names = {n: names[n] for n in names if n in keep}
        scal = [n for n, s in names.items() if s == ()] + (["time"] if time and draw(st.integers(0, 3)) == 0 else [])
        g = X.Gen(draw, scalars=scal or (["time"] if time else [n for n, s in known.items() if s == ()]),
                  shaped={n: s for n, s in names.items() if s != ()}, **(gen or {}))
        if not g.scalars:
            return ["n", 1.5] if shp == () else g.matrix(shp, lambda: ["n", pick(X.SMALL)])
        if topsolve and shp != () and shp[0] > 1 and shp[1] == 1 and draw(st.integers(0, 3)) == 0:
            return ["solve", g((shp[0], shp[0]), dep), g(shp, dep)]
        return g(shp, dep)
    for i in range(draw(st.integers(0, maxvars))):
        shp = pick(list(var_shapes))
        e = expr(shp, draw(st.integers(0, depth)))
        add("uexp" if uexp and draw(st.integers(0, 5)) == 0 else "var", shp, e=e)
    for it in sysd["items"][:ns]:
        it["der"] = expr(tuple(it["shape"]), draw(st.integers(0, depth)))
    for kind, (lo, hi) in (("sens", sens), ("vis", vis)):
        for i in range(draw(st.integers(lo, hi))):
            shp = pick(list(sens_shapes))
            e = expr(shp, draw(st.integers(0, depth)))
            it = add(kind, shp, e=e)
            if kind == "vis" or draw(st.integers(0, 1)):
                del known[it["name"]]
    return sysd


def control(sysd):
    """Inputs that neither sensors nor graphics depend on become controllers: {name: value is asked for}."""
    far = reachable(sysd, ("sens", "vis"))
    items = [dict(it, kind="ctrl") if it["kind"] == "input" and it["name"] not in far else it for it in sysd["items"]]
    return dict(sysd, items=items)


def shapes(sysd):
    out = {it["name"]: tuple(it["shape"]) for it in sysd["items"]}
    out["time"] = ()
    return out


def pyshape(shp):
    return () if shp == () else (shp[0],) if shp[1] == 1 else tuple(shp)


def given(sysd, i=0):
    """Values of states, parameters, constants and inputs; parameters and constants do not
    depend on the point i."""
    env = {}
    for k, it in enumerate(sysd["items"]):
        shp = tuple(it["shape"])
        if it["kind"] == "param" and it.get("e") is not None:
            v = _as(X.Ref(env)(it["e"]), it)
        elif it["kind"] in ("param", "const"):
            v = value("%d/%d" % (sysd["seed"], k), shp)
        elif it["kind"] in ("state", "input", "ctrl"):
            v = value("%d/%d/%d" % (sysd["seed"], k, i), shp)
        else:
            continue
        env[it["name"]] = np.array(v) if shp != () else v
    env["time"] = round(random.Random("%d/t/%d" % (sysd["seed"], i)).uniform(0.1, 5), 3)
    return env


def solve(sysd, i=0, limit=1e6, principal=True, **kw):
    """All values by the definitions: {name: value}, {state: derivative}, largest magnitude."""
    env = given(sysd, i)
    ref = X.Ref(env, limit=limit, principal=principal, **kw)
    for it in sysd["items"]:
        if it.get("e") is not None:
            env[it["name"]] = _as(ref.define(it["name"], it["e"]), it)
    ders = {it["name"]: _as(ref(it["der"]), it) for it in sysd["items"] if it["kind"] == "state"}
    return env, ders, ref.big


def _as(v, it):
    if it["shape"] == []:
        return float(v)
    return np.asarray(v, dtype=float) + np.zeros(it["shape"])


def literal(S, v):
    if np.ndim(v) == 0:
        return S.Number(v)
    v = np.asarray(v)
    return S.Matrix([float(a) for a in v[:, 0]]) if v.shape[1] == 1 else S.Matrix(v.tolist())


def build(S, sysd, G=None, hook=None):
    """The graph of the system, not built yet; hook(g, b, made, solved) is called before every step."""
    made, solved = [], []

    def step():
        if hook:
            hook(g, b, made, solved)
    g = (G or S.Graph)()
    r = random.Random(sysd["shuffle"])
    items = list(sysd["items"])
    decl = list(items)
    if sysd["shuffle"] % 3:
        r.shuffle(decl)
    env = given(sysd, 0)
    names = shapes(sysd)
    b = X.Builder(S, names)
    b.syms["time"] = g.getVariable("time")
    for it in decl:
        n, shp = it["name"], pyshape(tuple(it["shape"]))
        init = None
        step()
        if it["kind"] in ("state", "input"):
            init = env[n] if shp == () else literal(S, env[n])
        b.syms[n] = g.addVariable(n, shp, KINDS[it["kind"]], init, *(["ctl_%s:fun_%s" % (n, n)] if it["kind"] == "ctrl" else []))
        made.append(it)
    eqs = list(items)
    if sysd["shuffle"] % 5:
        r.shuffle(eqs)
    for it in eqs:
        s = b.syms[it["name"]]
        step()
        if it["kind"] in ("param", "const") and it.get("e") is None:
            g.addEquation(s, literal(S, env[it["name"]]))
        elif it["kind"] == "state":
            g.addEquation(S.der(s), b(it["der"]))
        elif it.get("e") is not None:
            e = b(it["e"])
            g.addEquation(s, e)
        else:
            continue
        solved.append(it)
    step()
    return g, b


def reachable(sysd, kinds):
    """Names the wanted quantities depend on."""
    defs = {it["name"]: it.get("e") for it in sysd["items"]}
    todo = []
    for it in sysd["items"]:
        if it["kind"] in kinds:
            todo.append(it["der"] if it["kind"] == "state" else it["e"])
    seen = set()
    while todo:
        for n in X.syms_in(todo.pop()):
            if n not in seen:
                seen.add(n)
                if defs.get(n) is not None:
                    todo.append(defs[n])
    return seen
