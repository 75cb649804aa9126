"""C18: systems of one session do not influence each other, refused calls change nothing, generation can be repeated."""
import contextlib
import gc
import os
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from pv import mbs as B, mbrun as R
from pv.core import Aspect, Check, Reject, Violation
from pv import graphs as GR
from checks import c07, c14

SENS = tuple(t for t in B.SENSORS if t != "Energy")
KEEP = ("Position", "Velocity", "AngularVelocity", "Orientation", "Distance")
WRITERS = ["c", "m", "mo", "f90", "py", "cs"]


# ------------------------------------------------------------- calls that have to be refused

def X(m, n):
    """A name that is not used yet, another one for every attempt."""
    return "%s%d" % (n, getattr(m, "attempts", 0))


def misuses():
    """name -> f(model, k): a call that cannot mean anything."""
    def body(m, k):
        made = [b for b in m.bodies if b is not None]
        return made[k % len(made)]

    def usedbody(m, k):
        return m.desc["bodies"][[i for i, b in enumerate(m.bodies) if b is not None][k % sum(b is not None for b in m.bodies)]]["name"]

    def joint(m, k):
        js = list(m.world.jointDict.values())
        return js[k % len(js)]

    S = lambda m: m.S
    out = {
        "second body of a name": lambda m, k: m.world.addBody(mass=1.0, name=usedbody(m, k)),
        "invalid name": lambda m, k: m.world.addBody(mass=1.0, name=["b 0", "1b", "b-1", "for", ""][k % 5]),
        "mass": lambda m, k: m.world.addBody(mass=["x", [1, 2], None][k % 3], name=X(m, "xb")),
        "cg": lambda m, k: m.world.addBody(mass=1.0, cg=[[1, 2], [1, 2, 3, 4]][k % 2], name=X(m, "xb")),
        "inertia": lambda m, k: m.world.addBody(mass=1.0, inertia=[[1, 2], [[1, 2], [3, 4]]][k % 2], name=X(m, "xb")),
        "place": lambda m, k: body(m, k).addFrame(X(m, "xf"), p=[[1, 2], [1, 2, 3, 4]][k % 2]),
        "rotation": lambda m, k: body(m, k).addFrame(X(m, "xf"), R=S(m).eye(2 + 2 * (k % 2))),
        "frame name": lambda m, k: body(m, k).addFrame(["f x", "9f", "f-1"][k % 3]),
        "frame again": lambda m, k: again_frame(m, k),
        "joint sensor of a name": lambda m, k: m.world.addSensor.Joint(X(m, "xs"), joint(m, k), name=taken(m, k)),
        "second joint sensor": lambda m, k: m.world.addSensor.Joint(X(m, "xs"), having(m, "jointSensor")[k % len(having(m, "jointSensor"))], name=X(m, "xs")),
        "second joint load": lambda m, k: m.world.addLoad.Joint(m.world.graph.getVariable("g"), having(m, "jointLoad")[k % len(having(m, "jointLoad"))], name=X(m, "xl")),
        "joint load of a name": lambda m, k: m.world.addLoad.Joint(m.world.graph.getVariable("g"), joint(m, k),
                                                                   name=sorted(m.world.loadDict)[k % len(m.world.loadDict)]),
        "energy of a name": lambda m, k: m.world.addSensor.Energy(X(m, "xs"), body(m, k), name=taken(m, k)),
        "reaction of a name": lambda m, k: getattr(m.world.addSensor, ["ConstraintForce", "ConstraintTorque"][k % 2])(
            X(m, "xs"), joint(m, k), name=taken(m, k)),
        "other sensor of a name": lambda m, k: getattr(m.world.addSensor, KINDS[k % len(KINDS)])(X(m, "xs"), m.world, body(m, k), name=taken(m, k)),
        "component force of a name": lambda m, k: m.world.addLoad.CmpForce([1, 2, 3], body(m, k), m.world,
                                                                           name=sorted(m.world.loadDict)[k % len(m.world.loadDict)]),
        "length of a force": lambda m, k: m.world.addLoad.CmpForce([1, 2], body(m, k), m.world, name=X(m, "xl")),
        "second point": lambda m, k: m.world.addLoad.PtPForce(m.world.graph.getVariable("g"), body(m, k), joint(m, k), name=X(m, "xl")),
        "loop of a name": lambda m, k: m.world.addLoop.Transmission(joint(m, k), joint(m, k + 1), 1.0,
                                                                    sorted(m.world.loopDict)[k % len(m.world.loopDict)]),
        "loop of nothing": lambda m, k: getattr(m.world.addLoop, ["FourBar", "CrankSlider", "ThreeBarTrans"][k % 3])(body(m, k), None, name=X(m, "xo")),
        "size": lambda m, k: m.world.addVisualisation.Box(body(m, k), length=[1, 2], name=X(m, "xv")),
        "joint direction": lambda m, k: m.world.addJoint(m.world, body(m, k), ["Rq", ["Rx", "Q"], ["Tx", "Rz", "x"]][k % 3], name=X(m, "xj")),
        "second joint": lambda m, k: m.world.addJoint(m.world, joint(m, k).child.getParentBody(),
                                                      ["Rx", ["Tx", "Ry"], ["Tz", "Ty", "Rx"], []][k % 4], name=X(m, "xj")),
        "joint to itself": lambda m, k: m.world.addJoint(body(m, k), body(m, k), ["Rx", ["Rx", "Ty"]][k % 2], name=X(m, "xj")),
        "start values": lambda m, k: m.world.addJoint(m.world, body(m, k), ["Rx", "Ry"], startVals=[[1], [1, 2, 3]][k % 2], name=X(m, "xj")),
        "joint to nothing": lambda m, k: m.world.addJoint(m.world, None, "Rx", name=X(m, "xj")),
        "name of a joint": lambda m, k: m.world.addJoint(m.world, body(m, k), [], name=sorted(m.world.jointDict)[k % len(m.world.jointDict)]),
        "parameter again": lambda m, k: m.world.addParam(["par_1", "g"][k % 2] if m.npar else "g", 3.5),
        "imaginary unit": lambda m, k: m.world.addParam("I", 3.5),
        "signs": lambda m, k: m.world.addParam(X(m, "xp"), 1.5, positive=True, negative=True),
        "positive": lambda m, k: m.world.addParam(X(m, "xp"), -1.5, positive=True),
        "negative": lambda m, k: m.world.addParam(X(m, "xp"), 1.5, negative=True),
        "length": lambda m, k: m.world.addParam(X(m, "xp"), [1.0] * [2, 4, 5, 7][k % 4]),
        "input again": lambda m, k: m.world.addInput(sorted(m.inputs)[k % len(m.inputs)]),
        "shape of an input": lambda m, k: m.world.addInput(X(m, "xu"), [3]),
        "expression again": lambda m, k: m.world.addExpression("g", 1.5),
        "force": lambda m, k: getattr(m.world.addLoad, ["CmpForce", "CmpTorque"][k % 2])(m.world.graph.getVariable("g"), body(m, k),
                                                                                        m.world, name=X(m, "xl")),
        "load to nothing": lambda m, k: m.world.addLoad.PtPForce(m.world.graph.getVariable("g"), body(m, k), None, name=X(m, "xl")),
        "load of no joint": lambda m, k: m.world.addLoad.Joint(m.world.graph.getVariable("g"), body(m, k), name=X(m, "xl")),
        "load again": lambda m, k: m.world.addLoad.PtPForce(m.world.graph.getVariable("g"), body(m, k), m.world,
                                                            name=sorted(m.world.loadDict)[k % len(m.world.loadDict)]),
        "sensor again": lambda m, k: m.world.addSensor.Position(X(m, "xs"), m.world, body(m, k),
                                                                name=sorted(m.world.sensorDict)[k % len(m.world.sensorDict)]),
        "symbol again": lambda m, k: m.world.addSensor.Position("g", m.world, body(m, k), name=X(m, "xs")),
        "sensor of nothing": lambda m, k: m.world.addSensor.Position(X(m, "xs"), m.world, None, name=X(m, "xs")),
        "sensor of no joint": lambda m, k: m.world.addSensor.Joint(X(m, "xs"), body(m, k), name=X(m, "xs")),
        "energy of a frame": lambda m, k: m.world.addSensor.Energy(X(m, "xs"), m.frames[k % len(m.frames)], name=X(m, "xs")),
        "object at nothing": lambda m, k: m.world.addVisualisation.Box(None, name=X(m, "xv")),
        "no writer": lambda m, k: m.world.graph.writeCode("basic", "x", "."),
    }
    return out


MISUSE = sorted(misuses())


KINDS = ("Position", "Velocity", "Acceleration", "Distance", "Orientation", "AngularVelocity", "AngularAcceleration")


def taken(m, k):
    return sorted(m.world.sensorDict)[k % len(m.world.sensorDict)]


def having(m, what):
    return [j for j in m.world.jointDict.values() if getattr(j, what) is not None]


def again_frame(m, k):
    f = m.desc["frames"][k % len(m.frames)]
    base = m.frames[f["base"]] if f["base"] >= 0 else m.at((f["body"], -1))
    return base.addFrame(f["name"], p=[0.1, 0.2, 0.3])


def attempt(m, name, k, generated):
    if generated and name == "second body of a name":
        return None             # bodies which are fixed to others are gone
    m.attempts = getattr(m, "attempts", 0) + 1
    try:
        misuses()[name](m, k)
    except (IndexError, ZeroDivisionError, ValueError, AssertionError, TypeError, AttributeError, KeyError) as e:
        if isinstance(e, (IndexError, ZeroDivisionError)):
            return None         # nothing there yet that could be misused
        return True
    except Exception as e:      # the extension's own
        return True
    return False


def retry(m, name, k):
    """The names of a call that was refused are free."""
    made = [b for b in m.bodies if b is not None]
    if not made:
        return
    b, w, x = made[k % len(made)], m.world, lambda n: X(m, n)
    for what, f in (("sensor", lambda: w.addSensor.Position(x("xs"), w, b, name=x("xs"))),
                    ("parameter", lambda: w.addParam(x("xp"), 1.5)),
                    ("force", lambda: w.addLoad.CmpForce([0, 0, 0], b, w, name=x("xl"))),
                    ("frame", lambda: b.addFrame(x("xf"), p=[1, 2, 3])),
                    ("object", lambda: w.addVisualisation.Box(b, name=x("xv")))):
        try:
            f()
        except Exception as e:
            raise Violation("after a call that was refused (%s) a %s with a name of this call is refused, too: %s: %s" % (
                name, what, type(e).__name__, e))


# ------------------------------------------------------------- sessions

class System:
    def __init__(self, desc, mode, opts):
        self.desc, self.mode, self.opts = desc, mode, opts
        self.closed = bool(desc["loops"])
        if not self.closed:
            self.T, self.ref = R.reference(desc, 2)
        self.m = B.Model(c14.withjoints(desc) if self.closed else desc, stepwise=True, shared=True)
        self.phase = "build"
        self.f = []

    def advance(self):
        if self.phase == "build":
            try:
                next(self.m.steps)
            except StopIteration:
                self.phase = "equations"
        elif self.phase == "equations":
            self.m.equations(self.mode, **self.opts)
            self.phase = "code"
        else:
            self.f.append(self.m.python())
            self.phase = "done"

    def judge(self, f):
        if self.m.changed():
            raise Violation("arguments were changed: %s" % self.m.changed())
        if self.closed:
            try:
                return c14.judge(self.desc, self.m, f, self.mode, self.opts)
            except Reject:
                return set()
        R.judge(self.m, f, self.ref, self.T, self.mode, self.opts)
        return set()


def others(kind, s, k):
    """Something else that happens in the session."""
    if kind == "collect":
        gc.collect()
    elif kind == "write" and s.phase == "done":
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            with contextlib.suppress(Exception):
                s.m.world.graph.writeCode(WRITERS[k % len(WRITERS)], "x%d" % (k % 3), d)
        finally:
            shutil.rmtree(d)
    elif kind == "again" and s.phase == "done":
        s.f.append(s.m.python())
    elif kind == "judge" and s.f:
        s.judge(s.f[k % len(s.f)])
    elif kind == "expressions":
        import pymbs.symbolics as S
        x = [S.Variable(n) for n in ("q", "g", "par_1", "b0")]
        e = S.sin(x[0]) * x[1] + x[2] ** 2 - x[3]
        e.simplify()
        S.der(e)


def session(c):
    tags = set()
    with B.quiet():
        systems = []
        for d, mode, opts in c["systems"]:
            if d["loops"] and mode == "OrderN":
                mode = "Recursive"
            systems.append(System(d, mode, opts))
        schedule = list(c["schedule"])
        refused = 0
        switches = 0
        last = None
        misused = any(k.startswith("misuse:") for _, k, _ in schedule)
        while any(s.phase != "done" for s in systems):
            i, kind, k = schedule.pop(0) if schedule else (0, "step", 0)
            if kind != "step" or schedule:
                s = systems[i % len(systems)]
            else:
                s = next(s for s in systems if s.phase != "done")
            if kind == "drop" and len(systems) > 1 and k % 4 == 0:
                systems.remove(s)
                del s
                gc.collect()
                tags.add("dropped")
                continue
            if kind.startswith("misuse:"):
                if not hasattr(s.m, "world") or not getattr(s.m, "bodies", None):
                    continue
                r = attempt(s.m, kind[7:], k, s.phase in ("code", "done"))
                if r is False:
                    raise Violation("accepted: %s (%d)" % (kind[7:], k))
                refused += bool(r)
                if r:
                    tags.add("refused:" + kind[7:])
                if r and s.phase in ("build", "equations") and k % 3 < 2:
                    retry(s.m, kind[7:], k)
                    tags.add("retried")
                continue
            if kind == "step":
                n = 1 + k % 3
                while n and s.phase != "done":
                    s.advance()
                    n -= 1
                    if s.phase == "equations" and misused and n != 1:
                        # everything is described: what needs joints with sensors and loads
                        free = [j for j in s.m.world.jointDict.values() if j.jointSensor is None and j.dof is not None]
                        if free and k % 4 < 2:
                            s.m.attempts = getattr(s.m, "attempts", 0) + 1
                            s.m.world.addSensor.Joint(X(s.m, "xs"), free[k % len(free)], name=X(s.m, "xs"))
                        for what in ("second joint sensor", "second joint load"):
                            r = attempt(s.m, what, k, False)
                            if r is False:
                                raise Violation("accepted: %s (%d)" % (what, k))
                            if r:
                                tags.add("refused:" + what)
                                retry(s.m, what, k)
                switches += last is not None and last is not s
                last = s
            else:
                others(kind, s, k)
        for s in systems:
            for f in s.f:
                tags |= {t for t in s.judge(f) if t in ("FourBar", "CrankSlider", "ThreeBarTrans", "Transmission")}
            again = s.m.python()
            s.judge(again)
            tags.add(s.mode)
    if refused:
        tags.add("refused calls")
    if len(systems) > 1 and switches > 2:
        tags.add("interleaved")
    if (len(c["systems"]) > 1 and switches > 2) or refused:
        tags.add("nontrivial")
    return tags


# ------------------------------------------------------------- simulations

def flow(T, q, qd, dt, n=6):
    """The motion after dt by the laws of motion (Runge-Kutta)."""
    def f(y):
        k = len(y) // 2
        a = T.forward(y[:k], y[k:], {})[0]
        if not np.all(np.isfinite(a)) or abs(a).max() > 300:
            raise Reject("violent")
        return np.concatenate([y[k:], a])
    y, h = np.concatenate([q, qd]), dt / n
    for _ in range(n):
        k1 = f(y)
        k2 = f(y + h / 2 * k1)
        k3 = f(y + h / 2 * k2)
        k4 = f(y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return y


def simulate(c):
    models = []
    tags = set()
    with B.quiet():
        for desc, mode, opts in c["systems"]:
            desc = dict(desc, loads=[ld for ld in desc["loads"] if ld["value"][0] != "input"])
            T = B.Tree(desc)
            m = B.Model(desc)
            m.equations(mode, **opts)
            models.append((desc, T, m, B.points(desc, 2)))
        for i, p, steps, text, name in c["runs"]:
            desc, T, m, pts = models[i % len(models)]
            q0 = pts[p][0]
            start = [float(x) for x in q0[m.order]]
            given = list(start)
            kw = {"modelname": name} if name else {}
            file = (name or "pymbsModel") + "_values"
            m.world.simulate(start, (steps - 0.5) * 0.01, text_output=text, **kw)
            if start != given:
                raise Violation("simulate changed the start values of its caller")
            rows = np.loadtxt(file + ".csv", ndmin=2) if text else np.load(file + ".npy")
            k = T.n
            if rows.shape != (steps + 1, 2 * k):
                raise Violation("%d steps of a system of %d coordinates: the result has the shape %s" % (steps, k, rows.shape))
            if not np.allclose(rows[0], given + [0.0] * k, atol=1e-12):
                raise Violation("the simulation starts at %s, not at rest at %s" % (rows[0], given))
            back = np.argsort(m.order)
            for r0, r1 in zip(rows, rows[1:]):
                want = flow(T, r0[:k][back], r0[k:][back], 0.01)
                want = np.concatenate([want[:k][m.order], want[k:][m.order]])
                tol = 2e-5 + 2e-3 * abs(want).max() + 0.02 * abs(want - r0).max()
                if abs(want - r1).max() > tol:
                    raise Violation("%s: after %s follows %s, by the laws of motion %s" % (mode, list(r0), list(r1), list(want)))
                if abs(want - r0).max() > 5 * tol:
                    tags.add("moved")
            tags.add("text" if text else "binary")
    if len(c["runs"]) > 1:
        tags.add("repeated")
    if "moved" in tags:
        tags.add("nontrivial")
    return tags


# ------------------------------------------------------------- refused calls on a graph

def graph_misuses(case):
    """name -> f(g, b, made, solved, k): None where the call is not possible yet."""
    items = case["items"]
    import pymbs.symbolics as S
    bad = {(): (2,), (2, 1): (3,), (3, 1): (2, 2), (3, 3): (), (2, 2): (3,)}

    def later(made):
        return [it for it in items if it not in made]

    def pick(seq, k, f):
        seq = list(seq)
        return f(seq[k % len(seq)]) if seq else None

    def lit(shp, v=1.5):
        return GR.literal(S, v if shp == () else [[v] * (shp[1] if len(shp) > 1 else 1)] * shp[0])

    def shp(it):
        return tuple(it["shape"])

    def self_ref(b, it):
        s = b.syms[it["name"]]
        return lambda g: g.addEquation(s, s * 2.0 + s)

    return {
        "name again": lambda g, b, made, solved, k: pick(made, k, lambda it: lambda: g.addVariable(it["name"], [(), (3,)][k % 2], 1 + k % 2)),
        "shape of the initial value": lambda g, b, made, solved, k: pick(later(made), k, lambda it: lambda: g.addVariable(
            it["name"], GR.pyshape(shp(it)), GR.KINDS[it["kind"]], lit(bad[shp(it)]))),
        "initial value not constant": lambda g, b, made, solved, k: pick([it for it in later(made) if shp(it) == ()], k, lambda it: lambda: g.addVariable(
            it["name"], (), GR.KINDS[it["kind"]], S.sin(g.getVariable("time")))),
        "second equation": lambda g, b, made, solved, k: pick([it for it in solved if it["kind"] != "state"], k, lambda it: lambda: g.addEquation(
            b.syms[it["name"]], lit(shp(it)))),
        "second derivative": lambda g, b, made, solved, k: pick([it for it in solved if it["kind"] == "state"], k, lambda it: lambda: g.addEquation(
            S.der(b.syms[it["name"]]), lit(shp(it)))),
        "equation of an input": lambda g, b, made, solved, k: pick([it for it in made if it["kind"] in ("input", "ctrl")], k, lambda it: lambda: g.addEquation(
            b.syms[it["name"]], lit(shp(it)))),
        "equation of the time": lambda g, b, made, solved, k: lambda: g.addEquation(g.getVariable("time"), lit(())),
        "free symbol": lambda g, b, made, solved, k: pick([it for it in made if it not in solved and shp(it) == () and it["kind"] not in ("state", "input", "ctrl")],
                                                          k, lambda it: lambda: g.addEquation(b.syms[it["name"]], S.Variable("nowhere") * 2.0)),
        "variable of itself": lambda g, b, made, solved, k: pick([it for it in made if it not in solved and it["kind"] in ("var", "sens") and shp(it) == ()], k,
                                                                 lambda it: lambda: self_ref(b, it)(g)),
        "shape of an equation": lambda g, b, made, solved, k: pick(
            [it for it in made if it not in solved and it["kind"] in ("var", "sens", "vis") and shp(it) != ()], k,
            lambda it: lambda: g.addEquation(b.syms[it["name"]], lit((4, 1)))),
        "unknown name": lambda g, b, made, solved, k: lambda: g.getVariable("nowhere"),
        "kind of assignments": lambda g, b, made, solved, k: lambda: g.getAssignments(3),
        "language": lambda g, b, made, solved, k: lambda: g.writeCode("c++", "n", "."),
        "not a name": lambda g, b, made, solved, k: lambda: g.addVariable(3, (), 1),
        "equation of a number": lambda g, b, made, solved, k: lambda: g.addEquation(3, lit(())),
    }


GMIS = ["name again", "shape of the initial value", "initial value not constant", "second equation", "second derivative",
        "equation of an input", "equation of the time", "free symbol", "variable of itself", "shape of an equation", "unknown name", "kind of assignments",
        "language", "not a name", "equation of a number"]


def graph_refusals(c):
    import pymbs.symbolics as S
    case, tags, refused = c["sys"], set(), [0]
    kinds = graph_misuses(case)
    todo = list(c["calls"])

    def hook(g, b, made, solved):
        for _ in range(2):
            if not todo:
                return
            what, k = todo[0]
            f = kinds[what](g, b, made, solved, k)
            todo.pop(0)
            if f is None:
                todo.append([what, k])
                if len(tags) > 60:
                    return
                tags.add("wait%d" % len(tags))
                continue
            before = lists(g)
            try:
                f()
            except Exception:
                refused[0] += 1
                tags.add("refused:" + what)
            else:
                raise Violation("accepted on a graph: %s (%d)" % (what, k))
            if lists(g) != before:
                raise Violation("%s was refused, but changed the variables from %s to %s" % (what, before, lists(g)))

    def lists(g):
        return {k: sorted(str(v) for v in g.getVariables(k)) for k in (1, 2, 4, 8, 16, 32, 0x40, 0x100, 0x200, 0x400)}
    decided = 0
    for opt in (False, True):
        todo[:] = c["calls"]
        try:
            g, b = c07.overflow(lambda: GR.build(S, case, hook=hook))
        except (Violation, Reject):
            raise
        except Exception as e:
            if refused[0]:
                raise Violation("after %d refused calls the system is refused: %s" % (refused[0], e))
            raise
        g.buildGraph(opt)
        decided += c07.check_graph(g, case, tags, "after %d refused calls" % refused[0])
    tags = {t for t in tags if not t.startswith("wait")}
    if not decided:
        raise Reject("no decidable point")
    if refused[0] > 3:
        tags.add("nontrivial")
    return tags


GRAPHS = st.fixed_dictionaries({"sys": GR.systems(maxvars=6, depth=2), "calls": st.lists(
    st.tuples(st.sampled_from(GMIS), st.integers(0, 1000)).map(list), min_size=2, max_size=14)})


def system(strategy, modes=("Explicit", "Recursive", "Recursive", "OrderN")):
    return st.tuples(strategy, st.sampled_from(modes), st.sampled_from(R.OPTS)).map(list)


def schedules(kinds, n):
    return st.lists(st.tuples(st.integers(0, 3), st.sampled_from(kinds), st.integers(0, 60)).map(list), min_size=n[0], max_size=n[1])


TREES = B.systems(bodies=(1, 3), dofs=(1, 4), frames=(0, 3), loads=(0, 2), sensors=(0, 3), sensortypes=SENS)
FIXED = B.systems(bodies=(2, 4), dofs=(1, 3), perjoint=(1, 2), fixed=40, frames=(0, 4), loads=(0, 2), sensors=(0, 2), sensortypes=SENS)
MECH = B.mechanisms(count=(1, 1), loads=(0, 1), sensors=(0, 1), sensortypes=KEEP, params=0.1, loadtypes=("PtPForce", "CmpForce"))
ANY = st.one_of(system(TREES), system(TREES), system(FIXED), system(MECH, ("Explicit", "Recursive")))
STEPS = ["step"] * 12 + ["write", "write", "again", "judge", "expressions", "collect", "drop"]
MIS = ["misuse:" + n for n in MISUSE]


def case(systems, count, schedule):
    return st.fixed_dictionaries({"systems": st.lists(systems, min_size=count[0], max_size=count[1]), "schedule": schedule})


RUNS = st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1), st.integers(1, 4), st.booleans(),
                          st.sampled_from(["", "", "sim", "sim", "m2"])).map(list), min_size=1, max_size=3)

CHECK = Check(
    "C18",
    [Aspect("sessions", case(ANY, (2, 3), schedules(STEPS, (5, 60))), session, 400),
     Aspect("refusals", case(ANY, (1, 2), schedules(["step"] * 10 + ["judge"] + MIS, (10, 60))), session, 400),
     Aspect("simulate", st.fixed_dictionaries({"systems": st.lists(system(TREES), min_size=1, max_size=2), "runs": RUNS}), simulate, 400),
     Aspect("graphs", GRAPHS, graph_refusals, 1500)],
    rule="two or three systems (trees and mechanisms, partly with the same names and other numbers) which are described, generated, "
         "written and evaluated in alternation, with other writers, dropped systems and calls in between that have to be refused; "
         "non-trivial: more than two changes from one system to another, or refused calls")
