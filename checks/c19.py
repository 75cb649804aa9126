"""C19: helpers, other forms of the arguments and expressions of the user mean what they stand for."""
import math
import random
import re

import numpy as np
from hypothesis import strategies as st

from pv import exprs as X
from pv import mbs as B, mbrun as R
from pv.core import Aspect, Check, Reject, Violation
from checks import c07 as G

import pymbs.symbolics as S
from pymbs.common import functions as F
from pymbs.symbolics import VarKind

ALL = ["Explicit", "Recursive", "Recursive", "OrderN"]
numbers = st.integers(0, 10 ** 6)
NOENERGY = tuple(t for t in B.SENSORS if t != "Energy")
WORLD = [-1, -1]


# ---------------------------------------------------------------- assemblies of sensors and loads

HELPERS = ["SpringDamper", "SpringDamper", "HydCyl", "MotionSystem", "Tyre", "Contact", "Graphic"]


@st.composite
def assembled(draw, n=(1, 3), **kw):
    desc = draw(B.systems(**kw))
    N = B.Numbers(draw(numbers), 0.3)
    r = N.r
    desc["helpers"] = []
    for i in range(draw(st.integers(*n))):
        t = r.choice(HELPERS)
        a, b, _ = B.places(r, desc)
        if t not in ("SpringDamper", "HydCyl"):
            a = B.place(r, desc, -1)
            on = [k for k, f in enumerate(desc["frames"]) if f["body"] == a[0]]
            if r.random() < 0.6:
                b = [a[0], r.choice([-1] + on)]
        h = {"name": "h%d" % i, "type": t, "a": a, "b": b}
        if t == "SpringDamper":
            h["value"] = [N.num(0.5, 9, False), N.num(0.1, 1), N.num(0.1, 2)]
        desc["helpers"].append(h)
    return desc


def expand(desc):
    """The same system in terms of the basic calls."""
    out = dict(desc, sensors=list(desc["sensors"]), loads=list(desc["loads"]))

    def sensor(name, type, a, b, ref=None):
        out["sensors"].append({"name": name, "type": type, "a": a, "b": b, "ref": ref})

    def load(name, type, a, b, ref, value):
        out["loads"].append({"name": name, "type": type, "a": a, "b": b, "ref": ref, "value": value})
    for h in desc["helpers"]:
        n, t, a, b = h["name"], h["type"], h["a"], h["b"]
        if t == "SpringDamper":
            sensor("dx_" + n, "Distance", a, b)
            load("l_" + n, "PtPForce", a, b, None, ["spring", h["value"]])
        elif t == "HydCyl":
            sensor("d_" + n, "Distance", a, b)
            load("l_" + n, "PtPForce", a, b, None, ["input", "F_" + n])
        else:
            ref = None if t == "Contact" else a
            sensor("r_" + n, "Position", WORLD, a)
            sensor("T_" + n, "Orientation", *((a, WORLD) if t == "Tyre" else (WORLD, a)))
            if t == "Graphic":
                continue
            sensor("v_" + n, "Velocity", WORLD, a, ref)
            sensor("om_" + n, "AngularVelocity", WORLD, a, ref)
            if t == "MotionSystem":
                sensor("a_" + n, "Acceleration", WORLD, a, ref)
                sensor("dom_" + n, "AngularAcceleration", WORLD, a, ref)
                continue
            at = b if t == "Tyre" else a
            ref = a if t == "Tyre" else WORLD
            load("lf_" + n, "CmpForce", at, WORLD, ref, ["input", "F_" + n])
            load("lt_" + n, "CmpTorque", at, WORLD, ref, ["input", "M_" + n])
    return out


class Assembled(B.Model):
    def build(self, desc, addinput):
        early = desc["seed"] % 3
        inner = dict(desc, sensors=[], loads=[]) if not early else desc
        yield from super().build(inner, addinput)
        for h in desc["helpers"]:
            self.help(h)
        if not early:
            self.desc = desc
            for s in desc["sensors"]:
                self.addsensor(s)
            for ld in desc["loads"]:
                self.addload(ld)
        self.desc = expand(desc)
        yield

    def help(self, h):
        w, n, t = self.world, h["name"], h["type"]
        a, b = self.at(h["a"]), self.at(h["b"])
        if t == "SpringDamper":
            c, l0, d = (self.n(x) for x in h["value"])
            w.addSpringDamper(a, b, c, d, l0, n)
        elif t == "HydCyl":
            w.addHydCylSensorsLoads(n, a, b)
        elif t == "MotionSystem":
            w.addMotionSystemSensors(a, n)
        elif t == "Tyre":
            w.addTyreSensorsLoads(n, a, b)
        elif t == "Contact":
            w.addContactSensorsLoads(n, a)
        else:
            w.addGraphicSensors(a, n)


def run_assembled(c):
    desc = c["desc"]
    T, ref = R.reference(expand(desc))
    with B.quiet():
        m = Assembled(desc)
        m.equations(c["mode"], **c["opts"])
        f = m.python()
    R.judge(m, f, ref, T, c["mode"], c["opts"])
    tags = {c["mode"]} | {h["type"] for h in desc["helpers"]}
    if T.n >= 2 and any(h["a"][0] != h["b"][0] or h["type"] in ("MotionSystem", "Tyre", "Contact") for h in desc["helpers"]):
        tags.add("nontrivial")
    return tags


def assemblies(**kw):
    return st.fixed_dictionaries({"desc": assembled(**kw), "mode": st.sampled_from(ALL), "opts": st.sampled_from(R.OPTS)})


# ---------------------------------------------------------------- forms of arguments

class Forms(B.Model):
    """The same system with other forms of the arguments."""

    def build(self, desc, addinput):
        self.r = random.Random(desc["forms"])
        self.used = set()
        self.given = {"g": 9.81}
        yield from super().build(desc, addinput)

    def use(self, *forms):
        k, f = self.r.choice(forms)
        self.used.add(k)
        return f()

    def param(self, v, **kw):
        self.npar += 1
        n = "par_%d" % self.npar
        if self.r.random() < 0.3:
            kw["name"] = "the parameter %d" % self.npar
        self.given[n] = v
        return self.world.addParam(n, v, **kw)

    def derived(self, v):
        """A parameter given by a formula of other parameters."""
        k = self.r.choice([2, 0.5, 4, -1])
        how = self.r.choice(["product", "sum", "quotient", "sin"])
        self.npar += 1
        n = "par_%d" % self.npar
        if how == "product":
            e = k * self.param(v / k)
        elif how == "sum":
            e = self.param(v - k) + k
        elif how == "quotient":
            e = self.param(v * 4) / self.param(4)
        else:
            e = self.param(v) + self.F.sin(self.param(0.0))
        self.given[n] = None
        return self.world.addParam(n, e)

    def n(self, x):
        v = B.val(x)
        if not isinstance(x, dict):
            return x
        return self.use(("parameter", lambda: self.param(v)), ("derived parameter", lambda: self.derived(v)),
                        ("signed parameter", lambda: self.param(v, positive=v > 0, negative=v < 0)))

    def vparam(self, v, suffixes):
        """A parameter of several numbers."""
        self.npar += 1
        n = "par_%d" % self.npar
        for a, s in zip(v, suffixes):
            self.given["%s_%s" % (n, s)] = a
        return n, [B.val(a) for a in v]

    def column(self, v):
        return self.S.Matrix([[a] for a in v])

    def vector(self, spec):
        v = [B.val(x) for x in spec]
        S = self.S
        forms = [("list", lambda: [self.n(x) for x in spec]), ("vector", lambda: S.Matrix([self.n(x) for x in spec])),
                 ("column", lambda: self.column([self.n(x) for x in spec])),
                 ("vector parameter", lambda: self.world.addParam(*self.vparam(v, "xyz"))),
                 ("tuple parameter", lambda: self.world.addParam((lambda n, x: n)(*self.vparam(v, "xyz")), tuple(v))),
                 ("matrix parameter", lambda: self.world.addParam((lambda n, x: n)(*self.vparam(v, "xyz")), S.Matrix(v))),
                 ("column parameter", lambda: self.world.addParam((lambda n, x: n)(*self.vparam(v, "xyz")), self.column(v))),
                 ("sum", lambda: S.Matrix([a - 1 for a in v]) + S.Matrix([1, 1, 1]))]
        if not any(v):
            forms += [("zeros", lambda: S.zeros((3,)))] * 4
        return self.use(*forms)

    def tensor(self, b):
        S, FF = self.S, self.F
        spec = b["I"]
        v = [B.val(x) for x in spec]
        full = [0, 1, 3, 1, 2, 4, 3, 4, 5]
        nine = ["xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"]

        def rows(a):
            return [[a[i] for i in full[3 * k:3 * k + 3]] for k in range(3)]

        def p(x):
            return [self.n(a) for a in x]
        forms = [("rows", lambda: rows(p(spec))), ("matrix", lambda: S.Matrix(rows(p(spec)))), ("six", lambda: p(spec)),
                 ("six as a vector", lambda: S.Matrix(p(spec))),
                 ("symmetric from a list", lambda: FF.symmetric_matrix(p(spec))),
                 ("symmetric from a tuple", lambda: FF.symmetric_matrix(tuple(p(spec)))),
                 ("symmetric from a vector", lambda: FF.symmetric_matrix(S.Matrix(p(spec)))),
                 ("six parameters", lambda: self.world.addParam(*self.vparam(v, ["xx", "xy", "yy", "xz", "yz", "zz"]))),
                 ("matrix of parameters", lambda: self.world.addParam(
                     self.vparam([v[i] for i in full], nine)[0], S.Matrix(rows(v))))]
        if not (v[1] or v[3] or v[4]):
            d = [spec[0], spec[2], spec[5]]
            forms += [("diagonal from a list", lambda: FF.diag(p(d))), ("diagonal from a vector", lambda: FF.diag(S.Matrix(p(d))))] * 2
        return self.use(*forms)

    def newbody(self, b):
        kw = {"mass": self.n(b["m"])}
        if any(B.val(x) for x in b["cg"]) or self.r.random() < 0.6:
            kw["cg"] = self.vector(b["cg"])
        kw["inertia"] = self.tensor(b)
        if self.r.random() < 0.5:
            kw["name"] = b["name"]
        if "cg" in kw and self.r.random() < 0.3:
            return self.world.addBody(kw.pop("mass"), kw.pop("cg"), kw.pop("inertia"), **kw)
        return self.world.addBody(**kw)

    def rot(self, spec):
        if len(spec) == 1 and spec[0][1][0] == "d":
            axis, (_, k) = spec[0]
            M = [[int(x) for x in row] for row in B.rot(axis, [1, 0, -1, 0][k % 4], [0, 1, 0, -1][k % 4])]
            return self.use(("rows", lambda: M), ("matrix", lambda: self.S.Matrix(M)), ("rotation", lambda: super(Forms, self).rot(spec)),
                            ("turned by a number", lambda: self.turn(axis, -k * math.pi / 2)))
        if len(spec) == 1 and spec[0][1][0] == "a":
            return self.turn(spec[0][0], -spec[0][1][1])
        if not spec:
            return self.use(("eye", lambda: self.S.eye(3)), ("eye of a shape", lambda: self.S.eye((3, 3))),
                            ("rows", lambda: [[1, 0, 0], [0, 1, 0], [0, 0, 1]]))
        return super().rot(spec)

    def turn(self, axis, angle):
        return self.F.rot_mat(angle, self.r.choice([B.AX[axis] + 1, axis, axis.upper(), "R" + axis]))

    def newframe(self, f):
        base = self.frames[f["base"]] if f["base"] >= 0 else self.at((f["body"], -1))
        kw = {}
        if any(B.val(x) for x in f["p"]) or self.r.random() < 0.6:
            kw["p"] = self.vector(f["p"])
        if f["R"] or self.r.random() < 0.6:
            kw["R"] = self.rot(f["R"])
        return base.addFrame(f["name"], **kw)

    def at(self, at):
        body, f = at
        if f >= 0 and self.desc["frames"][f]["base"] < 0 and self.r.random() < 0.4:
            self.used.add("frame as an attribute")
            return getattr(self.at((body, -1)), self.desc["frames"][f]["name"])
        return super().at(at)

    def newjoint(self, b, A, C):
        kw = {}
        if len(b["dofs"]) == 1 and self.r.random() < 0.6:
            self.used.add("one direction")
            dofs, pack = b["dofs"][0], lambda v: self.r.choice([v[0], v])
        elif not b["dofs"]:
            dofs, pack = self.r.choice([[], None]), list
        else:
            dofs, pack = list(b["dofs"]), list
        for k, n in (("q0", "startVals"), ("qd0", "startVals_d")):
            if b["dofs"] and (any(b[k]) or self.r.random() < 0.5):
                kw[n] = pack(b[k])
        if self.r.random() < 0.6 or len(b["dofs"]) > 1:
            kw["name"] = b.get("joint", "j_" + b["name"])
        if dofs is None and self.r.random() < 0.5:
            return self.world.addJoint(A, C, **kw)
        return self.world.addJoint(A, C, dofs, **kw)

    def addsensor(self, s):
        t, n = s["type"], s["name"]
        if t in B.PAIRED and self.r.random() < 0.5:
            args = [self.at(s["a"]), self.at(s["b"])]
            if s.get("ref"):
                args.append(self.at(s["ref"]))
            self.used.add("sensor without a name")
            return getattr(self.world.addSensor, t)(n, *args)
        return super().addsensor(s)

    def check(self):
        """getParameters: what was given."""
        got = self.world.getParameters()
        if set(got) != set(self.given):
            raise Violation("getParameters() knows %s, given were %s" % (sorted(got), sorted(self.given)))
        for n, v in self.given.items():
            if v is not None and not R.close(float(str(got[n])), B.val(v), 1e-12):
                raise Violation("getParameters() says %s = %s, given was %s" % (n, got[n], v))


@st.composite
def formed(draw, **kw):
    desc = draw(B.systems(params=0.4, **kw))
    desc["forms"] = draw(numbers)
    r = random.Random(desc["forms"])
    for b in desc["bodies"]:
        for k in ("q0", "qd0"):
            if r.random() < 0.3:
                b[k] = [0 for _ in b[k]]
    return desc


def run_forms(c):
    desc = c["desc"]
    T, ref = R.reference(desc)
    with B.quiet():
        m = Forms(desc)
        m.equations(c["mode"], **c["opts"])
        f = m.python()
    m.check()
    R.judge(m, f, ref, T, c["mode"], c["opts"])
    tags = {c["mode"]} | m.used
    if len(m.used) >= 4:
        tags.add("nontrivial")
    return tags


def forms(**kw):
    return st.fixed_dictionaries({"desc": formed(**kw), "mode": st.sampled_from(ALL), "opts": st.sampled_from(R.OPTS)})


# ---------------------------------------------------------------- expressions of the user

SHAPES = {"Distance": (2, 1), "Orientation": (3, 3), "Joint": (2, 1), "Energy": ()}
OWNGEN = dict(linalg=False, conds=False, powers=(1, 2, 3, 2.0), functions=["sin", "cos", "atan", "abs"])
LATE = ("Acceleration", "AngularAcceleration", "ConstraintForce", "ConstraintTorque", "Energy", "CenterofMass")


@st.composite
def owned(draw, **kw):
    """Sensors, inputs and parameters, expressions of them, loads and sensors of these expressions."""
    kw.setdefault("sensortypes", B.PAIRED)
    desc = draw(B.systems(loads=(0, 0), sensors=(1, 4), **kw))
    r = random.Random(draw(numbers))
    desc["own"] = []
    known = {s["name"]: SHAPES.get(s["type"], (3, 1)) for s in desc["sensors"] if s["type"] not in LATE}
    desc["ownparams"] = {"k%d" % i: round(r.uniform(-3, 3), 2) for i in range(r.randint(0, 2))}
    desc["owninputs"] = {}
    for i in range(r.randint(0, 2)):
        v = r.random() < 0.5
        desc["owninputs"]["w%d" % i] = [round(r.uniform(-2, 2), 2) for _ in range(3)] if v else round(r.uniform(-2, 2), 2)
    for n, v in desc["owninputs"].items():
        known[n] = (3, 1) if isinstance(v, list) else ()
    known.update({n: () for n in desc["ownparams"]})

    def expr(shp):
        # elements of vectors and a few numbers make up for scalars
        g = X.Gen(draw, scalars=[n for n, s in known.items() if s == ()] + ["time"],
                  shaped={n: s for n, s in known.items() if s != ()}, **OWNGEN)
        return g(shp, draw(st.integers(1, 3)))
    for i in range(draw(st.integers(0, 2))):
        shp = r.choice([(), (), (3, 1), (3, 3), (2, 1)])
        desc["own"].append({"name": "x%d" % i, "shape": list(shp), "e": expr(shp), "kind": "expression"})
        known["x%d" % i] = shp
    for i in range(draw(st.integers(0, 2))):
        t = r.choice(["PtPForce", "CmpForce", "CmpTorque", "Joint"])
        if t == "Joint" and any("dof" in o for o in desc["own"]):
            t = "CmpForce"
        a, b, ref = B.places(r, desc)
        vector = t.startswith("Cmp")
        o = {"name": "l%d" % i, "kind": "load", "type": t, "a": a, "b": b, "ref": ref if vector else None,
             "e": expr((3, 1) if vector else ()), "shape": [3, 1] if vector else []}
        if t == "Joint":
            o["dof"] = r.randrange(B.dofs(desc))
        desc["own"].append(o)
    for s in desc["sensors"]:
        if s["type"] in ("Acceleration", "AngularAcceleration"):
            known[s["name"]] = (3, 1)
    for i in range(draw(st.integers(1, 3))):
        shp = r.choice([(), (), (3, 1), (3, 3), (2, 1)])
        desc["own"].append({"name": "y%d" % i, "shape": list(shp), "e": expr(shp), "kind": "sensor"})
    return desc


class Owner(B.Tree):
    """Values of the expressions; desc["loads"] has the loads with the value ["own", position]."""
    time = 0.0

    def env(self, m, q, qd, late=False):
        env = {"time": self.time}
        for n, v in self.desc["ownparams"].items():
            env[n] = v
        for n, v in self.desc["owninputs"].items():
            env[n] = np.array(v)[:, None] if isinstance(v, list) else v
        for s in self.desc["sensors"]:
            if s["type"] in B.PAIRED and (late or s["type"] not in LATE):
                v = np.asarray(self.sensor(s, m, q, qd))
                env[s["name"]] = v[:, None] if v.ndim == 1 else v
        return env

    def owned(self, m, q, qd, late):
        env = self.env(m, q, qd, late)
        out, big = {}, 1.0
        try:
            for o in self.desc["own"]:
                if o["kind"] == "sensor" and not late:
                    continue
                ref = X.Ref(env, limit=1e3)
                v = ref(o["e"])
                big = max(big, ref.big)
                if o["shape"]:
                    v = np.asarray(v, dtype=float) + np.zeros(o["shape"])
                out[o["name"]] = v
                if o["kind"] == "expression":
                    env[o["name"]] = v
        except X.Fragile:
            raise Reject("an expression cannot be decided")
        return out, big

    def loadvalue(self, ld, m, q, qd, inputs):
        v = self.owned(m, q, qd, False)[0][ld["name"]]
        return np.asarray(v, dtype=float).reshape(-1) if ld["type"].startswith("Cmp") else float(v)


class Own(B.Model):
    def build(self, desc, addinput):
        yield from super().build(dict(desc, loads=[]), addinput)
        self.desc = desc
        w = self.world
        b = X.Builder(self.S)
        b.syms = {"time": w.time}
        for n, v in desc["ownparams"].items():
            b.syms[n] = w.addParam(n, v)
        for n, v in desc["owninputs"].items():
            b.syms[n] = w.addInput(n, (3,) if isinstance(v, list) else None)
        for s in desc["sensors"]:
            b.syms[s["name"]] = self.syms[s["name"]]
        for o in desc["own"]:
            e = b(o["e"])
            n = o["name"]
            if o["kind"] == "sensor":
                w.addExpression(n, e, category=VarKind.Sensor)
                continue
            sym = b.syms[n] = w.addExpression(n if o["kind"] == "expression" else "e_" + n, e)
            if o["kind"] == "load":
                if o["type"] == "Joint":
                    w.addLoad.Joint(sym, self.joints[o["dof"]], name=n)
                elif o["type"] == "PtPForce":
                    w.addLoad.PtPForce(sym, self.at(o["a"]), self.at(o["b"]), name=n)
                else:
                    getattr(w.addLoad, o["type"])(sym, self.at(o["a"]), self.at(o["b"]),
                                                  CSref=self.at(o["ref"]) if o["ref"] else None, name=n)
        yield

    def addsensor(self, s):
        if not hasattr(self, "syms"):
            self.syms = {}
        self.syms[s["name"]] = super().addsensor(s)


def run_own(c):
    desc = dict(c["desc"])
    desc["loads"] = [dict(o, value=["own", 0]) for o in desc["own"] if o["kind"] == "load"]
    T, ref = R.reference(desc, tree=Owner)
    decided = []
    for x in ref:
        try:
            decided.append(x[:2] + (desc["owninputs"],) + x[3:] + (T.owned(x[4], x[0], x[1], True),))
        except Reject:
            continue
    if not decided:
        raise Reject("no expression that can be decided")
    with B.quiet():
        m = Own(desc)
        m.equations(c["mode"], **c["opts"])
        f = m.python()
    tags = {c["mode"]} | {o["kind"] for o in desc["own"]}
    R.judge(m, f, [x[:-1] for x in decided], T, c["mode"], c["opts"])
    for q, qd, inp, qdd, mo, sv, r, (want, big) in decided:
        scale = abs(np.linalg.inv(r[1])).max() * (abs(r[2]).max() + abs(r[3]).max())
        yd, s = f(m.state(q, qd), inp)
        for o in desc["own"]:
            if o["kind"] != "sensor":
                continue
            if o["name"] not in s:
                raise Violation("no value of the user's sensor %s, only of %s" % (o["name"], sorted(s)))
            if not R.close(s[o["name"]], want[o["name"]], 1e-7, big * (1 + scale)):
                raise Violation("%s%s: the user's sensor %s at q=%s, qd=%s is %s, by its definition %s"
                                % (c["mode"], c["opts"] or "", o["name"], q, qd, R.flat(s[o["name"]]), R.flat(want[o["name"]])))
            if X.syms_in(o["e"]):
                tags.add("nontrivial")
    return tags


def own(**kw):
    return st.fixed_dictionaries({"desc": owned(**kw), "mode": st.sampled_from(ALL), "opts": st.sampled_from(R.OPTS)})


# ---------------------------------------------------------------- equations handed to the user

def run_lists(c):
    """getMotionEquations and getSensorEquations compute the motion and the sensors."""
    desc = c["desc"]
    if sum(1 for s in desc["sensors"] if s["type"] == "Energy" and s["body"] < 0) > 1:
        raise Reject("two sensors of the energy of the whole system")
    T, ref = R.reference(desc)
    with B.quiet():
        m = B.Model(desc)
        m.equations(c["mode"], **c["opts"])
        eqs = m.world.getMotionEquations(), m.world.getSensorEquations()
    names, parts = {}, {}
    g = m.world.graph
    for a in eqs[0] + eqs[1]:
        for l in G.aslist(a.lhs):
            t = str(l)
            if re.fullmatch(r"\w+\[.*\]", t):
                t = t[:t.index("[")]
                l = g.getVariable(t)
            elif not re.fullmatch(r"\w+", t):
                continue        # several variables, as in implicit equations
            sh = l.shape()
            names[t] = () if not sh else (sh[0], 1) if len(sh) == 1 else tuple(sh)
    for n, v in m.world.getParameters().items():
        # in the order in which they were added
        parts[n] = float(v) if isinstance(v, (int, float)) else X.pyval(str(v), parts)
    for q, qd, inp, qdd, mo, sv, r in ref:
        env = dict(parts, time=0.0)
        env.update({n: np.array(v)[:, None] if np.ndim(v) else v for n, v in inp.items()})
        for n, v in (("q", q), ("qd", qd)):
            v = np.asarray(v)[m.order]
            env[n] = v[:, None] if T.n > 1 else float(v[0])
        scale = abs(np.linalg.inv(r[1])).max() * (abs(r[2]).max() + abs(r[3]).max())
        for k, lst in enumerate(eqs):
            try:
                got = G.execute(lst, env, names)
            except X.Fragile:
                raise Reject("not decidable")
            if k == 0:
                pairs = [("der_q", qd[m.order]), ("der_qd", qdd[m.order])]
            else:
                pairs = [(s["name"], w) for s, w in zip(desc["sensors"], sv) if s["type"] != "CenterofMass"]
            for n, w in pairs:
                if n not in got:
                    raise Violation("%s%s: no equation for %s, only for %s" % (c["mode"], c["opts"] or "", n, sorted(got)))
                if not R.close(got[n], w, 1e-7, scale + abs(r[2]).max() + abs(r[3]).max()):
                    raise Violation("%s%s: by the equations given to the user, %s at q=%s, qd=%s is %s, by the laws of motion %s"
                                    % (c["mode"], c["opts"] or "", n, q, qd, R.flat(got[n]), R.flat(w)))
    tags = {c["mode"]}
    if T.n >= 2 and desc["sensors"]:
        tags.add("nontrivial")
    return tags


def lists(**kw):
    return st.fixed_dictionaries({"desc": B.systems(**kw), "mode": st.sampled_from(ALL), "opts": st.sampled_from(R.OPTS)})


# ---------------------------------------------------------------- functions of numbers and expressions

FUNCTIONS = ["sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "diag", "norm", "symmetric_matrix", "block_matrix",
             "block_matrix", "block_vector", "transpose", "skew", "scalar", "rot_mat", "outer", "solve", "element", "der",
             "skew_numpy"]
FGEN = dict(linalg=False, conds=False, powers=(1, 2, 3, 2.0), functions=["sin", "cos", "atan"])


@st.composite
def calls(draw):
    f = draw(st.sampled_from(FUNCTIONS))
    g = X.Gen(draw, **FGEN)
    depth = draw(st.integers(0, 2))

    def scalar():
        return g.number() if draw(st.integers(0, 2)) == 0 else g((), depth)

    def block(shp):
        k = draw(st.integers(0, 5))
        same = [n for n, s in X.SHAPED.items() if s == shp and s[1] > 1]
        if same and k < 3:
            return ["s", g.pick(same)]
        if k == 3 and min(shp) > 1:
            return ["zeros", shp[0], shp[1]]
        return ["mat", [[scalar() for _ in range(shp[1])] for _ in range(shp[0])]]
    c = {"f": f, "seed": draw(numbers), "form": draw(st.integers(0, 2))}
    if f in ("atan2",):
        c["a"] = [scalar(), scalar()]
    elif f == "diag":
        c["a"] = [scalar() for _ in range(draw(st.integers(1, 4)))]
    elif f in ("norm", "skew"):
        c["a"] = [g((3, 1), depth)] if f == "skew" or draw(st.booleans()) else [["vec", [scalar() for _ in range(3)]]]
    elif f == "skew_numpy":
        c["a"] = [["vec", [g.number() for _ in range(3)]]]
    elif f == "symmetric_matrix":
        c["a"] = [scalar() for _ in range(6)]
    elif f == "block_matrix":
        hs = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(1, 3)))]
        ws = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(1, 3)))]
        c["a"] = [[block((h, w)) for w in ws] for h in hs]
        c["shapes"] = [[[h, w] for w in ws] for h in hs]
        if draw(st.integers(0, 4)) == 0:
            # one block of another size
            i, j = draw(st.integers(0, len(hs) - 1)), draw(st.integers(0, len(ws) - 1))
            h, w = (hs[i] % 3 + 1, ws[j]) if draw(st.booleans()) else (hs[i], ws[j] % 3 + 1)
            c["a"][i][j] = block((h, w))
            c["shapes"][i][j] = [h, w]
    elif f == "block_vector":
        c["a"] = []
        for _ in range(draw(st.integers(1, 3))):
            n = draw(st.integers(2, 3))
            c["a"].append(["s", g.pick([k for k, s in X.SHAPED.items() if s == (n, 1)])] if draw(st.booleans())
                          else ["vec", [scalar() for _ in range(n)]])
    elif f == "transpose":
        c["a"] = [scalar() if draw(st.integers(0, 4)) == 0 else g(g.anyshape(), depth)]
    elif f == "outer":
        c["a"] = [g((3, 1), depth), g((3, 1), depth)]
    elif f == "solve":
        n = draw(st.integers(2, 3))
        c["a"] = [g((n, n), depth), g((n, 1), depth)]
    elif f == "element":
        shp = g.anyshape()
        c["a"] = [g(shp, depth), draw(st.integers(0, shp[0] - 1)), draw(st.integers(0, shp[1] - 1))]
    elif f == "rot_mat":
        c["a"] = [scalar(), draw(st.sampled_from([1, 2, 3, "x", "y", "z", "X", "Y", "Z", "Rx", "Ry", "Rz"]))]
    else:
        c["a"] = [scalar()]
    return c


def decide(c, v):
    """The value of the call, v(tree) being the values of its arguments."""
    f, a = c["f"], c["a"]

    def fragile(cond):
        if cond:
            raise X.Fragile("domain")
    if f == "sqrt":
        x = v(a[0])
        fragile(x < 0.01)
        return math.sqrt(x)
    if f in ("sin", "cos", "tan", "asin", "acos", "atan"):
        return v(["f", f, a[0]])        # within the principal range where C01 has a known finding
    if f == "atan2":
        y, x = v(a[0]), v(a[1])
        fragile(abs(y) < 0.05 and x < 0.05)
        return math.atan2(y, x)
    if f == "diag":
        return np.diag([v(x) for x in a])
    if f == "norm":
        n = float(np.linalg.norm(v(a[0])))
        fragile(n < 0.05)
        return n
    if f == "symmetric_matrix":
        return B.inertia([v(x) for x in a])
    if f == "block_matrix":
        return np.block([[v(x) for x in row] for row in a])
    if f == "block_vector":
        return np.vstack([v(x) for x in a])
    if f == "transpose":
        return np.transpose(v(a[0]))
    if f in ("skew", "skew_numpy"):
        x, y, z = np.ravel(v(a[0]))
        return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    if f == "outer":
        return v(a[0]) @ v(a[1]).T
    if f == "solve":
        A = v(a[0])
        fragile(np.linalg.cond(A) > 1e3)
        return np.linalg.solve(A, v(a[1]))
    if f == "element":
        return v(a[0])[a[1], a[2]]
    if f == "rot_mat":
        x = v(a[0])
        k = str(a[1])[-1].lower()
        # turns coordinates into the rotated frame
        return B.rot(k if k in "xyz" else "xyz"[int(k) - 1], math.cos(x), math.sin(x)).T
    return v(a[0])


def perform(c, b):
    f, a, k = c["f"], c["a"], c["form"]
    fn = getattr(F, f) if f != "scalar" else None
    if f == "diag":
        x = [b(e) for e in a]
        return fn(S.Matrix(x) if k == 0 and len(x) > 1 else x)
    if f == "symmetric_matrix":
        x = [b(e) for e in a]
        return fn([x, tuple(x), S.Matrix(x)][k])
    if f == "block_matrix":
        return fn([[b(e) for e in row] for row in a])
    if f == "block_vector":
        return fn([b(e) for e in a])
    if f == "scalar":
        x = b(a[0])
        return [F.scalar, F.scalar_if_possible][k % 2](S.Matrix([[x]]) if k else S.Matrix([x]))
    if f == "element":
        return fn(b(a[0]), a[1], a[2])
    if f == "rot_mat":
        return fn(b(a[0]), a[1])
    if f == "skew_numpy":
        return S.Matrix(fn(np.matrix([[float(x[1])] for x in a[0][1]])).tolist())
    return fn(*[b(e) for e in a])


def run_functions(c):
    names = dict(X.ALL)
    b = X.Builder(S, names)
    f = c["f"]
    tags = {f}
    if f == "der":
        e = c["a"][0]
        if e[0] != "n":
            raise Reject("derivatives of expressions belong to C02")
        if F.der(b(e)) != 0:
            raise Violation("the derivative of the number %s is %s" % (e[1], F.der(b(e))))
        return tags
    if f == "block_matrix":
        hs = [[s[0] for s in row] for row in c["shapes"]]
        ws = [sum(s[1] for s in row) for row in c["shapes"]]
        fits = all(len(set(h)) == 1 for h in hs) and len(set(ws)) == 1
        if not fits:
            try:
                r = perform(c, b)
            except Exception:
                return tags | {"refused"}
            raise Violation("blocks of the shapes %s are accepted: %s" % (c["shapes"], r))
    try:
        r = perform(c, b)
    except (ZeroDivisionError, OverflowError):
        raise Reject("constant folding in the interpreter")
    ok = 0
    for i in range(2):
        env = dict(X.point(c["seed"] + i, names), time=0.7)
        ref = X.Ref(env, limit=1e4)
        try:
            w = decide(c, lambda e: ref(e))
            ref.see(w)
        except X.Fragile:
            continue
        text = str(r)
        try:
            g = X.pyval(text, env) if not isinstance(r, (int, float)) else float(r)
        except (ZeroDivisionError, OverflowError):
            continue
        if not X.close(g, w, ref.big ** 2, 1e-9):
            raise Violation("%s of %s (form %d) is %s = %s, by its definition %s" % (f, c["a"], c["form"], text, g, w))
        ok += 1
    if not ok:
        raise Reject("not decidable")
    if X.syms_in(c["a"]):
        tags.add("nontrivial")
    return tags


CHECK = Check(
    "C19",
    [Aspect("assemblies", assemblies(bodies=(1, 3), dofs=(1, 4), loads=(0, 1), sensors=(0, 1), sensortypes=NOENERGY), run_assembled, 600),
     Aspect("forms", forms(bodies=(1, 3), dofs=(1, 3), fixed=20, loads=(0, 1), sensors=(0, 2), sensortypes=NOENERGY), run_forms, 800),
     Aspect("own", own(bodies=(1, 3), dofs=(1, 4)), run_own, 600),
     Aspect("lists", lists(bodies=(1, 3), dofs=(1, 4), loads=(0, 1), sensors=(1, 3)), run_lists, 400),
     Aspect("functions", calls(), run_functions, 2500)],
    rule="random systems built with assemblies of sensors and loads, with arguments in random forms, with loads and sensors that are "
         "random expressions of others, their equations as they are handed to the user, and random calls of the functions for numbers "
         "and expressions; non-trivial: assemblies between moving parts of at least two degrees of freedom, at least four forms, "
         "an expression of symbols, sensors in a system of at least two degrees of freedom")
