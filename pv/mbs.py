"""Random multibody systems: their construction through the public interface, and an independent
numerical evaluation from the description (vector kinematics and virtual power)."""
import contextlib
import io
import math
import os
import random
import shutil
import sys
import tempfile
import types
import warnings

import numpy as np
from hypothesis import strategies as st

from .core import Reject, Violation

NAME = "mod"
AX = {"x": 0, "y": 1, "z": 2}
GRAV = [[0, 0, -1], [0, 0, -1], [0, -1, 0], [0, 0, 0], [0.6, 0, -0.8], [-0.48, 0.6, 0.64], [1, 0, 0]]
G = 9.81


# ---------------------------------------------------------------- descriptions

def val(x):
    """A number of the description: itself or a parameter {"p": number}."""
    return x["p"] if isinstance(x, dict) else x


def vec(v):
    return np.array([val(a) for a in v], dtype=float)


def rot(axis, c, s):
    i = AX[axis]
    j, k = (i + 1) % 3, (i + 2) % 3
    R = np.eye(3)
    R[j, j] = R[k, k] = c
    R[j, k], R[k, j] = -s, s
    return R


def rotation(spec):
    """spec: list of (axis, ["d", quarters] | ["a", angle] | ["s", parameter])."""
    R = np.eye(3)
    for axis, (kind, a) in spec:
        if kind == "d":
            R = R @ rot(axis, [1, 0, -1, 0][a % 4], [0, 1, 0, -1][a % 4])
        else:
            R = R @ rot(axis, math.cos(val(a)), math.sin(val(a)))
    return R


def inertia(v):
    a = [val(x) for x in v]
    return np.array([[a[0], a[1], a[3]], [a[1], a[2], a[4]], [a[3], a[4], a[5]]], dtype=float)


class Numbers:
    def __init__(self, seed, params):
        self.r = random.Random(seed)
        self.params = params

    def num(self, lo, hi, signed=True, zero=0.15):
        r = self.r
        if signed and r.random() < zero:
            return 0
        a = round(r.uniform(lo, hi), r.choice([1, 1, 2]))
        a = max(a, 0.1)
        if r.random() < 0.2 and hi >= 1:
            a = max(1, round(a))
        if signed and r.random() < 0.5:
            a = -a
        if r.random() < self.params:
            # a parameter, sometimes given by a formula of another one
            return {"p": a, "d": r.choice([2, 0.5, -4])} if r.random() < 0.25 else {"p": a}
        return a

    def vec3(self, zero=0.15):
        if self.r.random() < zero:
            return [0, 0, 0]
        return [self.num(0.1, 1.5, zero=0.3) for _ in range(3)]

    def inertia(self):
        # diagonally dominant: positive definite
        d = [self.num(0.8, 2.5, False) for _ in range(3)]
        o = [0, 0, 0] if self.r.random() < 0.4 else [self.num(0.1, 0.3) for _ in range(3)]
        return [d[0], o[0], d[1], o[1], o[2], d[2]]

    def rot(self, plain=False):
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
            axis = r.choice("xyz")
            k = r.random()
            if k < 0.5 or plain:
                out.append([axis, ["d", r.choice([1, 2, 3])]])
            elif k < 0.75:
                out.append([axis, ["a", round(r.uniform(-3, 3), 2)]])
            else:
                out.append([axis, ["s", {"p": round(r.uniform(-3, 3), 2)}]])
        return out


DOFS = ["Rx", "Ry", "Rz", "Tx", "Ty", "Tz"]


@st.composite
def trees(draw, bodies=(1, 3), dofs=(1, 4), perjoint=(1, 3), frames=(0, 4), params=0.15, rotated=True, fixed=0, plain=False,
          gravity=True, names=None, nested=True):
    """A tree of rigid bodies."""
    N = Numbers(draw(st.integers(0, 10 ** 6)), params)
    r = N.r

    integer = r.randint     # the structure comes from one seed, so that it varies much; the sizes are drawn (and shrink)
    desc = {"g": GRAV[integer(0, len(GRAV) - 1)] if gravity else [0, 0, 0], "bodies": [], "frames": [], "loads": [],
            "sensors": [], "loops": [], "seed": integer(0, 10 ** 6)}
    nb = draw(st.integers(*bodies))
    left = draw(st.integers(*dofs))
    for i in range(nb):
        more = nb - i - 1
        n = min(integer(*perjoint), left - (more if not fixed else 0), 6)
        if n < 1 and not fixed and i:
            break
        b = {"name": "b%d" % i, "par": integer(-1, i - 1), "m": N.num(0.3, 3, False), "cg": N.vec3(), "I": N.inertia()}
        if fixed and i > 0 and integer(0, 99) < fixed:
            n = 0
        n = max(n, 0 if i else 1)
        left -= n
        ds = list(DOFS)
        r.shuffle(ds)
        b["dofs"] = ds[:n]
        b["q0"] = [round(r.uniform(-1, 1), 2) for _ in b["dofs"]]
        b["qd0"] = [round(r.uniform(-1, 1), 2) for _ in b["dofs"]]
        desc["bodies"].append(b)
    nb = len(desc["bodies"])
    for k in range(draw(st.integers(*frames))):
        body = integer(-1, nb - 1)
        mine = [i for i, f in enumerate(desc["frames"]) if f["body"] == body] if nested else []
        base = mine[integer(0, len(mine) - 1)] if mine and integer(0, 2) == 0 else -1
        desc["frames"].append({"name": "f%d" % k, "body": body, "base": base, "p": N.vec3(),
                               "R": N.rot(plain) if rotated else []})
    for i, b in enumerate(desc["bodies"]):
        def frame(body):
            mine = [k for k, f in enumerate(desc["frames"]) if f["body"] == body]
            return mine[integer(0, len(mine) - 1)] if mine and integer(0, 3) else -1
        b["pf"] = frame(b["par"])
        b["cf"] = frame(i)
    if nb and not any(b["dofs"] for b in desc["bodies"]):
        desc["bodies"][0]["dofs"], desc["bodies"][0]["q0"], desc["bodies"][0]["qd0"] = ["Rx"], [0.25], [0.5]
    return desc


def place(r, desc, notbody=None):
    nb = len(desc["bodies"])
    body = r.choice([i for i in range(-1, nb) if i != notbody])
    mine = [k for k, f in enumerate(desc["frames"]) if f["body"] == body]
    return [body, r.choice([-1] + mine)]


def places(r, desc):
    """Two places, mostly on different bodies, and a frame of reference or None."""
    a = place(r, desc)
    b = place(r, desc, a[0] if r.random() < 0.9 else None)
    return a, b, place(r, desc) if r.random() < 0.5 else None


def dofs(desc):
    return sum(len(b["dofs"]) for b in desc["bodies"])


KINDS = {"Joint": ["input", "const", "joint", "spring"], "PtPForce": ["input", "const", "spring", "joint"],
         "CmpForce": ["input", "const", "velocity"], "CmpTorque": ["input", "const", "velocity"]}


def addloads(draw, desc, n, types=tuple(KINDS), kinds=None, params=0.15):
    n = draw(st.integers(*n))
    if not n:
        return
    N = Numbers(draw(st.integers(0, 10 ** 6)), params)
    r = N.r
    free = list(range(dofs(desc)))
    for i in range(n):
        t = r.choice(types)
        if t == "Joint" and not free:
            t = "CmpForce"
        a, b, ref = places(r, desc)
        ld = {"name": "l%d" % i, "type": t, "a": a, "b": b, "ref": ref if t in ("CmpForce", "CmpTorque") else None}
        if t == "Joint":
            ld["dof"] = free.pop(r.randrange(len(free)))
        elif dofs(desc):
            ld["dof"] = r.randrange(dofs(desc))
        kind = r.choice([k for k in KINDS[t] if not kinds or k in kinds])
        vector = t in ("CmpForce", "CmpTorque")
        v = {"input": lambda: ("v%d" if vector else "u%d") % r.randint(0, 2),
             "const": lambda: [N.num(0.2, 8) for _ in range(3)] if vector else N.num(0.2, 8),
             "spring": lambda: [N.num(0.5, 9, False), N.num(0.1, 1), N.num(0.1, 2)],
             "joint": lambda: [N.num(0.5, 9, False), N.num(0.1, 1), N.num(0.1, 2)],
             "velocity": lambda: N.num(0.2, 3, False)}[kind]()
        ld["value"] = [kind, v]
        desc["loads"].append(ld)


PAIRED = ["Distance", "Position", "Velocity", "Acceleration", "AngularVelocity", "AngularAcceleration", "Orientation"]
SENSORS = tuple(PAIRED + ["Joint", "Energy", "CenterofMass"])


def addsensors(draw, desc, n, types=SENSORS):
    n = draw(st.integers(*n))
    if not n:
        return
    r = random.Random(draw(st.integers(0, 10 ** 6)))
    free = list(range(dofs(desc)))
    nb = len(desc["bodies"])
    for i in range(n):
        t = r.choice(types)
        if t == "Joint" and not free:
            t = "Position"
        s = {"name": "s%d" % i, "type": t}
        if t in PAIRED:
            s["a"], s["b"], s["ref"] = places(r, desc)
            if t in ("Distance", "Orientation"):
                s["ref"] = None
        elif t == "Joint":
            s["dof"] = free.pop(r.randrange(len(free)))
        elif t in ("ConstraintForce", "ConstraintTorque"):
            s["dof"] = r.randrange(dofs(desc))
        elif t == "Energy":
            s["body"] = r.choice([-1] + list(range(nb)))
        else:
            s["bodies"] = r.sample(range(nb), r.randint(1, nb))
        desc["sensors"].append(s)


@st.composite
def systems(draw, loads=(0, 2), sensors=(0, 2), loadtypes=tuple(KINDS), sensortypes=SENSORS, kinds=None, **kw):
    desc = draw(trees(**kw))
    addloads(draw, desc, loads, loadtypes, kinds, kw.get("params", 0.15))
    addsensors(draw, desc, sensors, sensortypes)
    return desc


PLANE = {"x": (1, 2), "y": (0, 2), "z": (0, 1)}


@st.composite
def mechanisms(draw, types=("FourBar", "ThreeBarTrans", "CrankSlider", "Transmission"), count=(1, 2), base=30, params=0.15,
               loads=(0, 0), sensors=(0, 0), loadtypes=tuple(KINDS), sensortypes=SENSORS, gravity=True):
    """A system of planar mechanisms on the world or on a moving body."""
    N = Numbers(draw(st.integers(0, 10 ** 6)), params)
    r = N.r
    desc = {"g": GRAV[r.randrange(len(GRAV))] if gravity else [0, 0, 0], "bodies": [], "frames": [], "loads": [],
            "sensors": [], "loops": [], "seed": r.randint(0, 10 ** 6)}

    def body(par, pf, dofs, massless=False):
        i = len(desc["bodies"])
        desc["bodies"].append({"name": "b%d" % i, "par": par, "m": N.num(0.3, 3, False), "cg": N.vec3(), "I": N.inertia(),
                               "dofs": dofs, "q0": [round(r.uniform(-1, 1), 2) for _ in dofs],
                               "qd0": [round(r.uniform(-1, 1), 2) for _ in dofs], "pf": pf, "cf": -1})
        return i

    def frame(b, p, R=()):
        desc["frames"].append({"name": "f%d" % len(desc["frames"]), "body": b, "base": -1, "p": p, "R": list(R)})
        return len(desc["frames"]) - 1

    def plane(e, lo, hi, n=0):
        """A point in the plane at a distance within the bounds (a number or a parameter per component)."""
        a = r.choice([0, 0.5, 1, 1.5, r.uniform(0, 2)]) * math.pi
        d = r.uniform(lo, hi)
        p = [0, 0, 0]
        for k, v in zip(PLANE[e], (d * math.cos(a), d * math.sin(a))):
            v = round(v, 2)
            p[k] = 0 if v == 0 else {"p": v} if r.random() < params else v
        p[AX[e]] = n
        return p

    def offset():
        return 0 if r.random() < 0.7 else round(r.uniform(-0.5, 0.5), 2)

    nl = draw(st.integers(*count))
    ground = -1
    if r.randrange(100) < base:
        ds = list(DOFS)
        r.shuffle(ds)
        ground = body(-1, -1 if r.random() < 0.5 else frame(-1, N.vec3(), N.rot()), ds[:r.choice([1, 1, 2])])
    for k in range(nl):
        t = r.choice(types)
        e = r.choice("xyz")
        if k and r.random() < 0.3:
            ground = r.randrange(len(desc["bodies"]))
        name = "loop%d" % k
        sw = r.random() < 0.4
        if t == "Transmission":
            n = dofs(desc)
            b1 = body(ground, frame(ground, N.vec3(), N.rot()), [r.choice(DOFS)])
            b2 = body(r.choice([b1, ground]), -1, [r.choice(DOFS)])
            j = [n, n + 1]
            r.shuffle(j)
            desc["loops"].append({"type": t, "name": name, "j1": j[0], "j2": j[1],
                                  "ratio": r.choice([1, -1, 2, 0.5, 0, -1.3, round(r.uniform(-2, 2), 2)])})
            continue
        rot, tra = "R" + e, ["T" + "xyz"[i] for i in PLANE[e]]
        lp = {"type": t, "name": name, "swap": sw, "axis": e}
        if t == "FourBar":
            o, n2, n3 = offset(), offset(), offset()
            pA = plane(e, 0, 1, o)
            d = plane(e, 0.6, 2)
            bars = [plane(e, 0.2, 1.5, n2), plane(e, 0.6, 2, n3), plane(e, 0.6, 2, round(n2 + n3, 4))]
            if r.random() < 0.25:
                # equal lengths: kites, parallelograms
                x, y = r.sample([0.5, 1, 1.5, 2], 2)
                ls = r.choice([(x, y, y, x), (x, x, y, y), (x, y, x, y), (x, x, x, x)])
                d, bars = plane(e, ls[0], ls[0]), [plane(e, l, l, n) for l, n in zip(ls[1:], (n2, n3, round(n2 + n3, 4)))]
            pD = [round(val(a) + val(b), 4) if i != AX[e] else o for i, (a, b) in enumerate(zip(pA, d))]
            crank = body(ground, frame(ground, pA), [rot])
            coupler = body(crank, frame(crank, bars[0]), [rot])
            rocker = body(ground, frame(ground, pD), [rot])
            if ground >= 0:
                lp["swap"] = False
            lp.update(a=[coupler, frame(coupler, bars[1])], b=[rocker, frame(rocker, bars[2])],
                      posture=r.choice([1, -1]))
        elif t == "ThreeBarTrans":
            nA, n2 = offset(), offset()
            crank = body(ground, frame(ground, plane(e, 0, 1, nA)), [rot])
            f2 = frame(crank, plane(e, 0.2, 1.5, n2))
            C = body(ground, frame(ground, plane(e, 0.5, 2.5, nA + n2)), [rot])
            slider = body(C, -1, [r.choice(tra)])
            lp.update(a=[crank, f2], b=[slider, -1])
            if ground >= 0:
                lp["swap"] = False
        elif t == "CrankSlider":
            T = r.choice(tra)
            l1, l2 = r.uniform(0.2, 1), r.uniform(0.5, 2)
            p1, p2 = [0, 0, 0], [0, 0, 0]
            for p, l in ((p1, l1), (p2, l2)):
                l = round(l, 2)
                p[AX[T[1]]] = {"p": l} if r.random() < params else l
            crank = body(ground, -1, [rot])
            slider = body(ground, -1, [T])
            rod = body(slider, -1, [rot])
            if ground >= 0:
                lp["swap"] = False
            lp.update(a=[crank, frame(crank, p1)], b=[rod, frame(rod, p2)])
        elif t == "FourBarTrans":
            o, n2, n3 = offset(), offset(), offset()
            crank = body(ground, frame(ground, plane(e, 0, 1, o)), [rot])
            coupler = body(crank, frame(crank, plane(e, 0.3, 1.5, n2)), [rot])
            fc = frame(coupler, plane(e, 0.3, 1.5, n3))
            D = body(ground, frame(ground, plane(e, 0.5, 2.5, round(o + n2 + n3, 4))), [rot])
            slider = body(D, -1, [r.choice(tra)])
            lp.update(a=[coupler, fc], b=[slider, -1])
        desc["loops"].append(lp)
    addloads(draw, desc, loads, loadtypes, None, params)
    addsensors(draw, desc, sensors, sensortypes)
    return desc


def permutation(n, k):
    """An order of n elements; 0: as they are."""
    p = list(range(n))
    if k:
        random.Random(k).shuffle(p)
    return p


POOL = ["a", "b", "c", "a_b", "b_c", "a_b_c", "ab", "A", "B", "b1", "b11", "b1_1", "m", "I", "x", "f", "_x",
        "T_a", "r_b", "b_a", "bb", "CS", "cs_0", "j", "j1", "om", "omega", "a_", "b__c", "M", "h"]


def rename(desc, k):
    """The same system with other names; names of frames are unique on each body only, all others in the system."""
    r = random.Random(k)
    pool = list(POOL)
    r.shuffle(pool)

    def fresh():
        return pool.pop() if pool else "n%d" % r.randint(10 ** 4, 10 ** 9)

    out = dict(desc)
    out["bodies"] = [dict(b, name=fresh(), joint=fresh()) for b in desc["bodies"]]
    used = {}
    out["frames"] = []
    for f in desc["frames"]:
        mine = used.setdefault(f["body"], set())
        n = r.choice([x for x in POOL if x not in mine])
        mine.add(n)
        out["frames"].append(dict(f, name=n))
    out["sensors"] = [dict(s, name=fresh()) for s in desc["sensors"]]
    out["loads"] = [dict(x, name=fresh()) for x in desc["loads"]]
    out["loops"] = [dict(x, name=fresh()) for x in desc["loops"]]
    return out


def inputvalues(desc, k=0):
    """Values of the inputs."""
    r = random.Random(desc["seed"] + 77 * k)
    out = {}
    for ld in desc["loads"]:
        kind, a = ld["value"]
        if kind == "input" and a not in out:
            vector = ld["type"] in ("CmpForce", "CmpTorque")
            out[a] = [round(r.uniform(-5, 5), 2) for _ in range(3)] if vector else round(r.uniform(-5, 5), 2)
    return out


def points(desc, n=3, scale=1.0):
    """Joint positions and velocities."""
    r = random.Random(desc["seed"])
    k = sum(len(b["dofs"]) for b in desc["bodies"])
    out = []
    for i in range(n):
        q = np.array([r.uniform(-1.4, 1.4) * scale for _ in range(k)])
        qd = np.array([r.uniform(-1.5, 1.5) for _ in range(k)])
        out.append((q, qd))
    return out


# ---------------------------------------------------------------- reference

class Pose:
    __slots__ = ("R", "r", "om", "v", "al", "a")

    def __init__(self, R, r, om, v, al, a):
        self.R, self.r, self.om, self.v, self.al, self.a = R, r, om, v, al, a

    def move(self, p, R):
        """A frame fixed to this one."""
        d = self.R @ p
        return Pose(self.R @ R, self.r + d, self.om, self.v + np.cross(self.om, d), self.al,
                    self.a + np.cross(self.al, d) + np.cross(self.om, np.cross(self.om, d)))

    def joint(self, dof, q, qd, qdd):
        e = self.R[:, AX[dof[1]]]
        if dof[0] == "T":
            d = e * q
            return Pose(self.R, self.r + d, self.om, self.v + np.cross(self.om, d) + e * qd, self.al,
                        self.a + np.cross(self.al, d) + np.cross(self.om, np.cross(self.om, d)) +
                        2 * np.cross(self.om, e * qd) + e * qdd)
        R = self.R @ rot(dof[1], math.cos(q), math.sin(q))
        return Pose(R, self.r, self.om + e * qd, self.v, self.al + np.cross(self.om, e * qd) + e * qdd, self.a)


def world_pose():
    z = np.zeros(3)
    return Pose(np.eye(3), z, z, z, z, z)


def local(desc, f):
    """Position and orientation of a frame with respect to its body."""
    if f < 0:
        return np.zeros(3), np.eye(3)
    fr = desc["frames"][f]
    p0, R0 = local(desc, fr["base"])
    return p0 + R0 @ vec(fr["p"]), R0 @ rotation(fr["R"])


class Motion:
    """Everything about the motion at given joint positions, velocities and accelerations."""

    def __init__(self, desc, q, qd, qdd):
        self.desc = desc
        self.qdd = qdd
        self.body = [None] * len(desc["bodies"])
        self.start = []     # pose of the parent frame of each elementary joint
        self.end = []       # pose after each elementary joint
        k = 0
        for i, b in enumerate(desc["bodies"]):
            P = self.frame((b["par"], b["pf"]))
            for dof in b["dofs"]:
                self.start.append(P)
                P = P.joint(dof, q[k], qd[k], qdd[k])
                self.end.append(P)
                k += 1
            p, R = local(desc, b["cf"])
            self.body[i] = P.move(-R.T @ p, R.T)

    def frame(self, at):
        """at: (body, frame), -1 for the world or the frame of the body itself."""
        body, f = at
        P = world_pose() if body < 0 else self.body[body]
        return P.move(*local(self.desc, f))

    def cg(self, i):
        return self.body[i].move(vec(self.desc["bodies"][i]["cg"]), np.eye(3))


class Tree:
    def __init__(self, desc):
        self.desc = desc
        self.n = sum(len(b["dofs"]) for b in desc["bodies"])
        self.g = G * np.array(desc["g"], dtype=float)
        self.kinds = [d for b in desc["bodies"] for d in b["dofs"]]
        self.mass = [val(b["m"]) for b in desc["bodies"]]
        self.I = [inertia(b["I"]) for b in desc["bodies"]]

    def motion(self, q, qd, qdd=None):
        return Motion(self.desc, q, qd, np.zeros(self.n) if qdd is None else qdd)

    def units(self, q):
        """Motions with unit velocities of each joint: their velocities are the partial velocities."""
        return [self.motion(q, np.eye(self.n)[k]) for k in range(self.n)]

    def inverse(self, q, qd, qdd, units):
        """Generalised forces needed for the motion, without loads."""
        m = self.motion(q, qd, qdd)
        Q = np.zeros(self.n)
        for i in range(len(self.mass)):
            c = m.cg(i)
            I = c.R @ self.I[i] @ c.R.T
            F = self.mass[i] * (c.a - self.g)
            L = I @ c.al + np.cross(c.om, I @ c.om)
            for k, u in enumerate(units):
                cu = u.cg(i)
                Q[k] += F @ cu.v + L @ cu.om
        return Q

    def massmatrix(self, q, units):
        M = np.zeros((self.n, self.n))
        for i in range(len(self.mass)):
            J = np.array([u.cg(i).v for u in units]).T
            W = np.array([u.cg(i).om for u in units]).T
            R = units[0].cg(i).R if units else np.eye(3)
            M += self.mass[i] * J.T @ J + W.T @ R @ self.I[i] @ R.T @ W
        return M

    def vector(self, ld, m, v):
        """The force or torque vector of a load that acts between two places."""
        A, B = m.frame(ld["a"]), m.frame(ld["b"])
        if ld["type"] == "PtPForce":
            d = A.r - B.r
            if np.linalg.norm(d) < 0.05:
                raise Reject("the ends of a force coincide")
            return v * d / np.linalg.norm(d)
        return (m.frame(ld["ref"]) if ld["ref"] else A).R @ np.array(v, dtype=float)

    def loads(self, q, qd, units, inputs):
        """Generalised forces of the loads."""
        m = self.motion(q, qd)
        Q = np.zeros(self.n)
        for ld in self.desc["loads"]:
            v = self.loadvalue(ld, m, q, qd, inputs)
            if ld["type"] == "Joint":
                Q[ld["dof"]] += v
                continue
            F = self.vector(ld, m, v)
            for k, u in enumerate(units):
                ua, ub = u.frame(ld["a"]), u.frame(ld["b"])
                Q[k] += F @ (ua.om - ub.om) if ld["type"] == "CmpTorque" else F @ (ua.v - ub.v)
        return Q

    def reaction(self, dof, q, qd, qdd, inputs):
        """Force and torque (about the origin of the frame after the joint) that an elementary joint transmits to the
        bodies behind it, without its own load; from Newton's and Euler's laws of these bodies."""
        m = self.motion(q, qd, qdd)
        k = -1
        for i, b in enumerate(self.desc["bodies"]):
            k += len(b["dofs"])
            if dof <= k:
                break
        behind = {i}
        for j, b in enumerate(self.desc["bodies"]):
            if b["par"] in behind:
                behind.add(j)
        P = m.end[dof].r
        F, L = np.zeros(3), np.zeros(3)
        for i in behind:
            c = m.cg(i)
            I = c.R @ self.I[i] @ c.R.T
            f = self.mass[i] * (c.a - self.g)
            F = F + f
            L = L + np.cross(c.r - P, f) + I @ c.al + np.cross(c.om, I @ c.om)
        for ld in self.desc["loads"]:
            v = self.loadvalue(ld, m, q, qd, inputs)
            if ld["type"] == "Joint":
                if ld["dof"] == dof:
                    d = self.kinds[dof]
                    e = m.start[dof].R[:, AX[d[1]]] * v
                    if d[0] == "T":
                        F = F - e
                    else:
                        L = L - e
                continue
            f = self.vector(ld, m, v)
            for at, sign in ((ld["a"], 1), (ld["b"], -1)):
                if at[0] in behind:
                    if ld["type"] == "CmpTorque":
                        L = L - sign * f
                    else:
                        F = F - sign * f
                        L = L - sign * np.cross(m.frame(at).r - P, f)
        return F, L

    def loadvalue(self, ld, m, q, qd, inputs):
        kind, a = ld["value"]
        if kind == "input":
            return inputs[a]
        if kind == "const":
            return [val(x) for x in a] if isinstance(a, list) else val(a)
        if kind == "spring":        # of the distance: -c*(d - l0) - k*dd
            d = self.sensor({"type": "Distance", "a": ld["a"], "b": ld["b"]}, m, q, qd)
            c, l0, k = (val(x) for x in a)
            return -c * (d[0] - l0) - k * d[1]
        if kind == "joint":         # of the joint coordinate
            c, l0, k = (val(x) for x in a)
            return -c * (q[ld["dof"]] - l0) - k * qd[ld["dof"]]
        if kind == "velocity":      # of the relative velocity, in the frame of the load
            what = "AngularVelocity" if ld["type"] == "CmpTorque" else "Velocity"
            # the sensor measures from a to b; the load acts on a
            return val(a) * self.sensor({"type": what, "a": ld["a"], "b": ld["b"], "ref": ld["ref"]}, m, q, qd)
        raise KeyError(kind)

    def sensor(self, s, m, q, qd, inputs=None):
        t = s["type"]
        if t == "Joint":
            return np.array([q[s["dof"]], qd[s["dof"]]])
        if t == "Energy":
            if s["body"] < 0:
                return sum(self.energy(i, m) for i in range(len(self.mass)))
            return self.energy(s["body"], m)
        if t in ("ConstraintForce", "ConstraintTorque"):
            return self.reaction(s["dof"], q, qd, m.qdd, inputs)[t == "ConstraintTorque"]
        if t == "CenterofMass":
            bs = s["bodies"]
            return sum(self.mass[i] * m.cg(i).r for i in bs) / sum(self.mass[i] for i in bs)
        A, B = m.frame(s["a"]), m.frame(s["b"])
        if t == "Distance":
            d = B.r - A.r
            n = np.linalg.norm(d)
            if n < 0.05:
                raise Reject("a distance is zero")
            return np.array([n, d @ (B.v - A.v) / n])
        if t == "Orientation":
            return A.R.T @ B.R
        R = (m.frame(s["ref"]) if s.get("ref") else A).R.T
        return R @ {"Position": lambda: B.r - A.r, "Velocity": lambda: B.v - A.v, "Acceleration": lambda: B.a - A.a,
                    "AngularVelocity": lambda: B.om - A.om, "AngularAcceleration": lambda: B.al - A.al}[t]()

    def energy(self, i, m):
        c = m.cg(i)
        I = c.R @ self.I[i] @ c.R.T
        return self.mass[i] * (0.5 * c.v @ c.v - self.g @ c.r) + 0.5 * c.om @ I @ c.om

    # loops

    def rows(self, q, qd):
        """Jacobian J and bias c of the loops: J qdd + c = 0."""
        units = self.units(q)
        m = self.motion(q, qd)
        J, c = [], []
        for lp in self.desc["loops"]:
            if lp["type"] == "Transmission":
                r = np.zeros(self.n)
                r[lp["j2"]], r[lp["j1"]] = 1, -val(lp["ratio"])
                J.append(r)
                c.append(0.0)
                continue
            for i in range(3):
                J.append([(u.frame(lp["a"]).v - u.frame(lp["b"]).v)[i] for u in units])
                c.append((m.frame(lp["a"]).a - m.frame(lp["b"]).a)[i])
        return np.array(J), np.array(c)

    def gaps(self, q):
        """How far the loops are open."""
        m = self.motion(q, np.zeros(self.n))
        out = []
        for lp in self.desc["loops"]:
            if lp["type"] == "Transmission":
                out.append(np.array([q[lp["j2"]] - val(lp["ratio"]) * q[lp["j1"]]]))
            else:
                out.append(m.frame(lp["a"]).r - m.frame(lp["b"]).r)
        return out

    def closed(self, q, qd, inputs=None, free=None):
        """Accelerations of a system with loops (free: number of independent coordinates)."""
        units = self.units(q)
        M = self.massmatrix(q, units)
        h = self.inverse(q, qd, np.zeros(self.n), units)
        Q = self.loads(q, qd, units, inputs or {})
        J, c = self.rows(q, qd)
        U, s, Vt = np.linalg.svd(J)
        k = self.n - free
        if s[k - 1] < 0.02 or (len(s) > k and s[k] > 1e-6):
            raise Reject("singular position")
        N = Vt[k:].T
        qp = -np.linalg.pinv(J, rcond=1e-6) @ c
        A = N.T @ M @ N
        w = np.linalg.eigvalsh(A)
        if w[0] < 1e-3 * max(1, w[-1]) * 0.1:
            raise Reject("nearly singular")
        qdd = qp + N @ np.linalg.solve(A, N.T @ (Q - h - M @ qp))
        return qdd, (M, h, Q, J, c, np.linalg.inv(A))

    def forward(self, q, qd, inputs=None):
        units = self.units(q)
        M = self.massmatrix(q, units)
        h = self.inverse(q, qd, np.zeros(self.n), units)
        Q = self.loads(q, qd, units, inputs or {})
        w = np.linalg.eigvalsh(M)
        if w[0] < 1e-3 * max(1, w[-1]) * 0.1:
            raise Reject("nearly singular")
        return np.linalg.solve(M, Q - h), M, h, Q


# ---------------------------------------------------------------- construction

class Model:
    """The system, built through the public interface."""

    def __init__(self, desc, names=None, addinput=None, stepwise=False, shared=False):
        self.shared = {} if shared else None        # equal lists are one object
        self.steps = self.build(desc, addinput)
        if not stepwise:
            for _ in self.steps:
                pass

    def build(self, desc, addinput):
        from pymbs.input import MbsSystem
        import pymbs.symbolics as S
        from pymbs.common import functions as F
        self.S, self.F = S, F
        self.desc = desc
        self.addinput = addinput or (lambda world, a, shape: world.addInput(a, shape))
        self.npar = 0
        self.world = w = MbsSystem(list(desc["g"]))
        nb = len(desc["bodies"])
        order = desc.get("order", [0, 0])
        self.bodies = [None] * nb
        for i in permutation(nb, order[0]):
            self.bodies[i] = self.newbody(desc["bodies"][i])
            yield
        self.frames = []
        for f in desc["frames"]:
            self.frames.append(self.newframe(f))
            yield
        joints = [None] * nb
        for i in permutation(nb, order[1]):
            b = desc["bodies"][i]
            j = self.newjoint(b, self.at((b["par"], b["pf"])), self.at((i, b["cf"])))
            joints[i] = [] if not b["dofs"] else j if isinstance(j, list) else [j]
            yield
        self.joints = sum(joints, [])
        self.inputs = {}
        self.jsens = {}
        for s in desc["sensors"]:
            self.addsensor(s)
            yield
        for ld in desc["loads"]:
            self.addload(ld)
            yield
        for lp in desc["loops"]:
            self.addloop(lp)
            yield

    def newbody(self, b):
        return self.world.addBody(mass=self.n(b["m"]), cg=self.list([self.n(x) for x in b["cg"]]),
                                  inertia=self.list(self.inertia(b)), name=b["name"])

    def newframe(self, f):
        base = self.frames[f["base"]] if f["base"] >= 0 else self.at((f["body"], -1))
        return base.addFrame(f["name"], p=self.list([self.n(x) for x in f["p"]]), R=self.rot(f["R"]))

    def newjoint(self, b, A, C):
        return self.world.addJoint(A, C, self.list(b["dofs"]), startVals=self.list(b["q0"]),
                                   startVals_d=self.list(b["qd0"]), name=b.get("joint", "j_" + b["name"]))

    def n(self, x):
        if isinstance(x, dict):
            v = x["p"]
            if x.get("d"):
                v = self.n({"p": v / x["d"]}) * x["d"]
            self.npar += 1
            return self.world.addParam("par_%d" % self.npar, v)
        return x

    def list(self, v):
        if self.shared is None:
            return list(v)
        return self.shared.setdefault(repr(v), list(v))

    def changed(self):
        """A list that is not any more what it was when it was given to the library."""
        return [(k, v) for k, v in (self.shared or {}).items() if repr(v) != k]

    def inertia(self, b):
        v = [self.n(x) for x in b["I"]]
        if b.get("I6"):
            return v
        return [[v[0], v[1], v[3]], [v[1], v[2], v[4]], [v[3], v[4], v[5]]]

    def rot(self, spec):
        if not spec:
            return self.S.eye(3)
        R = None
        for axis, (kind, a) in spec:
            if kind == "d":
                T = self.S.Matrix([[int(x) for x in row] for row in
                                   rot(axis, [1, 0, -1, 0][a % 4], [0, 1, 0, -1][a % 4])])
            else:
                T = self.F.transpose(self.F.rot_mat(self.n(a), axis))
            R = T if R is None else R * T
        return R

    def at(self, at):
        body, f = at
        if f >= 0:
            return self.frames[f]
        return self.world if body < 0 else self.bodies[body]

    def addsensor(self, s):
        A, t, n = self.world.addSensor, s["type"], s["name"]
        if t == "Joint":
            self.jsens[s["dof"]] = v = A.Joint(n, self.joints[s["dof"]], name=n)
            return v
        if t in ("ConstraintForce", "ConstraintTorque"):
            return getattr(A, t)(n, self.joints[s["dof"]], name=n)
        if t == "Energy":
            return A.Energy(n, self.bodies[s["body"]] if s["body"] >= 0 else self.world, name=n)
        if t == "CenterofMass":
            return A.CenterofMass(n, [self.bodies[i] for i in s["bodies"]], name=n)
        kw = {"name": n}
        if t not in ("Distance", "Orientation") and s.get("ref"):
            kw["CSref"] = self.at(s["ref"])
        return getattr(A, t)(n, self.at(s["a"]), self.at(s["b"]), **kw)

    def addload(self, ld):
        w, n = self.world, ld["name"]
        kind, a = ld["value"]
        vector = ld["type"] in ("CmpForce", "CmpTorque")
        if kind == "input":
            if a not in self.inputs:
                self.inputs[a] = self.addinput(w, a, (3,) if vector else None)
            sym = self.inputs[a]
        elif kind == "const":
            sym = [self.n(x) for x in a] if vector else w.addExpression("e_" + n, self.n(a))
        elif kind == "spring":
            d = w.addSensor.Distance("s_" + n, self.at(ld["a"]), self.at(ld["b"]), name="s_" + n)
            c, l0, k = (self.n(x) for x in a)
            sym = w.addExpression("e_" + n, -c * (d[0] - l0) - k * d[1])
        elif kind == "joint":
            if ld["dof"] not in self.jsens:
                self.jsens[ld["dof"]] = w.addSensor.Joint("s_" + n, self.joints[ld["dof"]], name="s_" + n)
            d = self.jsens[ld["dof"]]
            c, l0, k = (self.n(x) for x in a)
            sym = w.addExpression("e_" + n, -c * (d[0] - l0) - k * d[1])
        else:
            what = w.addSensor.AngularVelocity if ld["type"] == "CmpTorque" else w.addSensor.Velocity
            kw = {"CSref": self.at(ld["ref"])} if ld["ref"] else {}
            v = what("s_" + n, self.at(ld["a"]), self.at(ld["b"]), name="s_" + n, **kw)
            sym = w.addExpression("e_" + n, self.n(a) * v)
        if ld["type"] == "Joint":
            w.addLoad.Joint(sym, self.joints[ld["dof"]], name=n)
        elif ld["type"] == "PtPForce":
            w.addLoad.PtPForce(sym, self.at(ld["a"]), self.at(ld["b"]), name=n)
        else:
            kw = {"CSref": self.at(ld["ref"])} if ld["ref"] else {}
            getattr(w.addLoad, ld["type"])(sym, self.at(ld["a"]), self.at(ld["b"]), name=n, **kw)

    def addloop(self, lp):
        A, t = self.world.addLoop, lp["type"]
        if t == "Transmission":
            return A.Transmission(self.joints[lp["j1"]], self.joints[lp["j2"]], lp["ratio"], lp["name"])
        args = [self.at(lp["a"]), self.at(lp["b"])]
        if lp.get("swap"):
            args.reverse()
        if t in ("FourBar",):
            args.append(lp["posture"])
        if t == "Steering":
            args += [lp["h"], lp["s"]]
        return getattr(A, t)(*args, name=lp["name"])

    def equations(self, mode, **kw):
        ok = getattr(self.world.genEquations, mode)(**kw)
        # the joint coordinates in the order of the state vector
        st = [str(x) for x in self.world.state.q]
        co = [str(j.coord) for j in self.joints]
        self.independent = [k for k, c in enumerate(co) if c in st]
        self.order = [co.index(x) for x in st]
        return ok

    def python(self):
        """The generated Python model as a function (y, inputs, time) -> (dy, sensors)."""
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            self.world.genCode.Python(NAME, d)
            mods = {}
            self.text = {}
            for what in ("sensors", "der_state"):
                fn = os.path.join(d, "%s_%s.py" % (NAME, what))
                if not os.path.exists(fn):
                    mods[what] = None
                    continue
                self.text[what] = t = open(fn, encoding="latin-1").read()
                m = mods[what] = types.ModuleType("%s_%s" % (NAME, what))
                sys.modules[m.__name__] = m
                exec(compile(t, fn, "exec"), m.__dict__)
        finally:
            shutil.rmtree(d)

        def call(y, inputs=None, time=0.0):
            out = []
            for m in mods.values():         # the one calls the other
                f = getattr(m, NAME + "_setInputs", None) if m else None
                if f and inputs:
                    f({k: (np.matrix(v, dtype=float).reshape(-1, 1) if np.ndim(v) else v) for k, v in inputs.items()})
            for what in ("der_state", "sensors"):
                m = mods[what]
                if m is None:
                    out.append({} if what == "sensors" else None)
                    continue
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    try:
                        out.append(getattr(m, "%s_%s" % (NAME, what))(time, y))
                    except np.linalg.LinAlgError:
                        out.append(None)
            return out
        return call

    def state(self, q, qd):
        return np.concatenate([np.asarray(q)[self.order], np.asarray(qd)[self.order]])


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
