"""C16: balances and symmetries of mechanics, from what the generated model itself says."""
import math

import numpy as np
from hypothesis import strategies as st

from pv import mbs as B, mbrun as R
from pv.core import Aspect, Check, Reject, Violation

ALL = ["Explicit", "Recursive", "Recursive", "OrderN"]
TWO = ["Explicit", "Recursive", "Recursive"]
KINDOF = {"PtPForce": "Distance", "CmpForce": "Velocity", "CmpTorque": "AngularVelocity"}


def case(strategy, modes):
    return st.fixed_dictionaries({"desc": strategy, "mode": st.sampled_from(modes), "opts": st.sampled_from(R.OPTS[:4]),
                                  "seed": st.integers(0, 10 ** 6)})


def build(desc, mode, opts):
    with B.quiet():
        m = B.Model(desc)
        m.equations(mode, **opts)
        return m, m.python()


def regular(desc, n=2):
    """States (q, qd, inputs) at which everything is defined."""
    T = B.Tree(desc)
    out, err = [], Reject("no regular state")
    for k, (q, qd) in enumerate(B.points(desc, n)):
        inp = B.inputvalues(desc, k % 2)
        try:
            r = T.forward(q, qd, inp)
            mo = T.motion(q, qd, r[0])
            for s in desc["sensors"]:
                T.sensor(s, mo, q, qd, inp)
            out.append((q, qd, inp))
        except Reject as e:
            err = e
    if not out:
        raise err
    return T, out


# ---------------------------------------------------------------- energy

def metered(desc, joints):
    """With the energy of the whole system and the quantities conjugate to the loads."""
    s = [{"name": "E", "type": "Energy", "body": -1}]
    for ld in desc["loads"]:
        if ld["type"] in KINDOF:
            ref = ld["ref"] if ld["type"] != "PtPForce" else None
            s.append({"name": "w_" + ld["name"], "type": KINDOF[ld["type"]], "a": ld["a"], "b": ld["b"], "ref": ref})
    return dict(desc, sensors=s)


def power(desc, sens, q, qd, inp):
    p = 0.0
    for ld in desc["loads"]:
        kind, a = ld["value"]
        w = R.flat(sens["w_" + ld["name"]]) if ld["type"] in KINDOF else np.array([q[ld["dof"]], qd[ld["dof"]]])
        if kind == "input":
            v = inp[a]
        elif kind == "const":
            v = [B.val(x) for x in a] if isinstance(a, list) else B.val(a)
        elif kind == "velocity":
            v = B.val(a) * w
        else:
            c, l0, k = (B.val(x) for x in a)
            x, xd = R.flat(sens["s_" + ld["name"]])[:2] if kind == "spring" else (q[ld["dof"]], qd[ld["dof"]])
            v = -c * (x - l0) - k * xd
        if ld["type"] in ("CmpForce", "CmpTorque"):
            p -= R.flat(v) @ w
        else:
            p += v * w[1]
    return p


def along(f, y, yd, inp, h):
    a, b = f(y + h * yd, inp)[1], f(y - h * yd, inp)[1]
    return (float(a["E"]) - float(b["E"])) / (2 * h)


def balance(desc, where, f, y, q, qd, inp, joints=None):
    """False where finite differences are too coarse to tell."""
    yd, s = f(y, inp)
    if yd is None:
        raise Violation("%s: no accelerations" % where)
    yd = np.asarray(yd, float)
    P = power(desc, s, q, qd, inp)
    size = 1 + abs(yd).max()
    h = 1e-4 / size
    d1, d2 = along(f, y, yd, inp, h), along(f, y, yd, inp, h / 2)
    best = (4 * d2 - d1) / 3
    err = abs(best - d2) + 1e-15 * abs(float(s["E"])) / h * 4
    scale = 1 + abs(float(s["E"])) + abs(P) + abs(best)
    if not np.isfinite(best) or err > 1e-4 * scale:
        return False
    if abs(best - P) > 1e-6 * scale * size + 10 * err:
        raise Violation("%s: the energy changes by %s per unit of time, the power of the loads is %s" % (where, best, P))
    return True


def energy(c):
    desc = metered(c["desc"], True)
    T, pts = regular(desc)
    m, f = build(desc, c["mode"], c["opts"])
    ok = 0
    for q, qd, inp in pts:
        ok += balance(desc, "%s%s at q=%s, qd=%s" % (c["mode"], c["opts"] or "", q, qd), f, m.state(q, qd), q, qd, inp)
    if not ok:
        raise Reject("too stiff for differences")
    return {c["mode"], "loads" if desc["loads"] else "free"} | ({"nontrivial"} if T.n >= 2 else set())


def mechanisms(c):
    base = metered(c["desc"], False)
    T = B.Tree(base)
    n = T.n
    desc = dict(base, sensors=base["sensors"] + [{"name": "jq%d" % i, "type": "Joint", "dof": i} for i in range(n)])
    m, f = build(desc, c["mode"], c["opts"])
    ok = 0
    for k, (q0, qd0) in enumerate(B.points(desc, 3)):
        inp = B.inputvalues(desc, k % 2)
        y = m.state(q0, qd0)
        yd, s = f(y, inp)
        if yd is None:
            continue
        J = np.array([R.flat(s["jq%d" % i])[:2] for i in range(n)])
        if not np.all(np.isfinite(J)):
            continue
        q, qd = J[:, 0], J[:, 1]
        try:
            T.closed(q, qd, inp, len(m.independent))
            mo = T.motion(q, qd)
            for sd in base["sensors"]:
                T.sensor(sd, mo, q, qd, inp)
        except Reject:
            continue
        # the dependent coordinates must not jump nearby
        ok += balance(desc, "%s%s at %s" % (c["mode"], c["opts"] or "", list(y)), f, y, q, qd, inp)
    if not ok:
        raise Reject("no regular state")
    return {c["mode"], "nontrivial"} | {lp["type"] for lp in desc["loops"]}


def rk4(f, y, inp, h):
    k1 = np.asarray(f(y, inp)[0], float)
    k2 = np.asarray(f(y + h / 2 * k1, inp)[0], float)
    k3 = np.asarray(f(y + h / 2 * k2, inp)[0], float)
    k4 = np.asarray(f(y + h * k3, inp)[0], float)
    return y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


def history(c):
    """A conservative system over time: the energy stays; going back with reversed velocities leads to the start."""
    desc = dict(c["desc"], sensors=[{"name": "E", "type": "Energy", "body": -1}])
    T, pts = regular(desc, 1)
    m, f = build(desc, c["mode"], c["opts"])
    q, qd, inp = pts[0]
    k = T.n

    def run(y, n, t):
        out = [y]
        for _ in range(n):
            y = rk4(f, y, inp, t / n)
            if not np.all(np.isfinite(y)) or abs(y).max() > 50:
                raise Reject("too fast")
            out.append(y)
        return out
    t = 0.4
    y0 = m.state(q, qd)
    coarse, fine = run(y0, 40, t), run(y0, 80, t)
    err = abs(coarse[-1] - fine[-1]).max()
    if not err < 1e-5:
        raise Reject("too coarse")
    E = [float(f(y, inp)[1]["E"]) for y in fine]
    scale = 1 + max(abs(e) for e in E)
    if max(E) - min(E) > (1e-5 + 100 * err) * scale:
        raise Violation("%s%s: without loads the energy varies from %s to %s" % (c["mode"], c["opts"] or "", min(E), max(E)))
    y = fine[-1].copy()
    y[k:] *= -1
    z = run(y, 80, t)[-1]
    z[k:] *= -1
    if not R.close(z, y0, 1e-5 + 100 * err):
        raise Violation("%s%s: the way back leads from %s to %s instead of %s" % (c["mode"], c["opts"] or "", fine[-1], z, y0))
    return {c["mode"]} | ({"nontrivial"} if k >= 2 else set())


# ---------------------------------------------------------------- momentum

def freed(desc):
    """The first body floats, all loads are internal."""
    bodies = [dict(b) for b in desc["bodies"]]
    r = [d for d in bodies[0]["dofs"] if d[0] == "R"]
    bodies[0].update(dofs=["Tx", "Ty", "Tz"] + r[:1], pf=-1, q0=[0.1, 0.2, 0.3, 0.4][:3 + len(r[:1])],
                     qd0=[0.0] * (3 + len(r[:1])))
    for b in bodies[1:]:
        if b["par"] < 0:
            b["par"], b["pf"] = 0, -1
    loads = [ld for ld in desc["loads"] if ld["type"] != "Joint" and ld["a"][0] >= 0 and ld["b"][0] >= 0]
    loads = [dict(ld, value=ld["value"] if ld["value"][0] != "joint" else ["const", 2.5]) for ld in loads]
    return dict(desc, bodies=bodies, loads=loads,
                sensors=[{"name": "S", "type": "CenterofMass", "bodies": list(range(len(bodies)))}])


def momentum(c):
    desc = freed(c["desc"])
    T, pts = regular(desc)
    m, f = build(desc, c["mode"], c["opts"])
    ok = 0
    for q, qd, inp in pts:
        y = m.state(q, qd)
        yd = f(y, inp)[0]
        if yd is None:
            raise Violation("no accelerations")
        size = 1 + abs(np.asarray(yd, float)).max()
        res = []
        for h in (4e-3 / size, 2e-3 / size):
            r = [R.flat(f(x, inp)[1]["S_r"]) for x in (rk4(f, y, inp, h), y, rk4(f, y, inp, -h))]
            res.append((r[0] - 2 * r[1] + r[2]) / h ** 2)
        a = (4 * res[1] - res[0]) / 3
        err = abs(res[1] - a).max() + 1e-15 * abs(r[1]).max() / h ** 2 * 8
        g = T.g
        if not np.all(np.isfinite(a)) or err > 1e-2 * (10 + abs(g).max()):
            continue
        if abs(a - g).max() > 10 * err + 1e-5 * (10 + abs(a).max()):
            raise Violation("%s%s: the centre of mass of a free system accelerates with %s, gravity is %s (q=%s, qd=%s)"
                            % (c["mode"], c["opts"] or "", a, g, q, qd))
        ok += 1
    if not ok:
        raise Reject("too stiff for differences")
    return {c["mode"]} | ({"nontrivial"} if T.n >= 4 else set()) | ({"loads"} if desc["loads"] else set())


# ---------------------------------------------------------------- symmetries

def times(x, k):
    return {"p": x["p"] * k} if isinstance(x, dict) else x * k


def scaled(desc, M, L):
    """Masses times M, lengths times L, times times sqrt(L) (the gravity stays)."""
    TT = math.sqrt(L)
    kinds = [d for b in desc["bodies"] for d in b["dofs"]]
    F, Q = M, M * L                     # forces M*L/T^2, torques M*L^2/T^2

    def vec(v, k):
        return [times(x, k) for x in v]
    out = dict(desc)
    out["bodies"] = [dict(b, m=times(b["m"], M), cg=vec(b["cg"], L), I=vec(b["I"], M * L * L),
                          q0=[x * (L if d[0] == "T" else 1) for d, x in zip(b["dofs"], b["q0"])]) for b in desc["bodies"]]
    out["frames"] = [dict(f, p=vec(f["p"], L)) for f in desc["frames"]]
    out["loads"] = []
    for ld in desc["loads"]:
        kind, a = ld["value"]
        torque = ld["type"] == "CmpTorque" or (ld["type"] == "Joint" and kinds[ld["dof"]][0] == "R")
        k = Q if torque else F
        if kind == "input":
            pass
        elif kind == "const":
            a = vec(a, k) if isinstance(a, list) else times(a, k)
        elif kind == "velocity":
            a = times(a, k / ((1 if ld["type"] == "CmpTorque" else L) / TT))
        else:
            x = L if kind == "spring" or kinds[ld["dof"]][0] == "T" else 1
            a = [times(a[0], k / x), times(a[1], x), times(a[2], k / x * TT)]
        out["loads"].append(dict(ld, value=[kind, a]))
    return out


def inputfactors(desc, M, L):
    kinds = [d for b in desc["bodies"] for d in b["dofs"]]
    out = {}
    for ld in desc["loads"]:
        if ld["value"][0] == "input":
            torque = ld["type"] == "CmpTorque" or (ld["type"] == "Joint" and kinds[ld["dof"]][0] == "R")
            k = M * L if torque else M
            if out.setdefault(ld["value"][1], k) != k:
                raise Reject("an input is a force and a torque")
    return out


DIM = {"Position": "L", "Velocity": "V", "Acceleration": "A", "AngularVelocity": "1/T", "AngularAcceleration": "1/T2",
       "Orientation": "1", "Energy": "E", "CenterofMass": "L"}


def similar(c):
    desc = c["desc"]
    if sum(1 for s in desc["sensors"] if s["type"] == "Energy" and s["body"] < 0) > 1:
        raise Reject("two sensors of the energy of the whole system")
    M = [0.5, 2.0, 3.0][c["seed"] % 3]
    L = [0.25, 4.0, 2.0, 1.0][c["seed"] // 3 % 4]
    factors = inputfactors(desc, M, L)
    T, pts = regular(desc)
    big = scaled(desc, M, L)
    m, f = build(desc, c["mode"], c["opts"])
    m2, f2 = build(big, c["mode"], c["opts"])
    TT = math.sqrt(L)
    k = T.n
    x = np.array([L if d[0] == "T" else 1.0 for d in T.kinds])
    unit = {"L": L, "V": L / TT, "A": 1.0, "1/T": 1 / TT, "1/T2": 1 / L, "1": 1.0, "E": M * L}
    for q, qd, inp in pts:
        inp2 = {n: np.asarray(v) * factors.get(n, 1.0) if np.ndim(v) else v * factors.get(n, 1.0) for n, v in inp.items()}
        yd, s = f(m.state(q, qd), inp)
        zd, t = f2(m2.state(q * x, qd * x / TT), inp2)
        if yd is None or zd is None:
            raise Violation("no accelerations")
        a = np.zeros(k)
        b = np.zeros(k)
        a[m.order], b[m2.order] = np.asarray(yd, float)[k:], np.asarray(zd, float)[k:]
        w = a * x / L
        where = "%s%s: masses times %s, lengths times %s at q=%s, qd=%s" % (c["mode"], c["opts"] or "", M, L, q, qd)
        if not R.close(b, w, 1e-7, abs(a).max() * 10):
            raise Violation("%s: accelerations %s, by similarity %s" % (where, b, w))
        for sd in desc["sensors"]:
            v, r = R.flat(R.value(sd, t)), R.flat(R.value(sd, s))
            if sd["type"] == "Distance":
                r = r * [L, L / TT]
            elif sd["type"] == "Joint":
                e = x[sd["dof"]]
                v, r = v[:2], r[:2] * [e, e / TT]
            else:
                r = r * unit[DIM[sd["type"]]]
            if not R.close(v, r, 1e-7, abs(a).max() * 10):
                raise Violation("%s: sensor %s is %s, by similarity %s" % (where, sd, v, r))
    return {c["mode"]} | ({"nontrivial"} if k >= 2 and (desc["loads"] or desc["sensors"]) else set())


def reverse(c):
    """With reversed velocities: the same accelerations, unless loads depend on velocities."""
    desc = c["desc"]
    T, pts = regular(desc)
    m, f = build(desc, c["mode"], c["opts"])
    sign = {"Velocity": -1, "AngularVelocity": -1}
    for q, qd, inp in pts:
        yd, s = f(m.state(q, qd), inp)
        zd, t = f(m.state(q, -qd), inp)
        if yd is None or zd is None:
            raise Violation("no accelerations")
        k = T.n
        a, b = np.asarray(yd, float)[k:], np.asarray(zd, float)[k:]
        where = "%s%s at q=%s, qd=%s" % (c["mode"], c["opts"] or "", q, qd)
        if not R.close(b, a, 1e-8, abs(a).max() * 10):
            raise Violation("%s: accelerations %s, with reversed velocities %s" % (where, a, b))
        for sd in desc["sensors"]:
            v, r = R.flat(R.value(sd, t)), R.flat(R.value(sd, s))
            r = r * [1, -1] if sd["type"] == "Distance" else r * sign.get(sd["type"], 1)
            if not R.close(v, r, 1e-8, abs(a).max() * 10):
                raise Violation("%s: sensor %s is %s, with reversed velocities %s" % (where, sd, r, v))
    return {c["mode"]} | ({"nontrivial"} if T.n >= 2 else set())


def floating(desc):
    d = freed(desc)
    return dict(d, sensors=[s for s in desc["sensors"] if all(s.get(x) is None or s[x][0] >= 0 for x in ("a", "b", "ref"))
                            and s["type"] not in ("CenterofMass", "Energy", "Joint")])


def galilei(c):
    """A free system moves relative to itself as it does, wherever and however fast it moves as a whole."""
    desc = floating(c["desc"])
    T, pts = regular(desc)
    m, f = build(desc, c["mode"], c["opts"])
    r = np.random.RandomState(c["seed"])
    k = T.n
    for q, qd, inp in pts:
        q2, qd2 = q.copy(), qd.copy()
        q2[:3] += r.uniform(-3, 3, 3)
        qd2[:3] += r.uniform(-3, 3, 3)
        yd, s = f(m.state(q, qd), inp)
        zd, t = f(m.state(q2, qd2), inp)
        if yd is None or zd is None:
            raise Violation("no accelerations")
        a, b = np.asarray(yd, float)[k:], np.asarray(zd, float)[k:]
        where = "%s%s at q=%s, qd=%s and q=%s, qd=%s" % (c["mode"], c["opts"] or "", q, qd, q2, qd2)
        if not R.close(b, a, 1e-8, abs(a).max() * 10):
            raise Violation("%s: accelerations %s and %s" % (where, a, b))
        for sd in desc["sensors"]:
            v, w = R.flat(R.value(sd, t)), R.flat(R.value(sd, s))
            if not R.close(v, w, 1e-8, abs(a).max() * 10):
                raise Violation("%s: sensor %s is %s and %s" % (where, sd, w, v))
    return {c["mode"]} | ({"nontrivial"} if len(desc["bodies"]) >= 2 and (desc["sensors"] or desc["loads"]) else set())


NOJOINT = ("PtPForce", "CmpForce", "CmpTorque")
EVEN = ("input", "const")
PAIRS = tuple(B.PAIRED)
CHECK = Check(
    "C16",
    [Aspect("energy", case(B.systems(bodies=(1, 4), dofs=(1, 5), loads=(0, 4), sensors=(0, 0)), ALL), energy, 900),
     Aspect("mechanisms", case(B.mechanisms(count=(1, 1), loads=(0, 2), loadtypes=NOJOINT, params=0.1), TWO), mechanisms, 160),
     Aspect("nested", case(B.mechanisms(count=(2, 2), loads=(0, 2), loadtypes=NOJOINT, params=0.1), ["Recursive"]), mechanisms, 100),
     Aspect("history", case(B.trees(bodies=(1, 3), dofs=(1, 4)), ALL), history, 200),
     Aspect("momentum", case(B.systems(bodies=(1, 4), dofs=(1, 4), loads=(0, 3), sensors=(0, 0)), ALL), momentum, 400),
     Aspect("similar", case(B.systems(bodies=(1, 4), dofs=(1, 5), loads=(0, 4), sensors=(0, 4)), ALL), similar, 500),
     Aspect("reverse", case(B.systems(bodies=(1, 4), dofs=(1, 5), loads=(0, 3), kinds=EVEN, sensors=(0, 4), sensortypes=PAIRS),
                            ALL), reverse, 400),
     Aspect("galilei", case(B.systems(bodies=(1, 4), dofs=(1, 4), loads=(0, 3), sensors=(0, 4)), ALL), galilei, 400)],
    rule="random trees and mechanisms with loads; non-trivial: several degrees of freedom (with loads or sensors, where these "
         "matter) or loops")
