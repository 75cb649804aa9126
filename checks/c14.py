"""C14: loops are closed, and the motion of mechanisms follows the laws of mechanics."""
import numpy as np
from hypothesis import strategies as st

from pv import mbs as B, mbrun as R
from pv.core import Aspect, Check, Reject, Violation

MARGIN = 0.02
SPECIAL = [0.0, 0.5, -0.5, 0.25, 1.0, -0.25]


def case(modes, **kw):
    return st.fixed_dictionaries({"desc": B.mechanisms(**kw), "mode": st.sampled_from(modes),
                                  "opts": st.sampled_from(R.OPTS)})


def margin(T, lp, q):
    """Distance to the positions in which the loop cannot be closed (negative: it cannot); depends on independent
    coordinates only."""
    m = T.motion(q, np.zeros(T.n))
    if lp["type"] == "Transmission":
        return 1.0
    e = "xyz".index(lp["axis"])
    a, b = lp["a"], lp["b"]

    def flat(x, y, body):
        d = m.frame(x).r - m.frame(y).r
        n = m.frame([body, -1]).R[:, e]
        return np.linalg.norm(d - n * (n @ d))

    if lp["type"] == "FourBar":
        l3, l4 = flat(a, [a[0], -1], a[0]), flat(b, [b[0], -1], b[0])
        d = flat([a[0], -1], [b[0], -1], a[0])
        return min(l3 + l4 - d, d - abs(l3 - l4), l3, l4)
    if lp["type"] == "CrankSlider":
        crank, rod = a[0], b[0]
        l1, l2 = flat(a, [crank, -1], crank), flat(b, [rod, -1], rod)
        i = sum(len(x["dofs"]) for x in T.desc["bodies"][:crank])
        return l2 - abs(l1 * np.sin(q[i]))
    if lp["type"] == "ThreeBarTrans":
        return flat(a, [T.desc["bodies"][b[0]]["par"], -1], a[0])
    return flat(a, [T.desc["bodies"][b[0]]["par"], -1], a[0])


def side(T, lp, q):
    """On which side of the line between the fixed points of coupler and rocker the joint between them is."""
    m = T.motion(q, np.zeros(T.n))
    e = "xyz".index(lp["axis"])
    a, b = lp["a"], lp["b"]
    Bp, D, C = m.frame([a[0], -1]).r, m.frame([b[0], -1]).r, m.frame(a).r
    return np.sign(m.frame([a[0], -1]).R[:, e] @ np.cross(D - Bp, C - Bp))


def withjoints(desc):
    return dict(desc, sensors=desc["sensors"] + [{"name": "jq%d" % i, "type": "Joint", "dof": i}
                                                 for i in range(B.dofs(desc))])


def run(c):
    with B.quiet():
        m = B.Model(withjoints(c["desc"]))
        m.equations(c["mode"], **c["opts"])
        f = m.python()
    return judge(c["desc"], m, f, c["mode"], c["opts"])


def judge(desc, m, f, mode, opts):
    T, d = B.Tree(desc), m.desc
    n = T.n
    free = len(m.independent)
    want = n - sum({"Transmission": 1}.get(lp["type"], 2) for lp in desc["loops"])
    if free != want:
        raise Violation("%d of %d coordinates are independent, but %d loops leave %d" % (free, n, len(desc["loops"]), want))
    tags = {mode} | {lp["type"] for lp in desc["loops"]}
    pts = B.points(desc, 3)
    pts += [(np.array([np.pi * SPECIAL[(desc["seed"] + 3 * i + k) % 6] for i in range(n)]), pts[k][1]) for k in range(3)]
    ok = 0
    for k, (q0, qd0) in enumerate(pts):
        inp = B.inputvalues(d, k % 2)
        y = m.state(q0, qd0)
        try:
            yd, s = f(y, inp)
        except ZeroDivisionError:
            if any(x["type"] in ("PtPForce", "Distance") for x in desc["loads"] + desc["sensors"]):
                tags.add("coincident")      # two points in one place: the direction is not defined
                continue
            raise
        if yd is None:
            continue
        J = np.array([R.flat(s["jq%d" % i])[:2] for i in range(n)])
        q, qd = J[:, 0], J[:, 1]
        where = "%s%s at %s" % (mode, opts or "", list(y))
        z = np.where(np.isfinite(q), q, 0.0)
        mg = [margin(T, lp, z) for lp in desc["loops"]]
        if min(mg) < MARGIN and (min(mg) > -MARGIN or not np.all(np.isfinite(q))):
            tags.add("open")
            continue
        if not np.all(np.isfinite(q)):
            raise Violation("%s: the loops can be closed, but the coordinates are %s" % (where, q))
        gap = np.concatenate(T.gaps(q))
        if abs(gap).max() > 1e-7:
            raise Violation("%s: the coordinates %s leave gaps %s" % (where, q, gap))
        for i, lp in enumerate(desc["loops"]):
            if lp["type"] == "FourBar" and side(T, lp, q) != lp["posture"]:
                raise Violation("%s: loop %d is closed in the other posture" % (where, i))
        try:
            qdd, (M, h, Q, JJ, cc, Ai) = T.closed(q, qd, inp, free)
        except Reject:
            tags.add("singular")
            continue
        if not R.close(JJ @ qd, np.zeros(len(JJ)), 1e-7, abs(qd).max()):
            raise Violation("%s: the velocities %s open the loops" % (where, qd))
        want = np.concatenate([qd[m.order], qdd[m.order]])
        scale = abs(want).max() + abs(Ai).max() * (abs(h).max() + abs(Q).max())
        if not R.close(yd, want, 1e-7, scale):
            raise Violation("%s: the derivatives of the state are %s, by the laws of motion %s" % (where, list(yd), list(want)))
        mo = T.motion(q, qd, qdd)
        for i in range(n):
            if not R.close(s["jq%d" % i], [q[i], qd[i], qdd[i]][:R.flat(s["jq%d" % i]).size], 1e-7, scale):
                raise Violation("%s: joint sensor %d is %s, by the motion %s" % (where, i, s["jq%d" % i], (q[i], qd[i], qdd[i])))
        for sd in desc["sensors"]:
            try:
                w = T.sensor(sd, mo, q, qd, inp)
            except Reject:
                continue
            v = R.value(sd, s)
            if v is None or not R.close(v, w, 1e-7, scale + abs(h).max() + abs(Q).max()):
                raise Violation("%s: sensor %s is %s, by the motion %s" % (where, sd, v, w))
        ok += 1
        dep = [i for i in range(n) if i not in m.independent]
        if dep and abs(qd[dep]).max() > 1e-6:
            tags.add("nontrivial")
    if not ok:
        raise Reject("no position in which the loops are closed")
    if len(desc["loops"]) > 1:
        tags.add("several")
    if desc["loads"]:
        tags.add("loads")
    return tags


REC = ["Explicit", "Recursive", "Recursive"]
SENS = tuple(t for t in B.SENSORS if t != "Joint" and not t.startswith("Constraint"))


def one(t, q, **kw):
    return Aspect(t.lower(), case(REC, types=(t,), count=(1, 1), loads=(0, 1), loadtypes=("PtPForce", "Joint"), **kw), run, q)


CHECK = Check(
    "C14",
    [one("FourBar", 250), one("ThreeBarTrans", 250), one("CrankSlider", 250), one("FourBarTrans", 200), one("Transmission", 200),
     Aspect("several", case(["Recursive", "Recursive", "Explicit"], count=(2, 3), params=0.05), run, 150),
     Aspect("loaded", case(["Recursive", "Recursive", "Explicit"], count=(1, 2), loads=(1, 3), sensors=(1, 3),
                           sensortypes=SENS), run, 150)],
    rule="random planar mechanisms (four bars, crank sliders, bars with sliders, transmissions) on the world, on a moving body "
         "or on each other, evaluated at six states; non-trivial: closed, regular and dependent coordinates move")
