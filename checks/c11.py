"""C11: formulations and options do not change what is generated."""
import numpy as np
from hypothesis import strategies as st

from pv import mbs as B, mbrun as R
from pv.core import Aspect, Check, Reject, Violation

KIN = ("Position", "Orientation", "Velocity", "AngularVelocity", "Distance", "CenterofMass", "Joint")
DYN = tuple(t for t in B.SENSORS if not t.startswith("Constraint"))
EXTRA = [{"simplify": True}, {"graphOptimizations": True}, {"graphOptimizations": False}, {"simplify": True, "graphOptimizations": True}]


def case(strategy, modes, variants):
    # the first model is the plain one; the others differ from it
    def others(first):
        v = [(m, o) for m in modes for o in variants if (m, o) != (first, {})] or [(first, {})]
        return st.lists(st.sampled_from(v), min_size=1, max_size=2, unique_by=str)
    return st.sampled_from(modes).flatmap(lambda f: st.fixed_dictionaries(
        {"desc": strategy, "first": st.just(f), "others": others(f)}))


def build(desc, mode, opts):
    with B.quiet():
        m = B.Model(desc)
        m.equations(mode, **opts)
        return m, m.python()


def values(m, f, q, qd, inp, kin=False):
    """{name: values} at one state; derivatives by coordinate."""
    yd, s = f(m.state(q, qd), inp)
    if yd is None:
        return None
    k = len(yd) // 2
    yd = np.asarray(yd, float)
    out = {"qd%d" % c: yd[i] for i, c in enumerate(m.order)}
    if not kin:
        out.update({"qdd%d" % c: yd[k + i] for i, c in enumerate(m.order)})
    for sd in m.desc["sensors"]:
        v = R.value(sd, s)
        if v is None:
            raise Violation("no value of sensor %s, only of %s" % (sd, sorted(s)))
        v = R.flat(v)
        out["sensor " + sd["name"]] = v[:2] if sd["type"] == "Joint" else v
    return out


def turned(desc, v, w):
    """A dependent angle lies where it jumps by a full turn (rounding decides)."""
    for s in desc["sensors"]:
        if s["type"] == "Joint" and desc["loops"]:
            n = "sensor " + s["name"]
            d = (v[n][0] - w[n][0]) / (2 * np.pi)
            if round(d) and abs(d - round(d)) < 1e-6:
                return True
    return False


def compare(desc, first, others, pts, kin=False, degenerate=None):
    m, f = build(desc, first, {})
    tags = {first}
    ref = []
    for k, (q, qd) in enumerate(pts):
        inp = B.inputvalues(desc, k % 2)
        ref.append((q, qd, inp, values(m, f, q, qd, inp)))
    compared = 0
    for mode, opts in others:
        m2, f2 = build(desc, mode, opts)
        if sorted(m2.order) != sorted(m.order):
            raise Violation("the state has the coordinates %s with %s, %s with %s%s" % (m.order, first, m2.order, mode, opts))
        tags.add(mode)
        for q, qd, inp, w in ref:
            if w is None or not all(np.all(np.isfinite(x)) for x in w.values()):
                continue
            if degenerate and degenerate(q, qd):
                continue
            v = values(m2, f2, q, qd, inp, kin)
            if v is None:
                raise Violation("%s%s has no solution at %s, %s, %s has one" % (mode, opts, q, qd, first))
            if turned(desc, v, w):
                tags.add("angle differs by a full turn")
                continue
            big = max([1.0] + [abs(x).max() for n, x in w.items() if np.size(x) and not n.startswith("sensor")])
            for n in v:
                if not R.close(v[n], w[n], 1e-7, big):
                    raise Violation("%s is %s with %s, %s with %s%s at q=%s, qd=%s" % (n, w[n], first, v[n], mode, opts, q, qd))
            compared += 1
    if not compared:
        raise Reject("nothing to compare")
    return tags


def fine(desc, q):
    """Masses well conditioned, no vanishing distances."""
    T = B.Tree(desc)
    w = np.linalg.eigvalsh(T.massmatrix(q, T.units(q)))
    return w[0] > 1e-3 * max(1, w[-1]) * 0.1


def trees(c):
    desc = c["desc"]
    if sum(1 for s in desc["sensors"] if s["type"] == "Energy" and s["body"] < 0) > 1:
        raise Reject("two sensors of the energy of the whole system")
    T, ref = R.reference(desc, 2)           # rejects what is degenerate
    tags = compare(desc, c["first"], c["others"], [(r[0], r[1]) for r in ref])
    if T.n >= 2 and (desc["sensors"] or desc["loads"]):
        tags.add("nontrivial")
    return tags


def kinematics(c):
    desc = c["desc"]
    others = [(m, dict(o, kinematicsOnly=True)) for m, o in c["others"]]
    T, ref = R.reference(desc, 2)
    tags = compare(desc, c["first"], others, [(r[0], r[1]) for r in ref], kin=True)
    if T.n >= 2 and desc["sensors"]:
        tags.add("nontrivial")
    return tags


def jointsensors(desc):
    n = sum(len(b["dofs"]) for b in desc["bodies"])
    return dict(desc, sensors=[s for s in desc["sensors"] if s["type"] != "Joint"] + [{"name": "jq%d" % i, "type": "Joint", "dof": i} for i in range(n)])


def mech(c, kin):
    desc = jointsensors(c["desc"])
    others = [(m, dict(o, kinematicsOnly=True) if kin else o) for m, o in c["others"]]
    T = B.Tree(desc)
    n = T.n
    # positions: dependent coordinates as the first model computes them
    m, f = build(desc, c["first"], {})
    pts = []
    for k, (q0, qd0) in enumerate(B.points(desc, 3)):
        yd, s = f(m.state(q0, qd0), B.inputvalues(desc, k % 2))
        if yd is None:
            continue
        J = np.array([R.flat(s["jq%d" % i])[:2] for i in range(n)])
        if not np.all(np.isfinite(J)):
            continue
        try:
            T.closed(J[:, 0], J[:, 1], B.inputvalues(desc, k % 2), len(m.independent))
            for sd in desc["sensors"]:
                T.sensor(sd, T.motion(J[:, 0], J[:, 1]), J[:, 0], J[:, 1], B.inputvalues(desc, k % 2))
        except Reject:
            continue
        pts.append((k, q0, qd0))
    if not pts:
        raise Reject("no regular position")
    tags = compare(desc, c["first"], others, [(a, b) for _, a, b in pts], kin=kin)
    tags.add("nontrivial")
    tags |= {lp["type"] for lp in desc["loops"]}
    return tags


ALL = ["Explicit", "Recursive", "OrderN"]
TWO = ["Explicit", "Recursive"]
KINPAIRS = ("Position", "Orientation", "Velocity", "AngularVelocity")
CHECK = Check(
    "C11",
    [Aspect("small", case(B.systems(bodies=(1, 3), dofs=(1, 4), loads=(0, 3), sensors=(1, 4), sensortypes=DYN), ALL,
                          [{}] + EXTRA), trees, 500),
     Aspect("large", case(B.systems(bodies=(4, 9), dofs=(5, 10), perjoint=(1, 3), loads=(0, 3), sensors=(0, 3), sensortypes=DYN),
                          ["Recursive", "OrderN"], [{}, {}, {"graphOptimizations": True}]), trees, 200),
     Aspect("kinematics", case(B.systems(bodies=(1, 4), dofs=(1, 5), loads=(0, 0), sensors=(1, 4), sensortypes=KIN), ALL,
                               [{}] + EXTRA), kinematics, 400),
     Aspect("mechanisms", case(B.mechanisms(loads=(0, 1), sensors=(0, 2), sensortypes=DYN[:8], count=(1, 1), params=0.1), TWO,
                               [{}]), lambda c: mech(c, False), 60),
     Aspect("optimised", case(B.mechanisms(loads=(0, 2), sensors=(0, 2), sensortypes=DYN[:8], count=(1, 2), params=0.1),
                              ["Recursive"], EXTRA), lambda c: mech(c, False), 120),
     Aspect("kinmech", case(B.mechanisms(loads=(0, 0), sensors=(1, 3), sensortypes=KINPAIRS, count=(1, 2), params=0.1),
                            ["Recursive"], [{}] + EXTRA), lambda c: mech(c, True), 120),
     Aspect("kinexpl", case(B.mechanisms(loads=(0, 0), sensors=(1, 3), sensortypes=KINPAIRS, count=(1, 1), params=0.1),
                            ["Explicit"], [{}]), lambda c: mech(c, True), 60)],
    rule="the same random system generated in two to four ways, compared at two or three states; non-trivial: two or more degrees "
         "of freedom with loads or sensors, or a mechanism")
