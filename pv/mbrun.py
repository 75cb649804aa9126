"""Decides one multibody system: generated equations against the reference."""
import ast

import numpy as np

from . import mbs as B
from .core import Reject, Violation

OPTS = [{}, {}, {"simplify": True}, {"graphOptimizations": True}, {"graphOptimizations": False},
        {"simplify": True, "graphOptimizations": True}]


def flat(v):
    return np.asarray(v, dtype=float).reshape(-1)


def close(v, w, tol, scale=0.0):
    v, w = flat(v), flat(w)
    if v.shape != w.shape or not np.all(np.isfinite(v)):
        return False
    return v.size == 0 or abs(v - w).max() <= tol * (1 + scale + abs(w).max())


def reference(desc, n=3, ks=(0, 1), tree=B.Tree):
    """[(q, qd, inputs, qdd, motion, sensor values, forward result)] at the points where everything is defined."""
    T = tree(desc)
    out = []
    last = None
    for i, (q, qd) in enumerate(B.points(desc, n)):
        inp = B.inputvalues(desc, i % len(ks))
        try:
            r = T.forward(q, qd, inp)
            m = T.motion(q, qd, r[0])
            out.append((q, qd, inp, r[0], m, [T.sensor(s, m, q, qd, inp) for s in desc["sensors"]], r))
        except Reject as e:
            last = e
    if not out:
        raise last
    return T, out


def value(s, sens):
    n = s["name"]
    return sens.get(n + "_r") if s["type"] == "CenterofMass" else sens.get(n)


def initial(m):
    g = m.world.graph
    out = []
    for n, key in (("q", "q0"), ("qd", "qd0")):
        v = g.getinitVal(g.getVariable(n))
        k = len(m.order)
        v = [v] if k == 1 and not v.shape() else [v[i] for i in range(k)]
        v = [float(ast.literal_eval(str(x))) for x in v]
        want = [x for b in m.desc["bodies"] for x in b[key]]
        out.append((n, v, [want[i] for i in m.order]))
    return out


def check(desc, mode, opts, tol=1e-7, sensors=True, kin=False):
    """Compares; returns the model, the reference points and the tree."""
    T, ref = reference(desc)
    with B.quiet():
        m = B.Model(desc)
        m.equations(mode, **opts)
        if sorted(m.order) != list(range(T.n)):
            raise Violation("the state vector has the coordinates %s of %d joints" % (m.order, T.n))
        f = m.python()
    judge(m, f, ref, T, mode, opts, tol, sensors)
    return m, ref, T


def judge(m, f, ref, T, mode, opts, tol=1e-7, sensors=True):
    desc = m.desc
    for n, v, w in initial(m):
        if not close(v, w, 1e-12):
            raise Violation("the initial value of %s is %s, given as %s" % (n, v, w))
    for q, qd, inp, qdd, mo, sv, r in ref:
        y = m.state(q, qd)
        yd, s = f(y, inp)
        if yd is None:
            raise Violation("a linear problem is singular, but the masses are not")
        want = np.concatenate([qd[m.order], qdd[m.order]])
        scale = abs(np.linalg.inv(r[1])).max() * (abs(r[2]).max() + abs(r[3]).max())
        if not close(yd, want, tol, scale):
            raise Violation("%s%s: the derivatives of the state at q=%s, qd=%s are %s, by the laws of motion %s"
                            % (mode, opts or "", q, qd, list(yd), list(want)))
        if sensors:
            for sd, w in zip(desc["sensors"], sv):
                v = value(sd, s)
                if v is None:
                    raise Violation("no value of sensor %s, only of %s" % (sd, sorted(s)))
                if not close(v, w, tol, scale + (abs(r[2]).max() + abs(r[3]).max())):
                    raise Violation("%s%s: sensor %s at q=%s, qd=%s is %s, by the motion %s"
                                    % (mode, opts or "", sd, q, qd, flat(v), flat(w)))
                if sd["type"] == "CenterofMass":
                    M = s.get(sd["name"] + "_Mass")
                    if not close(M, sum(T.mass[i] for i in sd["bodies"]), 1e-12):
                        raise Violation("the mass of %s is %s" % (sd, M))
