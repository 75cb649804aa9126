"""C10: equations of motion of trees of rigid bodies."""
import numpy as np
from hypothesis import strategies as st

from pv import mbs as B, mbrun as R
from pv.core import Aspect, Check


def case(modes, **kw):
    return st.fixed_dictionaries({"desc": B.trees(**kw), "mode": st.sampled_from(modes),
                                  "opts": st.sampled_from(R.OPTS)})


def run(c):
    m, ref, T = R.check(c["desc"], c["mode"], c["opts"])
    tags = {c["mode"], "%d dofs" % T.n}
    if c["opts"]:
        tags.add("options")
    q, qd, _, qdd, _, _, r = ref[0]
    g0 = B.Tree(dict(c["desc"], g=[0, 0, 0]))
    u = T.units(q)
    h = g0.inverse(q, qd, np.zeros(T.n), u)
    if T.n >= 2 and abs(h).max() > 1e-9:
        tags.add("nontrivial")
    if any(abs(r[1][i, j]) > 1e-9 for i in range(T.n) for j in range(i)):
        tags.add("coupled")
    return tags


ALL = ["Explicit", "Recursive", "OrderN"]
CHECK = Check(
    "C10",
    [Aspect("explicit", case(["Explicit"], bodies=(1, 3), dofs=(2, 4)), run, 1500),
     Aspect("recursive", case(["Recursive"], bodies=(1, 4), dofs=(2, 6)), run, 1800),
     Aspect("ordern", case(["OrderN"], bodies=(1, 4), dofs=(2, 6)), run, 700),
     Aspect("chains", case(["Recursive", "OrderN"], bodies=(3, 6), dofs=(3, 8), perjoint=(1, 2), params=0.0), run, 400),
     Aspect("joint", case(ALL, bodies=(1, 1), dofs=(1, 6), perjoint=(2, 6), frames=(0, 2)), run, 600)],
    rule="random trees of rigid bodies with random frames, joints of several elementary movements, masses, inertias and "
         "gravity, evaluated at three states; non-trivial: at least two degrees of freedom and forces that depend on the "
         "velocities")
