"""C12: sensors of trees."""
from hypothesis import strategies as st

from pv import mbs as B, mbrun as R
from pv.core import Aspect, Check, Reject

REACTION = ("ConstraintForce", "ConstraintTorque", "Energy")


def case(modes, **kw):
    return st.fixed_dictionaries({"desc": B.systems(**kw), "mode": st.sampled_from(modes),
                                  "opts": st.sampled_from(R.OPTS)})


def run(c):
    d = c["desc"]
    if sum(1 for s in d["sensors"] if s["type"] == "Energy" and s["body"] < 0) > 1:
        raise Reject("two sensors of the energy of the whole system")
    m, ref, T = R.check(d, c["mode"], c["opts"])
    tags = {c["mode"]}
    for s in d["sensors"]:
        tags.add(s["type"])
        if T.n >= 2 and (s["type"] in REACTION or s["type"] == "CenterofMass" or
                         (s["type"] in B.PAIRED and s["a"][0] != s["b"][0])):
            tags.add("nontrivial")
    return tags


ALL = ["Explicit", "Recursive", "OrderN"]
CHECK = Check(
    "C12",
    [Aspect("explicit", case(["Explicit"], bodies=(1, 3), dofs=(2, 4), sensors=(1, 6), loads=(0, 1)), run, 800),
     Aspect("recursive", case(["Recursive"], bodies=(1, 4), dofs=(2, 6), sensors=(1, 6), loads=(0, 1)), run, 900),
     Aspect("ordern", case(["OrderN"], bodies=(1, 4), dofs=(2, 6), sensors=(1, 6), loads=(0, 1)), run, 500),
     Aspect("reaction", case(["Recursive"], bodies=(1, 4), dofs=(2, 6), sensors=(1, 5), loads=(0, 3), sensortypes=REACTION),
            run, 900),
     Aspect("single", case(ALL, bodies=(1, 3), dofs=(1, 3), sensors=(1, 1), loads=(0, 0)), run, 800)],
    rule="random trees with random sensors between world, bodies and frames, evaluated at three states; non-trivial: at "
         "least two degrees of freedom and a sensor between different bodies, of energy, centre of mass or reactions")
