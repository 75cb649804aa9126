"""C13: loads."""
from hypothesis import strategies as st

from pv import mbs as B, mbrun as R
from pv.core import Aspect, Check


def case(modes, **kw):
    return st.fixed_dictionaries({"desc": B.systems(**kw), "mode": st.sampled_from(modes),
                                  "opts": st.sampled_from(R.OPTS)})


def run(c):
    d = c["desc"]
    m, ref, T = R.check(d, c["mode"], c["opts"])
    tags = {c["mode"]}
    for ld in d["loads"]:
        tags.add("%s %s" % (ld["type"], ld["value"][0]))
    if T.n >= 2 and any(abs(r[3]).max() > 1e-6 for *_, r in ref):
        tags.add("nontrivial")
    return tags


ALL = ["Explicit", "Recursive", "OrderN"]
KW = {"sensors": (0, 0)}
CHECK = Check(
    "C13",
    [Aspect("explicit", case(["Explicit"], bodies=(1, 3), dofs=(2, 4), loads=(1, 5), **KW), run, 800),
     Aspect("recursive", case(["Recursive"], bodies=(1, 4), dofs=(2, 6), loads=(1, 5), **KW), run, 1000),
     Aspect("ordern", case(["OrderN"], bodies=(1, 4), dofs=(2, 6), loads=(1, 5), **KW), run, 500),
     Aspect("single", case(ALL, bodies=(1, 3), dofs=(1, 3), loads=(1, 1), **KW), run, 1200)],
    rule="random trees with random loads at joints and between world, bodies and frames, whose values are constants, "
         "parameters, inputs or depend on sensors; evaluated at three states with two sets of inputs; non-trivial: at least "
         "two degrees of freedom and a generalised force different from zero")
