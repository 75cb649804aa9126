"""C15: what counts is the system, not how it is described."""
from hypothesis import strategies as st

from pv import mbs as B, mbrun as R
from pv.core import Aspect, Check, Reject

ALL = ["Explicit", "Recursive", "Recursive", "OrderN"]
NOENERGY = tuple(t for t in B.SENSORS if t != "Energy")
numbers = st.integers(0, 10 ** 6)


def case(modes=ALL, **kw):
    return st.fixed_dictionaries({"desc": B.systems(**kw), "mode": st.sampled_from(modes), "opts": st.sampled_from(R.OPTS),
                                  "names": numbers, "order": st.tuples(numbers, numbers)})


def run(c):
    desc = dict(c["desc"], order=list(c["order"]))
    if sum(1 for s in desc["sensors"] if s["type"] == "Energy" and s["body"] < 0) > 1:
        raise Reject("two sensors of the energy of the whole system")
    fixed = [i for i, b in enumerate(desc["bodies"]) if not b["dofs"]]
    moved = [i for i in fixed if desc["bodies"][i]["par"] >= 0]
    if c["names"]:
        try:
            m, ref, T = R.check(B.rename(desc, c["names"]), c["mode"], c["opts"])
        except Exception as e:
            if "SymbolAlreadyExists" not in str(e):
                raise
            # names that cannot be told apart inside ("a_b" + "c", "a" + "b_c") are refused; they have to be the reason
            R.check(desc, c["mode"], c["opts"])
            raise Reject("these names are refused")
    else:
        m, ref, T = R.check(desc, c["mode"], c["opts"])
    tags = {c["mode"]}
    if fixed:
        tags.add("fixed joints")
        if any(desc["bodies"][i]["par"] in fixed for i in fixed):
            tags.add("chain of fixed joints")
        if len(moved) < len(fixed):
            tags.add("fixed to the world")
    if c["names"]:
        tags.add("names")
    if any(c["order"]):
        tags.add("order")
    if moved or ((c["names"] or any(c["order"])) and T.n >= 2):
        tags.add("nontrivial")
    return tags


CHECK = Check(
    "C15",
    [Aspect("fixed", case(bodies=(2, 5), dofs=(1, 4), perjoint=(1, 2), fixed=60, loads=(0, 2), sensors=(0, 2),
                          sensortypes=NOENERGY), run, 1000),
     Aspect("massless", case(bodies=(2, 4), dofs=(1, 3), perjoint=(1, 1), fixed=60, frames=(2, 6), sensors=(1, 3),
                             sensortypes=("Position", "Orientation", "Velocity")), run, 600),
     Aspect("names", case(bodies=(2, 4), dofs=(2, 4), loads=(0, 3), sensors=(0, 3)), run, 1000),
     Aspect("frames", case(bodies=(1, 3), dofs=(1, 3), frames=(3, 9), loads=(0, 2), sensors=(1, 3)), run, 600)],
    rule="systems with fixed joints, nested frames, permuted order of construction and arbitrary names; non-trivial: a body is "
         "fixed to a moving one, or names or order vary in a system of several degrees of freedom")
