"""C17: models of multibody systems compute the same in every language, with wrappers and graphics."""
import importlib.util
import os
import re
import shutil
import sys
import tempfile
import types

import numpy as np
from hypothesis import strategies as st

from pv import mbs as B, mbrun as R
from pv.core import Aspect, Check, Reject, Violation
from checks import c05 as L

GEN = {"c": "C", "f90": "Fortran90"}
VIS = ["Box", "Cylinder", "Sphere", "Line", "Frame", "Arrow"]
MODES = ["Explicit", "Recursive", "OrderN"]


def case(strategy, modes, langs, visuals=(0, 2), controllers=False):
    place = st.tuples(st.sampled_from(VIS), st.integers(0, 99), st.integers(0, 99), st.booleans())
    return st.fixed_dictionaries({"desc": strategy, "mode": st.sampled_from(modes), "opts": st.sampled_from(R.OPTS),
                                  "lang": st.sampled_from(langs), "visuals": st.lists(place, min_size=visuals[0], max_size=visuals[1]),
                                  "controllers": st.just(controllers), "before": st.sampled_from([[], [], ["m"], ["mo"], ["c"], ["f90"], ["py"]])})


def addvisuals(m, desc, visuals):
    """Attaches the objects; returns [(name, place)]."""
    out = []
    nb = len(desc["bodies"])
    for k, (kind, i, j, param) in enumerate(visuals):
        body = i % (nb + 1) - 1
        mine = [-1] + [f for f, x in enumerate(desc["frames"]) if x["body"] == body]
        at = [body, mine[j % len(mine)]]
        size = m.n({"p": 0.5}) if param else 0.5
        args = {"Box": (size, 0.2, size), "Cylinder": (0.3, size), "Sphere": (size,)}.get(kind, (size,))
        getattr(m.world.addVisualisation, kind)(m.at(at), *args, name="v%d" % k)
        out.append(("v%d" % k, at))
    return out


def pythonmodel(d):
    out = {}
    for what in ("sensors", "der_state", "visual"):
        fn = os.path.join(d, "%s_%s.py" % (L.NAME, what))
        if os.path.exists(fn):
            m = types.ModuleType("%s_%s" % (L.NAME, what))
            sys.modules[m.__name__] = m
            exec(compile(open(fn, encoding="latin-1").read(), fn, "exec"), m.__dict__)
            out[what] = m
    return out


class Wrapped:
    """The generated module for Python around compiled code."""

    def __init__(self, d, lang, compiled):
        old = list(sys.path), dict(sys.modules)
        sys.path.insert(0, d)
        try:
            suffix = "CWrapper" if lang == "c" else "F90Wrapper"
            if lang == "c":
                for what in compiled.text:
                    L.compiler(["gcc", "-w", "-O0", "-fPIC", "-shared", "-D__declspec(x)=", "-o",
                                os.path.join(d, "%s_%s.so" % (L.NAME, what)), os.path.join(d, "%s_%s.c" % (L.NAME, what)), "-lm"],
                               "C", compiled.text[what])
            else:
                # stands in for the modules f2py makes: arguments in, results out
                for what in compiled.text:
                    m = types.ModuleType("%s_%s_compiledF90" % (L.NAME, what))
                    setattr(m, "%s_%s" % (L.NAME, what), f2py(compiled, what))
                    sys.modules[m.__name__] = m
            self.mods = {}
            for what in ("sensors", "der_state", "visual"):
                fn = os.path.join(d, "%s_%s_%s.py" % (L.NAME, what, suffix))
                if not os.path.exists(fn):
                    if what in compiled.text:
                        raise Violation("no wrapper %s" % os.path.basename(fn))
                    continue
                name = os.path.basename(fn)[:-3]
                spec = importlib.util.spec_from_file_location(name, fn)
                m = importlib.util.module_from_spec(spec)
                sys.modules[name] = m
                spec.loader.exec_module(m)
                self.mods[what] = m
        finally:
            sys.path[:] = old[0]
            for n in list(sys.modules):
                if n not in old[1]:
                    del sys.modules[n]

    def call(self, what, time, y, inputs):
        m = self.mods[what]
        if inputs and hasattr(m, "setInputs"):
            m.setInputs(inputs)
        if what == "der_state":
            return m.ode_int(time, y)
        if what == "sensors":
            return m.graphSensors(time, y)
        return m.graphVisualSensors(y)


def f2py(compiled, what):
    def f(*args):
        names = [n for n in compiled.sig[what]]
        given = [n for n in names if n in compiled.given]
        ins = [n for n in names if n in ("time", "y") or n in given]
        if len(args) != len(ins):
            raise Violation("the wrapper of %s passes %d arguments, the function takes %s" % (what, len(args), ins))
        v = dict(zip(ins, args))
        out = compiled.call(what, v.pop("time", 0.0), np.asarray(v.pop("y"), float), v, compiled.results[what])
        res = tuple(out["yd"] if n == "yd" else out[n][0] if compiled.results[what][n] == () else out[n]
                    for n in names if n not in ins)
        return res if len(res) > 1 else res[0]
    return f


class Controllers:
    """Functions which generated Python imports; they check what they are given."""

    def __init__(self, desc):
        self.mod = types.ModuleType("pv_controllers")
        self.values, self.sensors, self.calls, self.wrong = {}, None, 0, None
        for n in B.inputvalues(desc):
            f = self.function(n)
            f.__module__, f.__name__ = self.mod.__name__, "control_" + n
            setattr(self.mod, f.__name__, f)

    def function(self, n):
        def f(time, y, sensors):
            self.calls += 1
            if time != 0.3 or np.shape(y) != np.shape(self.y) or not np.array_equal(y, self.y):
                self.wrong = "a controller gets time %s and the state %s" % (time, y)
            if self.sensors is not None:
                for s, v in self.sensors.items():
                    if s not in sensors or not R.close(np.asarray(sensors[s]).reshape(-1), R.flat(v), 1e-8):
                        self.wrong = "a controller gets sensor %s = %s, which is %s" % (s, sensors.get(s), v)
            return self.values[n]
        return f

    def add(self, world, a, shape):
        if shape:
            return world.addInput(a, shape)
        return world.addController(a, getattr(self.mod, "control_" + a))


def build(c, desc, ctrl):
    with B.quiet():
        m = B.Model(desc, addinput=ctrl.add if ctrl else None)
        vis = addvisuals(m, desc, c["visuals"])
        m.equations(c["mode"], **c["opts"])
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            os.mkdir(os.path.join(d, "py"))
            m.world.genCode.Python(L.NAME, os.path.join(d, "py"))
            py = pythonmodel(os.path.join(d, "py"))
            for other in c["before"]:
                os.makedirs(os.path.join(d, "before", other))
                m.world.graph.writeCode(other, L.NAME, os.path.join(d, "before", other))
            lang = c["lang"].split("+")[0]
            new = os.path.join(d, "new", "directory")       # made by genCode
            try:
                getattr(m.world.genCode, GEN[lang])(L.NAME, new, pymbs_wrapper="+" in c["lang"])
            except Exception as e:
                if L.refused(e):
                    return None
                raise
            if any(a in open(os.path.join(new, f), encoding="latin-1").read() for f in os.listdir(new) for a in L.LIMITS):
                return None
            comp = L.MODEL[lang](new)
            wrap = None
            if "+" in c["lang"]:
                keep = tempfile.mkdtemp(dir=os.getcwd())
                shutil.copytree(new, os.path.join(keep, "m"))
                wrap = (keep, lang, comp)
            return m, vis, py, comp, wrap
        finally:
            shutil.rmtree(d)


def evaluate(py, y, ctrl=None):
    values = {}
    with np.errstate(all="ignore"):
        try:
            if "sensors" in py:
                values["sensors"] = py["sensors"].__dict__[L.NAME + "_sensors"](0.3, y)
            if ctrl:
                ctrl.sensors = values.get("sensors", {})
            values["der_state"] = {"yd": py["der_state"].__dict__[L.NAME + "_der_state"](0.3, y)}
            if "visual" in py:
                values["visual"] = py["visual"].__dict__[L.NAME + "_visual"](y)
        except np.linalg.LinAlgError:
            return None
    return values


def shapes(values):
    return {n: np.shape(np.asarray(v)) for n, v in values.items()}


def run(c):
    desc = c["desc"]
    if sum(1 for s in desc["sensors"] if s["type"] == "Energy" and s["body"] < 0) > 1:
        raise Reject("two sensors of the energy of the whole system")
    closed = bool(desc["loops"])
    if closed:
        T = B.Tree(desc)
        ref = [(q, qd, B.inputvalues(desc, k % 2), None, None, None, None) for k, (q, qd) in enumerate(B.points(desc, 3))]
    else:
        T, ref = R.reference(desc, 2)
    ctrl = None
    if c["controllers"]:
        ctrl = Controllers(desc)
        desc = dict(desc, sensors=[s for s in desc["sensors"] if "cceleration" not in s["type"]])
        sys.modules[ctrl.mod.__name__] = ctrl.mod
        T, ref = R.reference(desc, 2)
    built = build(c, desc, ctrl)
    if built is None:
        raise Reject("not to be expressed in the language")
    m, vis, py, comp, wrap = built
    if wrap and set(comp.text) != set(py):
        raise Violation("functions %s, in Python %s" % (sorted(comp.text), sorted(py)))
    tags = {c["lang"], c["mode"]}
    wrapped = None
    try:
        done = 0
        for q, qd, inp, qdd, mo, sv, r in ref:
            y = np.ascontiguousarray(m.state(q, qd), dtype=float)
            controlled = {}
            if ctrl:
                controlled = {k: v for k, v in inp.items() if not np.ndim(v)}
                ctrl.values, ctrl.y = controlled, y
                inp = {k: v for k, v in inp.items() if k not in controlled}
            unset = evaluate(py, y) if wrap and not ctrl else None
            for mod in py.values():
                f = getattr(mod, L.NAME + "_setInputs", None)
                if f and inp:
                    f({k: (np.matrix(v, dtype=float).reshape(-1, 1) if np.ndim(v) else v) for k, v in inp.items()})
            values = evaluate(py, y, ctrl)
            if values is None:
                continue
            allv = np.concatenate([R.flat(v) for w in values.values() for v in w.values()])
            if not np.all(np.isfinite(allv)) or abs(allv).max() > 1e4:
                continue
            if not closed:
                scale = abs(np.linalg.inv(r[1])).max() * (abs(r[2]).max() + abs(r[3]).max())
            else:
                scale = abs(allv).max()
                if nearly(T, desc, m, values, inp):
                    continue
            done += 1
            where = "%s%s %s at q=%s, qd=%s" % (c["mode"], c["opts"] or "", c["lang"], q, qd)
            # graphics: where the frames are
            if not closed:
                for n, at in vis:
                    fr = mo.frame(at)
                    for name, w in (("r_" + n, fr.r), ("T_" + n, fr.R)):
                        if name not in values["visual"] or not R.close(values["visual"][name], w, 1e-8):
                            raise Violation("%s: %s is %s in Python, the frame has %s" % (where, name, values["visual"].get(name), w))
            given = {k: (np.asarray(v, float).reshape(-1, 1) if np.ndim(v) else float(v)) for k, v in dict(inp, **controlled).items()}
            results = {what: shapes(v) for what, v in values.items()}
            comp.given, comp.results = given, results
            for what, vals in values.items():
                if what not in comp.text:
                    raise Violation("%s: no function %s" % (where, what))
                out = comp.call(what, 0.3, y, given, results[what] if what != "der_state" else {})
                compare(where, what, vals, out, scale)
            if not closed:
                for sd, w in zip(desc["sensors"], sv):
                    v = R.value(sd, values["sensors"])
                    if not R.close(v, w, 1e-7, scale + abs(r[2]).max() + abs(r[3]).max()):
                        raise Violation("%s: sensor %s is %s, by the motion %s" % (where, sd, v, w))
            if ctrl and controlled:
                if ctrl.wrong:
                    raise Violation("%s: %s" % (where, ctrl.wrong))
                tags.add("controllers")
            if wrap:
                if wrapped is None:
                    wrapped = Wrapped(os.path.join(wrap[0], "m"), wrap[1], wrap[2]) if wrap[1] != "c" else cwrapped(wrap)
                # vectors are plain in C
                mine = {k: (np.ravel(v) if np.ndim(v) and c["lang"] == "c+" else v) for k, v in given.items() if k not in controlled}
                if done == 1 and unset:
                    comp.given = {k: v * 0 for k, v in given.items()}
                    for what, vals in unset.items():
                        out = wrapped.call(what, 0.3, y.copy(), {})
                        compare(where + " (wrapper, inputs never set)", what, vals, {"yd": out} if what == "der_state" else out, scale)
                    comp.given = given
                for what, vals in values.items():
                    out = wrapped.call(what, 0.3, y.copy(), mine)
                    compare(where + " (wrapper)", what, vals, {"yd": out} if what == "der_state" else out, scale)
    finally:
        if wrap:
            shutil.rmtree(wrap[0])
    if ctrl and ctrl.wrong:
        raise Violation(ctrl.wrong)
    if not done:
        raise Reject("no regular state")
    if T.n >= 2 and (desc["sensors"] or vis):
        tags.add("nontrivial")
    if closed:
        tags.add("loops")
    if any("legs(" in t.lower() for t in comp.text.values()):
        tags.add("linear system")
    return tags


def cwrapped(wrap):
    """Wrappers name the directory they were generated for; this is where they are put."""
    d = os.path.join(wrap[0], "m")
    for f in os.listdir(d):
        if f.endswith("Wrapper.py"):
            fn = os.path.join(d, f)
            t = open(fn, encoding="latin-1").read()
            t, n = re.subn(r'(load_library\([^\n]*?, )"[^"\n]*"\)', lambda x: "%s%r)" % (x.group(1), d), t)
            if n != 1:
                raise Violation("the wrapper does not load the library\n%s" % t)
            with open(fn, "w", encoding="latin-1") as o:
                o.write(t)
    return Wrapped(d, "c", wrap[2])


def nearly(T, desc, m, values, inp):
    """A nearly singular position of a mechanism (the joint coordinates are among the sensors)."""
    J = np.array([R.flat(values["sensors"]["jq%d" % i])[:2] for i in range(T.n)])
    try:
        T.closed(J[:, 0], J[:, 1], inp, len(m.independent))
    except Reject:
        return True
    return False


def compare(where, what, vals, out, scale):
    for n, w in vals.items():
        if n not in out:
            raise Violation("%s: %s does not return %s, only %s" % (where, what, n, sorted(out)))
        v, w = np.asarray(out[n], float), np.asarray(w, float)
        if v.ndim == 2 and w.ndim == 2 and v.shape != w.shape and v.size == w.size:
            raise Violation("%s: %s has the shape %s, in Python %s" % (where, n, v.shape, w.shape))
        if not R.close(v.reshape(-1), w.reshape(-1), 1e-7, scale):
            # an angle may jump by a full turn where rounding decides
            raise Violation("%s: %s of %s is %s, in Python %s" % (where, n, what, v, w))


def withjoints(strategy):
    def f(desc):
        n = B.dofs(desc)
        return dict(desc, sensors=[s for s in desc["sensors"] if s["type"] != "Joint"] +
                    [{"name": "jq%d" % i, "type": "Joint", "dof": i} for i in range(n)])
    return strategy.map(f)


def controlled(desc):
    loads = [x if x["type"] in ("CmpForce", "CmpTorque") else dict(x, value=["input", "u%d" % (i % 2)]) for i, x in enumerate(desc["loads"])]
    return dict(desc, loads=loads)


SENS = tuple(t for t in B.SENSORS if not t.startswith("Constraint"))
TREES = B.systems(bodies=(1, 3), dofs=(1, 4), loads=(0, 3), sensors=(0, 4), sensortypes=SENS)
MECH = withjoints(B.mechanisms(count=(1, 1), loads=(0, 1), sensors=(0, 2), sensortypes=SENS[:7], loadtypes=("PtPForce", "CmpForce"),
                               params=0.1))
CHECK = Check(
    "C17",
    [Aspect("c", case(TREES, MODES, ["c"]), run, 240),
     Aspect("fortran", case(TREES, MODES, ["f90"]), run, 240),
     Aspect("wrappers", case(TREES, MODES, ["c+", "f90+"]), run, 160),
     Aspect("controllers", case(B.systems(bodies=(1, 3), dofs=(1, 4), loads=(1, 3), sensors=(0, 4), sensortypes=SENS).map(controlled), MODES,
                                ["c+", "c+", "c"], (0, 1), True), run, 100),
     Aspect("graphics", case(B.systems(bodies=(1, 4), dofs=(1, 4), frames=(1, 6), loads=(0, 0), sensors=(0, 0)), MODES, ["c", "f90"], (1, 5)),
            run, 160),
     Aspect("mechanisms", case(MECH, ["Recursive", "Recursive", "Explicit"], ["c", "f90"]), run, 120)],
    rule="random multibody systems with graphics, written as Python and as C or Fortran (with or without wrappers, before or after "
         "other languages), compiled and run at two states; non-trivial: several degrees of freedom and sensors or graphics")
