"""C21: a model written as FMU describes itself correctly and computes the quantities of the system.

The template of the FMU SDK and 7-zip are not part of the repository and not installed: pv/fmu holds stand-ins with what the generated
code needs of them (the data of an instance, the calls of a simulator, packing)."""
import contextlib
import ctypes
import io
import os
import re
import shutil
import subprocess
import tempfile
import xml.etree.ElementTree as ET
import zipfile

import numpy as np
from hypothesis import strategies as st

from pv import exprs as X
from pv import graphs as GR
from pv import mbrun as R
from pv import mbs as B
from pv.core import Aspect, Check, Reject, Violation
from checks import c05 as C

import pymbs.symbolics as S

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UTILS = os.path.join(HERE, "pv", "fmu")
NAME = "mod"
FILL = -7.7e77
GEN = dict(linalg=False, plain=True, elsym=True)


class Model:
    def __init__(self, d, lib=None):
        self.dir = d
        self.code = open(os.path.join(d, "sources", NAME + ".c"), encoding="latin-1").read()
        t = open(os.path.join(d, "modelDescription.xml"), "rb").read()
        try:
            self.root = ET.fromstring(t)
        except ET.ParseError as e:
            raise Violation("the description is no XML (%s):\n%s" % (e, t.decode("latin-1")))
        if lib is None:
            lib = os.path.join(d, "m.so")
            C.compiler(["gcc", "-w", "-O0", "-shared", "-fPIC", os.path.join(d, "sources", NAME + ".c"), "-I",
                        os.path.join(UTILS, "FMI", "include"), "-o", lib, "-lm"], "C", self.code)
        elif not os.path.exists(lib):
            # not even the compiler was happy; what did it say
            C.compiler(["gcc", "-w", "-O0", "-shared", "-fPIC", os.path.join(d, "sources", NAME + ".c"), "-I",
                        os.path.join(UTILS, "FMI", "include"), "-o", os.path.join(d, "m.so"), "-lm"], "C", self.code)
            raise Violation("no binary was written")
        self.lib = L = ctypes.CDLL(lib)
        for f, res, args in (("pv_instantiate", ctypes.c_void_p, [ctypes.c_double]), ("pv_initialize", None, [ctypes.c_void_p]),
                             ("pv_margin", ctypes.c_int, [ctypes.c_void_p, ctypes.c_double]),
                             ("pv_time", None, [ctypes.c_void_p, ctypes.c_double]),
                             ("pv_set", None, [ctypes.c_void_p, ctypes.c_uint, ctypes.c_double]),
                             ("pv_get", ctypes.c_double, [ctypes.c_void_p, ctypes.c_uint]),
                             ("pv_raw", ctypes.c_double, [ctypes.c_void_p, ctypes.c_uint]),
                             ("pv_free", None, [ctypes.c_void_p]), ("pv_guid", ctypes.c_char_p, []), ("pv_identifier", ctypes.c_char_p, [])):
            getattr(L, f).restype = res
            getattr(L, f).argtypes = args
        self.vars = {}
        for sv in self.root.iter("ScalarVariable"):
            n = sv.get("name")
            if n in self.vars:
                raise Violation("two variables %s in the description" % n)
            real = sv.find("Real")
            self.vars[n] = dict(vr=int(sv.get("valueReference")), causality=sv.get("causality", "internal"),
                                variability=sv.get("variability", "continuous"), start=real.get("start") if real is not None else None)


def elements(name, shp, v=None):
    """The scalars of a variable: (name, value)."""
    m, n = shp or (1, 1)
    v = None if v is None else np.asarray(v, dtype=float).reshape(m, n)
    return [(name + ("_%d" % i if m > 1 else "") + ("_%d" % j if n > 1 else ""), None if v is None else v[i, j])
            for i in range(m) for j in range(n)]


def write(g, d, compile):
    path = os.environ["PATH"]
    os.environ["PATH"] = os.path.join(UTILS, "bin") + os.pathsep + path
    try:
        g.writeCode("fmu", NAME, d, util_folder_path=UTILS, compile=compile)
    finally:
        os.environ["PATH"] = path


def same(got, want, big=1.0):
    return X.close(np.array(got), np.array(want), big, 1e-8)


def run(case):
    tags = set()
    case = dict(case)
    pts = []
    for i in range(3):
        try:
            pts.append(GR.solve(case, i))
        except X.Fragile:
            pass
    if not pts:
        raise Reject("no decidable point")
    g, b = C.overflow(lambda: GR.build(S, case))
    g.buildGraph(bool(case["seed"] % 2))
    compile = case["seed"] // 2 % 3 == 0
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        try:
            write(g, d, compile)
        except Exception as e:
            if C.refused(e):
                raise Reject("implicit for the language")
            raise
        top = os.path.join(d, NAME)
        text = open(os.path.join(top, "sources", NAME + ".c"), encoding="latin-1").read()
        if any(a in text for a in C.LIMITS):
            raise Reject("limit of the language")
        m = Model(top, os.path.join(top, "binaries", "linux32", NAME + ".so") if compile else None)
        L = m.lib
        # the package holds the description and the sources (and the binary)
        z = os.path.join(d, NAME + ".fmu")
        if not os.path.exists(z):
            raise Violation("no file %s.fmu was written" % NAME)
        with zipfile.ZipFile(z) as f:
            inside = set(f.namelist())
            want = {"modelDescription.xml", "sources/%s.c" % NAME} | ({"binaries/linux32/%s.so" % NAME} if compile else set())
            if not want <= inside:
                raise Violation("the package holds %s only" % sorted(inside))
            if f.read("modelDescription.xml") != open(os.path.join(top, "modelDescription.xml"), "rb").read():
                raise Violation("the package holds another description")
        # who am I
        a = m.root.attrib
        if a.get("guid") != L.pv_guid().decode() or a.get("modelIdentifier") != L.pv_identifier().decode():
            raise Violation("description of %s %s, code of %s %s" % (a.get("modelIdentifier"), a.get("guid"), L.pv_identifier(), L.pv_guid()))
        kinds = {k: [it for it in case["items"] if it["kind"] == k] for k in ("state", "input", "param", "const", "sens", "vis", "uexp")}
        shp = {it["name"]: tuple(it["shape"]) for it in case["items"]}
        el = {it["name"]: [e for e, _ in elements(it["name"], shp[it["name"]])] for it in case["items"]}
        states = [e for it in kinds["state"] for e in el[it["name"]]]
        # value references
        refs = sorted(v["vr"] for v in m.vars.values())
        if refs != list(range(len(refs))) or len(refs) != L.pv_reals():
            raise Violation("%d numbers in the code, references %s in the description" % (L.pv_reals(), refs))
        if int(a["numberOfContinuousStates"]) != len(states) or L.pv_states() != len(states):
            raise Violation("%d states, %s in the description, %d in the code" % (len(states), a["numberOfContinuousStates"], L.pv_states()))
        sr = (ctypes.c_uint * len(states))()
        L.pv_state_refs(sr)
        for e in states:
            if e not in m.vars or "der_" + e not in m.vars:
                raise Violation("state %s is not described" % e)
            if m.vars["der_" + e]["vr"] != m.vars[e]["vr"] + 1:
                raise Violation("the derivative of %s has the reference %d, the state %d" % (e, m.vars["der_" + e]["vr"], m.vars[e]["vr"]))
        if sorted(sr) != sorted(m.vars[e]["vr"] for e in states):
            raise Violation("references of the states are %s in the code, %s in the description" % (list(sr), {e: m.vars[e]["vr"] for e in states}))
        for k, caus, var in (("sens", "output", "continuous"), ("vis", "output", "continuous"), ("input", "input", "continuous"),
                             ("param", "internal", "parameter")):
            for it in kinds[k]:
                for e in el[it["name"]]:
                    v = m.vars.get(e)
                    if v is None:
                        if k in ("input", "param"):
                            continue                # nothing depends on it
                        raise Violation("%s %s is not described" % (k, e))
                    if v["causality"] != caus or v["variability"] != var:
                        raise Violation("%s %s is described as %s" % (k, e, v))
        known = set(states) | {"der_" + e for e in states} | {e for k in kinds for it in kinds[k] for e in el[it["name"]]}
        if set(m.vars) - known:
            raise Violation("unexpected variables %s" % sorted(set(m.vars) - known))
        # values at the start
        env0 = GR.given(case, 0)
        c = L.pv_instantiate(FILL)
        for k in ("state", "param", "const"):
            for it in kinds[k]:
                for e, w in elements(it["name"], shp[it["name"]], env0[it["name"]]):
                    if e not in m.vars:
                        continue
                    got = L.pv_raw(c, m.vars[e]["vr"])
                    if not same(got, w):
                        raise Violation("%s %s starts at %s, should at %s\n%s" % (k, e, got, w, m.code))
                    s = m.vars[e]["start"]
                    if s is None or k == "state" and not same(float(s), w):
                        raise Violation("%s %s is described to start at %s, should at %s" % (k, e, s, w))
                    if k != "state" and it.get("e") is None and not shp[it["name"]] and not same(float(s), w):
                        raise Violation("%s %s is described to start at %s, should at %s" % (k, e, s, w))
        for it in kinds["input"]:
            if not shp[it["name"]]:
                e = it["name"]
                if e in m.vars and not (same(float(m.vars[e]["start"]), env0[e]) and same(L.pv_raw(c, m.vars[e]["vr"]), env0[e])):
                    raise Violation("input %s starts at %s, %s; should at %s" % (e, m.vars[e]["start"], L.pv_raw(c, m.vars[e]["vr"]), env0[e]))
        L.pv_initialize(c)
        partial = {e for it in kinds["uexp"] if shp[it["name"]] for e in el[it["name"]]}
        # values at the points, one instance after the other and two at a time
        other = L.pv_instantiate(FILL)
        for k, (env, ders, big) in enumerate(pts):
            inst = (c, other)[k % 2]
            for it in kinds["state"] + kinds["input"]:
                for e, w in elements(it["name"], shp[it["name"]], env[it["name"]]):
                    if e in m.vars:
                        L.pv_set(inst, m.vars[e]["vr"], w)
            L.pv_time(inst, env["time"])
            wanted = [("derivative of " + e, "der_" + e, w) for it in kinds["state"] for e, w in elements(it["name"], shp[it["name"]], ders[it["name"]])]
            wanted += [(k2 + " " + e, e, w) for k2 in ("sens", "vis", "uexp", "state", "param") for it in kinds[k2]
                       for e, w in elements(it["name"], shp[it["name"]], env[it["name"]]) if e in m.vars]
            if case["shuffle"] % 2:
                wanted.reverse()
            for what, e, w in wanted:
                got = L.pv_get(inst, m.vars[e]["vr"])
                if got == FILL and e in partial:
                    continue                    # nothing needs this element
                if not same(got, w, big):
                    raise Violation("%s is %s, by the equations %s\n%s" % (what, got, w, m.code))
            if not L.pv_margin(inst, FILL):
                raise Violation("the model writes outside its numbers\n%s" % m.code)
        L.pv_free(c)
        L.pv_free(other)
    finally:
        shutil.rmtree(d)
    for k, v in kinds.items():
        if v:
            tags.add("kind:" + k)
    if any(it.get("e") is not None for it in kinds["param"]):
        tags.add("derived parameter")
    if compile:
        tags.add("compiled by the writer")
    if len(states) > 1 and (kinds["sens"] or kinds["vis"]):
        tags.add("nontrivial")
    return tags


def runmbs(c):
    desc = c["desc"]
    T, ref = R.reference(desc, 2)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        with B.quiet():
            m = B.Model(desc)
            for k in range(c["names"]):
                # names of the equations of motion without their underscore
                p = m.world.addParam("MC"[k], 1.5)
                m.world.addSensor.Position("own%d" % k, m.world, m.world.addFrame("at%d" % k, [p, 0, 0]), name="own%d" % k)
            m.equations(c["mode"], **c["opts"])
        path = os.environ["PATH"]
        os.environ["PATH"] = os.path.join(UTILS, "bin") + os.pathsep + path
        try:
            with B.quiet():
                m.world.genCode.FMU(NAME, d, compile=c["compile"], util_folder_path=UTILS)
        except Exception as e:
            if C.refused(e):
                raise Reject("implicit for the language")
            raise
        finally:
            os.environ["PATH"] = path
        top = os.path.join(d, NAME)
        f = Model(top, os.path.join(top, "binaries", "linux32", NAME + ".so") if c["compile"] else None)
        if any(a in f.code for a in C.LIMITS):
            raise Reject("limit of the language")
        L = f.lib
        inst = L.pv_instantiate(FILL)
        L.pv_initialize(inst)

        def call(y, inputs=None, time=0.0):
            n = len(y)//2
            for i, v in enumerate(y):
                name = ("q", "qd")[i//n] + ("_%d" % (i % n) if n > 1 else "")
                L.pv_set(inst, f.vars[name]["vr"], v)
            for k, v in (inputs or {}).items():
                v = np.atleast_1d(v).ravel()
                for i, x in enumerate(v):
                    e = k + ("_%d" % i if len(v) > 1 else "")
                    if e in f.vars:
                        L.pv_set(inst, f.vars[e]["vr"], x)
            L.pv_time(inst, time)
            out = {}
            for name, v in sorted(f.vars.items(), key=lambda x: x[1]["vr"]):
                if v["causality"] == "output":
                    out.setdefault(re.sub(r"(?<=[A-Za-z0-9])(_[0-9])+$", "", name), []).append(L.pv_get(inst, v["vr"]))
            yd = [L.pv_get(inst, f.vars["der_" + ("q", "qd")[i//n] + ("_%d" % (i % n) if n > 1 else "")]["vr"]) for i in range(2*n)]
            out = {k: np.array(v) if len(v) > 1 else v[0] for k, v in out.items()}
            return np.array(yd), out
        R.judge(m, call, ref, T, c["mode"], c["opts"])
        for k in range(c["names"]):
            got = call(m.state(*ref[0][:2]))[1].get("own%d" % k)
            if got is None or not R.close(got, [1.5, 0, 0], 1e-12):
                raise Violation("the position [%s, 0, 0] with %s = 1.5 is %s" % ("MC"[k], "MC"[k], got))
        if not L.pv_margin(inst, FILL):
            raise Violation("the model writes outside its numbers\n%s" % f.code)
        L.pv_free(inst)
    finally:
        shutil.rmtree(d)
    tags = {c["mode"]}
    if T.n >= 2 and desc["sensors"]:
        tags.add("nontrivial")
    return tags


def multibody(**kw):
    return st.fixed_dictionaries({"desc": B.systems(**kw), "mode": st.sampled_from(["Explicit", "Recursive", "OrderN"]),
                                  "opts": st.sampled_from(R.OPTS), "compile": st.booleans(), "names": st.integers(0, 2)})


POOL = GR.POOL + ["k", "M", "C", "f", "F_", "L1_", "q"]

CHECK = Check(
    "C21",
    [Aspect("systems", GR.systems(topsolve=True, gen=GEN, pool=POOL), run, 400),
     Aspect("states", GR.systems(states=(2, 5), maxvars=2, depth=2, state_shapes=((), (2, 1), (3, 1), (2, 2)), topsolve=True, gen=GEN, pool=POOL),
            run, 250),
     Aspect("user expressions", GR.systems(uexp=True, gen=GEN, pool=POOL), run, 200),
     Aspect("multibody", multibody(bodies=(1, 2), dofs=(1, 3)), runmbs, 150)],
    rule="random systems of equations written as FMU, compiled and run at three points with two instances; non-trivial: more than one state "
         "component and at least one sensor or graphics quantity")
