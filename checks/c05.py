"""C05: the generated C and Fortran code computes the quantities of the system."""
import ctypes
import os
import re
import shutil
import subprocess
import tempfile

import numpy as np

from pv import exprs as X
from pv import graphs as GR
from pv.core import Aspect, Check, Reject, Violation
from checks import c09 as PY

import pymbs.symbolics as S

NPTS = 3
NAME = "mod"
WHAT = {"der_state": "state", "sensors": "sens", "visual": "vis"}
GEN = dict(linalg=False, plain=True)
BOTH = dict(linalg=False, plain=True, conds=False, elsym=True)
FGEN = dict(conds=False, elsym=True)
# said by the printers where they reach their documented limits
LIMITS = ["Element: Is only possible for Symbols"]


def overflow(f):
    try:
        return f()
    except (ZeroDivisionError, OverflowError):
        raise Reject("constant folding in the interpreter")


def compiler(cmd, what, texts):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, errors="replace")
    if p.returncode:
        raise Violation("the generated %s code is not accepted by the compiler:\n%s\n%s" % (what, p.stdout[:1500], texts))


def refused(e):
    return "mplicit equations are not yet" in str(e) or "imultaneous equations are not yet" in str(e)


def parse_c(text, what):
    """The parameters of the function: (name, dimensions, result through a pointer)."""
    m = re.search(r"int\s+%s_%s\s*\(([^{]*?)\)\s*\{" % (NAME, what), text, re.S)
    if not m:
        raise Violation("no function %s_%s\n%s" % (NAME, what, text))
    out = []
    for p in m.group(1).split(","):
        q = re.fullmatch(r"\s*double\s*(\*?)\s*(\w+)((?:\[\d+\])*)\s*", p)
        if not q:
            raise Violation("unexpected parameter %r" % p)
        out.append((q.group(2), tuple(int(a) for a in re.findall(r"\d+", q.group(3))), bool(q.group(1))))
    return out


class CModel:
    def __init__(self, d):
        self.text, self.sig = {}, {}
        src = []
        for k, what in enumerate(WHAT):
            fn = os.path.join(d, "%s_%s.c" % (NAME, what))
            if os.path.exists(fn):
                self.text[what] = t = open(fn, encoding="latin-1").read()
                self.sig[what] = parse_c(t, what)
                # every file brings its own copy of the linear solver
                src += ["#undef LEGS_MAX", "#undef n", "#define legs legs%d" % k, "#define elgs elgs%d" % k,
                        '#include "%s"' % fn, "#undef legs", "#undef elgs"]
        self.all = "\n".join(self.text.values())
        with open(os.path.join(d, "all.c"), "w") as f:
            f.write("\n".join(src) + "\n")
        so = os.path.join(d, "m.so")
        compiler(["gcc", "-w", "-O0", "-fPIC", "-shared", "-D__declspec(x)=", "-o", so, os.path.join(d, "all.c"), "-lm"],
                 "C", self.all)
        self.lib = ctypes.CDLL(so)

    def call(self, what, time, y, given, results):
        """given: {input: value}; results: {name: shape}; returns {name: value}."""
        args, out = [], {}
        for name, dims, ptr in self.sig[what]:
            if name == "time" and not ptr:
                args.append(ctypes.c_double(time))
            elif name == "y" and ptr:
                args.append(y.ctypes.data_as(ctypes.c_void_p))
            elif name == "yd" and ptr:
                out["yd"] = np.full(y.shape, np.nan)
                args.append(out["yd"].ctypes.data_as(ctypes.c_void_p))
            elif name in given:
                v = given[name]
                if np.ndim(v) == 0:
                    if dims or ptr:
                        raise Violation("input %s has the dimensions %s" % (name, dims))
                    args.append(ctypes.c_double(v))
                else:
                    # the function must not write into its inputs
                    v = np.array(v, dtype=float, order="C")
                    out["given " + name] = v
                    args.append(v.ctypes.data_as(ctypes.c_void_p))
            else:
                n = re.sub("^res_", "", name) if ptr else name
                if n not in results:
                    raise Violation("unexpected parameter %s of %s\n%s" % (name, what, self.text[what]))
                shp = results[n]
                if shp == () and not ptr:
                    raise Violation("the value of %s cannot be returned\n%s" % (n, self.text[what]))
                out[n] = np.full(shp or (1,), np.nan)
                args.append(out[n].ctypes.data_as(ctypes.c_void_p))
        y0 = y.copy()
        getattr(self.lib, "%s_%s" % (NAME, what))(*args)
        if not np.array_equal(y0, y):
            raise Violation("%s changes the state vector\n%s" % (what, self.text[what]))
        return out


class FModel:
    def __init__(self, d):
        self.text, self.sig = {}, {}
        src = [os.path.join(d, "functionmodule.f90")]
        for what in WHAT:
            fn = os.path.join(d, "%s_%s.f90" % (NAME, what))
            if os.path.exists(fn):
                self.text[what] = t = open(fn, encoding="latin-1").read()
                m = re.search(r"subroutine\s+%s_%s\s*\((.*?)\)\s*$" % (NAME, what), t, re.S | re.M)
                if not m:
                    raise Violation("no subroutine %s_%s\n%s" % (NAME, what, t))
                self.sig[what] = [a.strip(" &\n\t") for a in m.group(1).split(",")]
                src.append(fn)
        self.all = "\n".join(self.text.values())
        so = os.path.join(d, "m.so")
        compiler(["gfortran", "-w", "-O0", "-fPIC", "-shared", "-ffree-line-length-none", "-J", d, "-o", so] + src, "Fortran", self.all)
        self.lib = ctypes.CDLL(so)

    def call(self, what, time, y, given, results):
        args, out = [], {}

        def ref(v):
            args.append(v.ctypes.data_as(ctypes.c_void_p))
        for name in self.sig[what]:
            if name == "time":
                ref(np.array([float(time)]))
            elif name == "y":
                ref(y)
            elif name == "yd":
                out["yd"] = np.full(y.shape, np.nan)
                ref(out["yd"])
            elif name in given:
                v = np.array(given[name], dtype=float, order="F")
                out["given " + name] = v
                ref(v)
            elif name in results:
                out[name] = np.full(results[name] or (1,), np.nan, order="F")
                ref(out[name])
            else:
                raise Violation("unexpected parameter %s of %s\n%s" % (name, what, self.text[what]))
        y0 = y.copy()
        keep = list(args)
        getattr(self.lib, "%s_%s_" % (NAME, what))(*keep)
        if not np.array_equal(y0, y):
            raise Violation("%s changes the state vector" % what)
        return out


MODEL = {"c": CModel, "f90": FModel}


def generate(case, lang, opt, kw, before=()):
    """The compiled model, or None if the language cannot express the system."""
    g, b = overflow(lambda: GR.build(S, case))
    g.buildGraph(opt)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        try:
            # the graph stays the same, whatever was written before
            for other in before:
                os.mkdir(os.path.join(d, other))
                g.writeCode(other, NAME, os.path.join(d, other))
            g.writeCode(lang, NAME, d, **kw)
        except Exception as e:
            if refused(e):
                return None
            raise
        for f in os.listdir(d):
            if os.path.isfile(os.path.join(d, f)) and any(a in open(os.path.join(d, f), encoding="latin-1").read() for a in LIMITS):
                return None
        return MODEL[lang](d)
    finally:
        shutil.rmtree(d)


ORDERS = [("c", "mo"), ("c", "py", "m"), ("mo", "c"), ("m", "f90", "c"), ("py", "cs"), ("cs", "c", "f90"), ("f90",)]


def runner(lang, sequence=False):
    def run(case):
        case = GR.control(case) if lang == "c" and case["seed"] % 4 == 0 else case
        if "time" in GR.reachable(case, ("vis",)):
            # the function of the graphics quantities does not get the time
            case = dict(case, items=[dict(it, kind="sens") if it["kind"] == "vis" else it for it in case["items"]])
        tags = set()
        pts = []
        for i in range(NPTS):
            try:
                # the sign of zero is +1 in Fortran (so documented)
                pts.append(GR.solve(case, i, sign0=lang != "f90"))
            except X.Fragile:
                pass
        if not pts:
            raise Reject("no decidable point")
        st, n = PY.states(case)
        kinds = {k: [it for it in case["items"] if it["kind"] == k] for k in ("state", "sens", "vis", "input", "ctrl")}
        opt = bool(case["seed"] % 2)
        before = ORDERS[case["seed"] // 2 % len(ORDERS)] if sequence else ()
        m = generate(case, lang, opt, {}, before)
        if m is None:
            raise Reject("implicit for the language")
        for what, k in WHAT.items():
            if kinds[k] and what not in m.text:
                raise Violation("no function %s was generated" % what)
        if any("legs(" in t or "LEGS(" in t for t in m.text.values()):
            tags.add("linear system")
        for env, ders, big in pts:
            y = PY.vector(st, n, env)
            inp = {it["name"]: env[it["name"]] for k in ("input", "ctrl") for it in kinds[k]}
            for what, k in WHAT.items():
                if what not in m.text:
                    continue
                wanted = {it["name"]: tuple(it["shape"]) for it in kinds[k]} if k != "state" else {}
                out = m.call(what, env["time"], y, inp, wanted)
                for a, v in inp.items():
                    if "given " + a in out and not np.array_equal(out["given " + a], v):
                        raise Violation("%s changes the input %s\n%s" % (what, a, m.text[what]))
                if k == "state":
                    w = PY.vector(st, n, ders)
                    if not X.close(out["yd"], w, big, 1e-8):
                        raise Violation("derivatives are %s, by the equations %s (states %s)\n%s" % (out["yd"], w, st, m.text[what]))
                    continue
                for name, shp in wanted.items():
                    if name not in out:
                        raise Violation("%s does not return %s\n%s" % (what, name, m.text[what]))
                    if not X.close(out[name][0] if shp == () else out[name], env[name], big, 1e-8):
                        raise Violation("%s: %s is %s, by its definition %s\n%s" % (what, name, out[name], env[name], m.text[what]))
        for k, v in kinds.items():
            if v:
                tags.add("kind:" + k)
        if n > 1 and (kinds["sens"] or kinds["vis"]):
            tags.add("nontrivial")
        return tags
    return run


CHECK = Check(
    "C05",
    [Aspect("c", GR.systems(topsolve=True, gen=GEN), runner("c"), 500),
     Aspect("c states", GR.systems(states=(2, 5), maxvars=2, depth=2, state_shapes=((), (2, 1), (3, 1), (4, 1)), topsolve=True, gen=GEN), runner("c"), 300),
     Aspect("fortran", GR.systems(pool=GR.LOWER, gen=FGEN), runner("f90"), 500),
     Aspect("fortran states", GR.systems(states=(2, 5), maxvars=2, depth=2, state_shapes=((), (2, 1), (3, 1), (4, 1)),
                                         pool=GR.LOWER, gen=FGEN), runner("f90"), 300),
     Aspect("sequence c", GR.systems(pool=GR.LOWER, gen=BOTH), runner("c", True), 200),
     Aspect("sequence fortran", GR.systems(pool=GR.LOWER, gen=BOTH), runner("f90", True), 200)],
    rule="random systems of equations written as C and Fortran, compiled and run at three points; non-trivial: "
         "more than one state component and at least one sensor or graphics quantity")
