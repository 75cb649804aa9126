"""C06: the generated Matlab and Modelica programs compute the quantities of the system.

Neither tool is there; pv/langs.py interprets what the generated files consist of.
"""
import os
import re
import shutil
import sys
import tempfile

import numpy as np

from pv import exprs as X
from pv import graphs as GR
from pv import langs as LG
from pv import mbs as B, mbrun as R
from pv.core import Aspect, Check, Reject, Violation
from checks import c09 as PY
from checks import c17 as W
from checks.c05 import overflow, refused

import pymbs.symbolics as S

NPTS = 3
NAME = "mod"
# what the writers say that they cannot express
LIMITS = ["Function 'If' not implemented", "Function 'Scalar' not implemented", "Is only possible for Symbols"]
MGEN = dict(conds=False, elsym=True)
OGEN = {}


def write(case, lang, kw, opt):
    """{file: text}, or None if the language cannot express the system."""
    g, b = overflow(lambda: GR.build(S, case))
    g.buildGraph(opt)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        try:
            for other in (["py", "c"] if case["seed"] % 8 == 7 else []):
                try:
                    g.writeCode(other, NAME, d)
                except Exception:
                    pass                # C05
                for f in os.listdir(d):
                    os.remove(os.path.join(d, f))
            said = heard(lambda: g.writeCode(lang, NAME, d, **kw))
        except Exception as e:
            if refused(e):
                return None
            raise
        texts = {f: open(os.path.join(d, f), encoding="latin-1").read() for f in os.listdir(d)}
    finally:
        shutil.rmtree(d)
    if "Error: " in said:
        if any(a in said for a in LIMITS):
            return None
        raise Violation("the writer says %s" % said)
    return texts


def heard(f):
    """What f writes to the standard error output, by way of C++ as well."""
    sys.stderr.flush()
    old = os.dup(2)
    with tempfile.TemporaryFile() as t:
        os.dup2(t.fileno(), 2)
        try:
            f()
        finally:
            os.dup2(old, 2)
            os.close(old)
            t.seek(0)
        return t.read().decode("latin-1")


def points(case, **kw):
    pts = []
    for i in range(NPTS):
        try:
            pts.append((i,) + GR.solve(case, i, **kw))
        except X.Fragile:
            pass
    if not pts:
        raise Reject("no decidable point")
    return pts


def kinds(case):
    return {k: [it for it in case["items"] if it["kind"] == k] for k in ("state", "sens", "vis", "input", "uexp", "var", "param", "const")}


def mfiles(texts):
    out = {}
    for f, t in texts.items():
        if f.endswith(".m"):
            try:
                out[f[:-2]] = LG.MFile(t)
            except LG.Bad as e:
                raise Violation("%s is not valid: %s\n%s" % (f, e, t))
    return out


def same(a, w, big, shp):
    a = np.asarray(a, float)
    if a.shape != (shp or (1, 1)):
        return False
    return X.close(a[0, 0] if shp == () else a, w, big, 1e-8)


def everything(texts):
    return "\n".join(texts.values())[:6000]


def matlab(symbolic):
    def run(case):
        # graphics are not written for Matlab
        case = dict(case, items=[dict(it, kind="sens") if it["kind"] == "vis" else it for it in case["items"]])
        pts = points(case, sign0=not symbolic)
        K = kinds(case)
        st, n = PY.states(case)
        texts = write(case, "m", {"symbolic_mode": "True"} if symbolic else {}, bool(case["seed"] % 2))
        if texts is None:
            raise Reject("not to be expressed in the language")
        files = mfiles(texts)
        tail = "_symbolic" if symbolic else ""
        want = ["der_state"] + (["sensors"] if K["sens"] else []) + ([] if symbolic else ["inputs"])
        for w in want:
            if "%s_%s%s" % (NAME, w, tail) not in files:
                raise Violation("no file for %s: %s" % (w, sorted(texts)))
        for i, env, ders, big in pts:
            y = PY.vector(st, n, env).reshape(-1, 1)
            given = {it["name"]: LG.m2(env[it["name"]]) for it in K["input"]}
            try:
                if symbolic:
                    # the symbols of the toolbox: what is no result
                    sym = {it["name"]: env[it["name"]] for k in ("state", "input", "param", "const") for it in K[k]}
                    m = LG.Matlab(files, dict(sym, time=env["time"]))
                    args = ()
                else:
                    m = LG.Matlab(files)
                    if i == 0:
                        # the file with the inputs holds their start values
                        got = m.call(NAME + "_inputs")
                        if not isinstance(got, dict):
                            got = {}
                        for it in K["input"]:
                            if it["name"] not in got or not same(got[it["name"]], env[it["name"]], 1, tuple(it["shape"])):
                                raise Violation("input %s is %s, its start value %s\n%s" % (it["name"], got.get(it["name"]), env[it["name"]], everything(texts)))
                    else:
                        m.override[NAME + "_inputs"] = given
                    args = (LG.m2(env["time"]), y)
                yd = m.call(NAME + "_der_state" + tail, *args)
                w = PY.vector(st, n, ders).reshape(-1, 1)
                if not same(yd, w, big, w.shape):
                    raise Violation("derivatives are %s, by the equations %s (states %s)\n%s" % (np.ravel(yd), np.ravel(w), st, everything(texts)))
                if not K["sens"]:
                    continue
                if not symbolic and i == 1:
                    args = (args[0], y.T)       # rows are taken as well
                out = m.call(NAME + "_sensors" + tail, *args)
                for it in K["sens"]:
                    v = out.get(it["name"]) if isinstance(out, dict) else None
                    if v is None or not same(v, env[it["name"]], big, tuple(it["shape"])):
                        raise Violation("sensor %s is %s, by its definition %s\n%s" % (it["name"], v, env[it["name"]], everything(texts)))
            except (LG.Bad, LG.Missing) as e:
                raise Violation("cannot be run: %s\n%s" % (e, everything(texts)))
            except np.linalg.LinAlgError:
                raise Reject("singular")
        if not symbolic:
            start(case, files, st, n, texts)
        return tags(K, n)
    return run


def start(case, files, st, n, texts):
    """The script with the simulation: start values."""
    f = files.get(NAME + "_sim")
    if f is None:
        raise Violation("no script for the simulation: %s" % sorted(texts))
    env = {}
    m = LG.Matlab(files)
    try:
        m.run(f, env)
    except (LG.Bad, LG.Missing) as e:
        raise Violation("script: %s\n%s" % (e, texts[NAME + "_sim.m"]))
    w = PY.vector(st, n, GR.given(case, 0)).reshape(-1, 1)
    if "y0" not in env or env["y0"].shape != w.shape or not X.close(env["y0"], w, 1, 1e-9):
        raise Violation("start values %s instead of %s\n%s" % (env.get("y0"), w, texts[NAME + "_sim.m"]))
    has = any(it["kind"] == "sens" for it in case["items"])
    if has != (NAME + "_sensors" in texts[NAME + "_sim.m"]):
        raise Violation("the script %s sensors\n%s" % ("does not compute" if has else "computes", texts[NAME + "_sim.m"]))


def tags(K, n):
    out = {"kind:" + k for k, v in K.items() if v}
    if n > 1 and K["sens"]:
        out.add("nontrivial")
    return out


def modelica(case):
    pts = points(case)
    K = kinds(case)
    st, n = PY.states(case)
    kw = [{}, {}, {"inputsAsInputs": "False"}, {"package": "Some.Where"}][case["shuffle"] % 4]
    texts = write(case, "mo", kw, bool(case["seed"] % 2))
    if texts is None:
        raise Reject("not to be expressed in the language")
    if list(texts) != [NAME + ".mo"]:
        raise Violation("files %s" % sorted(texts))
    text = texts[NAME + ".mo"]

    def bad(what):
        raise Violation("%s\n%s" % (what, text[:5000]))
    try:
        m = LG.Modelica(text)
    except LG.Bad as e:
        bad("is not valid: %s" % e)
    if m.name != NAME or m.within != kw.get("package"):
        bad("model %s within %s" % (m.name, m.within))
    asinputs = "inputsAsInputs" not in kw
    for k, its in K.items():
        for it in its:
            nm, shp = it["name"], tuple(it["shape"])
            if nm not in m.decl:
                if k in ("var", "uexp", "param", "const", "input"):
                    continue            # not needed
                bad("%s is not declared" % nm)
            d = m.decl[nm]
            if d["dims"] != shp:
                bad("%s has the dimensions %s instead of %s" % (nm, d["dims"], shp))
            wanted = {"param": {"parameter"}, "const": {"constant"}, "input": {"input"} if asinputs else set(),
                      "sens": {"output"}, "vis": {"output"}}.get(k, set())
            if d["prefix"] != wanted:
                bad("%s is %s instead of %s" % (nm, d["prefix"], wanted))
            if (d["section"] == "public") != (k not in ("const", "var")):
                bad("%s is %s" % (nm, d["section"]))
    free = [it for it in K["input"] if it["name"] in m.decl] if not asinputs else []
    if bool(m.partial) != bool(free):
        bad("the model is%s partial, it has the inputs %s without equation" % ("" if m.partial else " not", [it["name"] for it in free]))
    try:
        neq, unknown = m.count()
        unknown -= sum(max(1, int(np.prod(it["shape"]))) for it in free)
        if neq != unknown:
            bad("%d equations for %d unknowns" % (neq, unknown))
        for i, env, ders, big in pts:
            base = {"time": np.float64(env["time"])}
            for k in ("state", "input"):
                for it in K[k]:
                    base[it["name"]] = np.asarray(env[it["name"]], float)[()]
            for k in ("param", "const"):
                for it in K[k]:
                    d = m.decl.get(it["name"])
                    if d is None:
                        continue
                    if d["value"] is None:
                        bad("%s has no value" % it["name"])
                    v = m.ev(d["value"], base)
                    if np.shape(v) != tuple(it["shape"]) or not X.close(v, env[it["name"]], 1, 1e-9):
                        bad("%s is %s instead of %s" % (it["name"], v, env[it["name"]]))
                    base[it["name"]] = v
            if i == 0:
                for it in K["state"]:
                    s = m.decl[it["name"]]["start"]
                    v = None if s is None else m.ev(s, base)
                    if v is None or np.shape(v) != tuple(it["shape"]) or not X.close(v, env[it["name"]], 1, 1e-9):
                        bad("start value of %s is %s instead of %s" % (it["name"], v, env[it["name"]]))
            guess = {k: np.asarray(v, float)[()] for k, v in env.items()}
            guess.update({("der", k): np.asarray(v, float)[()] for k, v in ders.items()})
            out, res = m.solve(base, guess)
            for a, b in res:
                if not X.close(a, b, big, 1e-8):
                    bad("an equation is not satisfied: %s = %s" % (a, b))
            for k in ("state", "sens", "vis", "var", "uexp"):
                for it in K[k]:
                    key = ("der", it["name"]) if k == "state" else it["name"]
                    w = ders[it["name"]] if k == "state" else env[it["name"]]
                    if k in ("var", "uexp") and it["name"] not in m.decl:
                        continue
                    if key not in out:
                        bad("no equation determines %s" % (key,))
                    if np.shape(out[key]) != tuple(it["shape"]) or not X.close(out[key], w, big, 1e-8):
                        bad("%s is %s, by its definition %s" % (key, out[key], w))
    except (LG.Bad, LG.Missing) as e:
        bad("cannot be used: %s" % e)
    except np.linalg.LinAlgError:
        raise Reject("singular")
    return tags(K, n)


def mbs(c):
    """Multibody systems: as in Python."""
    desc, lang = c["desc"], c["lang"]
    if sum(1 for s in desc["sensors"] if s["type"] == "Energy" and s["body"] < 0) > 1:
        raise Reject("two sensors of the energy of the whole system")
    closed = bool(desc["loops"])
    T = B.Tree(desc) if closed else None
    if closed:
        ref = [(q, qd, B.inputvalues(desc, k % 2)) for k, (q, qd) in enumerate(B.points(desc, 3))]
    else:
        T, ref = R.reference(desc, 2)
        cond = [abs(np.linalg.inv(r[6][1])).max() * (abs(r[6][2]).max() + abs(r[6][3]).max()) for r in ref]
        ref = [r[:3] for r in ref]
    vis = c["visuals"]
    if lang == "mo":
        # what visual files can show
        vis = [("Sphere" if k in ("Sphere", "Box", "Frame") else "Cylinder", i, j, p) for k, i, j, p in vis]
    with B.quiet():
        m = B.Model(desc)
        vis = W.addvisuals(m, desc, vis)
        m.equations(c["mode"], **c["opts"])
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            os.mkdir(os.path.join(d, "py"))
            m.world.genCode.Python(NAME, os.path.join(d, "py"))
            py = W.pythonmodel(os.path.join(d, "py"))
            for other in c["before"]:
                os.makedirs(os.path.join(d, "before", other))
                m.world.graph.writeCode(other, NAME, os.path.join(d, "before", other))
            new = os.path.join(d, "new", "directory")
            if lang == "mo" and vis:
                os.makedirs(new)
            write = m.world.genCode
            f = {"m": lambda: write.Matlab(NAME, new), "ms": lambda: write.Matlab(NAME, new, symbolic_mode=True),
                 "mo": lambda: write.Modelica(NAME, new, **(dict(genVisualFile="show", package="P.Q") if vis else {})), "mo-": lambda: write.Modelica(NAME, new, inputsAsInputs=False)}[lang]
            try:
                said = heard(f)
            except Exception as e:
                if refused(e):
                    raise Reject("not to be expressed in the language")
                raise
            texts = {n: open(os.path.join(new, n), encoding="latin-1").read() for n in os.listdir(new)}
        finally:
            shutil.rmtree(d)
    if "Error: " in said:
        if any(a in said for a in LIMITS):
            raise Reject("not to be expressed in the language")
        raise Violation("the writer says %s" % said)
    done = 0
    for k, (q, qd, inp) in enumerate(ref):
        y = np.ascontiguousarray(m.state(q, qd), dtype=float)
        for mod in py.values():
            f = getattr(mod, NAME + "_setInputs", None)
            if f and inp:
                f({n: (np.matrix(v, dtype=float).reshape(-1, 1) if np.ndim(v) else v) for n, v in inp.items()})
        values = W.evaluate(py, y)
        if values is None:
            continue
        allv = np.concatenate([R.flat(v) for w in values.values() for v in w.values()])
        if not np.all(np.isfinite(allv)) or abs(allv).max() > 1e4:
            continue
        if closed:
            if W.nearly(T, desc, m, values, inp):
                continue
            scale = abs(allv).max()
        else:
            scale = cond[k]
        given = {n: LG.m2(np.asarray(v, float).reshape(-1, 1) if np.ndim(v) else float(v)) for n, v in inp.items()}
        where = "%s%s %s at q=%s, qd=%s" % (c["mode"], c["opts"] or "", lang, q, qd)
        try:
            if lang[1:] in ("", "s"):
                out = runmatlab(texts, y, given, lang == "ms")
            else:
                out = runmodelica(texts, y, given, values, scale)
                if lang == "mo" and vis:
                    visualfile(texts, vis)
        except (LG.Bad, LG.Missing) as e:
            raise Violation("%s: cannot be run: %s\n%s" % (where, e, everything(texts)))
        done += 1
        for what, vals in values.items():
            if what == "visual" and "visual" not in out:
                continue
            if what not in out:
                raise Violation("%s: no %s\n%s" % (where, what, everything(texts)))
            W.compare(where, what, vals, out[what], scale)
    if not done:
        raise Reject("no regular state")
    tags = {lang, c["mode"]}
    if T.n >= 2 and desc["sensors"]:
        tags.add("nontrivial")
    if closed:
        tags.add("loops")
    if any("\\" in t or "solve2(" in t for t in texts.values()):
        tags.add("linear system")
    return tags


def visualfile(texts, vis):
    text = texts.get("show.mo", "")
    model = LG.Modelica(texts[NAME + ".mo"])
    head = re.match(r"\s*within P\.Q;\s*model show\b[^;]*?extends (\w+);", text)
    shapes = re.findall(r"\bShape (\w+)\(\s*r=(\w+)\[:, 1\],\s*R=[\w.]*Orientation\(T=transpose\((\w+)\), w=\{0,0,0\}\),"
                        r'\s*shapeType="(cylinder|sphere)"', text)
    names = [s[0] for s in shapes]
    if not head or head.group(1) != NAME or not text.rstrip().endswith("end show;") or len(set(names)) != len(names):
        raise Violation("the visual file is\n%s" % text)
    if sorted(s[1:3] for s in shapes) != sorted(("r_" + n, "T_" + n) for n, at in vis):
        raise Violation("the visual file shows %s instead of %s\n%s" % (shapes, vis, text))
    for _n, r, T, _k in shapes:
        if model.decl[r]["dims"] != (3, 1) or model.decl[T]["dims"] != (3, 3):
            raise Violation("%s and %s have the dimensions %s and %s" % (r, T, model.decl[r]["dims"], model.decl[T]["dims"]))


def commented(texts):
    """The values of parameters and constants, which symbolic programs mention in comments."""
    env = {}
    for t in texts.values():
        for n, v in re.findall(r"^\s*% ?(\w+) = ([^;\[]+|\[(?:[^;\n]|;\n?|\n)*\]);\s*$", t, re.M):
            m = LG.Matlab({})
            m.run(LG.MFile("%s = %s;" % (n, re.sub(r"\n\s*%", "\n", v))), env)
    return env


def runmatlab(texts, y, given, symbolic):
    files = mfiles(texts)
    tail = "_symbolic" if symbolic else ""
    if symbolic:
        sym = {"time": 0.3}
        n = y.size // 2
        sym.update(given)
        sym.update(commented(texts))
        sym.update({"q": y[:n].reshape(-1, 1), "qd": y[n:].reshape(-1, 1)})
        mat, args = LG.Matlab(files, sym), ()
    else:
        mat, args = LG.Matlab(files), (LG.m2(0.3), y.reshape(-1, 1))
        mat.override[NAME + "_inputs"] = given
    out = {"der_state": {"yd": np.ravel(mat.call(NAME + "_der_state" + tail, *args))}}
    if NAME + "_sensors" + tail in files:
        out["sensors"] = mat.call(NAME + "_sensors" + tail, *args)
    return out


def runmodelica(texts, y, given, values, scale):
    m = LG.Modelica(texts[NAME + ".mo"])
    base = {"time": np.float64(0.3)}
    for n, v in given.items():
        if n in m.decl:
            base[n] = v if m.decl[n]["dims"] else np.float64(v[0, 0])
    neq, unknown = m.count()
    unknown -= sum(np.size(v) for n, v in given.items() if n in m.decl and "input" not in m.decl[n]["prefix"])
    if neq != unknown:
        raise LG.Bad("%d equations for %d unknowns" % (neq, unknown))
    for kind in ("constant", "parameter"):
        for n, d in m.decl.items():
            if kind in d["prefix"]:
                base[n] = m.ev(d["value"], base)
                if np.shape(base[n]) != d["dims"]:
                    raise LG.Bad("%s is %s" % (n, base[n]))
    at = 0
    states = sorted(n for n, d in m.decl.items() if d.get("stateSelect"))
    for n in states:
        dims = m.decl[n]["dims"]
        size = int(np.prod(dims)) if dims else 1
        base[n] = y[at:at + size].reshape(dims) if dims else np.float64(y[at])
        at += size
    if at != y.size:
        raise LG.Bad("the states %s have %d components instead of %d" % (states, at, y.size))
    out, res = m.solve(base, {})
    for a, b in res:
        if not X.close(a, b, scale, 1e-8):
            raise LG.Bad("an equation is not satisfied: %s = %s" % (a, b))
    r = {"der_state": {"yd": np.concatenate([np.ravel(out[("der", n)]) for n in states])}}
    for what, vals in values.items():
        if what != "der_state":
            r[what] = {n: out[n] for n in vals if n in out and m.decl[n]["prefix"] == {"output"}}
    return r


MANY = dict(states=(2, 5), maxvars=2, depth=2, state_shapes=((), (2, 1), (3, 1), (4, 1)))
CHECK = Check(
    "C06",
    [Aspect("matlab", GR.systems(gen=MGEN, topsolve=True), matlab(False), 3000),
     Aspect("matlab states", GR.systems(gen=MGEN, **MANY), matlab(False), 2000),
     Aspect("matlab symbolic", GR.systems(gen=MGEN), matlab(True), 2000),
     Aspect("modelica", GR.systems(gen=OGEN, uexp=True, topsolve=True), modelica, 3000),
     Aspect("modelica states", GR.systems(gen=OGEN, **MANY), modelica, 2000),
     Aspect("multibody", W.case(W.TREES, W.MODES, ["m", "m", "ms", "mo", "mo", "mo-"]), mbs, 240),
     Aspect("mechanisms", W.case(W.MECH, ["Recursive", "Recursive", "Explicit"], ["m", "mo"]), mbs, 100)],
    rule="random systems of equations written for Matlab and Modelica and interpreted at three points, random multibody systems written "
         "for them and compared to Python; non-trivial: more than one state component and at least one sensor")
