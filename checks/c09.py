"""C09: the generated Python model computes the quantities of the system."""
import importlib.util
import os
import shutil
import sys
import tempfile
import types
import warnings

import numpy as np

from pv import exprs as X
from pv import graphs as GR
from pv.core import Aspect, Check, Reject, Violation

import pymbs.symbolics as S
from checks import c07 as C07

NPTS = 3
NAME = "mod"


def overflow(f):
    try:
        return f()
    except (ZeroDivisionError, OverflowError):
        raise Reject("constant folding in the interpreter")


def load(path, what):
    """The module of a generated file; a file that was not asked for may be absent."""
    fn = os.path.join(path, "%s_%s.py" % (NAME, what))
    if not os.path.exists(fn):
        return None, ""
    text = open(fn, encoding="latin-1").read()
    m = types.ModuleType("%s_%s" % (NAME, what))
    sys.modules[m.__name__] = m
    exec(compile(text, fn, "exec"), m.__dict__)
    return m, text


def states(case):
    """The states in the order of the state vector: (name, shape, offset), total."""
    # as documented by the order of symbols: smaller shapes first, then by name
    its = sorted((it for it in case["items"] if it["kind"] == "state"),
                 key=lambda it: (it["shape"], it["name"]))
    out, n = [], 0
    for it in its:
        shp = tuple(it["shape"])
        out.append((it["name"], shp, n))
        n += 1 if shp == () else shp[0] * shp[1]
    return out, n


def vector(st, n, vals):
    y = np.zeros(n)
    for name, shp, off in st:
        v = np.ravel(vals[name])
        y[off:off + len(v)] = v
    return y


def call(what, f, *a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return f(*a)


def asinput(it, v):
    return np.matrix(v) if it["shape"] else v


def check_controllers(case, env, y, calls, sens_expected, big):
    """Every controller is called with the time, the state vector and the sensor values."""
    for n, c in calls.items():
        for t, yy, ss in c:
            if t != env["time"] or not np.array_equal(yy, y):
                raise Violation("controller %s is called for time %s and states %s instead of %s, %s" % (
                    n, t, yy, env["time"], y))
            if set(ss) != set(sens_expected):
                raise Violation("controller %s is given the sensors %s" % (n, sorted(ss)))
            for k, v in sens_expected.items():
                if not X.close(ss[k], v, big, 1e-8):
                    raise Violation("controller %s: sensor %s is %s instead of %s" % (n, k, ss[k], v))


def run_ctrl(case):
    return run(GR.control(case))


def run(case):
    tags = set()
    pts = []
    for i in range(NPTS):
        try:
            pts.append((i,) + GR.solve(case, i))
        except X.Fragile:
            pass
    if not pts:
        raise Reject("no decidable point")
    st, n = states(case)
    kinds = {k: [it for it in case["items"] if it["kind"] == k] for k in ("state", "sens", "vis", "input", "ctrl")}
    calls = {}
    for it in kinds["ctrl"]:
        m = types.ModuleType("ctl_" + it["name"])
        sys.modules[m.__name__] = m
        m.__dict__["fun_" + it["name"]] = lambda *a: None
        calls[it["name"]] = []
    tdep = "time" in GR.reachable(case, ("vis",))
    for opt in (False, True):
        g, b = overflow(lambda: GR.build(S, case))
        g.buildGraph(opt)
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            g.writeCode("py", NAME, d)
            # the sensors are imported by the derivatives
            sens, t_sens = load(d, "sensors")
            der, t_der = load(d, "der_state")
            vis, t_vis = load(d, "visual")
        except SyntaxError as e:
            raise Violation("the generated text is no Python: %s\n%s" % (e, e.text))
        finally:
            shutil.rmtree(d)
        mods = {"der_state": (der, t_der), "sensors": (sens, t_sens), "visual": (vis, t_vis)}
        for want, k in (("der_state", "state"), ("sensors", "sens"), ("visual", "vis")):
            if kinds[k] and mods[want][0] is None:
                raise Violation("no module %s was generated" % want)
        for i, env, ders, big in pts:
            y = vector(st, n, env)
            inp = {it["name"]: asinput(it, env[it["name"]]) for it in kinds["input"]}
            for m, text in mods.values():
                setter = getattr(m, NAME + "_setInputs", None)
                if setter:
                    # without being set, inputs have their initial values, those of point 0
                    if i > 0 or case["seed"] % 2:
                        setter(inp)
                elif "_inputs" in text:
                    raise Violation("the inputs cannot be set\n" + text)
            for it in kinds["ctrl"]:
                c = calls[it["name"]]
                del c[:]

                def fun(*a, c=c, v=asinput(it, env[it["name"]])):
                    c.append(a)
                    return v
                sys.modules["ctl_" + it["name"]].__dict__["fun_" + it["name"]] = fun
                if der is not None and "fun_" + it["name"] in der.__dict__:
                    der.__dict__["fun_" + it["name"]] = fun
            for want, (m, text) in mods.items():
                if m is None:
                    continue
                f = getattr(m, "%s_%s" % (NAME, want))
                if want == "visual" and tdep:
                    continue
                try:
                    r = call(want, f, y) if want == "visual" else call(want, f, env["time"], y)
                except (ZeroDivisionError, np.linalg.LinAlgError):
                    raise Reject("constant folding")
                except Exception as e:
                    raise Violation("%s fails: %s: %s\n%s" % (want, type(e).__name__, e, text))
                if want == "der_state":
                    r = np.asarray(r)
                    if r.shape != (n,):
                        raise Violation("%d derivatives for %d states\n%s" % (r.size, n, text))
                    check_controllers(case, env, y, calls, {it["name"]: env[it["name"]] for it in kinds["sens"]}, big)
                    w = vector(st, n, ders)
                    if not X.close(r, w, big, 1e-8):
                        raise Violation("derivatives are %s, by the equations %s (states %s)\n%s" % (r, w, st, text))
                else:
                    k = "sens" if want == "sensors" else "vis"
                    if set(r) != {it["name"] for it in kinds[k]}:
                        raise Violation("%s returns %s\n%s" % (want, sorted(r), text))
                    for it in kinds[k]:
                        if not X.close(r[it["name"]], env[it["name"]], big, 1e-8):
                            raise Violation("%s: %s is %s, by its definition %s\n%s" % (
                                want, it["name"], r[it["name"]], env[it["name"]], text))
    if len(st) > 1 and len({s[1] for s in st}) > 1:
        tags.add("mixed states")
    for k, v in kinds.items():
        if v:
            tags.add("kind:" + k)
    if n > 1 and (kinds["sens"] or kinds["vis"]):
        tags.add("nontrivial")
    return tags


def run_blocks(case):
    """Simultaneous linear equations between intermediate variables."""
    tags = set()
    pts = []
    for i in range(NPTS):
        try:
            pts.append(C07.sim_solve(case, i))
        except X.Fragile:
            pass
    if not pts:
        raise Reject("no decidable point")
    for opt in (False, True):
        g = overflow(lambda: C07.sim_build(case))
        try:
            g.buildGraph(opt)
        except Exception as e:
            if "Cannot solve" in str(e) or "Unable to find" in str(e):
                raise Reject("not linear for the library: %s" % e)
            raise
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            try:
                g.writeCode("py", NAME, d)
            except Exception as e:
                if "mplicit" in str(e) or "imultaneous" in str(e):
                    raise Reject("implicit equations")
                raise
            sens, t_sens = load(d, "sensors")
            der, t_der = load(d, "der_state")
        finally:
            shutil.rmtree(d)
        if "linalg.solve" in t_der[t_der.index("def "):]:
            tags.add("solved numerically")
        for env, out, big in pts:
            y = [env["x"], env["yy"]]
            for m in (sens, der):
                if hasattr(m, NAME + "_setInputs"):
                    getattr(m, NAME + "_setInputs")({"inp": env["inp"]})
            try:
                r = call("der_state", getattr(der, NAME + "_der_state"), env["time"], y)
                q = call("sensors", getattr(sens, NAME + "_sensors"), env["time"], y)["sens"]
            except ZeroDivisionError:
                raise Reject("constant folding")
            except Exception as e:
                raise Violation("fails: %s: %s\n%s\n%s" % (type(e).__name__, e, t_der, t_sens))
            for v, w, what, text in ((r[0], out[0], "der_x", t_der), (r[1], out[1], "der_yy", t_der), (q, out[2], "sens", t_sens)):
                if not X.close(v, w, big, 1e-7):
                    raise Violation("%s is %s, by the equations %s\n%s" % (what, v, w, text))
    if len(case["unk"]) > 1:
        tags.add("nontrivial")
    return tags


CHECK = Check(
    "C09",
    [Aspect("model", GR.systems(), run, 2500),
     Aspect("states", GR.systems(states=(2, 5), maxvars=2, depth=2, state_shapes=((), (2, 1), (3, 1), (4, 1))), run, 1500),
     Aspect("control", GR.systems(maxvars=4, depth=2, vis=(0, 1)), run_ctrl, 1500),
     Aspect("blocks", C07.simultaneous(), run_blocks, 1500),
     Aspect("scalar", GR.systems(maxvars=8, depth=3, var_shapes=((),), sens_shapes=((),), state_shapes=((),)), run, 1500)],
    rule="random systems of equations written as Python modules, plain and optimized, and run at three points; non-trivial: "
         "more than one state component and at least one sensor or graphics quantity")
