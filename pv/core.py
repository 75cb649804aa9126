"""Search engine shared by all checks.

A check is a list of aspects.  An aspect has a Hypothesis strategy that produces a
JSON-able case and a function run(case) that decides it:

    returns a set/list of tags   the property held on the case; the tag "nontrivial"
                                 counts it as a non-trivial case
    raises Reject                the case is outside the property's domain (counted)
    raises anything else         the property is violated

Cases are spread over worker processes.  A worker notes the case it is about to decide,
so that a native crash or an endless loop is attributed to a case; the worker is then
restarted in a mode where every case is decided in a forked child, which turns the crash
into an ordinary failure that Hypothesis can shrink.
"""
import collections
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import time
import traceback

from . import build

HERE = build.HERE
HANG_S = float(os.environ.get("PV_HANG", "90"))       # a normal case takes milliseconds
SHRINK_S = 45.0
RSS_MB = float(os.environ.get("PV_RSS", "900"))


class Violation(Exception):
    pass


class Reject(Exception):
    pass


class Stop(KeyboardInterrupt):
    """Ends the search of an aspect."""


class Aspect:
    def __init__(self, name, strategy, run, quick, thorough=None, rule="", known=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick = quick                       # cases in the quick tier, all workers together
        self.thorough = thorough or quick * 12
        self.rule = rule
        self.known = known or (lambda case, exc: None)


class Check:
    def __init__(self, pid, aspects, rule, assumptions=(), asan=False, setup=None):
        self.pid, self.aspects, self.rule = pid, aspects, rule
        self.assumptions, self.asan, self.setup = list(assumptions), asan, setup


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(*parts):
    return hashlib.sha256("|".join(map(str, parts)).encode()).hexdigest()


def short_exc(e):
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    return ("unexpected %s: " % type(e).__name__) + str(e)[:1500] + "\n" + "".join(tb)[-2500:]


# --------------------------------------------------------------------------- worker

def _decide_forked(fn, case, timeout):
    """Decides the case in a child; a crash or a hang of the child is a failure."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                tags = fn(case)
                out = {"ok": sorted(tags or [])}
            except Reject as e:
                out = {"reject": str(e)}
            except BaseException as e:  # noqa
                out = {"bad": short_exc(e)}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(out))
                f.flush()
        finally:
            os._exit(0)
    os.close(w)
    t0 = time.time()
    data = b""
    import select
    while True:
        left = timeout - (time.time() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise Violation("no answer within %.0f s (endless loop?)" % timeout)
        rd, _, _ = select.select([r], [], [], min(left, 1.0))
        if rd:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        raise Violation("the process died while handling this case (wait status %d)" % st)
    out = json.loads(data)
    if "ok" in out:
        return out["ok"]
    if "reject" in out:
        raise Reject(out["reject"])
    raise Violation(out["bad"])


def rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * (os.sysconf("SC_PAGE_SIZE") / 1e6)


def worker(check, cfg):
    """cfg: seed, tier, idx, n, dir, forked, budget"""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    d = cfg["dir"]
    wd = os.path.join(d, "cwd%d" % cfg["idx"])      # the library may leave files behind
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    beat = os.path.join(d, "w%d.case" % cfg["idx"])
    t_start = time.time()
    res = {"evaluations": 0, "rejected": 0, "tags": {}, "nontrivial": [], "samples": [],
           "aspects": {}, "fail": None, "truncated": False, "known": {}}
    for asp in check.aspects:
        if cfg.get("only") and asp.name not in cfg["only"]:
            continue
        total = asp.quick if cfg["tier"] == "quick" else asp.thorough
        total = max(1, int(total * cfg.get("scale", 1.0)))
        n = total // cfg["n"] + (1 if cfg["idx"] < total % cfg["n"] else 0)
        if n <= 0:
            continue
        state = {"t_fail": None, "best": None, "n": 0, "nt": 0}
        tags = collections.Counter()
        seen = set()

        def body(case):
            if state["t_fail"] is None and time.time() - t_start > cfg["budget"]:
                res["truncated"] = True
                raise Stop()
            if state["t_fail"] is not None and time.time() - state["t_fail"] > SHRINK_S:
                return
            key = canon(case)
            with open(beat, "w") as f:
                f.write(json.dumps({"aspect": asp.name, "case": case}))
            state["n"] += 1
            try:
                if cfg["forked"]:
                    tg = _decide_forked(asp.run, case, 25.0)
                elif rss_mb() > RSS_MB:         # the library keeps memory of every model
                    tg = _decide_forked(asp.run, case, HANG_S - 10)
                else:
                    tg = asp.run(case)
            except Reject:
                res["rejected"] += 1
                return
            except BaseException as e:  # noqa
                if isinstance(e, (KeyboardInterrupt, SystemExit, GeneratorExit)):
                    raise
                if type(e).__module__.startswith("hypothesis"):
                    raise
                k = asp.known(case, e)
                if k:
                    res["known"][k] = res["known"].get(k, 0) + 1
                    return
                if state["t_fail"] is None:
                    state["t_fail"] = time.time()
                if state["best"] is None or (len(key), key) <= (len(canon(state["best"][0])), canon(state["best"][0])):
                    state["best"] = (case, short_exc(e))
                raise Violation("failed") from None
            if state["t_fail"] is None:
                tg = set(tg or ())
                for t in tg:
                    tags[t] += 1
                if "nontrivial" in tg:
                    h = digest(asp.name, key)[:16]
                    if h not in seen:
                        seen.add(h)
                        state["nt"] += 1
                        if state["nt"] in (3, 40) and cfg["idx"] == 0 and len(key) < 6000:
                            res["samples"].append({"aspect": asp.name, "case": case})

        t0 = time.time()
        f = given(asp.strategy)(body)
        f = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                     phases=(Phase.generate, Phase.shrink), print_blob=False,
                     verbosity=hypothesis.Verbosity.quiet)(f)
        f = hypothesis.seed(int(digest(cfg["seed"], check.pid, asp.name, cfg["idx"]), 16) % (1 << 62))(f)
        try:
            f()
        except (hypothesis.errors.Unsatisfiable, Stop):
            pass
        except BaseException as e:  # noqa
            if state["best"] is None:
                raise
        res["evaluations"] += state["n"]
        res["nontrivial"].extend(sorted(seen))
        res["aspects"][asp.name] = {"evaluations": state["n"], "distinct_nontrivial": state["nt"],
                                    "tags": dict(tags), "wall_s": round(time.time() - t0, 2)}
        if state["best"] is not None:
            res["fail"] = {"aspect": asp.name, "case": state["best"][0], "message": state["best"][1]}
            break
    tmp = os.path.join(d, "w%d.tmp" % cfg["idx"])
    with open(tmp, "w") as fo:
        json.dump(res, fo)
    os.rename(tmp, os.path.join(d, "w%d.json" % cfg["idx"]))


# --------------------------------------------------------------------------- parent

def replay_once(pid, path, timeout=None):
    """True if the saved case fails when decided in a fresh process."""
    timeout = timeout or HANG_S * 2
    try:
        r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "run.py"), pid,
                            "--replay", path, "--nobuild"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return r.returncode != 0, r.stdout[-3000:]
    except subprocess.TimeoutExpired:
        return True, "no answer within %.0f s" % timeout


def spawn(check, cfg, env):
    cp = os.path.join(cfg["dir"], "w%d.cfg" % cfg["idx"])
    with open(cp, "w") as f:
        json.dump(cfg, f)
    for s in (".json", ".case"):
        try:
            os.unlink(os.path.join(cfg["dir"], "w%d%s" % (cfg["idx"], s)))
        except FileNotFoundError:
            pass
    log = open(os.path.join(cfg["dir"], "w%d.log" % cfg["idx"]), "w")
    p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "run.py"), check.pid,
                          "--worker", cp], stdout=log, stderr=subprocess.STDOUT, env=env,
                         start_new_session=True)
    log.close()
    return p


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def orchestrate(check, tier, seed, env, budget, only=None, scale=1.0, nworkers=None):
    d = os.path.join(build.BUILD, "work", check.pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    n = nworkers or max(2, min(8, os.cpu_count() or 4))
    procs, cfgs, results = {}, {}, {}
    for i in range(n):
        cfgs[i] = {"seed": seed, "tier": tier, "idx": i, "n": n, "dir": d, "forked": False,
                   "budget": budget, "only": only, "scale": scale}
        procs[i] = spawn(check, cfgs[i], env)
    fails, errors = [], []

    def tail(i):
        try:
            return open(os.path.join(d, "w%d.log" % i), errors="replace").read()[-3000:]
        except OSError:
            return ""

    def lastcase(i):
        try:
            return json.load(open(os.path.join(d, "w%d.case" % i)))
        except (OSError, ValueError):
            return None

    t_end = None
    while procs:
        time.sleep(0.05)
        if fails and t_end is None:
            t_end = time.time() + 1.0
        for i, p in list(procs.items()):
            rc = p.poll()
            jf = os.path.join(d, "w%d.json" % i)
            if rc is not None:
                del procs[i]
                if os.path.exists(jf) and rc == 0:
                    results[i] = json.load(open(jf))
                    if results[i]["fail"]:
                        fails.append(results[i]["fail"])
                elif cfgs[i]["forked"]:
                    errors.append("worker %d ended with %s\n%s" % (i, rc, tail(i)))
                else:
                    lc = lastcase(i)
                    if lc is None:
                        errors.append("worker %d ended with %s\n%s" % (i, rc, tail(i)))
                        continue
                    if rc > 0:      # a Python error in the harness itself
                        errors.append("worker %d ended with %s\n%s" % (i, rc, tail(i)))
                        continue
                    crash = dict(lc, message="the process died (exit status %s)\n%s" % (rc, tail(i)))
                    cfgs[i]["crash"] = crash
                    cfgs[i] = dict(cfgs[i], forked=True, only=[lc["aspect"]], budget=150)
                    cfgs[i].pop("crash", None)
                    results[i] = None
                    fails_pending = crash
                    procs[i] = spawn(check, cfgs[i], env)
                    pend.append(fails_pending)
                continue
            cf = os.path.join(d, "w%d.case" % i)
            if not cfgs[i]["forked"] and os.path.exists(cf):
                if time.time() - os.path.getmtime(cf) > HANG_S and os.path.exists(cf):
                    lc = lastcase(i)
                    kill(p)
                    del procs[i]
                    if lc is not None:
                        pend.append(dict(lc, message="no answer within %.0f s (endless loop?)" % HANG_S))
            if t_end is not None and time.time() > t_end:
                kill(p)
                procs.pop(i, None)
    # crashes and hangs for which the forked search produced nothing smaller
    if not fails:
        fails.extend(pend)
    return [r for r in results.values() if r], fails, errors


pend = []


def confirm(check, fail):
    rd = os.path.join(build.BUILD, "replays")
    os.makedirs(rd, exist_ok=True)
    body = {"property": check.pid, "aspect": fail["aspect"], "case": fail["case"],
            "message": fail["message"]}
    path = os.path.join(rd, "%s-%s-%s.json" % (check.pid, fail["aspect"], digest(canon(fail["case"]))[:10]))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    # what depends on the addresses of objects fails in some processes only
    hits = [replay_once(check.pid, path) for _ in range(3)]
    t0 = time.time()
    while not any(h for h, _ in hits) and len(hits) < 40 and time.time() - t0 < 90:
        hits.append(replay_once(check.pid, path))
    return path, "%d/%d" % (sum(1 for h, _ in hits if h), len(hits)) if any(h for h, _ in hits) else "", hits[-1][1]


def main(check, tier, seed, only=None, scale=1.0, nworkers=None, asan_env=None):
    t0 = time.time()
    del pend[:]
    env = dict(os.environ)
    if asan_env:
        env.update(asan_env)
    budget = float(os.environ.get("PV_BUDGET", "240" if tier == "quick" else "3000"))
    results, fails, errors = orchestrate(check, tier, seed, env, budget, only, scale, nworkers)
    known = load_known(check.pid)
    known_lines = []
    for k in known:
        bad, msg = replay_once(check.pid, os.path.join(HERE, k["replay"]))
        if bad:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (check.pid, k["what"]))
        else:
            known_lines.append("note: known finding no longer fails: %s" % k["what"])
    viol = 0
    lines = []
    unconfirmed = []
    for f in sorted(fails, key=lambda f: len(canon(f["case"])))[:4]:
        path, hits, out = confirm(check, f)
        if hits:
            viol += 1
            lines.append("VIOLATION property=%s replay=%s" % (check.pid, path))
            lines.append("  aspect %s, reproduced %s: %s" % (f["aspect"], hits, f["message"][:1500]))
            break
        unconfirmed.append(path)
    ev = collections.Counter()
    tags = {}
    nontriv = set()
    samples = []
    rejected = 0
    trunc = False
    knownhits = collections.Counter()
    walls = collections.Counter()
    for r in results:
        rejected += r["rejected"]
        trunc |= r["truncated"]
        nontriv.update(r["nontrivial"])
        samples.extend(r["samples"])
        knownhits.update(r["known"])
        for a, x in r["aspects"].items():
            ev[a] += x["evaluations"]
            walls[a] = max(walls[a], x["wall_s"])
            tags.setdefault(a, collections.Counter()).update(x["tags"])
    evidence = {
        "property": check.pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(sum(ev.values())), "distinct_nontrivial": len(nontriv),
            "rule": check.rule, "samples": samples[:8],
            "per_aspect": {a: {"evaluations": ev[a], "classes": dict(sorted(tags[a].items())),
                               "wall_s": walls[a]} for a in ev},
            "outside_domain": rejected, "known_finding_hits": dict(knownhits),
            "stopped_by_time_budget": trunc,
            "unconfirmed_failures": unconfirmed, "worker_errors": errors[:3],
        },
        "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", check.pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for ln in known_lines:
        print(ln)
    for ln in lines:
        print(ln)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d outside the domain, %.1f s%s" % (
        check.pid, tier, seed, sum(ev.values()), len(nontriv), rejected, time.time() - t0,
        " (time budget hit)" if trunc else ""))
    for a in ev:
        print("   %-16s %7d cases  %5.1f s  %s" % (a, ev[a], walls[a], dict(sorted(tags[a].items()))))
    if viol:
        return 1
    if errors:
        print("harness errors:\n" + "\n".join(errors[:3]))
        return 2
    if unconfirmed:
        print("failures that did not reproduce in a fresh process:", unconfirmed)
        return 2
    return 0


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == pid]
