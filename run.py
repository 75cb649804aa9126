"""run.py ID [quick|thorough] | ID --replay FILE | ID --worker CFG"""
import faulthandler
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
faulthandler.enable()
sys.setrecursionlimit(5000)


def load(pid, pkg):
    if pkg:
        sys.path.insert(1, pkg)
    return importlib.import_module("checks." + pid.lower()).CHECK


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--worker")
    ap.add_argument("--nobuild", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    from pv import build, core
    pid = a.pid.upper()
    asan = pid in ASAN
    pkg = build.PKG + ("_asan" if asan else "")
    if a.worker:
        cfg = json.load(open(a.worker))
        core.worker(load(pid, pkg), cfg)
        return 0
    if not a.nobuild:
        build.build(asan)
    if a.replay:
        if asan and "libasan" not in os.environ.get("LD_PRELOAD", ""):
            os.environ.update(asan_env())
            os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv + ["--nobuild"])
        body = json.load(open(a.replay))
        chk = load(pid, pkg)
        asp = [x for x in chk.aspects if x.name == body["aspect"]][0]
        try:
            tags = asp.run(body["case"])
        except core.Reject as e:
            print("outside the domain:", e)
            return 0
        except BaseException as e:  # noqa
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            print(core.short_exc(e))
            return 1
        print("holds:", sorted(tags or []))
        return 0
    env = asan_env() if asan else None
    if a.tier == "quick" or a.tier == "thorough":
        # the parent only needs the description of the check, not the package under test
        chk = load(pid, pkg) if not asan else load_light(pid)
        rc = core.main(chk, a.tier, int(os.environ.get("VERIF_SEED", "1")),
                       a.only.split(",") if a.only else None, a.scale, a.workers, env)
        sys.stdout.flush()
        return rc
    raise SystemExit("unknown tier " + a.tier)


ASAN = {"C20"}


def load_light(pid):
    os.environ["PV_LIGHT"] = "1"
    try:
        return load(pid, None)
    finally:
        del os.environ["PV_LIGHT"]


def asan_env():
    import subprocess
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    std = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    return {"LD_PRELOAD": lib + " " + std, "PYTHONMALLOC": "malloc", "PV_RSS": "2200",
            "ASAN_OPTIONS": "quarantine_size_mb=64:alloc_dealloc_mismatch=0:detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1",
            "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1"}


if __name__ == "__main__":
    sys.exit(main())
