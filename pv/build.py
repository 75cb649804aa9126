"""Builds the tree under test from its current working tree into /verif/build.

The compiled extension and a copy of the pure Python half are put side by side in
build/pkg/pymbs, so nothing is written into the tree under test and whatever
build products lie around there are ignored.
"""
import fcntl
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")
BUILD = os.environ.get("PV_BUILD", os.path.join(HERE, "build"))
PKG = os.path.join(BUILD, "pkg")


def _run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(log, "a") as f:
        f.write("$ %s\n%s\n" % (" ".join(cmd), r.stdout))
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:])
        raise SystemExit("build of the tree under test failed: %s" % " ".join(cmd))


def _cmake(sub, flags, btype):
    b = os.path.join(BUILD, sub)
    os.makedirs(b, exist_ok=True)
    log = os.path.join(BUILD, sub + ".log")
    open(log, "w").close()
    _run(["cmake", "-S", os.path.join(HERE, "cm"), "-B", b, "-G", "Ninja", "-DPV_REPO=" + REPO,
          "-DCMAKE_BUILD_TYPE=" + btype, "-DCMAKE_CXX_FLAGS=" + flags,
          "-DPython_EXECUTABLE=/opt/pymbs-venv/bin/python"], log)
    _run(["ninja", "-C", b, "SympyWrapper"], log)
    for root, _d, files in os.walk(b):
        for f in files:
            if f == "symbolics.so":
                return os.path.join(root, f)
    raise SystemExit("no symbolics.so was built")


def _copy_pkg(so, dst):
    new = dst + ".new"
    shutil.rmtree(new, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "pymbs"), os.path.join(new, "pymbs"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc"))
    shutil.copy(so, os.path.join(new, "pymbs", "symbolics", "symbolics.so"))
    shutil.rmtree(dst, ignore_errors=True)
    os.rename(new, dst)


def build(asan=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if asan:
            so = _cmake("cm_asan", "-w -g1 -O1 -fno-omit-frame-pointer -fsanitize=address,undefined "
                        "-fno-sanitize=vptr,alignment -D_GLIBCXX_ASSERTIONS", "None")
            _copy_pkg(so, PKG + "_asan")
            return PKG + "_asan"
        so = _cmake("cm", "-w -O1", "None")
        _copy_pkg(so, PKG)
        return PKG


if __name__ == "__main__":
    build()
    if "--asan" in sys.argv:
        build(True)
    print("build ok")
