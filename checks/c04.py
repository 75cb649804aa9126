"""C04: matrices are containers: what is written is read back, objects do not influence each other,
ill-shaped operations are refused without any effect."""
import numpy as np
from hypothesis import strategies as st

from pv import exprs as X
from pv.core import Aspect, Check, Reject, Violation

import pymbs.symbolics as S

try:
    S.Symbol("v", (3,))[7]
except Exception as e:      # the exception class is not exported by name
    Error = type(e)

NAMES = {"x": (), "y": (), "z": (), "v": (3, 1), "p": (2, 1), "A": (3, 3), "C": (2, 2), "D": (2, 3)}


def env_of(seed):
    return {k: v for k, v in X.point(seed).items() if k in NAMES}


class Obj:
    """What a Python object of the pool should look like: py, val (float or 2-d array), mutable."""

    def __init__(self, py, val, mutable=False):
        self.py, self.val, self.mutable = py, val, mutable


def shp(v):
    return np.shape(v)


def num(o):
    return isinstance(o, (int, float))


class World:
    def __init__(self, case):
        self.env = env_of(case["seed"])
        self.pool = []
        for n, s in NAMES.items():
            py = S.Symbol(n) if s == () else S.Symbol(n, (s[0],) if s[1] == 1 else s)
            self.pool.append(Obj(py, self.env[n]))
        self.muts = self.reads = self.refused = self.shared = 0

    # -- selection of operands
    def of(self, pred, i):
        c = [o for o in self.pool if pred(o)]
        return c[i % len(c)] if c else None

    def scalar(self, spec):
        if spec[0] == "n":
            return spec[1], float(spec[1])
        o = self.of(lambda o: shp(o.val) == (), spec[1])
        return o.py, o.val

    def add(self, py, val, mutable=False):
        val = np.asarray(val, float) if np.ndim(val) else float(val)
        if np.any(np.abs(val) > 1e6):
            raise Reject("too big")
        self.pool.append(Obj(py, val, mutable))
        if len(self.pool) > 30:
            del self.pool[8]

    def check(self, o, what):
        if num(o.py):
            if shp(o.val) != () or abs(float(o.py) - o.val) > 1e-9 * (1 + abs(o.val)):
                raise Violation("%s: got %r, want %s" % (what, o.py, o.val))
            return
        s = shp(o.val)
        want = () if s == () else (max(s),) if 1 in s else s
        if tuple(o.py.shape()) != want:
            raise Violation("%s: shape %s, want %s" % (what, tuple(o.py.shape()), want))
        if s and len(o.py) != o.val.size:
            raise Violation("%s: len %d, want %d" % (what, len(o.py), o.val.size))
        text = str(o.py)
        try:
            got = X.pyval(text, self.env)
        except Exception as e:
            raise Violation("%s: %s: %s" % (what, e, text[:500]))
        if not X.close(got, o.val, 1.0 + float(np.max(np.abs(o.val))) * 1e3, 1e-9):
            raise Violation("%s: value differs\n  text %s\n  got  %s\n  want %s" % (
                what, text[:600], np.asarray(got).tolist(), np.asarray(o.val).tolist()))

    def check_all(self, what):
        for i, o in enumerate(self.pool):
            self.check(o, "object %d after %s" % (i, what))


def sl(spec, n):
    """An index along a dimension of size n: ('i', k) or ('s', start, stop, step); python and numpy form."""
    if spec[0] == "i":
        k = spec[1] % n
        return k, slice(k, k + 1)
    a, b = sorted((spec[1] % (n + 1), spec[2] % (n + 1)))
    if a == b:
        a, b = 0, n
    st_ = spec[3]
    start = {0: a, 1: a - n if a < n else a, 2: None if a == 0 else a}[spec[4]]
    stop = {0: b, 1: b - n if b < n else b, 2: None if b == n else b}[spec[4]]
    if spec[4] == 1 and b == n:
        stop = None
    return slice(start, stop, st_ if st_ != 1 else None), slice(a, b, st_)


def squeeze(v):
    return float(v.reshape(-1)[0]) if v.size == 1 else v


def refuse(w, f, what):
    """f must raise a clean error and have no effect."""
    try:
        r = f()
    except Error:
        w.refused += 1
    except (TypeError, ValueError):
        w.refused += 1
    else:
        raise Violation("%s was accepted: %s" % (what, str(r)[:300]))
    w.check_all("the refused " + what)


def step(w, op):
    k = op[0]
    mats = lambda o: o.mutable
    if k == "list":
        rows = [[w.scalar(s) for s in r] for r in op[1]]
        if len(rows) == 1:
            w.add(S.Matrix([a for a, _ in rows[0]]), np.array([[b] for _, b in rows[0]]), True)
        else:
            w.add(S.Matrix([[a for a, _ in r] for r in rows]), np.array([[b for _, b in r] for r in rows]), True)
    elif k == "shape":
        n, m = op[1], op[2]
        f = [lambda: S.Matrix((n, m)), lambda: S.zeros((n, m)), lambda: S.Matrix((n,)), lambda: S.zeros((n,))][op[3]]
        w.add(f(), np.zeros((n, m) if op[3] < 2 else (n, 1)), True)
    elif k == "eye":
        w.add(S.eye(op[1]) if op[2] else S.eye((op[1], op[1])), np.eye(op[1]), True)
    elif k in ("get", "set"):
        o = w.of(lambda o: shp(o.val) != () and (k == "get" or o.mutable), op[1])
        if o is None:
            return
        r, c = o.val.shape
        single = op[4] and (c == 1 or (o.mutable and k == "get"))
        if single:
            i, ni = sl(op[2], r * c)
            where = "[%s]" % (i,)
            idx = i if op[4] == 1 else (i,)
            sub = o.val.reshape(-1)[ni].reshape(-1, 1)
        else:
            i, ni = sl(op[2], r)
            j, nj = sl(op[3], c)
            where = "[%s,%s]" % (i, j)
            idx = (i, j)
            sub = o.val[ni, nj]
        if k == "get":
            g = o.py[idx]
            w.reads += 1
            w.add(g, squeeze(sub))
            w.check(w.pool[-1], "read %s of %s" % (where, str(o.py)[:300]))
            return
        val = w.of(lambda q: shp(q.val) == (shp(sub) if sub.size > 1 else ()), op[5])
        if sub.size == 1:
            pv, nv = w.scalar(op[6])
        elif val is None:
            return
        else:
            pv, nv = val.py, val.val
        new = o.val.copy()
        if single:
            new.reshape(-1)[ni] = np.asarray(nv).reshape(-1)
        else:
            new[ni, nj] = nv
        o.py[idx] = pv
        o.val = new
        w.muts += 1
        w.check_all("setting %s" % where)
    elif k == "bin":
        a = w.of(lambda o: True, op[2])
        f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q}.get(op[1])
        if f:
            b = w.of(lambda o: shp(o.val) == shp(a.val), op[3])
            if num(a.py) and num(b.py):
                return
            if shp(a.val)[:1] == (1,):
                return               # a row may be a (1,n) matrix or a transposed vector, which do not mix
            w.add(f(a.py, b.py), f(a.val, b.val))
        else:
            b = w.of(lambda o: shp(a.val) == () or shp(o.val) == () or a.val.shape[1] == o.val.shape[0], op[3])
            if b is None or num(a.py) and num(b.py):
                return
            v = a.val * b.val if () in (shp(a.val), shp(b.val)) else a.val @ b.val
            if np.size(v) == 1 and np.ndim(v):
                return                                   # a product of shape (1,1) is not a scalar for the library
            w.add(a.py * b.py, v)
        w.shared += 1
    elif k == "un":
        o = w.of(lambda o: not num(o.py), op[2])
        if op[1] == "neg":
            w.add(-o.py, -o.val)
        elif op[1] == "T":
            if shp(o.val) == ():
                return
            w.add(S.transpose(o.py), o.val.T)
        elif op[1] == "one":
            w.add(o.py * 1, o.val)
        elif op[1] == "zero":
            if shp(o.val)[:1] == (1,):
                return
            z = 0 if shp(o.val) == () else S.zeros(o.val.shape if o.val.shape[1] > 1 else o.val.shape[:1])
            w.add(o.py + z, o.val)
        elif op[1] == "same":
            w.pool.append(o)                             # a second name of the same object
        elif op[1] == "simplify":
            o.py.simplify()
            w.check_all("simplify()")
        w.shared += 1
    elif k == "norm":
        o = w.of(lambda o: o.mutable and o.val.shape[1] == 1, op[1])
        if o is None:
            return
        w.add(o.py.norm(), float(np.sqrt(np.sum(o.val ** 2))))
        w.check(w.pool[-1], "norm")
    elif k == "badidx":
        o = w.of(lambda o: shp(o.val) != (), op[1])
        r, c = o.val.shape
        bad = [(r, 0), (0, c), (-1, 0), (0, -1), (r + 5, c + 5), (2 ** 32, 0), (0, 2 ** 32), 2 ** 40, -1, r * c,
               (slice(0, r + 1), 0), (slice(1, 0), 0), (slice(0, 0), 0), (0, 0, 0), (), "0", 1.0, (0, "a"),
               (slice(0, r, 0), 0), (slice(None, None, -1), 0), (-2 ** 32, 0)][op[2] % 21]
        if op[3] == 0:
            refuse(w, lambda: o.py[bad], "index %r into %s" % (bad, o.val.shape))
        elif op[3] == 1:
            def f():
                o.py[bad] = 1
            refuse(w, f, "assignment to index %r of %s" % (bad, o.val.shape))
        elif isinstance(bad, tuple) and len(bad) == 2 and all(isinstance(q, int) for q in bad):
            refuse(w, lambda: S.element(o.py, *bad), "element(%r) of %s" % (bad, o.val.shape))
    elif k == "badset":
        o = w.of(mats, op[1])
        if o is None:
            return
        r, c = o.val.shape
        i, ni = sl(op[2], r)
        j, nj = sl(op[3], c)
        sub = o.val[ni, nj]
        want = () if sub.size == 1 else sub.shape
        b = w.of(lambda q: shp(q.val) != want, op[4])

        def f():
            o.py[i, j] = b.py
        refuse(w, f, "assignment of %s to a part of shape %s" % (shp(b.val), want))
    elif k == "badop":
        a = w.of(lambda o: True, op[2])
        f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q,
             "solve": S.solve, "outer": S.outer, "skew": lambda p, q: S.skew(p),
             "scalar": lambda p, q: S.scalar(p), "/": lambda p, q: p / q, "pow": lambda p, q: p ** 2,
             "atan2": S.atan2, "sin": lambda p, q: S.sin(p), "if": lambda p, q: S.If(S.Less(p, q), 1, 2),
             "ifelse": lambda p, q: S.If(S.Less(1, w.pool[0].py), p, q)}
        sa = shp(a.val)
        bads = {"+": lambda s: () not in (s, sa) and s != sa, "-": lambda s: () not in (s, sa) and s != sa,
                "*": lambda s: sa != () and s != () and sa[1] != s[0],
                "solve": lambda s: sa != () and sa[0] == sa[1] and s != () and s[0] != sa[0],
                "outer": lambda s: sa == (3, 1) and s == (2, 1) or sa == (2, 1) and s == (3, 1) or sa != () and 1 not in sa,
                "skew": lambda s: sa not in ((), (3, 1)),
                "scalar": lambda s: sa != () and sa != (1, 1), "/": lambda s: s != () and s[0] != s[1],
                "pow": lambda s: sa != () and sa[0] != sa[1],
                "atan2": lambda s: (sa != ()) != (s != ()) or sa != s,
                "sin": lambda s: False, "if": lambda s: sa != () or s != (), "ifelse": lambda s: s != sa}
        if op[1] not in bads:
            return
        b = w.of(lambda o: bads[op[1]](shp(o.val)), op[3])
        if b is None or num(a.py) and num(b.py):
            return
        refuse(w, lambda: f[op[1]](a.py, b.py), "%s of shapes %s and %s" % (op[1], sa, shp(b.val)))
    elif k == "badnew":
        v = w.of(lambda o: np.size(o.val) > 1, op[2])
        x = w.pool[0].py
        f = [lambda: S.Matrix([v.py, x]), lambda: S.Matrix([[x, v.py]]), lambda: S.Matrix([]), lambda: S.Matrix([[]]),
             lambda: S.Matrix([[1, 2], [3]]), lambda: S.Matrix([[1], 2]), lambda: S.Matrix([1, [2]]),
             lambda: S.Matrix((0,)), lambda: S.Matrix((-1, 2)), lambda: S.Matrix((2, 0)), lambda: S.Matrix("ab"),
             lambda: S.Matrix(["a"]), lambda: S.Matrix([None]), lambda: S.Matrix(("a",)), lambda: S.Matrix([[[1]]]),
             lambda: S.eye((2, 3)), lambda: S.zeros((0, 1)), lambda: S.zeros((-2,)), lambda: S.Symbol("k", (0,)),
             lambda: S.Symbol("k", (2, -1)), lambda: S.Symbol("k", ("a",)), lambda: S.Symbol(3), lambda: S.Symbol(),
             lambda: S.Matrix(), lambda: S.Matrix([1], [2]), lambda: S.eye(-1), lambda: S.eye(0),
             lambda: S.Number("a"), lambda: S.sin("a"), lambda: S.sin(), lambda: S.sin(x, x), lambda: x + "a",
             lambda: x ** x, lambda: pow(x, 2, 3), lambda: S.Matrix([10 ** 400]), lambda: x + 10 ** 400]
        i = op[1] % len(f)
        refuse(w, f[i], "construction %d" % i)


def run(case):
    w = World(case)
    for n, op in enumerate(case["ops"]):
        step(w, op)
    w.check_all("the whole history")
    tags = set()
    if w.muts:
        tags.add("written")
    if w.refused:
        tags.add("refused")
    if w.reads:
        tags.add("read")
    if (w.muts and w.shared and w.reads) or (w.refused and w.muts):
        tags.add("nontrivial")
    return tags


ints = st.integers(0, 40)
scal = st.one_of(st.tuples(st.just("n"), st.sampled_from([0, 1, -1, 2, 0.5, 7, -2.5, 1.0, 3000000000 // 10 ** 5])),
                 st.tuples(st.just("o"), ints), st.tuples(st.just("o"), ints)).map(list)
index = st.one_of(st.tuples(st.just("i"), st.integers(0, 11)),
                  st.tuples(st.just("s"), st.integers(0, 11), st.integers(0, 11), st.sampled_from([1, 1, 1, 2]),
                            st.integers(0, 2))).map(list)


@st.composite
def matlist(draw):
    r, c = draw(st.sampled_from([(1, 3), (1, 2), (2, 2), (3, 3), (2, 3), (3, 2), (1, 4), (4, 2)]))
    return ["list", [[draw(scal) for _ in range(c)] for _ in range(r)]]


def tup(*a):
    return st.tuples(*a).map(list)


single = st.sampled_from([0, 0, 0, 1, 1, 2])
op = st.one_of(
    matlist(), matlist(),
    tup(st.just("shape"), st.integers(2, 4), st.integers(2, 3), st.integers(0, 3)),
    tup(st.just("eye"), st.integers(2, 3), st.booleans()),
    tup(st.just("get"), ints, index, index, single),
    tup(st.just("get"), ints, index, index, single),
    tup(st.just("set"), ints, index, index, single, ints, scal),
    tup(st.just("set"), ints, index, index, single, ints, scal),
    tup(st.just("set"), ints, index, index, single, ints, scal),
    tup(st.just("bin"), st.sampled_from("++-**"), ints, ints),
    tup(st.just("un"), st.sampled_from(["neg", "T", "one", "zero", "same", "simplify", "simplify"]), ints),
    tup(st.just("norm"), ints),
)
bad = st.one_of(
    tup(st.just("badidx"), ints, ints, st.integers(0, 2)),
    tup(st.just("badset"), ints, index, index, ints),
    tup(st.just("badop"), st.sampled_from(["+", "-", "*", "solve", "outer", "skew", "scalar", "/", "pow", "atan2",
                                           "ifelse"]), ints, ints),
    tup(st.just("badnew"), ints, ints))


def cases(o, lo, hi):
    return st.fixed_dictionaries({"ops": st.lists(o, min_size=lo, max_size=hi), "seed": st.integers(0, 10 ** 6)})


CHECK = Check(
    "C04",
    [Aspect("history", cases(op, 3, 25), run, 9000),
     Aspect("refusal", cases(st.one_of(op, bad, bad), 2, 14), run, 12000)],
    rule="random histories of creating, combining, reading, writing and simplifying vectors and matrices next to a model "
         "of plain numpy arrays; non-trivial: at least one write, one derived object and one read, or one refused "
         "operation after a write")
