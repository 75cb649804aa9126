"""Random expressions as JSON trees, their construction through the Python API of the
symbolics extension, and an independent numpy semantics for them.

Shapes: () scalar, (n,1) column vector, (1,n) row vector, (r,c) matrix; n, r, c >= 2.
"""
import math
import random

import numpy as np
from hypothesis import strategies as st

from .core import Reject

SCALARS = ["x", "y", "z", "w"]
SHAPED = {"u": (3, 1), "v": (3, 1), "p": (2, 1), "q": (2, 1), "A": (3, 3), "B": (3, 3),
          "C": (2, 2), "D": (2, 3), "E": (3, 2)}
ALL = {**{s: () for s in SCALARS}, **SHAPED}


class Fragile(Exception):
    """The point is too close to a pole, a branch cut or a jump of the expression."""


# ------------------------------------------------------------------ numeric semantics

class Ref:
    """Evaluates a tree at a point; keeps the largest magnitude met, for tolerances."""

    def __init__(self, env, lets=(), principal=True, limit=1e6, sign0=True):
        self.env, self.lets, self.big, self.principal = env, lets, 1.0, principal
        self.limit, self.sign0 = limit, sign0
        self.forward = []
        self.behind = {}        # name: what forward says of the expression behind it

    def define(self, name, e):
        """The value of e, which name stands for from now on."""
        mark = len(self.forward)
        v = self(e)
        self.behind[name] = self.forward[mark:]
        return v

    def see(self, v):
        a = np.asarray(v, dtype=float)
        if not np.all(np.isfinite(a)):
            raise Fragile("not finite")
        m = float(np.max(np.abs(a))) if a.size else 0.0
        if m > self.limit:
            raise Fragile("too big")
        self.big = max(self.big, m)
        return v

    def cond(self, op, a, b):
        if abs(a - b) < 1e-6 * (1 + abs(a)):
            # a jump: only decidable if both sides are the same exact small integers
            if op == "==" and a == b and float(a).is_integer() and abs(a) < 100:
                return True
            if a == b and float(a).is_integer() and abs(a) < 100:
                return False
            raise Fragile("jump")
        return {"<": a < b, ">": a > b, "==": False}[op]

    def __call__(self, e):
        return self.see(self.ev(e))

    def ev(self, e):
        k = e[0]
        if k == "s":
            self.forward += self.behind.get(e[1], ())
            return self.env[e[1]]
        if k in ("n", "N"):
            return float(e[1])
        if k == "ref":
            return self(self.lets[e[1]])
        if k in "+-*" and len(k) == 1:
            a, b = self(e[1]), self(e[2])
            if k == "+":
                return a + b
            if k == "-":
                return a - b
            if np.ndim(a) and np.ndim(b):
                r = a @ b
                return float(r[0, 0]) if r.shape == (1, 1) else r
            return a * b
        if k == "/":
            a, b = self(e[1]), self(e[2])
            if abs(b) < 1e-2:
                raise Fragile("pole")
            return a / b
        if k == "neg":
            return -self(e[1])
        if k == "pow":
            b, n = self(e[1]), e[2]
            if n < 0 and abs(b) < 1e-2:
                raise Fragile("pole")
            if float(n) != int(n) and b < 1e-2:
                raise Fragile("root of a negative number")
            return float(b) ** n
        if k == "mpow":
            m = self(e[1])
            if e[2] < 0 and (np.linalg.cond(m) > 1e3 or np.linalg.norm(m) < 1e-2):
                raise Fragile("singular")
            return np.linalg.matrix_power(m, e[2])
        if k == "f":
            mark = len(self.forward)
            a = self(e[2])
            f = e[1]
            if f in ("sin", "cos", "tan"):
                self.forward.append((f, a))
            elif f in ("asin", "acos", "atan") and self.principal:
                # known finding: asin(sin(x)) and its siblings are replaced by x, whatever x is
                lo, hi = (0.0, math.pi) if f == "acos" else (-math.pi / 2, math.pi / 2)
                for g, x in self.forward[mark:]:
                    if g == f[1:] and not lo <= x <= hi:
                        raise Fragile("inverse of a periodic function outside its principal range")
            if f in ("asin", "acos") and abs(a) > 0.99:
                raise Fragile("domain")
            if f in ("sign", "abs") and np.min(np.abs(a)) < 1e-6 and np.max(np.abs(a)) != 0:
                raise Fragile("jump")
            if f == "sign" and a == 0 and not self.sign0:
                raise Fragile("sign(0)")
            if f == "tan" and abs(math.cos(a)) < 1e-2:
                raise Fragile("pole")
            return {"sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin,
                    "acos": math.acos, "atan": math.atan, "abs": abs,
                    "sign": lambda t: float(np.sign(t))}[f](a)
        if k == "atan2":
            a, b = self(e[1]), self(e[2])
            if a * a + b * b < 1e-6 or (b < 0 and abs(a) < 1e-6 * abs(b)):
                raise Fragile("branch cut")
            return math.atan2(a, b)
        if k == "if":
            c = self.cond(e[1], self(e[2]), self(e[3]))
            a, b = self(e[4]), self(e[5])
            return a if c else b
        if k == "T":
            return np.asarray(self(e[1])).T if np.ndim(self(e[1])) else self(e[1])
        if k == "skew":
            a = self(e[1])[:, 0]
            return np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
        if k == "scalar":
            return self(e[1])
        if k == "outer":
            return self(e[1]) @ self(e[2]).T
        if k in ("inv", "solve"):
            m = self(e[1])
            if np.linalg.cond(m) > 1e3 or np.linalg.norm(m) < 1e-2:
                raise Fragile("singular")
            return np.linalg.inv(m) if k == "inv" else np.linalg.solve(m, self(e[2]))
        if k in ("el", "idx"):
            return float(self(e[1])[e[2], e[3]])
        if k == "col":
            return self(e[1])[:, e[2]:e[2] + 1]
        if k == "row":
            return self(e[1])[e[2]:e[2] + 1, :]
        if k == "vec":
            return np.array([[self(a)] for a in e[1]])
        if k == "mat":
            return np.array([[self(a) for a in r] for r in e[1]])
        if k == "eye":
            return np.eye(e[1])
        if k == "zeros":
            return np.zeros((e[1], e[2]))
        raise ValueError(k)


def shape_of(v):
    return tuple(np.shape(v)) if np.ndim(v) else ()


def point(seed, names=None, positive=False):
    """A valuation; a pure function of the integer seed."""
    r = random.Random(seed)
    env = {}
    for n, shp in (names or ALL).items():
        def one():
            a = r.uniform(0.3, 2.2)
            return a if positive or r.random() < 0.6 else -a
        env[n] = one() if shp == () else np.array([[one() for _ in range(shp[1])] for _ in range(shp[0])])
    return env


# ------------------------------------------------------------------ construction

class Builder:
    def __init__(self, S, names=None, lets=()):
        self.S = S
        self.names = names or ALL
        self.syms = {}
        self.lets_spec = lets
        self.lets = []
        for l in lets:
            self.lets.append(self(l))

    def sym(self, n):
        if n not in self.syms:
            shp = self.names[n]
            if shp == ():
                self.syms[n] = self.S.Symbol(n)
            elif shp[1] == 1:
                self.syms[n] = self.S.Symbol(n, (shp[0],))
            else:
                self.syms[n] = self.S.Symbol(n, shp)
        return self.syms[n]

    def __call__(self, e):
        S, k = self.S, e[0]
        if k == "s":
            return self.sym(e[1])
        if k == "n":
            return e[1]
        if k == "N":
            return S.Number(e[1])
        if k == "ref":
            return self.lets[e[1]]
        if k == "+":
            return self(e[1]) + self(e[2])
        if k == "-":
            return self(e[1]) - self(e[2])
        if k == "*":
            return self(e[1]) * self(e[2])
        if k == "/":
            return self(e[1]) / self(e[2])
        if k == "neg":
            return -self(e[1])
        if k in ("pow", "mpow"):
            r = self(e[1]) ** e[2]
            if isinstance(r, complex):
                raise OverflowError("complex number")
            return r
        if k == "f":
            a = self(e[2])
            if e[1] == "abs":
                return abs(a)
            return getattr(S, e[1])(a)
        if k == "atan2":
            return S.atan2(self(e[1]), self(e[2]))
        if k == "if":
            c = {"<": S.Less, ">": S.Greater, "==": S.Equal}[e[1]](self(e[2]), self(e[3]))
            return S.If(c, self(e[4]), self(e[5]))
        if k == "T":
            return S.transpose(self(e[1]))
        if k in ("skew", "scalar", "inv"):
            return getattr(S, k)(self(e[1]))
        if k in ("outer", "solve"):
            return getattr(S, k)(self(e[1]), self(e[2]))
        if k == "el":
            return S.element(self(e[1]), e[2], e[3])
        if k == "idx":
            return self(e[1])[e[2], e[3]]
        if k == "col":
            return self(e[1])[:, e[2]]
        if k == "row":
            return self(e[1])[e[2], :]
        if k == "vec":
            return S.Matrix([self(a) for a in e[1]])
        if k == "mat":
            return S.Matrix([[self(a) for a in r] for r in e[1]])
        if k == "eye":
            return S.eye((e[1], e[1]))
        if k == "zeros":
            return S.zeros((e[1],)) if e[2] == 1 else S.zeros((e[1], e[2]))
        raise ValueError(k)


NS = {"linalg": np.linalg, "sin": np.sin, "cos": np.cos, "tan": np.tan, "sign": lambda t: np.sign(np.float64(t)),
      "zeros": np.zeros, "matrix": np.matrix, "atan2": np.arctan2, "atan": np.arctan,
      "asin": np.arcsin, "acos": np.arccos, "pi": math.pi, "sqrt": np.sqrt, "abs": abs}


def pyval(text, env):
    """Value of the text form of an expression (it is meant to be numpy source code)."""
    ns = dict(NS)
    for n, v in env.items():
        ns[n] = np.matrix(v) if np.ndim(v) else np.float64(v)
    with np.errstate(all="ignore"):
        r = eval(compile(text, "<expr>", "eval"), {"__builtins__": {"abs": abs, "float": float}}, ns)
    return np.asarray(r, dtype=float) if np.ndim(r) else float(r)


def close(got, want, big, rtol=1e-8):
    g, w = np.asarray(got, float), np.asarray(want, float)
    if g.shape != w.shape:
        if g.size == 1 and w.size == 1:
            g, w = g.reshape(()), w.reshape(())
        else:
            return False
    return bool(np.all(np.isfinite(g))) and bool(np.all(np.abs(g - w) <= rtol * (1.0 + big)))


# ------------------------------------------------------------------ generation

SMALL = [0, 1, -1, 2, -2, 3, 0.5, -0.5, 1.0, -1.0, 2.0, 0.0, 4, 1.5, 10, 0.1]


class Gen:
    """Draws trees of a wanted shape."""

    def __init__(self, draw, scalars=SCALARS, shaped=SHAPED, nlets=0, letshapes=(), linalg=True,
                 trig=True, conds=True, powers=(-2, -1, 0, 1, 2, 3, 0.5, -0.5, 1.5, 2.0), functions=None,
                 broadcast=False, numbers=None, matrices=True, plain=False, elsym=False):
        self.d = draw
        self.scalars = list(scalars)
        self.shaped = dict(shaped)
        self.letshapes = letshapes
        self.linalg, self.trig, self.conds = linalg, trig, conds
        self.powers = list(powers)
        self.functions = functions or ["sin", "cos", "tan", "asin", "acos", "atan", "sign", "abs"]
        self.broadcast = broadcast
        self.numbers = numbers
        self.matrices = matrices
        self.elsym = elsym  # elements are taken from symbols only
        self.plain = plain  # every element of a matrix is an elementary expression

    def pick(self, seq):
        return seq[self.d(st.integers(0, len(seq) - 1))]

    def number(self):
        if self.numbers is not None:
            return ["n", self.pick(self.numbers)]
        k = self.pick("nnN")
        if self.d(st.integers(0, 5)) == 0:
            return [k, round(self.d(st.floats(-5, 5, allow_nan=False)), 3)]
        return [k, self.pick(SMALL)]

    def leaf(self, shp):
        opts = []
        for i, s in enumerate(self.letshapes):
            if s == shp:
                opts.append(["ref", i])
        if shp == ():
            opts += [["s", n] for n in self.scalars]
            if self.d(st.integers(0, 3)) == 0:
                return self.number()
            return self.pick(opts)
        opts += [["s", n] for n, s in self.shaped.items() if s == shp]
        k = self.d(st.integers(0, 7))
        if k >= 2 and opts:
            return self.pick(opts)
        if k == 0 and shp[0] == shp[1] and shp[0] > 1:
            return ["eye", shp[0]]
        if k == 1 and shp[0] > 1:
            return ["zeros", shp[0], shp[1]]
        return self.matrix(shp, lambda: self.leaf(()))

    def matrix(self, shp, f):
        r, c = shp
        if c == 1:
            return ["vec", [f() for _ in range(r)]]
        if r == 1:
            return ["T", ["vec", [f() for _ in range(c)]]]
        return ["mat", [[f() for _ in range(c)] for _ in range(r)]]

    def __call__(self, shp, depth):
        if depth <= 0:
            return self.leaf(shp)
        if shp == ():
            return self.scalar(depth)
        return self.shapedexpr(shp, depth)

    def anyshape(self, withrow=False):
        return self.pick([(3, 1), (3, 1), (3, 3), (2, 1), (2, 2), (2, 3), (3, 2)])

    def scalar(self, depth):
        d = depth - 1
        ops = ["leaf", "+", "+", "-", "*", "*", "*", "/", "neg", "pow", "pow"]
        if self.trig:
            ops += ["f", "f"]
            if "atan2" not in self.functions or True:
                ops += ["atan2"] if self.trig != "noatan2" else []
        if self.conds:
            ops += ["if"]
        if self.matrices:
            ops += ["dot", "el", "idx", "scalar", "quad", "chain"]
        k = self.pick(ops)
        if k == "leaf":
            return self.leaf(())
        if k in ("+", "-", "*", "/"):
            return [k, self((), d), self((), d)]
        if k == "neg":
            return ["neg", self((), d)]
        if k == "pow":
            return ["pow", self((), d), self.pick(self.powers)]
        if k == "f":
            return ["f", self.pick(self.functions), self((), d)]
        if k == "atan2":
            return ["atan2", self((), d), self((), d)]
        if k == "if":
            return ["if", self.pick(["<", ">", "=="]), self((), d - 1), self((), d - 1), self((), d), self((), d)]
        if k in ("dot", "scalar"):
            n = self.pick([2, 3])
            m = ["*", ["T", self((n, 1), d)], self((n, 1), d)]
            return ["scalar", m] if k == "scalar" else m
        if k == "quad":
            n = self.pick([2, 3])
            return ["*", ["*", ["T", self((n, 1), d - 1)], self((n, n), d - 1)], self((n, 1), d - 1)]
        if k == "chain":
            return self.chain((), 1, 1, d)
        s = self.anyshape()
        return [k, self(s, 0 if self.elsym else d), self.d(st.integers(0, s[0] - 1)), self.d(st.integers(0, s[1] - 1))]

    def chain(self, shp, r, c, d):
        """A product of up to five factors, scalars among them, from the left or from the right."""
        n = self.pick([2, 2, 3])
        dims = [r] + [self.pick([2, 3, 3]) for _ in range(n - 1)] + [c]
        fs = []
        for a, b in zip(dims, dims[1:]):
            f = ["T", self((b, 1), max(0, d - 1))] if a == 1 and b > 1 else self((a, b), max(0, d - 1))
            fs.append(f)
        for _ in range(self.pick([0, 1, 1, 2])):
            fs.insert(self.d(st.integers(0, len(fs))), self((), max(0, d - 1)))
        if self.pick([0, 0, 1]):
            out = fs.pop()
            while fs:
                out = ["*", fs.pop(), out]
            return out
        out = fs.pop(0)
        while fs:
            out = ["*", out, fs.pop(0)]
        return out

    def shapedexpr(self, shp, depth):
        d = depth - 1
        r, c = shp
        ops = ["leaf", "+", "+", "-", "neg", "s*", "s*", "*s", "mm", "mm", "/s", "mat", "chain"]
        if self.conds and not self.plain:
            ops += ["if"]
        if r > 1:
            ops += ["T"]
        if shp == (3, 3):
            ops += ["skew", "skew", "outer"]
        elif r == c and r > 1:
            ops += ["outer"]
        if r == c and r > 1 and self.linalg:
            ops += ["inv"]
        if r == c and r > 1 and not self.plain:
            ops += ["mpow", "twice"]
        if c == 1 and self.linalg:
            ops += ["solve"]
        if c == 1:
            ops += ["col"]
        if r == 1:
            ops = ["T", "T", "s*", "mm", "+", "neg"]
        if self.broadcast:
            ops += ["bc"]
        k = self.pick(ops)
        if k == "leaf":
            return self.leaf(shp)
        if k == "mat":
            return self.matrix(shp, lambda: self((), max(0, d - 1)))
        if k in ("+", "-"):
            return [k, self(shp, d), self(shp, d)]
        if k == "neg":
            return ["neg", self(shp, d)]
        if k == "s*":
            return ["*", self((), d), self(shp, d)]
        if k == "*s":
            return ["*", self(shp, d), self((), d)]
        if k == "/s":
            return ["/", self(shp, d), self((), d)]
        if k == "bc":
            a = [self((), d), self(shp, d)]
            if self.d(st.booleans()):
                a.reverse()
            return [self.pick(["+", "-"])] + a
        if k == "chain":
            return self.chain(shp, r, c, d)
        if k == "mm":
            m = self.pick([2, 3])
            return ["*", self((r, m), d), self((m, c), d)]
        if k == "if":
            return ["if", self.pick(["<", ">", "=="]), self((), d - 1), self((), d - 1), self(shp, d), self(shp, d)]
        if k == "T":
            return ["T", self((c, r), d)]
        if k == "skew":
            return ["skew", self((3, 1), d)]
        if k == "outer":
            return ["outer", self((r, 1), d), self((c, 1), d)]
        if k == "inv":
            return ["inv", self(shp, d)]
        if k == "twice":
            # the same matrix next to its own powers
            m = self(shp, max(0, d - 2))
            pw = [-1, 1, 2, -2] if self.linalg else [1, 2]
            a, b = ([m if p == 1 else ["mpow", m, p] for p in (self.pick(pw), self.pick(pw))])
            r = ["*", a, b]
            return ["*", r, self.pick([m, a, b])] if self.d(st.booleans()) else r
        if k == "mpow":
            return ["mpow", self(shp, d), self.pick([0, 1, 2, 3, -1, -2] if self.linalg else [0, 1, 2, 3])]
        if k == "solve":
            return ["solve", self((r, r), d), self(shp, d)]
        if k == "col":
            cc = self.pick([2, 3])
            return ["col", self((r, cc), 0 if self.elsym else d), self.d(st.integers(0, cc - 1))]
        raise ValueError(k)


def size(e):
    if not isinstance(e, list):
        return 0
    return (1 if e and isinstance(e[0], str) else 0) + sum(size(a) for a in e)


def syms_in(e, lets=()):
    out = set()
    if isinstance(e, list):
        if len(e) == 2 and e[0] == "s":
            out.add(e[1])
        elif len(e) == 2 and e[0] == "ref" and lets:
            out |= syms_in(lets[e[1]], lets)
        else:
            for a in e:
                out |= syms_in(a, lets)
    return out


def ops_in(e, out=None):
    out = set() if out is None else out
    if isinstance(e, list):
        if e and isinstance(e[0], str):
            out.add(e[0] if e[0] != "f" else e[1])
        for a in e:
            ops_in(a, out)
    return out


class IllTyped(Exception):
    pass


def typeof(e, lets=(), names=None):
    """Shape of a tree; raises IllTyped where an operation has operands of the wrong shape."""
    names = names or ALL
    k = e[0]

    def need(c):
        if not c:
            raise IllTyped(k)

    def t(a):
        return typeof(a, lets, names)
    if k == "s":
        return names[e[1]]
    if k in ("n", "N"):
        return ()
    if k == "ref":
        return t(lets[e[1]])
    if k in ("+", "-"):
        a, b = t(e[1]), t(e[2])
        need(a == b)
        return a
    if k == "*":
        a, b = t(e[1]), t(e[2])
        if a == () or b == ():
            return a or b
        need(a[1] == b[0])
        return () if (a[0], b[1]) == (1, 1) else (a[0], b[1])
    if k == "/":
        need(t(e[2]) == ())
        return t(e[1])
    if k == "neg":
        return t(e[1])
    if k in ("pow", "f", "atan2"):
        need(all(t(a) == () for a in e[1:] if isinstance(a, list)))
        return ()
    if k == "mpow":
        a = t(e[1])
        need(len(a) == 2 and a[0] == a[1])
        return a
    if k == "if":
        need(t(e[2]) == () and t(e[3]) == ())
        a = t(e[4])
        need(a == t(e[5]))
        return a
    if k == "T":
        return t(e[1])[::-1]
    if k == "skew":
        need(t(e[1]) == (3, 1))
        return (3, 3)
    if k == "scalar":
        need(t(e[1]) == ())
        return ()
    if k == "outer":
        a, b = t(e[1]), t(e[2])
        need(len(a) == 2 and len(b) == 2 and a == b and a[1] == 1)
        return (a[0], b[0])
    if k == "inv":
        a = t(e[1])
        need(len(a) == 2 and a[0] == a[1])
        return a
    if k == "solve":
        a, b = t(e[1]), t(e[2])
        need(len(a) == 2 and a[0] == a[1] and len(b) == 2 and b == (a[0], 1))
        return b
    if k in ("el", "idx", "col", "row"):
        a = t(e[1])
        need(len(a) == 2)
        if k == "col":
            need(0 <= e[2] < a[1])
            return (a[0], 1)
        if k == "row":
            need(0 <= e[2] < a[0])
            return (1, a[1])
        need(0 <= e[2] < a[0] and 0 <= e[3] < a[1])
        return ()
    if k == "vec":
        need(all(t(a) == () for a in e[1]))
        return (len(e[1]), 1)
    if k == "mat":
        need(all(t(a) == () for r in e[1] for a in r))
        return (len(e[1]), len(e[1][0]))
    if k == "eye":
        return (e[1], e[1])
    if k == "zeros":
        return (e[1], e[2])
    raise ValueError(k)
