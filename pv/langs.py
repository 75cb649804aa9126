"""Small interpreters of the parts of Matlab and Modelica that generated models consist of.

They follow the languages strictly where this matters for a model (shapes of operands, what may be indexed, precedence),
so that a text which the real tool would refuse is refused here.
"""
import re

import numpy as np


class Bad(Exception):
    """The text is not valid in the language."""


class Missing(Exception):
    """A name without value."""

    def __init__(self, name):
        super().__init__("%s has no value" % (name,))
        self.name = name


NUM = re.compile(r"(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
IDENT = re.compile(r"[A-Za-z_]\w*")
OPS = ["<=", ">=", "==", "~=", "<>", ".*", "./", ".^", "..", "(", ")", "[", "]", "{", "}", ",", ";", ":", "=", "+", "-", "*", "/", "\\", "^", "<", ">",
       ".", "'", "@"]


class Tok:
    __slots__ = ("kind", "text", "sp", "nl")

    def __init__(self, kind, text, sp, nl):
        self.kind, self.text, self.sp, self.nl = kind, text, sp, nl

    def __repr__(self):
        return self.text


def tokens(text, string=None):
    """Tokens with what was before them: space, new line."""
    out, i, sp, nl = [], 0, False, False
    while i < len(text):
        c = text[i]
        if c in " \t\r\n":
            sp = True
            nl |= c == "\n"
            i += 1
            continue
        if string and c == string:
            j = text.index(string, i + 1)
            t, kind = text[i:j + 1], "str"
        elif NUM.match(text, i) and (c.isdigit() or (c == "." and i + 1 < len(text) and text[i + 1].isdigit())):
            t, kind = NUM.match(text, i).group(), "num"
        elif IDENT.match(text, i):
            t, kind = IDENT.match(text, i).group(), "id"
        else:
            for o in OPS:
                if text.startswith(o, i):
                    t, kind = o, "op"
                    break
            else:
                raise Bad("character %r in %s" % (c, text[max(0, i - 60):i + 40]))
        out.append(Tok(kind, t, sp, nl))
        sp = nl = False
        i += len(t)
    out.append(Tok("end", "", sp, True))
    return out


class Parser:
    def __init__(self, toks, text=""):
        self.t, self.i, self.text = toks, 0, text

    @property
    def cur(self):
        return self.t[self.i]

    def at(self, *ops):
        return self.cur.kind in ("op", "id") and self.cur.text in ops

    def eat(self, op):
        if self.cur.text != op or self.cur.kind not in ("op", "id"):
            raise Bad("%r instead of %r in %s" % (self.cur.text, op, " ".join(t.text for t in self.t[max(0, self.i - 25):self.i + 10])))
        self.i += 1

    def name(self):
        if self.cur.kind != "id":
            raise Bad("%r instead of a name in %s" % (self.cur.text, " ".join(t.text for t in self.t[max(0, self.i - 25):self.i + 10])))
        self.i += 1
        return self.t[self.i - 1].text


FUN = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "asin": np.arcsin, "acos": np.arccos, "atan": np.arctan, "abs": np.abs,
       "sign": np.sign}


# Matlab

class MParser(Parser):
    """Expressions to trees; inside brackets blanks separate elements."""

    def expr(self, inb=False):
        return self.rel(inb)

    def rel(self, inb):
        a = self.sums(inb)
        while self.at("<", ">", "<=", ">=", "==", "~="):
            o = self.cur.text
            self.i += 1
            a = ("bin", o, a, self.sums(inb))
        return a

    def split(self, inb):
        """[a -b] are two elements."""
        return inb and self.cur.sp and not self.t[self.i + 1].sp

    def sums(self, inb):
        a = self.prods(inb)
        while self.at("+", "-") and not self.split(inb):
            o = self.cur.text
            self.i += 1
            a = ("bin", o, a, self.prods(inb))
        return a

    def prods(self, inb):
        a = self.unary(inb)
        while self.at("*", "/", "\\", ".*", "./"):
            o = self.cur.text
            self.i += 1
            a = ("bin", o, a, self.unary(inb))
        return a

    def unary(self, inb):
        if self.at("+", "-"):
            o = self.cur.text
            self.i += 1
            return ("un", o, self.unary(inb))
        return self.power(inb)

    def power(self, inb):
        a = self.post(inb)
        while self.at("^", ".^"):
            o = self.cur.text
            self.i += 1
            if self.at("+", "-"):
                s = self.cur.text
                self.i += 1
                b = ("un", s, self.post(inb))
            else:
                b = self.post(inb)
            a = ("bin", o, a, b)
        return a

    def post(self, inb):
        a = self.atom()
        while True:
            if self.at("(") and not (inb and self.cur.sp):
                if a[0] not in ("name", "field"):
                    raise Bad("only variables can be indexed in Matlab: %s" % " ".join(t.text for t in self.t[max(0, self.i - 25):self.i + 10]))
                self.i += 1
                args = []
                while not self.at(")"):
                    if self.at(":") and self.t[self.i + 1].text in (",", ")"):
                        self.i += 1
                        args.append(("all",))
                    else:
                        e = self.expr()
                        if self.at(":"):
                            self.i += 1
                            e = ("range", e, self.expr())
                        args.append(e)
                    if not self.at(")"):
                        self.eat(",")
                self.i += 1
                a = ("call", a, args)
            elif self.at(".") and a[0] in ("name", "field"):
                self.i += 1
                a = ("field", a, self.name())
            elif self.at("'") and not self.cur.sp:
                self.i += 1
                a = ("un", "'", a)
            else:
                return a

    def atom(self):
        k = self.cur
        if k.kind == "num":
            self.i += 1
            return ("num", float(k.text))
        if k.kind == "id":
            self.i += 1
            return ("name", k.text)
        if self.at("'"):            # a string, as in sym('x')
            self.i += 1
            s = self.name()
            self.eat("'")
            return ("str", s)
        if self.at("("):
            self.i += 1
            a = self.expr()
            self.eat(")")
            return ("par", a)
        if self.at("["):
            self.i += 1
            rows, row = [], []
            while not self.at("]"):
                if self.at(";") or (self.cur.nl and row and self.t[self.i - 1].text != ","):
                    if self.at(";"):
                        self.i += 1
                    if row:
                        rows.append(row)
                    row = []
                    continue
                if self.at(","):
                    self.i += 1
                    continue
                row.append(self.expr(True))
            self.i += 1
            if row:
                rows.append(row)
            return ("mat", rows)
        raise Bad("unexpected %r in %s" % (k.text, " ".join(t.text for t in self.t[max(0, self.i - 25):self.i + 10])))


def m2(v):
    return np.atleast_2d(np.asarray(v, dtype=float))


class MFile:
    """One generated file: a function or a script."""

    def __init__(self, text):
        self.text = text
        body = re.sub(r"%[^\n]*", "", text)
        m = re.match(r"\s*function\s+(\w+)\s*=\s*(\w+)\s*(?:\(([^)]*)\))?\s*\n", body)
        self.out = self.fname = None
        self.args = []
        if m:
            self.out, self.fname = m.group(1), m.group(2)
            self.args = [a.strip() for a in (m.group(3) or "").split(",") if a.strip()]
            body = body[m.end():]
        self.body = []
        p = MParser(tokens(body))
        while p.cur.kind != "end":
            if p.at(";"):
                p.i += 1
                continue
            if p.at("end"):
                p.i += 1
                continue
            if self.fname is None and p.cur.kind == "id" and p.t[p.i + 1].text != "=":
                # commands of a script are not needed
                while p.cur.kind != "end" and not p.t[p.i + 1].nl:
                    p.i += 1
                p.i += 1
                continue
            if p.at("syms"):
                p.i += 1
                while p.cur.kind == "id" and not p.cur.nl:
                    self.body.append((("name", p.cur.text), ("call", ("name", "sym"), [("str", p.cur.text)])))
                    p.i += 1
                continue
            if self.fname is None and p.at("[", "for"):
                # [T, Y] = ode15s(...), and what follows is not needed
                break
            lhs = ("name", p.name())
            while p.at("."):
                p.i += 1
                lhs = ("field", lhs, p.name())
            if p.at("(") and not p.cur.sp:
                p.i += 1
                ix = [p.expr()]
                while p.at(","):
                    p.i += 1
                    ix.append(p.expr())
                p.eat(")")
                lhs = ("index", lhs, ix)
            p.eat("=")
            if self.fname is None:
                # scripts: only what can be read
                try:
                    e = p.expr()
                    if p.at(":"):
                        raise Bad("range")
                except Bad:
                    while p.cur.kind != "end" and not p.cur.nl:
                        p.i += 1
                    continue
            else:
                e = p.expr()
            if not (p.at(";") or p.cur.nl):
                raise Bad("%r behind the expression of %s" % (p.cur.text, lhs[-1]))
            self.body.append((lhs, e))


class Matlab:
    def __init__(self, files, sym=None):
        """files: {function name: MFile}; sym: values of the symbols of the symbolic toolbox."""
        self.files, self.sym = files, sym
        self.override = {}

    def call(self, name, *args):
        if name in self.override:
            return self.override[name]
        f = self.files[name]
        if f.fname != name:
            raise Bad("the file %s.m defines %s" % (name, f.fname))
        if len(args) != len(f.args):
            raise Bad("%s is called with %d arguments, it has %s" % (name, len(args), f.args))
        env = dict(zip(f.args, args))
        self.run(f, env)
        if f.out not in env:
            raise Bad("%s does not assign its result %s" % (name, f.out))
        return env[f.out]

    def run(self, f, env):
        for lhs, e in f.body:
            try:
                v = self.ev(e, env)
            except (Missing, Bad):
                if f.fname is None and "str" in repr(e):
                    continue            # options of the solver
                raise
            if lhs[0] == "index":
                self.put(lhs, m2(v), env)
            elif lhs[0] == "name":
                if isinstance(v, dict):
                    v = dict(v)
                env[lhs[1]] = v
            else:
                o = env.setdefault(lhs[1][1], {})
                if not isinstance(o, dict):
                    if np.size(o):
                        raise Bad("field %s of a number %s" % (lhs[2], lhs[1][1]))
                    o = env[lhs[1][1]] = {}
                o[lhs[2]] = v

    def put(self, lhs, v, env):
        """x(i,j) = v; variables grow."""
        if lhs[1][0] != "name":
            raise Bad("an element of a field is assigned")
        ix = [self.ev(a, env) for a in lhs[2]]
        if any(a.size != 1 or a.item() != int(a.item()) or a.item() < 1 for a in ix) or v.size != 1:
            raise Bad("assignment of %s to element %s" % (v.shape, ix))
        ix = [int(a.item()) - 1 for a in ix]
        old = env.get(lhs[1][1], np.zeros((0, 0)))
        if isinstance(old, dict):
            raise Bad("element of a struct")
        if len(ix) == 1:
            ix = [ix[0], 0] if old.shape[1] == 1 and old.size > 1 else [0, ix[0]]
        if len(ix) != 2:
            raise Bad("%d indices" % len(ix))
        new = np.zeros((max(old.shape[0], ix[0] + 1), max(old.shape[1], ix[1] + 1)))
        new[:old.shape[0], :old.shape[1]] = old
        new[ix[0], ix[1]] = v.item()
        env[lhs[1][1]] = new

    def ev(self, e, env):
        k = e[0]
        if k == "num":
            return m2(e[1])
        if k == "par":
            return self.ev(e[1], env)
        if k == "name":
            if e[1] in env:
                return env[e[1]]
            if e[1] in self.files or e[1] in self.override:
                return self.call(e[1])
            raise Missing(e[1])
        if k == "field":
            o = self.ev(e[1], env)
            if not isinstance(o, dict) or e[2] not in o:
                raise Missing("field " + e[2])
            return o[e[2]]
        if k == "mat":
            if not e[1]:
                return np.zeros((0, 0))
            try:
                return np.vstack([np.hstack([m2(self.ev(x, env)) for x in r]) for r in e[1]])
            except ValueError as x:
                raise Bad("dimensions of the parts of a matrix differ: %s" % x)
        if k == "un":
            v = self.ev(e[2], env)
            return v if e[1] == "+" else -v if e[1] == "-" else v.T
        if k == "bin":
            return self.binary(e[1], self.ev(e[2], env), self.ev(e[3], env))
        if k == "call":
            f = e[1]
            if f[0] == "name" and f[1] not in env:
                return self.function(f[1], e[2], env)
            return self.index(self.ev(f, env), e[2], env)
        raise Bad("unexpected %s" % k)

    @staticmethod
    def binary(o, a, b):
        sc = a.size == 1 or b.size == 1
        with np.errstate(all="ignore"):
            if o in "+-" or o in (".*", "./", "<", ">", "<=", ">=", "==", "~="):
                if not sc and a.shape != b.shape:
                    raise Bad("%s of %s and %s" % (o, a.shape, b.shape))
                return {"+": np.add, "-": np.subtract, ".*": np.multiply, "./": np.divide, "<": np.less, ">": np.greater,
                        "<=": np.less_equal, ">=": np.greater_equal, "==": np.equal, "~=": np.not_equal}[o](a, b) * 1.0
            if o == "*":
                if sc:
                    return a * b
                if a.shape[1] != b.shape[0]:
                    raise Bad("product of %s and %s" % (a.shape, b.shape))
                return a @ b
            if o == "/":
                if b.size == 1:
                    return a / b
                return np.linalg.solve(b.T, a.T).T
            if o == "\\":
                if a.size == 1:
                    return b / a
                if a.shape[0] != a.shape[1] or a.shape[0] != b.shape[0]:
                    raise Bad("solution of %s and %s" % (a.shape, b.shape))
                return np.linalg.solve(a, b)
            if o in ("^", ".^"):
                if a.size == 1 and b.size == 1 or o == ".^" and sc:
                    return m2(np.power(a, b))
                if b.size == 1 and b[0, 0] == int(b[0, 0]) and a.shape[0] == a.shape[1]:
                    return np.linalg.matrix_power(a, int(np.ravel(b)[0]))
                raise Bad("%s of %s and %s" % (o, a.shape, b.shape))
        raise Bad(o)

    def function(self, n, args, env):
        if n == "sym":
            v = self.sym[args[0][1]] if self.sym and args[0][1] in self.sym else None
            if v is None:
                raise Missing(args[0][1])
            if len(args) > 1:
                shp = tuple(int(x) for x in self.ev(args[1], env).ravel())
                if shp != m2(v).shape:
                    raise Bad("symbol %s has the dimensions %s instead of %s" % (args[0][1], shp, m2(v).shape))
            elif np.size(v) > 1:
                raise Bad("symbol %s is a scalar" % args[0][1])
            return m2(v)
        v = [self.ev(a, env) for a in args]
        with np.errstate(all="ignore"):
            if n in FUN and len(v) == 1:
                return FUN[n](v[0])
            if n == "atan2" and len(v) == 2:
                return np.arctan2(v[0], v[1])
            if n == "transpose" and len(v) == 1:
                return v[0].T
            if n == "inv" and len(v) == 1:
                if v[0].shape[0] != v[0].shape[1]:
                    raise Bad("inverse of %s" % (v[0].shape,))
                return np.linalg.inv(v[0])
            if n == "zeros" and len(v) == 2:
                return np.zeros((int(v[0].item()), int(v[1].item())))
        if n in self.files or n in self.override:
            return self.call(n, *v)
        raise Missing("function " + n)

    def index(self, v, args, env):
        if isinstance(v, dict):
            raise Bad("index of a struct")

        def one(a, n):
            if a[0] == "all":
                return np.arange(n)
            if a[0] == "range":
                lo, hi = (self.ev(x, env).item() for x in a[1:])
                ix = np.arange(int(lo), int(hi) + 1)
            else:
                x = self.ev(a, env)
                ix = x.ravel().astype(int)
                if np.any(ix != x.ravel()):
                    raise Bad("index %s" % x)
            if ix.size and (ix.min() < 1 or ix.max() > n):
                raise Bad("index %s of %d elements" % (ix, n))
            return ix - 1
        if len(args) == 1:
            flat = v.ravel(order="F")
            ix = one(args[0], flat.size)
            r = flat[ix]
            return r.reshape(-1, 1) if args[0][0] == "all" or v.shape[1] == 1 or v.size == 1 else r.reshape(1, -1)
        if len(args) != 2:
            raise Bad("%d indices" % len(args))
        return v[np.ix_(one(args[0], v.shape[0]), one(args[1], v.shape[1]))]


# Modelica

RESERVED = set("""algorithm and annotation assert block break class connect connector constant constrainedby der discrete each else elseif
elsewhen encapsulated end enumeration equation expandable extends external false final flow for function if import impure in initial inner
input loop model not operator or outer output package parameter partial protected public pure record redeclare replaceable return stream
then true type when while within""".split())


class OParser(Parser):
    def expr(self):
        if self.at("if"):
            self.i += 1
            c = self.expr()
            self.eat("then")
            a = self.expr()
            self.eat("else")
            return ("if", c, a, self.expr())
        a = self.arith()
        if self.at("<", ">", "<=", ">=", "==", "<>"):
            o = self.cur.text
            self.i += 1
            a = ("bin", o, a, self.arith())
        return a

    def arith(self):
        sign = None
        if self.at("+", "-"):
            sign = self.cur.text
            self.i += 1
        a = self.term()
        if sign == "-":
            a = ("neg", a)
        while self.at("+", "-"):
            o = self.cur.text
            self.i += 1
            a = ("bin", o, a, self.term())
        return a

    def term(self):
        a = self.factor()
        while self.at("*", "/", ".*", "./"):
            o = self.cur.text
            self.i += 1
            a = ("bin", o, a, self.factor())
        return a

    def factor(self):
        a = self.primary()
        if self.at("^"):
            self.i += 1
            a = ("bin", "^", a, self.primary())
        return a

    def primary(self):
        k = self.cur
        if k.kind == "num":
            self.i += 1
            return ("num", float(k.text))
        if self.at("true", "false"):
            self.i += 1
            return ("num", float(k.text == "true"))
        if self.at("("):
            self.i += 1
            a = self.expr()
            self.eat(")")
            return self.subs(a)
        if self.at("{"):
            self.i += 1
            v = [self.expr()]
            while self.at(","):
                self.i += 1
                v.append(self.expr())
            self.eat("}")
            return ("arr", v)
        if k.kind == "id":
            n = self.name()
            if n in RESERVED and n != "der":
                raise Bad("keyword %s in an expression" % n)
            while self.at("."):
                self.i += 1
                n += "." + self.name()
            if self.at("("):
                self.i += 1
                args = [self.expr()]
                while self.at(","):
                    self.i += 1
                    args.append(self.expr())
                self.eat(")")
                # subscripts of a function call are not in the grammar, but tools that allow them agree on the meaning
                return self.subs(("call", n, args))
            return self.subs(("name", n))
        raise Bad("unexpected %r in %s" % (k.text, " ".join(t.text for t in self.t[max(0, self.i - 25):self.i + 10])))

    def subs(self, a):
        if self.at("["):
            self.i += 1
            ix = [self.expr()]
            while self.at(","):
                self.i += 1
                ix.append(self.expr())
            self.eat("]")
            return ("sub", a, ix)
        return a


class Modelica:
    """A model: declarations {name: {prefix, dims, start, value}} and equations."""

    def __init__(self, text):
        self.text = text
        t = re.sub(r"//[^\n]*", "", text)
        p = OParser(tokens(t, '"'))
        self.within = self.partial = None
        self.decl, self.eqs, self.imports = {}, [], {}
        if p.at("within"):
            p.i += 1
            self.within = p.name()
            while p.at("."):
                p.i += 1
                self.within += "." + p.name()
            p.eat(";")
        if p.at("partial"):
            p.i += 1
            self.partial = True
        p.eat("model")
        self.name = p.name()
        section = "public"
        while not p.at("end"):
            if p.at("protected", "public", "equation"):
                section = p.cur.text
                p.i += 1
                continue
            if section == "equation":
                a = p.expr()
                p.eat("=")
                self.eqs.append((a, p.expr()))
                p.eat(";")
                continue
            if p.at("import"):
                p.i += 1
                n = p.name()
                while p.at("."):
                    p.i += 1
                    n += "." + p.name()
                p.eat(";")
                self.imports[n.split(".")[-1]] = n
                continue
            prefix = set()
            while p.at("parameter", "constant", "input", "output"):
                prefix.add(p.name())
            p.eat("Real")
            dims = self.dims(p)
            n = p.name()
            if n in RESERVED:
                raise Bad("keyword %s as a name" % n)
            if p.at("["):
                if dims:
                    raise Bad("dimensions of %s twice" % n)
                dims = self.dims(p)
            d = {"prefix": prefix, "dims": dims, "start": None, "value": None, "section": section}
            if p.at("("):
                p.i += 1
                while not p.at(")"):
                    if p.at("each"):
                        p.i += 1
                    m = p.name()
                    p.eat("=")
                    e = p.expr()
                    d[m] = e
                    if not p.at(")"):
                        p.eat(",")
                p.i += 1
            if p.at("="):
                p.i += 1
                d["value"] = p.expr()
            if p.cur.kind == "str":
                p.i += 1
            p.eat(";")
            if n in self.decl:
                raise Bad("%s is declared twice" % n)
            if n in self.imports and n != "pi":
                raise Bad("%s is imported and declared" % n)
            self.decl[n] = d
        p.eat("end")
        if p.name() != self.name:
            raise Bad("the end of another model")
        p.eat(";")
        if p.cur.kind != "end":
            raise Bad("text behind the end")

    @staticmethod
    def dims(p):
        out = []
        if p.at("["):
            p.i += 1
            while True:
                if p.cur.kind != "num" or not p.cur.text.isdigit():
                    raise Bad("dimension %r" % p.cur.text)
                out.append(int(p.cur.text))
                p.i += 1
                if p.at("]"):
                    break
                p.eat(",")
            p.i += 1
        return tuple(out)

    def ev(self, e, env):
        """env: values; derivatives under ("der", name)."""
        k = e[0]
        if k == "num":
            return np.float64(e[1])
        if k == "neg":
            return -self.ev(e[1], env)
        if k == "name":
            if e[1] in env:
                return env[e[1]]
            raise Missing(e[1])
        if k == "arr":
            v = [self.ev(a, env) for a in e[1]]
            if len({np.shape(a) for a in v}) > 1:
                raise Bad("elements of different dimensions in an array")
            return np.array(v)
        if k == "if":
            c, a, b = (self.ev(x, env) for x in e[1:])
            if np.shape(c) != () or np.shape(a) != np.shape(b):
                raise Bad("branches of an if: %s and %s, condition %s" % (np.shape(a), np.shape(b), np.shape(c)))
            return a if c else b
        if k == "sub":
            v = self.ev(e[1], env)
            ix = []
            for a in e[2]:
                i = self.ev(a, env)
                if np.shape(i) != () or i != int(i):
                    raise Bad("index %s" % i)
                ix.append(int(i))
            if len(ix) != np.ndim(v) or any(i < 1 or i > n for i, n in zip(ix, np.shape(v))):
                raise Bad("index %s of an array %s" % (ix, np.shape(v)))
            return v[tuple(i - 1 for i in ix)]
        if k == "bin":
            return self.binary(e[1], self.ev(e[2], env), self.ev(e[3], env))
        if k == "call":
            return self.function(e[1], e[2], env)
        raise Bad(k)

    @staticmethod
    def binary(o, a, b):
        sa, sb = np.shape(a), np.shape(b)
        with np.errstate(all="ignore"):
            if o in ("+", "-"):
                if sa != sb:
                    raise Bad("%s of %s and %s" % (o, sa, sb))
                return a + b if o == "+" else a - b
            if o == "*":
                if sa == () or sb == ():
                    return a * b
                if sa[-1] != sb[0]:
                    raise Bad("product of %s and %s" % (sa, sb))
                return np.dot(a, b)
            if o == "/":
                if sb != ():
                    raise Bad("division by %s" % (sb,))
                return np.divide(a, b)
            if o == "^":
                if sa != () and sb == () and len(sa) == 2 and sa[0] == sa[1] and b == int(b) and b >= 0:
                    return np.linalg.matrix_power(a, int(np.ravel(b)[0]))
                if sa != () or sb != ():
                    raise Bad("power of %s to %s" % (str(sa), str(b)))
                return np.power(a, b)
            if o in ("<", ">", "<=", ">=", "==", "<>"):
                if sa != () or sb != ():
                    raise Bad("comparison of %s and %s" % (sa, sb))
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "<>": a != b}[o]
        raise Bad(o)

    def function(self, n, args, env):
        if n == "der":
            a = args[0]
            if len(args) != 1:
                raise Bad("der of several arguments")
            if a[0] == "name":
                if ("der", a[1]) not in env:
                    raise Missing("der " + a[1])
                return env[("der", a[1])]
            if a[0] == "sub" and a[1][0] == "name":
                return self.ev(("sub", ("name", ("der", a[1][1])), a[2]), env)
            raise Bad("der of an expression")
        v = [self.ev(a, env) for a in args]
        s = [np.shape(a) for a in v]
        full = self.imports.get(n, n)
        short = {"Modelica.Math." + f: f for f in ("asin", "acos", "atan", "atan2", "sin", "cos", "tan")}
        full = short.get(full, full)
        with np.errstate(all="ignore"):
            if full in FUN and len(v) == 1 and s[0] == ():
                return FUN[full](v[0])
            if full == "atan2" and s == [(), ()]:
                return np.arctan2(*v)
            if full == "scalar" and len(v) == 1 and np.size(v[0]) == 1:
                return np.ravel(v[0])[0]
            if full == "vector" and len(v) == 1:
                if sum(1 for d in s[0] if d > 1) > 1:
                    raise Bad("vector(%s)" % (s[0],))
                return np.ravel(v[0])
            if full == "transpose" and len(v) == 1 and len(s[0]) == 2:
                return v[0].T
            if full == "skew" and s == [(3,)]:
                x, y, z = v[0]
                return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0.0]])
            if full == "zeros":
                return np.zeros(tuple(int(a) for a in v))
            if full == "Modelica.Math.Matrices.inv" and len(v) == 1 and len(s[0]) == 2 and s[0][0] == s[0][1]:
                return np.linalg.inv(v[0])
            if full == "Modelica.Math.Matrices.solve2" and len(v) == 2 and len(s[0]) == 2 and len(s[1]) == 2 and s[0][0] == s[0][1] == s[1][0]:
                return np.linalg.solve(*v)
            if full == "Modelica.Math.Matrices.solve" and len(v) == 2 and len(s[0]) == 2 and len(s[1]) == 1 and s[0][0] == s[0][1] == s[1][0]:
                return np.linalg.solve(*v)
        raise Bad("%s of %s" % (n, s))

    def parts(self, lhs):
        """The unknowns of a left hand side: [(key, index or None)], or None."""
        if lhs[0] == "name":
            return [(lhs[1], None)]
        if lhs[0] == "call" and lhs[1] == "der" and lhs[2][0][0] == "name":
            return [(("der", lhs[2][0][1]), None)]
        if lhs[0] == "sub":
            p = self.parts(lhs[1])
            if p and len(p) == 1 and p[0][1] is None and all(i[0] == "num" for i in lhs[2]):
                return [(p[0][0], tuple(int(i[1]) - 1 for i in lhs[2]))]
        if lhs[0] == "call" and lhs[1] == "der" and lhs[2][0][0] == "sub":
            p = self.parts(lhs[2][0])
            return p and [(("der", p[0][0]), p[0][1])]
        if lhs[0] == "arr":
            out = []
            for a in lhs[1]:
                p = self.parts(a)
                if not p:
                    return None
                out += p
            return out
        return None

    def shape(self, key):
        n = key[1] if isinstance(key, tuple) else key
        if n not in self.decl:
            raise Missing(n)
        return self.decl[n]["dims"]

    def solve(self, env, guess):
        """Values of all unknowns by the equations in whatever order they can be used; equations that cannot be used one after the
        other are only satisfied: {key: value} with values of guess, and the list of residuals."""
        env = dict(env)
        left = list(self.eqs)
        partial, res = {}, []
        while left:
            rest = []
            for lhs, rhs in left:
                try:
                    r = self.ev(rhs, env)
                except Missing:
                    rest.append((lhs, rhs))
                    continue
                p = self.parts(lhs)
                new = p and [k for k, ix in p if k not in env]
                if not p or len(new) < len(p) or any((k, ix) in [(q, j) for q, j in partial.get("set", [])] for k, ix in p):
                    try:
                        v = self.ev(lhs, env)
                    except Missing:
                        rest.append((lhs, rhs))
                        continue
                    if np.shape(v) != np.shape(r):
                        raise Bad("an equation of %s and %s" % (np.shape(v), np.shape(r)))
                    res.append((v, r))
                    continue
                self.assign(lhs, p, r, env, partial)
            if len(rest) == len(left):
                # put in what is known about the unknowns
                miss = self.first(rest, env, guess)
                if miss is None:
                    raise Bad("the equations of %s cannot be used" % [self.parts(a) for a, b in rest])
                env[miss] = guess[miss]
            left = rest
        return env, res

    def first(self, eqs, env, guess):
        for lhs, rhs in eqs:
            for e in (rhs, lhs):
                for n in names(e):
                    if n not in env and n in guess:
                        return n
        return None

    def assign(self, lhs, p, r, env, partial):
        if len(p) == 1 and p[0][1] is None:
            k = p[0][0]
            if np.shape(r) != self.shape(k):
                raise Bad("%s has the dimensions %s, its equation %s" % (k, self.shape(k), np.shape(r)))
            env[k] = r
            return
        probe = {}
        if lhs[0] == "arr":
            # the dimensions of the literal
            fake = dict(env)
            for k, ix in p:
                fake[k] = np.zeros(self.shape(k)) if self.shape(k) else np.float64(0)
            if np.shape(self.ev(lhs, fake)) != np.shape(r):
                raise Bad("an equation of %s and %s" % (np.shape(self.ev(lhs, fake)), np.shape(r)))
        elif np.shape(r) != ():
            raise Bad("an element is %s" % (np.shape(r),))
        flat, at = np.ravel(r), 0
        for k, ix in p:
            shp = self.shape(k)
            if ix is None:
                n = int(np.prod(shp)) if shp else 1
                v = flat[at:at + n]
                env[k] = v.reshape(shp) if shp else v[0]
                at += n
                continue
            if len(ix) != len(shp) or any(i < 0 or i >= m for i, m in zip(ix, shp)):
                raise Bad("index %s of %s" % (ix, k))
            a = partial.setdefault(k, np.full(shp, np.nan))
            a[ix] = flat[at]
            partial.setdefault("set", []).append((k, ix))
            at += 1
            if not np.any(np.isnan(a)) or sum(1 for q, j in partial["set"] if q == k) == a.size:
                env[k] = a
        del probe

    def count(self):
        """Numbers of scalar equations and of scalar unknowns."""
        n = 0
        fake = {}
        for k, d in self.decl.items():
            fake[k] = np.full(d["dims"], 0.37) if d["dims"] else np.float64(0.37)
            fake[("der", k)] = fake[k]
        fake["time"] = np.float64(0.5)
        for lhs, _r in self.eqs:
            n += max(1, np.size(self.ev(lhs, fake)))
        u = sum(int(np.prod(d["dims"])) if d["dims"] else 1 for d in self.decl.values()
                if not d["prefix"] & {"parameter", "constant", "input"})
        return n, u


def names(e):
    """Names in an expression, derivatives as ("der", name)."""
    if not isinstance(e, tuple):
        return
    if e[0] == "name":
        yield e[1]
        return
    if e[0] == "call" and e[1] == "der":
        for n in names(e[2][0]):
            yield ("der", n)
        return
    for a in e[1:]:
        for b in (a if isinstance(a, list) else [a]):
            if isinstance(b, tuple):
                yield from names(b)
