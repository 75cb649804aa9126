"""C20: no use of the symbolics module, however wrong, crashes the interpreter or corrupts memory.

Runs with a build of the extension under the address and undefined-behaviour sanitizers.
"""
import gc
import os
import shutil
import tempfile

from hypothesis import strategies as st

from pv.core import Aspect, Check, Reject, Violation

NAMES = ["x", "y", "z", "u", "v", "A", "B", "q", "qd", "time", "x", ""]
SHAPES = [[], [], [1], [2], [3], [1, 1], [2, 2], [3, 3], [2, 3], [3, 1], [1, 3], [0], [0, 3], [2, 0], [-1], [3, -2], [2, 2, 2], [7, 7]]
UN = ["acos", "asin", "atan", "sin", "cos", "tan", "scalar", "skew", "der", "transpose", "inv", "sign", "Number", "zeros", "eye",
      "Matrix", "Basic", "Symbol"]
BIN = ["atan2", "solve", "outer", "jacobian", "element", "If", "Less", "Greater", "Equal", "Symbol", "zeros", "eye", "Matrix"]
TRI = ["element", "If"]
OPS = ["+", "-", "*", "/", "**", "==", "!=", "<", ">", "neg", "abs", "bool", "hash", "float", "int", "len", "str", "repr", "iter", "in",
       "radd", "rsub", "rmul", "rdiv", "rpow", "mod", "call", "matmul"]
METH = ["atoms", "norm", "shape", "simplify"]
NUMS = [0, 1, -1, 2, 3, 7, 0.0, -0.0, 0.5, -2.5, 1e-300, 1e300, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 63, 2 ** 70, 1e9]
JUNK = ["none", "text", "emptylist", "emptytuple", "dict", "inf", "nan", "true", "complex", "type", "nested", "ragged", "object", "bytes",
        "np", "npm", "np0", "set", "longtext", "unicode", "surrogate", "nul"]
SIZED = ("Symbol", "zeros", "eye", "Matrix")
KINDS = [1, 2, 4, 8, 0x10, 0x20, 0x40, 0x100, 0x200, 0x400, 0, 3, 5000, -1]
LANGS = ["py", "c", "m", "mo", "f90", "cs", "xx"]


def junk(k):
    import numpy as np
    return {"none": None, "text": "x", "emptylist": [], "emptytuple": (), "dict": {}, "inf": float("inf"), "nan": float("nan"),
            "true": True, "complex": 1j, "type": int, "nested": [[1, 2], [3, 4]], "ragged": [[1, 2], [3]], "object": object(),
            "bytes": b"x", "np": np.array([1.0, 2.0]), "npm": np.matrix("1 2;3 4"), "np0": np.float64(2.5), "set": {1},
            "longtext": "x" * 5000, "unicode": "ü\u20ac", "surrogate": "\udcff", "nul": "x\0y"}[k]


REF = st.tuples(st.just("r"), st.integers(0, 40))
ARG = st.one_of(REF, REF, REF, REF, st.tuples(st.just("n"), st.sampled_from(NUMS)), st.tuples(st.just("j"), st.sampled_from(JUNK)),
                st.tuples(st.just("t"), st.sampled_from(SHAPES)),
                st.tuples(st.just("l"), st.lists(st.one_of(REF, st.tuples(st.just("n"), st.sampled_from(NUMS[:9]))), max_size=4)),
                st.tuples(st.just("L"), st.lists(st.lists(st.one_of(REF, st.tuples(st.just("n"), st.sampled_from(NUMS[:9]))), max_size=3),
                                                 max_size=3)))
GOODREF = REF
IDX = st.one_of(st.integers(-3, 4), st.sampled_from([10 ** 6, -10 ** 9, 2 ** 63, "s:", "s1:", "s:-1", "s5:1", "s::2", "s::-1", "x", None, 1.0]))
OP = st.one_of(
    st.tuples(st.just("sym"), st.sampled_from(NAMES), st.sampled_from(SHAPES)),
    st.tuples(st.just("sym"), st.sampled_from(NAMES), st.sampled_from(SHAPES[:11])),
    st.tuples(st.just("call"), st.sampled_from(UN), st.tuples(ARG)),
    st.tuples(st.just("call"), st.sampled_from(BIN), st.tuples(ARG, ARG)),
    st.tuples(st.just("call"), st.sampled_from(TRI), st.tuples(ARG, ARG, ARG)),
    st.tuples(st.just("call"), st.sampled_from(UN + BIN), st.lists(ARG, max_size=4)),
    st.tuples(st.just("op"), st.sampled_from(OPS), REF, ARG),
    st.tuples(st.just("op"), st.sampled_from(OPS[:5]), REF, REF),
    st.tuples(st.just("meth"), st.sampled_from(METH), REF),
    st.tuples(st.just("meth"), st.just("simplify"), REF),
    st.tuples(st.just("get"), REF, st.lists(IDX, min_size=1, max_size=3)),
    st.tuples(st.just("set"), REF, st.lists(IDX, min_size=1, max_size=2), ARG),
    st.tuples(st.just("del"), st.integers(0, 40)),
    st.tuples(st.just("gc")),
)
GOP = st.one_of(
    st.tuples(st.just("var"), st.sampled_from(NAMES), st.sampled_from(SHAPES[:11]), st.sampled_from(KINDS),
              st.one_of(st.none(), ARG)),
    st.tuples(st.just("var"), st.sampled_from(NAMES), st.sampled_from(SHAPES), st.sampled_from(KINDS), st.none()),
    st.tuples(st.just("eq"), st.one_of(REF, REF, ARG, st.tuples(st.just("name"), st.sampled_from(["e0", "e1", "e2"]))), ARG,
              st.sampled_from(KINDS), st.booleans()),
    st.tuples(st.just("eq"), st.tuples(st.just("name"), st.sampled_from(["e%d" % i for i in range(6)])), REF,
              st.sampled_from([1, 0x100, 0x100, 0x40, 0x200, 0x20]), st.just(False)),
    st.tuples(st.just("build"), st.booleans()),
    st.tuples(st.just("write"), st.sampled_from(LANGS), st.booleans()),
    st.tuples(st.just("ask"), st.sampled_from(["getVariable", "getVariables", "getAssignments", "getinitVal", "getShape"]), ARG),
    st.tuples(st.just("newgraph")),
)
EXPR = st.fixed_dictionaries({"ops": st.lists(OP, min_size=3, max_size=30)})
GRAPH = st.fixed_dictionaries({"ops": st.lists(st.one_of(OP, GOP, GOP), min_size=4, max_size=35)})


class Machine:
    def __init__(self):
        import pymbs.symbolics as S
        self.S = S
        self.g = S.Graph()
        self.pool = [S.Symbol("x"), S.Symbol("v", (3,)), S.Symbol("A", (3, 3)), S.Number(2), S.Matrix([[1, 2], [3, 4]])]
        self.tags = set()
        self.good = 0

    def ref(self, i):
        return self.pool[-1 - i % len(self.pool)]

    def arg(self, a):
        k, v = a
        if k == "r":
            return self.ref(v)
        if k == "n":
            return v
        if k == "j":
            return junk(v)
        if k == "t":
            return tuple(v)
        if k == "l":
            return [self.arg(x) for x in v]
        if k == "L":
            return [[self.arg(x) for x in r] for r in v]
        return v

    @staticmethod
    def index(ix):
        def one(i):
            if isinstance(i, str) and i[0] == "s":
                p = [int(x) if x else None for x in i[1:].split(":")]
                return slice(*p)
            return i
        r = tuple(one(i) for i in ix)
        return r[0] if len(r) == 1 else r

    def step(self, op):
        S, k = self.S, op[0]
        if k == "sym":
            return S.Symbol(op[1], tuple(op[2])) if op[2] else S.Symbol(op[1])
        if k == "call":
            # sizes beyond the memory of a computer are not the point
            return getattr(S, op[1])(*[70 if isinstance(a, int) and a > 10 ** 6 and op[1] in SIZED else a for a in map(self.arg, op[2])])
        if k == "op":
            return self.operate(op[1], self.arg(op[2]), self.arg(op[3]))
        if k == "meth":
            return getattr(self.arg(op[2]), op[1])()
        if k == "get":
            return self.arg(op[1])[self.index(op[2])]
        if k == "set":
            self.arg(op[1])[self.index(op[2])] = self.arg(op[3])
            return self.arg(op[1])
        if k == "del":
            if len(self.pool) > 2:
                del self.pool[op[1] % len(self.pool)]
            return None
        if k == "gc":
            gc.collect()
            return None
        if k == "var":
            return self.g.addVariable(op[1], tuple(op[2]), op[3], None if op[4] is None else self.arg(op[4]))
        if k == "eq":
            return self.g.addEquation(self.arg(op[1]), self.arg(op[2]), op[3], None, op[4])
        if k == "build":
            self.tags.add("built")
            return self.g.buildGraph(op[1])
        if k == "write":
            d = tempfile.mkdtemp(dir=os.getcwd())
            try:
                self.g.writeCode(op[1], "m", d, **({"pymbs_wrapper": "True"} if op[2] else {}))
                self.tags.add("written")
            finally:
                shutil.rmtree(d)
            return None
        if k == "ask":
            return getattr(self.g, op[1])(self.arg(op[2]))
        if k == "newgraph":
            self.g = S.Graph()
            return None
        raise AssertionError(op)

    @staticmethod
    def operate(o, a, b):
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "**": lambda: a ** b,
                "==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "neg": lambda: -a,
                "abs": lambda: abs(a), "bool": lambda: bool(a), "hash": lambda: hash(a), "float": lambda: float(a), "int": lambda: int(a),
                "len": lambda: len(a), "str": lambda: str(a), "repr": lambda: repr(a), "iter": lambda: [x for x, _ in zip(a, range(9))],
                "in": lambda: b in a, "radd": lambda: b + a, "rsub": lambda: b - a, "rmul": lambda: b * a, "rdiv": lambda: b / a,
                "rpow": lambda: b ** a, "mod": lambda: a % b, "call": lambda: a(b), "matmul": lambda: a @ b}[o]()


def run(c):
    gc.freeze()             # what other cases left behind is not searched again
    m = Machine()
    n = 0
    for op in c["ops"]:
        try:
            r = m.step(op)
            # whatever was returned can be looked at
            if r is not None:
                for x in (r if isinstance(r, (list, tuple)) else [r]):
                    str(x)
                    if hasattr(x, "lhs"):
                        str(x.lhs), str(x.rhs), str(x.implicit)
                        continue
                    if hasattr(x, "shape"):
                        x.shape()
                        m.pool.append(x)
            n += 1
        except SystemError as e:
            raise Violation("%s: SystemError (%s): the interpreter's protocol is broken" % (op, e))
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # noqa  VarAlreadyExistsError and others derive from BaseException
            m.tags.add("refused")
            str(e)
        del gc.garbage[:]
    for x in m.pool:
        str(x)
    del m.pool[:]
    m.g = None
    gc.collect()
    if n >= 5 and (len(c["ops"]) - n) >= 1:
        m.tags.add("nontrivial")
    return m.tags


def borrowed(fn):
    """Runs the cases of other checks; what they decide is theirs, here only survival counts."""
    def f(case):
        try:
            tags = set(fn(case))
        except (Reject, KeyboardInterrupt, SystemExit):
            raise
        except SystemError as e:
            raise Violation("SystemError (%s): the interpreter's protocol is broken" % e)
        except BaseException as e:  # noqa
            if type(e).__module__.startswith("hypothesis"):
                raise
            return {"undecided"}
        gc.collect()
        return tags
    return f


def write_all(case):
    """Every writer on one system, with and without optimization."""
    import pymbs.symbolics as S
    from pv import graphs as GR
    tags = set()
    g, _b = GR.build(S, case)
    g.buildGraph(bool(case["shuffle"] % 2))
    for lang in LANGS[:6]:
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            try:
                g.writeCode(lang, "mod", d, **({"pymbs_wrapper": "True"} if case["shuffle"] % 4 > 1 else {}))
                for f in os.listdir(d):
                    if not os.path.getsize(os.path.join(d, f)):
                        raise Violation("empty file %s" % f)
                tags.add("nontrivial")
            except S.symbolics.Error:
                tags.add("refused " + lang)
        finally:
            shutil.rmtree(d)
    return tags


def models(c):
    """Equations and code of a multibody system."""
    from pv import mbs as B
    with B.quiet():
        m = B.Model(c["desc"])
        m.equations(c["mode"], **c["opts"])
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            for lang in c["langs"]:
                m.world.graph.writeCode(lang, "mod", d, pymbs_wrapper="True")
        finally:
            shutil.rmtree(d)
    return {"nontrivial", c["mode"]}


RULE = ("random sequences of right and wrong calls of the symbolics module, and the expressions, systems and models of the other "
        "checks, under the address and undefined-behaviour sanitizers; non-trivial: at least five calls succeed and at least one is "
        "refused, or as in the other checks")
N = [("expressions", 5000), ("graphs", 5000), ("values", 1000), ("derivatives", 800), ("containers", 1000), ("misuse", 1000),
     ("systems", 600), ("blocks", 600), ("writers", 600), ("models", 80)]
if os.environ.get("PV_LIGHT"):
    CHECK = Check("C20", [Aspect(n, None, None, k) for n, k in N], asan=True, rule=RULE)
else:
    from checks import c01, c02, c04, c07, c17
    MODELS = st.fixed_dictionaries({
        "desc": c17.TREES, "mode": st.sampled_from(c17.MODES), "opts": st.sampled_from([{}, {"simplify": True}, {"graphOptimizations": True}]),
        "langs": st.lists(st.sampled_from(LANGS[:6]), min_size=1, max_size=3)})

    def get(check, name):
        a = [a for a in check.CHECK.aspects if a.name == name][0]
        return a.strategy, borrowed(a.run)

    SOURCE = {"expressions": (EXPR, run), "graphs": (GRAPH, run), "values": get(c01, "mixed"), "derivatives": get(c02, "total"),
              "containers": get(c04, "history"), "misuse": get(c04, "refusal"), "systems": get(c07, "system"),
              "blocks": get(c07, "simultaneous"), "writers": (c07.GR.systems(), borrowed(write_all)),
              "models": (MODELS, borrowed(models))}
    CHECK = Check("C20", [Aspect(n, SOURCE[n][0], SOURCE[n][1], k) for n, k in N], asan=True, rule=RULE)
