"""Values of terms for concrete inputs: the meaning the terms are given, computed without a solver."""
import itertools
import mpmath
from fractions import Fraction
from .terms import *
from . import terms as T
from . import npmodel as N
from .vals import KID

mpmath.mp.dps = 50
TINY = mpmath.mpf(10) ** -30
NEAR = mpmath.mpf(10) ** -9


class Unknown(Exception):
    """The term has no value that follows from the inputs."""


class Env:
    """nums: variable -> number; arrays: name -> list (entry i of the input array);
    strings: name -> text; bools: name -> bool; functions: name -> python function.
    either: a comparison of numbers that are as good as equal has no value."""

    def __init__(self, nums=None, arrays=None, strings=None, bools=None, functions=None, either=False):
        self.either = either
        self.nums, self.arrays, self.strings = dict(nums or {}), dict(arrays or {}), dict(strings or {})
        self.bools, self.functions = dict(bools or {}), dict(functions or {})
        self.nums["PI"] = mpmath.pi + 0
        self.bound = {}
        self.memo = {}
        self.close = False          # a comparison of numbers was as good as equal

    def bind(self, vid, value, thunk):
        old, memo = self.bound.get(vid), self.memo
        self.bound[vid] = value
        self.memo = {}
        try:
            return thunk()
        finally:
            self.memo = memo
            if old is None:
                del self.bound[vid]
            else:
                self.bound[vid] = old

    # ------------------------------------------------------------------ numbers
    def num(self, p):
        r = mpmath.mpf(0)
        for m, c in p.d.items():
            t = mpmath.mpf(c.numerator) / c.denominator
            for a, e in m:
                x = self.atom(T.get_atom(a))
                if e < 0 and abs(x) < TINY:
                    raise Unknown("division by zero")
                t *= x ** e
            r += t
        return r

    def int(self, p):
        v = self.num(p)
        i = int(mpmath.nint(v))
        if abs(v - i) > TINY:
            raise Unknown("index that is not an integer")
        return i

    def atom(self, at):
        r = self.memo.get(at.id)
        if r is None:
            r = self.value(at)
            r = mpmath.mpf(r.numerator) / r.denominator if isinstance(r, Fraction) else mpmath.mpf(r)
            self.memo[at.id] = r
        return r

    def value(self, at):
        if at.kind == "var":
            if at.id in self.bound:
                return self.bound[at.id]
            if at.data[0] in self.nums:
                return self.nums[at.data[0]]
            raise Unknown(at.data[0])
        if at.kind == "inv":
            x = self.num(at.data[0])
            if abs(x) < TINY:
                raise Unknown("division by zero")
            return 1 / x
        if at.kind == "ite":
            return self.num(at.data[1] if self.true(at.data[0]) else at.data[2])
        f, args = at.data
        if f in self.arrays:
            i = self.int(args[0])
            if not 0 <= i < len(self.arrays[f]):
                raise Unknown("%s outside its range" % f)
            return self.arrays[f][i]
        if f in N.NAMES and N.NAMES[f][0] in ("sum", "max"):
            vals = [self.entry(f, j, args[1:]) for j in range(self.int(args[0]))]
            if N.NAMES[f][0] == "sum":
                return sum(vals, mpmath.mpf(0))
            if not vals:
                raise Unknown("largest of nothing")
            return max(vals)
        if f in N.NAMES:
            return sum(1 for j in range(self.int(args[0])) if self.entry(f, j, args[1:]))
        if f.startswith("sel") and "cnt" + f[3:] in N.NAMES:
            n, j = self.int(args[0]), 0
            if n < 0:
                raise Unknown("place in a selection")
            for j in range(5000):
                try:
                    hit = self.entry("cnt" + f[3:], j, args[1:])
                except Unknown:
                    break
                if hit:
                    if n == 0:
                        return j
                    n -= 1
            raise Unknown("place in a selection")
        if f in self.functions:
            return self.functions[f](*[self.int(x) for x in args])
        if f == "idiv":
            a, b = self.int(args[0]), self.int(args[1])
            if b == 0:
                raise Unknown("division by zero")
            return a // b
        xs = [self.num(x) for x in args]
        if f == "div":
            return mpmath.floor(xs[0] / xs[1] + TINY)
        if f == "floor":
            return mpmath.floor(xs[0] + TINY)
        if f == "pow2":
            return mpmath.mpf(2) ** xs[0]
        if f == "sqrt":
            if xs[0] < -TINY:
                raise Unknown("square root")
            return mpmath.sqrt(max(xs[0], 0))
        if f in ("arccos", "arcsin"):
            if abs(xs[0]) > 1 + TINY:
                raise Unknown(f)
            x = max(min(xs[0], 1), -1)
            return mpmath.acos(x) if f == "arccos" else mpmath.asin(x)
        if f == "log2":
            if xs[0] <= 0:
                raise Unknown("logarithm")
            return mpmath.log(xs[0]) / mpmath.log(2)
        g = {"sin": mpmath.sin, "cos": mpmath.cos, "exp": mpmath.exp, "abs": abs}.get(f)
        if g is None:
            raise Unknown(f)
        return g(xs[0])

    def entry(self, name, j, ps):
        kind, b, n = N.NAMES[name]
        vals = [self.int(x) for x in ps]
        ids = [KID[0]] + [var_id(var("$p%d" % i, "I")) for i in range(len(ps))]

        def go(i):
            if i == len(ids):
                return self.num(b) if isinstance(b, Poly) else self.true(b)
            return self.bind(ids[i], ([j] + vals)[i], lambda: go(i + 1))
        return go(0)

    # ------------------------------------------------------------------ conditions
    def true(self, b):
        op = b.op
        if op == "const":
            return b.args[0]
        if op == "bvar":
            return self.bvar(b.args[0])
        if op in ("eq", "lt", "le"):
            v = self.num(b.args[0])
            if abs(v) < NEAR and not is_int_poly(b.args[0]):
                self.close = True
                if self.either:
                    raise Unknown("as good as equal")
            if abs(v) < TINY:
                v = 0
            return {"eq": v == 0, "lt": v < 0, "le": v <= 0}[op]
        if op == "not":
            return not self.true(b.args[0])
        if op in ("and", "or"):
            return self.junction((lambda x=x: self.true(x) for x in b.args), op == "and")
        k, lo, hi, body = b.args
        kid = var_id(k)
        return self.junction((lambda i=i: self.bind(kid, i, lambda: self.true(body)) for i in range(self.int(lo), self.int(hi))), op == "forall")

    def junction(self, thunks, conj):
        missing = None
        for t in thunks:
            try:
                if t() != conj:
                    return not conj
            except Unknown as e:
                missing = e
        if missing is not None:
            raise missing
        return conj

    def bvar(self, name):
        if name in self.bools:
            return self.bools[name]
        if name.startswith("nonempty:") and name[9:] in self.strings:
            return self.strings[name[9:]] != ""
        if "==" in name:
            s, lit = name.split("==", 1)
            if s in self.strings:
                return repr(self.strings[s]) == lit
        raise Unknown(name)

    def all(self, facts, upto=8):
        """(do all facts hold, facts without a value); witnesses (!w...) are looked for."""
        ws, plain = {}, []
        for f in facts:
            mine = [a for a in atoms_deep(f).values() if a.kind == "var" and a.data[0].startswith("!w")]
            if mine:
                for a in mine:
                    ws[a.id] = a
                plain.append((f, True))
            else:
                plain.append((f, False))
        unknown = []
        for f, w in plain:
            if not w:
                try:
                    if not self.true(f):
                        return False, unknown
                except Unknown:
                    unknown.append(f)
        if not ws:
            return True, unknown
        need = [f for f, w in plain if w]
        if len(ws) > 3:
            return True, unknown + need
        for vals in itertools.product(range(-1, upto + 1), repeat=len(ws)):
            self.memo = {}
            self.bound.update(zip(ws, vals))
            open_ = []
            try:
                for f in need:
                    try:
                        if not self.true(f):
                            break
                    except Unknown:
                        open_.append(f)
                else:
                    if not open_:
                        return True, unknown
                    if self.either:
                        return True, unknown + open_
            finally:
                for a in ws:
                    del self.bound[a]
                self.memo = {}
        return False, unknown
