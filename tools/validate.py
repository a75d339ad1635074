"""Validation of the verifier: what it says about a function is compared with what the function does.

Every task is run without its obligations.  The calls a task makes are recorded together with the paths
the verifier finds for them.  For concrete inputs (models of the paths and random ones)
  * the calls are made on the real code;
  * the facts of every path are evaluated: one path has to hold, and only one;
  * the results of the calls on that path are evaluated and compared with the real ones;
  * texts and the files that are written are compared as well, numbers in them by value;
  * the axioms about sums, largest entries, selections and powers of two that belong to the terms on the
    path are evaluated and have to hold.
Usage: python3-vt tools/validate.py [-n inputs per path] [module [part of a task name]]"""
import csv, importlib, io, itertools, json, multiprocessing, os, random, re, subprocess, sys, time, traceback
from collections import Counter
from fractions import Fraction
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import mpmath
from pyvc.spec import *
from pyvc import interp as I, words as W
from pyvc.evaluate import Env, Unknown
import contracts

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
LIMIT = 120     # seconds for the inputs of one group of paths


# --------------------------------------------------------------------------- snapshots of values
class Snap:
    """What a value is at this point; later changes of the heap do not matter."""

    def __init__(self, rec):
        self.rec = rec

    def __call__(self, v):
        if v is None or isinstance(v, (bool, str)):
            return ("lit", v)
        if isinstance(v, int):
            return ("num", "i", P(v), False)
        if isinstance(v, (Fraction, float)):
            return ("num", "f", P(Fraction(v)), False)
        if isinstance(v, Num):
            return ("num", v.kind, P(v.p), v.np)
        if isinstance(v, SBool):
            return ("bool", v.b)
        if isinstance(v, Cx):
            return ("cx", v.re, v.im)
        if type(v) is OStr:
            return ("ostr", v.name)
        if isinstance(v, SStr):
            return ("text", v.parts)
        if isinstance(v, tuple):
            return ("tuple", [self(x) for x in v])
        if isinstance(v, PyList):
            if isinstance(v.state, list):
                return ("list", [self(x) for x in v.state])
            if v.state[0] == "sym":
                return ("slist", P(v.state[1]), self(v.state[2]))
            return ("other",)
        if isinstance(v, SymDict):
            return ("sdict", v.state[0], P(v.state[1]))
        if isinstance(v, PyDict):
            return ("dict", [(self(k), self(x)) for k, x in v.state.items()])
        if isinstance(v, ArrObj):
            d = I.arr_data(v)
            return ("arr", d.dtype, tuple(I.dimP(x) for x in d.shape), d.mode, d.elems)
        if isinstance(v, PyObj):
            return ("obj", v.cls.name, {k: self(x) for k, x in v.state.items()})
        return ("other",)


class Spy:
    """The interpreter as a task sees it; records the calls the task makes."""

    def __init__(self, it, log):
        self.__dict__.update(_it=it, _log=log)

    def __getattr__(self, name):
        return getattr(self._it, name)

    def __setattr__(self, name, v):
        setattr(self._it, name, v)

    def call(self, f, args, kwargs):
        op = dict(op="call", f=self._log.ref(f), args=[self._log.ref(a) for a in args], kw={k: self._log.ref(a) for k, a in kwargs.items()})
        return self._log.do(self._it, op, lambda: self._it.call(f, args, kwargs))

    def getattr(self, o, name):
        op = dict(op="getattr", o=self._log.ref(o), name=name)
        return self._log.do(self._it, op, lambda: self._it.getattr(o, name))

    def to_str(self, o):
        return self._log.do(self._it, dict(op="text", o=self._log.ref(o), name="str"), lambda: self._it.to_str(o))

    def to_repr(self, o):
        return self._log.do(self._it, dict(op="text", o=self._log.ref(o), name="repr"), lambda: self._it.to_repr(o))


class Log:
    def __init__(self, globs):
        self.globs, self.ops, self.keep, self.pre, self.last = globs, [], {}, [], 0
        self.snap = Snap(self)

    def ref(self, v):
        if id(v) in self.keep:
            return ("ref", self.keep[id(v)][0])
        if id(v) in self.globs:
            return ("glob", self.globs[id(v)][0])
        return self.snap(v)

    def do(self, it, op, thunk):
        c = it.c
        self.pre += c.facts[self.last:]
        n = len(self.ops)
        self.ops.append(op)
        op["res"] = ("none",)
        try:
            r = thunk()
            op["res"] = self.snap(r)
            if not (r is None or isinstance(r, (bool, int, str))):
                self.keep[id(r)] = (n, r)
            return r
        except PyRaise as e:
            op["res"] = ("raise", e.exc.cls.name)
            raise
        finally:
            self.last = len(c.facts)


class P_:
    pass


# --------------------------------------------------------------------------- values for inputs
def names_in(ps):
    """Free variables, input arrays, unknown strings and unknown booleans of terms and snapshots."""
    out = dict(vars={}, arrays=set(), bools=set(), strings=set(), ints=set())

    def term(x):
        for at in atoms_deep(x).values():
            if at.kind == "var" and at.data[0][0] not in "!$" and at.data[0] != "PI":
                out["vars"][at.data[0]] = at.sort
            if at.kind == "app" and at.data[0] in ps[0].inputs:
                out["arrays"].add(at.data[0])
        if isinstance(x, B):
            bools(x)
        else:
            for at in atoms_deep(x).values():
                if at.kind == "ite":
                    bools(at.data[0])

    def bools(b):
        if b.op == "bvar":
            out["bools"].add(b.args[0])
        elif b.op in ("and", "or", "not"):
            for a in b.args:
                bools(a)
        elif b.op in ("forall", "exists"):
            bools(b.args[3])

    def snap(s):
        if isinstance(s, (Poly, B)):
            term(s)
        elif isinstance(s, dict):
            for x in s.values():
                snap(x)
        elif isinstance(s, (tuple, list)):
            if len(s) == 2 and s[0] == "ostr":
                out["strings"].add(s[1])
            if len(s) == 5 and s[0] == "arr" and s[1] == "i" and isinstance(s[4], Poly):
                out["ints"] |= {at.data[0] for at in atoms_deep(s[4]).values() if at.kind == "app"}
            for x in s:
                snap(x)
    for p in ps:
        for f in p.facts:
            term(f)
        for op in p.ops:
            snap(op)
    # what is not an argument of a call is not an input: contracts leave it open
    args = dict(vars={}, arrays=set(), bools=set(), strings=set(), ints=set())
    every, out = out, args
    for p in ps:
        for op in p.ops:
            snap({k: v for k, v in op.items() if k != "res"})
        for f in p.pre:
            term(f)
    out["open"] = {b for b in every["bools"] if "==" not in b and not b.startswith("nonempty:")} - out["bools"]
    out["strings"] |= every["strings"]
    out["bools"] = {b for b in out["bools"] if "==" not in b and not b.startswith("nonempty:")}
    return out


def literals(ps):
    lits = {}
    for p in ps:
        for f in p.facts:
            s = show_b(f)
            for part in s.replace("(", " ").replace(")", " ").split(" "):
                if "=='" in part:
                    n, l = part.split("==", 1)
                    try:
                        lits.setdefault(n, set()).add(ast.literal_eval(l))
                    except Exception:
                        pass
    return lits


XP, XY = {}, {}


def xpulses(l, j):
    """Number of X pulses at slot j of the X-concatenation of order l, from the definition by recursion."""
    if l == 0:
        return 0
    if not 1 <= j <= 2 ** l or l < 0:
        raise Unknown("xpulses")
    h = 2 ** (l - 1)
    return xpulses(l - 1, j if j <= h else j - h) + (j == h or j == 2 * h)


def xypulse(o, j):
    if o == 0:
        return 0
    if not 1 <= j <= 4 ** o or o < 0:
        raise Unknown("xypulse")
    h = 4 ** (o - 1)
    b = (j - 1) // h
    i = j - h * b
    return xypulse(o - 1, i) if i < h else xypulse(o - 1, h) ^ (1 + b % 2)


FUNS = dict(xpulses=xpulses, xypulse=xypulse)


def from_model(ev, names):
    nums = {v: (int(round(ev(var(v, s)))) if s == "I" else Fraction(ev(var(v)))) for v, s in names["vars"].items()}
    return dict(nums=nums, arrays={a: [Fraction(ev(app(a, P(i)))) for i in range(9)] for a in names["arrays"]})


def at_random(rnd, names):
    def real():
        r = rnd.random()
        if r < 0.15:
            return Fraction(0)
        if r < 0.4:
            return Fraction(rnd.choice((1, 2, 3, 4, 5, 8)))
        return Fraction(rnd.uniform(0.05, 6)) * rnd.choice((1, 1, 1, 1, -1))
    nums = {v: (rnd.randint(0, 5) if s == "I" else real()) for v, s in names["vars"].items()}
    arrays = {}
    sign = rnd.random() < 0.6
    for a in names["arrays"]:
        xs = [real() for _ in range(9)]
        if sign:
            xs = [abs(x) or Fraction(1, 2) for x in xs]
        arrays[a] = xs
    if "o" in arrays and "T" in nums and rnd.random() < 0.8:
        # all numbers short in binary: the real code makes no rounding errors
        nums["T"] = Fraction(rnd.choice((1, 2, 3, 5, 8)))
        n = max(nums.get("n", 1), 1)
        xs = sorted(rnd.sample(range(0, 65), n)) if n <= 60 else []
        if rnd.random() < 0.3 and xs:
            xs[0] = 0
        if rnd.random() < 0.3 and xs:
            xs[-1] = 64
        arrays["o"] = [Fraction(float(Fraction(x, 64) * nums["T"])) for x in xs] + [nums["T"]] * 9
        for a in ("r", "a", "e"):
            if a in arrays:
                arrays[a] = [Fraction(rnd.choice((0, 1, 2, 3))) for _ in range(9)]
        for i in range(9):
            if "r" in arrays and "e" in arrays and arrays["r"][i] and rnd.random() < 0.8:
                arrays["e"][i] = Fraction(0)
        for w in ("Wr", "Wd"):
            if w in nums:
                nums[w] = Fraction(rnd.choice((16, 64, 512)))
        if "m" in nums:
            nums["m"] = rnd.choice((Fraction(0), Fraction(1, 1024), Fraction(1, 4)))
        return dict(nums=nums, arrays=arrays, exact=True)
    return dict(nums=nums, arrays=arrays)


# --------------------------------------------------------------------------- concrete arguments
def hx(v):
    return float(v).hex()


def concrete(s, env):
    k = s[0]
    if k in ("ref", "glob", "lit"):
        return [k, s[1]]
    if k == "num":
        v = env.num(s[2])
        return ["lit", env.int(s[2])] if s[1] == "i" else ["npf" if s[3] else "f", hx(v)]
    if k == "bool":
        return ["lit", env.true(s[1])]
    if k == "cx":
        return ["c", [hx(env.num(s[1])), hx(env.num(s[2]))]]
    if k == "ostr":
        return ["lit", env.strings[s[1]]]
    if k in ("tuple", "list"):
        return [k, [concrete(x, env) for x in s[1]]]
    if k == "slist":
        return ["list", [env.bind(KID[0], i, lambda: concrete(s[2], env)) for i in range(env.int(s[1]))]]
    if k == "dict":
        return ["dict", [[concrete(a, env), concrete(b, env)] for a, b in s[1]]]
    if k == "sdict":
        return ["dict", [[["lit", "%s%d" % (s[1], i)], ["lit", i]] for i in range(env.int(s[2]))]]
    if k == "arr":
        sh, es = entries(s, env)
        return ["arr", dict(sh=sh, dt=s[1], e=[elem(e, s[1]) for e in es])]
    raise Unknown("argument %s" % (k,))


def elem(e, dt):
    if dt == "f":
        return ["f", hx(e)]
    if dt == "i":
        return ["lit", int(mpmath.nint(e))]
    if dt == "b":
        return ["lit", e]
    return ["c", [hx(e[0]), hx(e[1])]]


def entries(s, env):
    """(shape, values of the entries in order)"""
    _, dt, shape, mode, elems = s

    def val(e):
        if isinstance(e, tuple):
            return (env.num(e[0]), env.num(e[1]))
        return env.true(e) if isinstance(e, B) else env.num(e)

    def safe(e):
        try:
            return val(e)
        except Unknown:
            return None
    if mode == "c":
        return [env.int(x) for x in shape], [safe(e) for e in elems]
    if mode == "g":
        out = [safe(e) for g, e in elems if env.true(g)]
        return [len(out)], out
    if mode != "s":
        raise Unknown("array of mode %s" % mode)
    sh = [env.int(x) for x in shape]
    out = []

    def go(d, thunk):
        if d == len(sh):
            out.append(safe(elems))
            return
        for i in range(sh[d]):
            env.bind(KID[d], i, lambda: go(d + 1, thunk))
    go(0, None)
    return sh, out


# --------------------------------------------------------------------------- texts
NUMBER = r"([-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf))"


def pattern(parts, env, want):
    """Regular expression for a text; the values of its groups go to want."""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(re.escape(p))
        elif p[0] == "join":
            out.append(re.escape(p[1]).join(env.bind(KID[0], i, lambda: pattern(p[3], env, want)) for i in range(env.int(P(p[2])))))
        elif p[0] == "ite":
            out.append(pattern(p[2] if env.true(p[1]) else p[3], env, want))
        elif p[0] in ("str", "repr"):
            out.append(pattern_of(p[1], env, want, p[0] == "repr"))
        else:
            raise Unknown("text %s" % (p[0],))
    return "".join(out)


def pattern_of(f, env, want, quoted):
    if f is None or isinstance(f, (bool, int)):
        return re.escape(str(f))
    if isinstance(f, str):
        return re.escape(repr(f) if quoted else f)
    if f[0] == "num":
        want.append((f[1], env.num(P(f[2]))))
        return NUMBER
    if f[0] == "bool":
        return str(env.true(f[1]))
    if f[0] == "ostr":
        return re.escape(repr(env.strings[f[1]]) if quoted else env.strings[f[1]])
    if f[0] == "okey":
        return re.escape(repr("%s%d" % (f[1], env.int(P(f[2])))) if quoted else "%s%d" % (f[1], env.int(P(f[2]))))
    if f[0] == "oval":
        return str(env.int(P(f[2])))
    if f[0] in ("arr", "sarr"):
        # the text numpy makes of an array is not described further
        return "array\\(.*?\\)" if quoted else "\\[.*?\\]"
    if f[0] == "sstr" and not quoted:
        return pattern(f[1], env, want)
    raise Unknown("text of %s" % (f[0],))


# --------------------------------------------------------------------------- comparison
class Cmp:
    def __init__(self, env):
        self.env, self.n, self.bad, self.skipped = env, 0, [], 0

    def close(self, where, want, got):
        if want is None:
            self.skipped += 1
            return
        self.n += 1
        if not isinstance(got, float):
            self.bad.append("%s: %s, real %r" % (where, mpmath.nstr(want, 12), got))
            return
        if got != got or got in (float("inf"), float("-inf")):
            self.bad.append("%s: %s, real %r" % (where, mpmath.nstr(want, 12), got))
        elif abs(want - got) > 1e-9 * (1 + abs(want)):
            self.bad.append("%s: %s, real %r" % (where, mpmath.nstr(want, 12), got))

    def text(self, where, parts, got):
        want = []
        m = re.fullmatch(pattern(parts, self.env, want), got, re.S)
        self.n += 1
        if not m:
            return self.bad.append("%s: text %s, real %r" % (where, str(parts)[:200], got[:200]))
        for i, (kind, v) in enumerate(want):
            g = m.group(i + 1)
            if kind == "i" and re.search("[.en]", g):
                self.bad.append("%s: integer, real %s" % (where, g))
            self.close("%s number %d" % (where, i), v, float(g))

    def file(self, where, entries, got):
        """entries as the verifier records them; got: the content of the file, None when there is none"""
        if any(e[0] == "existing" for e in entries):
            self.skipped += 1
            return
        self.n += 1
        if got is None:
            return self.bad.append("%s: no file" % where)
        if entries and entries[0][0] == "json":
            if len(entries) > 1:
                self.skipped += 1
                return
            try:
                return self.json(where, entries[0][1], json.loads(got))
            except ValueError as e:
                return self.bad.append("%s: %s in %r" % (where, e, got[:100]))
        if any(e[0] not in ("row", "rows") for e in entries):
            self.skipped += 1
            return
        rows = list(csv.reader(io.StringIO(got, newline="")))
        at = 0
        for e in entries:
            for i in range(1 if e[0] == "row" else self.env.int(P(e[1]))):
                for tmpl in ([e] if e[0] == "row" else e[2]):
                    if at >= len(rows) or len(rows[at]) != len(tmpl[1]):
                        return self.bad.append("%s: row %d, real %s" % (where, at, rows[at:at + 1]))
                    self.env.bind(KID[0], i, lambda: [self.cell("%s row %d column %d" % (where, at, j), x, y) for j, (x, y) in enumerate(zip(tmpl[1], rows[at]))])
                    at += 1
        if at != len(rows):
            self.bad.append("%s: %d rows, real %d" % (where, at, len(rows)))

    def cell(self, where, s, got):
        try:
            if s[0] == "num":
                return self.text(where, (("str", ("num", s[1], s[2])),), got)
            if s[0] == "text":
                return self.text(where, s[1], got)
            if s[0] in ("lit", "ostr"):
                self.n += 1
                v = s[1] if s[0] == "lit" else self.env.strings[s[1]]
                if got != ("" if v is None else str(v)):
                    self.bad.append("%s: %r, real %r" % (where, v, got))
                return
        except Unknown:
            pass
        self.skipped += 1

    def json(self, where, f, got):
        env = self.env
        try:
            if f is None or isinstance(f, (bool, int, str)):
                self.n += 1
                if type(f) is not type(got) or f != got:
                    self.bad.append("%s: %r, real %r" % (where, f, got))
            elif f[0] == "ostr":
                self.n += 1
                if env.strings[f[1]] != got:
                    self.bad.append("%s: %r, real %r" % (where, env.strings[f[1]], got))
            elif f[0] == "num":
                if (f[1] == "i") != isinstance(got, int) or isinstance(got, bool):
                    self.bad.append("%s: number of kind %s, real %r" % (where, f[1], got))
                else:
                    self.close(where, env.num(P(f[2])), float(got))
            elif f[0] == "bool":
                self.n += 1
                if env.true(f[1]) is not got:
                    self.bad.append("%s: real %r" % (where, got))
            elif f[0] in ("list", "slist"):
                n = len(f) - 1 if f[0] == "list" else env.int(P(f[1]))
                self.n += 1
                if not isinstance(got, list) or len(got) != n:
                    return self.bad.append("%s: list of %d, real %s" % (where, n, str(got)[:80]))
                for i in range(n):
                    env.bind(KID[0], i, lambda: self.json("%s[%d]" % (where, i), f[1 + i] if f[0] == "list" else f[2], got[i]))
            elif f[0] == "dict":
                self.n += 1
                # the order of the keys is not part of the content
                if not isinstance(got, dict) or {k for k, x in f[1:]} != set(got):
                    return self.bad.append("%s: %s, real %s" % (where, [k for k, x in f[1:]], str(got)[:80]))
                for k, x in f[1:]:
                    self.json("%s[%s]" % (where, k), x, got[k])
            else:
                self.skipped += 1
        except Unknown:
            self.skipped += 1

    def same(self, where, s, r):
        k = s[0]
        env = self.env
        try:
            if k == "other" or k == "none" or r[0] == "other":
                self.skipped += 1
            elif k == "raise" or r[0] == "raise":
                self.n += 1
                if k != r[0] or s[1] not in r[1][:1]:
                    self.bad.append("%s: %s, real %s" % (where, str(s)[:60], str(r)[:90]))
            elif k == "text":
                if r[0] != "lit" or not isinstance(r[1], str):
                    self.bad.append("%s: a text, real %s" % (where, str(r)[:60]))
                else:
                    self.text(where, s[1], r[1])
            elif k == "lit" or k == "ostr":
                self.n += 1
                v = s[1] if k == "lit" else env.strings[s[1]]
                if r != ["lit", v]:
                    self.bad.append("%s: %r, real %s" % (where, v, str(r)[:60]))
            elif k == "bool":
                self.n += 1
                if r != ["lit", env.true(s[1])]:
                    self.bad.append("%s: %r, real %s" % (where, env.true(s[1]), str(r)[:60]))
            elif k == "num":
                v = env.num(s[2])
                if s[1] != r[0]:
                    self.bad.append("%s: number of kind %s, real %s" % (where, s[1], str(r)[:60]))
                else:
                    self.close(where, v, float.fromhex(r[1]) if r[0] == "f" else float(r[1]))
            elif k == "cx":
                for i in (0, 1):
                    self.close(where, env.num(s[1 + i]), float.fromhex(r[1][i]) if r[0] == "c" else None)
            elif k in ("list", "tuple"):
                self.n += 1
                if r[0] != k or len(r[1]) != len(s[1]):
                    self.bad.append("%s: %s of %d, real %s" % (where, k, len(s[1]), str(r)[:60]))
                else:
                    for i, (x, y) in enumerate(zip(s[1], r[1])):
                        self.same("%s[%d]" % (where, i), x, y)
            elif k == "slist":
                n = env.int(s[1])
                self.n += 1
                if r[0] != "list" or len(r[1]) != n:
                    self.bad.append("%s: list of %d, real %s" % (where, n, str(r)[:60]))
                else:
                    for i, y in enumerate(r[1]):
                        env.bind(KID[0], i, lambda: self.same("%s[%d]" % (where, i), s[2], y))
            elif k == "dict":
                self.n += 1
                if r[0] != "dict" or len(r[1]) != len(s[1]):
                    self.bad.append("%s: dictionary of %d, real %s" % (where, len(s[1]), str(r)[:60]))
                else:
                    for (a, b), (x, y) in zip(s[1], r[1]):
                        self.same(where + " key", a, x)
                        self.same("%s[%s]" % (where, a[1]), b, y)
            elif k == "sdict":
                self.n += 1
                if r != ["dict", [[["lit", "%s%d" % (s[1], i)], ["i", i]] for i in range(env.int(s[2]))]]:
                    self.bad.append("%s: the dictionary %s, real %s" % (where, s[1], str(r)[:60]))
            elif k == "obj":
                self.n += 1
                if r[0] != "obj" or r[1]["cls"] != s[1] or set(s[2]) != set(r[1]["at"]):
                    self.bad.append("%s: %s %s, real %s" % (where, s[1], sorted(s[2]), str(r)[:150]))
                else:
                    for a, x in s[2].items():
                        self.same("%s.%s" % (where, a), x, r[1]["at"][a])
            elif k == "arr":
                sh, es = entries(s, env)
                self.n += 1
                if r[0] != "arr" or r[1]["sh"] != sh or r[1]["dt"] != s[1]:
                    self.bad.append("%s: array %s of %s, real %s" % (where, sh, s[1], str(r)[:90]))
                    return
                for i, (x, y) in enumerate(zip(es, r[1]["e"])):
                    w = "%s[%d]" % (where, i)
                    if s[1] == "f":
                        self.close(w, x, float.fromhex(y[1]))
                    elif s[1] == "i":
                        self.close(w, x, float(y[1]))
                    elif s[1] == "b":
                        self.n += 1
                        if x is not None and x != y[1]:
                            self.bad.append("%s: %r, real %r" % (w, x, y[1]))
                    else:
                        for j in (0, 1):
                            self.close(w, x[j] if x is not None else None, float.fromhex(y[1][j]))
            else:
                self.skipped += 1
        except Unknown:
            self.skipped += 1


# --------------------------------------------------------------------------- axioms
def axioms(p, env):
    """(evaluated, without a value, false ones)"""
    apps = {}

    def walk(x):
        if isinstance(x, (Poly, B)):
            for at in atoms_deep(x).values():
                if at.kind == "app" and not S._has_bound(at) and not any(T.get_atom(v).data[0][0] in "$!" for v in T.fv_atom(at)):
                    apps[at.data] = at
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
    for f in p.facts:
        walk(f)
    for op in p.ops:
        walk(op["res"])
    todo = []
    for fn, args in apps:
        if fn in S.AX:
            todo += [(fn, x) for key, mk_ in S.AX[fn](args) for x in mk_()]
    for fn, h in S.AXP.items():
        al = [args for f, args in apps if f == fn]
        if len(al) > 1:
            todo += [(fn, x) for key, mk_ in h(al) for x in mk_()]
    n = u = 0
    bad = []
    for fn, x in todo:
        try:
            if env.true(x):
                n += 1
            else:
                bad.append("axiom about %s: %s" % (fn, show_b(x)[:300]))
        except Unknown:
            u += 1
    return n, u, bad


# --------------------------------------------------------------------------- one task
class Judge(Task):
    per = 2

    def setup(self, rnd):
        self.rnd, self.stat, self.bad, self.globs = rnd, Counter(), [], {}
        self.proc = None
        get = self.world.get

        def spied(q):
            r = get(q)
            self.globs[id(r)] = (q, r)
            return r
        self.world.get = spied

    def real(self, *a):
        return Task.real(self, *a)

    def ob(self, name, p, goal, extra=(), timeout=None, witness=True):
        return True

    def cover(self, p, extra=(), vary=0):
        return True

    def undecide(self, label, why):
        self.stat["undecided"] += 1

    def paths(self, label, thunk, limit=200, depth=60, cover=True):
        got = []
        logs = []

        def spied(it):
            log = Log(self.globs)
            logs.append(log)
            try:
                return thunk(Spy(it, log))
            finally:
                log.pre += it.c.facts[log.last:] if log.last <= len(it.c.facts) else []
        for p in run_paths(self.world, spied, limit=limit, depth=depth, deadline=self.deadline):
            log = logs[-1]
            x = P_()
            x.label, x.facts, x.kind, x.ops, x.pre, x.inputs = "%s[%d]" % (label, len(got) + 1), list(p.facts), p.outcome[0], log.ops, list(log.pre), self.inputs
            p.label = x.label
            x.files = {k: [self.entry(log, e) for e in f.state] for k, f in p.ctx.fs.items()}
            if x.kind != "proved":
                got.append(x)
            if x.kind in ("val", "raise"):
                yield p
        self.judge(label, got)

    def entry(self, log, e):
        if e[0] == "row":
            return ("row", [log.snap(x) for x in e[1]])
        if e[0] == "rows":
            return ("rows", e[1], [self.entry(log, x) for x in e[2]])
        return e

    def talk(self, ops):
        if self.proc is None:
            env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
            self.proc = subprocess.Popen([PY, os.path.join(HERE, "tools", "real.py")], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.proc.stdin.write(json.dumps(ops) + "\n")
        self.proc.stdin.flush()
        return json.loads(self.proc.stdout.readline())

    def judge(self, label, ps):
        self.stat["groups"] += 1
        self.stat["paths"] += len(ps)
        if not ps or not any(p.ops for p in ps):
            return
        names, lits = names_in(ps), literals(ps)
        tries, t0 = [], time.time()
        for p in ps:
            if time.time() - t0 > LIMIT / 2:
                break
            for j in range(self.per):
                m = self.model(p.facts, prefer=self.wishes(j + 1), limit=1.0)
                if m is not None:
                    d = from_model(m, names)
                    d["strings"] = {s: m.text(s) for s in names["strings"]}
                    d["bools"] = {b: m.bool(b) for b in names["bools"]}
                    tries.append(d)
        for j in range(max(6, min(40, self.per * len(ps)))):
            d = at_random(self.rnd, names)
            d["strings"] = {s: self.rnd.choice(sorted(lits.get(s, ())) + ["nm", "nm"] + [""]) for s in names["strings"]}
            d["bools"] = {b: self.rnd.random() < 0.5 for b in names["bools"]}
            tries.append(d)
        hit = set()
        for d in tries:
            d["strings"].update({s: "file_" + s for s in d["strings"] if s[:2] == "fn"})
            for v, x in d["nums"].items():
                if names["vars"][v] == "I" and not -9 < x < 9:
                    d["nums"][v] = self.rnd.randint(0, 5)
                if names["vars"][v] == "I" and v in ("l", "L", "m"):
                    d["nums"][v] = min(d["nums"][v], 3)
            for a in names["ints"] & set(d["arrays"]):
                d["arrays"][a] = [Fraction(round(x)) for x in d["arrays"][a]]
            if time.time() - t0 > LIMIT:
                self.stat["inputs left out for time"] += 1
                continue
            self.one(label, ps, d, hit, sorted(names["open"]))
        self.stat["paths reached"] += len(hit)

    def one(self, label, ps, d, hit, free):
        """free: choices that contracts leave open; the real code has to do what one of them says."""
        self.stat["inputs"] += 1
        got = self.results(label, ps, d, free, False)
        if got is None:
            return
        results, met = got
        if not results:
            if met:
                self.fail(label, "no path for an input that meets the precondition", d)
            else:
                self.stat["inputs outside the precondition"] += 1
            return
        self.stat["inputs compared"] += 1
        if self.agree(results, hit):
            return
        if any(c.env.close for p, c in results) and not d.get("exact"):
            # comparisons of numbers that are as good as equal may go either way in the real code
            got = self.results(label, ps, d, free, True)
            if got and self.agree(got[0], hit):
                self.stat["inputs decided by rounding"] += 1
                return
        for p, c in results:
            self.fail(label, "; ".join(c.bad[:3]), d)

    def agree(self, results, hit):
        for p, c in results:
            if not c.bad:
                hit.add(p.label)
                self.stat["values compared"] += c.n
                self.stat["values skipped"] += c.skipped
                return True
        return False

    def results(self, label, ps, d, free, either):
        """([(path, comparison)], is the precondition met), None when the input is not followed"""
        results, met = [], False
        for vals in itertools.product((False, True), repeat=min(len(free), 4)):
            env = Env(functions=FUNS, nums=d["nums"], arrays=d["arrays"], strings=d["strings"], bools=dict(d["bools"], **dict(zip(free, vals))))
            may = Env(functions=FUNS, nums=d["nums"], arrays=d["arrays"], strings=d["strings"], bools=env.bools, either=True) if either else env
            held = []
            for p in ps:
                ok, unknown = may.all(p.facts)
                if ok:
                    held.append((p, unknown))
            met = met or any(env.all(p.pre) == (True, []) for p in ps)
            if any(p.kind == "unsup" for p, u in held):
                if not either:
                    self.stat["inputs on paths not followed"] += 1
                    return None
                held = [(p, u) for p, u in held if p.kind != "unsup"]
            sure = [p for p, u in held if not u]
            if len(sure) > 1 and not either:
                self.fail(label, "%d paths for one input: %s" % (len(sure), [p.label for p in sure]), d)
            for p, u in held:
                try:
                    ops = [self.request(op, env) for op in p.ops]
                except Unknown as e:
                    self.stat["inputs not replayed"] += 1
                    self.stat["not replayed: %s" % e] += 1
                    return None
                real = self.talk(ops)
                if real[:1] == ["error"]:
                    self.stat["inputs not replayed"] += 1
                    self.stat["not replayed: " + str(real[1])[:60]] += 1
                    return None
                c = Cmp(may)
                self.files(p, c, real[1])
                for i, (op, r) in enumerate(zip(p.ops, real[0])):
                    c.same("%s: %s" % (p.label, op.get("name") or str(op.get("f", ""))[-60:]), op["res"], r)
                if not either:
                    na, nu, bad = axioms(p, env)
                    self.stat["axioms evaluated"] += na
                    self.stat["axioms without a value"] += nu
                    for b in bad[:3]:
                        self.fail(label, b, d)
                results.append((p, c))
        return results, met

    def files(self, p, c, files):
        for k, es in p.files.items():
            nm = k if isinstance(k, str) else c.env.strings[k[1]] if k[0] == "ostr" else None
            if nm is None:
                c.skipped += 1
                return
            if any(x is not k and x[0] == "ostr" and c.env.strings[x[1]] == nm for x in p.files):
                files.pop(nm, None)
                continue
            try:
                c.file("%s: file %s" % (p.label, nm), es, files.pop(nm, None))
                self.stat["files compared"] += 1
            except Unknown:
                c.skipped += 1
        if files:
            c.bad.append("%s: files %s" % (p.label, sorted(files)))

    def request(self, op, env):
        if op["op"] == "call":
            return dict(op="call", f=concrete(op["f"], env), args=[concrete(a, env) for a in op["args"]], kw={k: concrete(a, env) for k, a in op["kw"].items()})
        return dict(op=op["op"], o=concrete(op["o"], env), name=op["name"])

    def fail(self, label, what, d):
        self.stat["differences"] += 1
        if len(self.bad) < 6:
            self.bad.append("%s: %s   input %s" % (label, what, {k: {a: ([float(y) for y in b] if isinstance(b, list) else float(b) if isinstance(b, Fraction) else b) for a, b in v.items()} for k, v in d.items() if v and k != "exact"}))


def job(a):
    mod, name, per, seed = a
    sys.setrecursionlimit(20000)
    t0 = time.time()
    out = dict(mod=mod, name=name, stat={}, bad=[])
    t = None
    try:
        m = importlib.import_module("contracts." + mod)
        t = Judge(name, "quick", seed, REPO, deadline=t0 + 900)
        t.per = per
        t.setup(random.Random("%s/%s/%d" % (mod, name, seed)))
        m.TASKS[name](t)
    except Exception as e:
        out["error"] = traceback.format_exc()[-700:] if not isinstance(e, Unsupported) else "Unsupported: %s" % e
    if t is not None:
        out.update(stat=dict(t.stat), bad=t.bad)
        if t.proc:
            t.proc.stdin.close()
            t.proc.wait()
    out["wall"] = round(time.time() - t0, 1)
    return out


def main():
    args = sys.argv[1:]
    per = 2
    if args[:1] == ["-n"]:
        per = int(args[1])
        args = args[2:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = sorted({(m, n) for c in contracts.CHECKS.values() for m, n in c["tasks"]})
    jobs = [(m, n, per, seed) for m, n in jobs if (not args or m == args[0]) and all(x in n for x in args[1:])]
    tot, bad = Counter(), 0
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(job, jobs):
            tot.update(r["stat"])
            tot["tasks"] += 1
            print("%s / %s: %s  %.1f s" % (r["mod"], r["name"], ", ".join("%s %d" % kv for kv in sorted(r["stat"].items())), r["wall"]), flush=True)
            for b in r["bad"]:
                print("    DIFFERENCE " + b[:900])
                bad += 1
            if r.get("error"):
                print("    ERROR " + r["error"])
                tot["tasks with an error"] += 1
    print("total: " + ", ".join("%s %d" % kv for kv in sorted(tot.items())))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
