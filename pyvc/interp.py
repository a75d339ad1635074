"""Symbolic interpreter for the Python source of the repository.

Every run parses the files in the repository; nothing is precompiled.  The interpreter executes the
abstract syntax tree of the real functions on symbolic inputs and collects, for every path, the
path condition and the outcome.  What is dropped relative to CPython: docstrings, type annotations,
comments, warnings, and the difference between 64-bit floats and real numbers.
"""
import ast
import os
import string
import time
from fractions import Fraction
from .terms import *
from . import terms as T
from .vals import *
from . import solver as S


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class MergeFail(Exception):
    pass


class Env:
    __slots__ = ("vars", "parent", "func", "globs", "nonl")

    def __init__(self, parent, func=None):
        self.vars = {}
        self.parent = parent
        self.func = func
        self.globs = ()
        self.nonl = ()


class Explorer:
    def __init__(self, limit):
        self.trace = []
        self.pos = 0
        self.limit = limit
        self.paths = 0

    def next(self):
        while self.trace and self.trace[-1] is False:
            self.trace.pop()
        if not self.trace:
            return False
        self.trace[-1] = False
        self.pos = 0
        return True


# --------------------------------------------------------------------------- builtin exception classes
def _exc(name, *bases):
    return ClassV(name, list(bases), {}, builtin=True)


OBJECT = ClassV("object", [], {}, builtin=True)
EXC = {}
for _n, _b in [("BaseException", None), ("Exception", "BaseException"), ("ArithmeticError", "Exception"), ("ZeroDivisionError", "ArithmeticError"),
               ("OverflowError", "ArithmeticError"), ("LookupError", "Exception"), ("IndexError", "LookupError"), ("KeyError", "LookupError"), ("TypeError", "Exception"), ("ValueError", "Exception"),
               ("AttributeError", "Exception"), ("NameError", "Exception"), ("UnboundLocalError", "NameError"), ("RuntimeError", "Exception"), ("NotImplementedError", "RuntimeError"), ("AssertionError", "Exception"),
               ("StopIteration", "Exception"), ("OSError", "Exception"), ("FileNotFoundError", "OSError"), ("Warning", "Exception"), ("UserWarning", "Warning"), ("DeprecationWarning", "Warning")]:
    EXC[_n] = _exc(_n, *([EXC[_b]] if _b else [OBJECT]))
ENUM = ClassV("Enum", [OBJECT], {}, builtin=True)
TYPES = {"int": TypeV("int", "i"), "float": TypeV("float", "f"), "bool": TypeV("bool", "b"), "complex": TypeV("complex", "c"), "str": TypeV("str", "s"),
         "list": TypeV("list"), "tuple": TypeV("tuple"), "dict": TypeV("dict"), "set": TypeV("set"), "NoneType": TypeV("NoneType"), "function": TypeV("function"),
         "ndarray": TypeV("ndarray"), "float64": TypeV("float64", "f"), "int64": TypeV("int64", "i"), "type": TypeV("type"), "range": TypeV("range"), "bool_": TypeV("bool_", "b"), "complex128": TypeV("complex128", "c"),
         "frozenset": TypeV("frozenset")}


class _Sent:
    """Stands for the earlier contents of a list or file at a generic loop iteration."""

    def __repr__(self):
        return "<earlier iterations>"


SENT = _Sent()


class _Poison:
    """A variable whose value at a generic loop iteration is unknown."""


POISON = _Poison()


class LoopLocal:
    """A variable assigned in every iteration of a loop of m iterations: value template over the loop index."""

    def __init__(self, m, v, lid, pre):
        self.m, self.v, self.lid, self.pre = m, v, lid, pre


class Proved(Exception):
    """The path ends here: what it has to establish has been stated as obligations."""


class Dead(Exception):
    """The path cannot be taken; its facts have to be shown inconsistent."""


class NativeObj(Heap):
    """A modelled library object (file handle, csv writer)."""
    __slots__ = ("kind", "info")

    def __init__(self, kind, state, info=None):
        self.kind, self.state, self.info = kind, state, info
        self.tag = None


# --------------------------------------------------------------------------- small helpers
def mk(kind, p, np=False):
    if kind == "i" and p.is_const() and p.const().denominator == 1:
        return int(p.const())
    return Num(kind, p, np)


def mkb(b, np=False):
    if b.op == "const":
        return b.args[0]
    return SBool(b, np)


def is_number(v):
    return isinstance(v, (bool, int, Num, SBool))


def is_scalar(v):
    return isinstance(v, (bool, int, Num, SBool, Cx))


def kind_of(v):
    if isinstance(v, (bool, SBool)):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, Num):
        return v.kind
    if isinstance(v, Cx):
        return "c"
    raise Unsupported("number expected, got %r" % (v,))


def poly_of(v):
    if isinstance(v, bool):
        return P(int(v))
    if isinstance(v, int):
        return P(v)
    if isinstance(v, Num):
        return v.p
    if isinstance(v, SBool):
        return ite(v.b, 1, 0)
    raise Unsupported("number expected, got %r" % (v,))


def bool_of(v):
    """B of a boolean-like number (without deciding it)."""
    if isinstance(v, bool):
        return bconst(v)
    if isinstance(v, SBool):
        return v.b
    if isinstance(v, int):
        return bconst(v != 0)
    if isinstance(v, Num):
        return ne(v.p, 0)
    raise Unsupported("truth value of %r" % (v,))


def is_np(v):
    return isinstance(v, (Num, SBool)) and v.np


def dimP(d):
    return d if isinstance(d, Poly) else P(d)


def norm_dim(d):
    if isinstance(d, Poly) and d.is_const():
        return int(d.const())
    return d


def sum_squares(p):
    """Syntactically a sum of positive even monomials."""
    return all(c > 0 and all(e % 2 == 0 for a, e in m) for m, c in p.d.items())


def freeze(v):
    """A hashable description of a value."""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, Num):
        return ("num", v.kind, v.p)
    if isinstance(v, SBool):
        return ("bool", v.b)
    if isinstance(v, Cx):
        return ("cx", v.re, v.im)
    if isinstance(v, SStr):
        return ("sstr", v.parts)
    if isinstance(v, OIdx):
        return ("okey", v.base, v.idx)
    if isinstance(v, OVal):
        return ("oval", v.base, v.idx)
    if isinstance(v, SymDict):
        return ("sdict",) + v.state
    if isinstance(v, OStr):
        return ("ostr", v.name)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(freeze(x) for x in v)
    if isinstance(v, PyList):
        if isinstance(v.state, list):
            return ("list",) + tuple(freeze(x) for x in v.state)
        return ("slist", v.state[0], v.state[1], freeze(v.state[2]) if v.state[0] == "sym" else tuple((g, freeze(x)) for g, x in v.state[1]))
    if isinstance(v, PyDict):
        return ("dict",) + tuple((freeze(k), freeze(x)) for k, x in v.state.items())
    if isinstance(v, ArrObj):
        d = arr_data(v)
        if d.mode == "c":
            return ("arr", d.dtype, d.shape, tuple(d.elems))
        if d.mode == "s":
            return ("sarr", d.dtype, d.shape, d.elems)
        return ("garr", d.dtype, tuple(d.elems))
    if isinstance(v, PyObj):
        return ("obj", v.cls.name, tuple((k, freeze(x)) for k, x in v.state.items()))
    if isinstance(v, (ClassV, TypeV)):
        return ("type", v.name)
    if isinstance(v, EnumMember):
        return ("enum", v.cls.name, v.name)
    if isinstance(v, (FuncV, Builtin, BoundM)):
        return ("func", id(v))
    if isinstance(v, SetV):
        return ("set", tuple(freeze(x) for x in v.state[1]) if v.state[0] == "vals" else v.state[1:])
    return ("other", id(v))


def subst_elem(e, mp):
    if isinstance(e, Poly):
        return subst(e, mp)
    if isinstance(e, B):
        return subst_b(e, mp)
    if isinstance(e, tuple):
        return tuple(subst_elem(x, mp) for x in e)
    if isinstance(e, SStr):
        return SStr(subst_parts(e.parts, mp))
    return e


def subst_parts(parts, mp):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == "join":
            # template variable K[0] is bound here
            mp2 = {k: v for k, v in mp.items() if k != KID[0]}
            out.append(("join", p[1], subst(p[2], mp), tuple(subst_parts(p[3], mp2))))
        else:
            out.append((p[0],) + tuple(subst_frozen(x, mp) for x in p[1:]))
    return out


def subst_frozen(x, mp):
    if isinstance(x, Poly):
        return subst(x, mp)
    if isinstance(x, B):
        return subst_b(x, mp)
    if isinstance(x, tuple):
        if x and x[0] in ("sarr", "slist"):
            mp = {k: v for k, v in mp.items() if k not in KID}
        return tuple(subst_frozen(y, mp) for y in x)
    return x


# --------------------------------------------------------------------------- array reading (views)
def arr_data(a):
    """Current contents of an array object; views are resolved against their base."""
    if a.base is None:
        return a.state
    from .npmodel import view_data
    return view_data(arr_data(a.base), a.spec)


class Ctx:
    def __init__(self, world):
        self.world = world
        self.facts = []
        self.decs = []
        self.explorers = []
        self.journal = []
        self.oid = 0
        self.mark = 0
        self.writes = []
        self.sk = 0
        self.fs = {}
        self.fs_log = []
        self.steps = 0
        self.loopsym = 0
        self.contracts = world.contracts
        self.in_contract = set()
        self.reads = None
        self.wlog = None
        self.module_writes = []
        self.deadline = None
        self.inputs = {}
        self.pos_atoms = set()
        self.ghost = {}

    # ---- heap
    def alloc(self, o):
        o.oid = self.oid
        self.oid += 1
        return o

    def put(self, o, new):
        self.journal.append(("h", o, o.state))
        if o.oid < self.mark:
            self.writes.append(o)
        o.state = new

    def setvar(self, env, name, v):
        self.journal.append(("e", env, name, env.vars.get(name, UNDEF)))
        env.vars[name] = v

    def undo(self, mark):
        while len(self.journal) > mark:
            r = self.journal.pop()
            if r[0] == "h":
                r[1].state = r[2]
            elif r[0] == "e":
                if r[3] is UNDEF:
                    r[1].vars.pop(r[2], None)
                else:
                    r[1].vars[r[2]] = r[3]
            else:
                r[1]()

    def list_(self, xs):
        return self.alloc(PyList(xs))

    def arr(self, data):
        return self.alloc(ArrObj(data))

    # ---- facts and decisions
    def add_fact(self, b):
        if b.op == "const" and b.args[0]:
            return
        if b.op == "and":
            for x in b.args:
                self.add_fact(x)
            return
        if b.op == "exists":
            k, lo, hi, body = b.args
            self.sk += 1
            w = var("!w%d" % self.sk, "I")
            self.add_fact(le(lo, w))
            self.add_fact(lt(w, hi))
            self.add_fact(subst_b(body, {var_id(k): w}))
            return
        if b.op == "lt" and len(b.args[0].d) == 1:
            (m, c), = b.args[0].d.items()
            if c < 0 and len(m) == 1 and m[0][1] == 1:
                self.pos_atoms.add((m[0][0], len(self.facts)))
        self.facts.append(b)

    def positive(self, a):
        at = T.get_atom(a)
        if at is T._pi_atom():
            return True
        if at.kind == "app" and at.data[0] == "exp":
            return True
        return any(x == a and i < len(self.facts) and self.facts[i].op == "lt" and self.facts[i].args[0].d.keys() == {((a, 1),)} for x, i in self.pos_atoms)

    def fast(self, b):
        """Cheap sign reasoning on comparisons; True / False / None."""
        if b.op == "const":
            return b.args[0]
        if b.op in ("lt", "le", "eq"):
            p = b.args[0]
            sg = self.signs(p)
            if sg == 1:
                return False
            if sg == -1:
                return b.op != "eq"
        if b.op == "not":
            r = self.fast(b.args[0])
            return None if r is None else not r
        return None

    def signs(self, p):
        """+1 / -1 if p is certainly positive / negative by monomial signs."""
        if not p.d or len(p.d) > 6:
            return 0
        v = None
        for m, c in p.d.items():
            for a, e in m:
                if not self.positive(a):
                    return 0
            s = 1 if c > 0 else -1
            if v is None:
                v = s
            elif v != s:
                # c*pi vs rational handled exactly
                x = pi_only_value(p)
                if x is not None and abs(x) > 1e-40:
                    return 1 if x > 0 else -1
                return self._signs_factor(p)
        return v

    def _signs_factor(self, p):
        """p = (rational polynomial in pi) * positive monomial."""
        common = None
        pid = T._pi_atom().id
        for m in p.d:
            rest = tuple((a, e) for a, e in m if a != pid)
            if common is None:
                common = rest
            elif rest != common:
                return 0
        q = Poly({tuple((a, e) for a, e in m if a == pid): c for m, c in p.d.items()})
        x = pi_only_value(q)
        if x is None or abs(x) < 1e-40:
            return 0
        return 1 if x > 0 else -1

    def quick(self, b):
        f = self.fast(b)
        if f is not None:
            return f
        return S.quick(self.facts, b)

    def decide(self, b):
        f = self.fast(b)
        if f is not None:
            return f
        if S.quick(self.facts, b):
            return True
        if S.quick(self.facts, bnot(b)):
            return False
        ex = self.explorers[-1]
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit for symbolic execution")
        if ex.pos < len(ex.trace):
            v = ex.trace[ex.pos]
        else:
            if len(ex.trace) > ex.limit:
                raise Unsupported("too many decisions on one path")
            v = True
            ex.trace.append(True)
        ex.pos += 1
        d = b if v else bnot(b)
        self.decs.append(d)
        self.add_fact(d)
        return v

    def explore(self, thunk, limit=48):
        """Run thunk on all its paths, undoing its effects.
        -> list of (condition, ('val', v) | ('raise', e) | ('sig', s), effects)"""
        ex = Explorer(24)
        results = []
        nf = len(self.facts)
        decs = self.decs
        j0 = len(self.journal)
        nw = len(self.writes)
        while True:
            self.decs = []
            ex.pos = 0
            self.explorers.append(ex)
            try:
                out = ("val", thunk())
            except PyRaise as e:
                out = ("raise", e.exc)
            except (Brk, Cnt, Ret) as e:
                out = ("sig", e)
            finally:
                self.explorers.pop()
                cond = band(*self.decs)
                self.decs = decs
                eff = self._effects(j0)
                self.undo(j0)
                del self.facts[nf:]
                del self.writes[nw:]
            results.append((cond, out, eff))
            if len(results) > limit:
                raise Unsupported("too many paths in a nested exploration")
            if not ex.next():
                return results

    def _effects(self, j0):
        objs, envs, other = {}, {}, False
        for r in self.journal[j0:]:
            if r[0] == "h":
                if r[1].oid not in objs:
                    objs[r[1].oid] = (r[1], r[2])
            elif r[0] == "e":
                key = (id(r[1]), r[2])
                if key not in envs:
                    envs[key] = (r[1], r[2], r[3])
            else:
                other = True
        o = {k: (ob, old, ob.state) for k, (ob, old) in objs.items()}
        e = {k: (en, nm, old, en.vars.get(nm, UNDEF)) for k, (en, nm, old) in envs.items()}
        return o, e, other

    # ---- exceptions
    def exc(self, name, msg=""):
        o = self.alloc(PyObj(EXC[name], {"args": (msg,)}))
        return PyRaise(o)

    # ---- merging
    def merge(self, c, a, b):
        if a is b:
            return a
        if is_number(a) and is_number(b):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                x, y = bool_of(a), bool_of(b)
                return mkb(bor(band(c, x), band(bnot(c), y)), is_np(a) or is_np(b))
            k = "i" if kind_of(a) in "ib" and kind_of(b) in "ib" else "f"
            return mk(k, ite(c, poly_of(a), poly_of(b)), is_np(a) or is_np(b))
        if is_scalar(a) and is_scalar(b):
            a, b = self.to_cx(a), self.to_cx(b)
            return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if freeze(a) == freeze(b) and not isinstance(a, Heap):
            return a
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return SStr([("ite", c, str_parts(a), str_parts(b))])
        if isinstance(a, PyDict) and isinstance(b, PyDict) and list(a.state) == list(b.state):
            return self.alloc(PyDict({k: self.merge(c, a.state[k], b.state[k]) for k in a.state}))
        if isinstance(a, PyList) and isinstance(b, PyList) and isinstance(a.state, list) and isinstance(b.state, list) and len(a.state) == len(b.state):
            return self.list_([self.merge(c, x, y) for x, y in zip(a.state, b.state)])
        if isinstance(a, ArrObj) and isinstance(b, ArrObj):
            return self.arr(self.merge_arr(c, arr_data(a), arr_data(b)))
        raise MergeFail("cannot merge %r and %r" % (a, b))

    def to_cx(self, v):
        if isinstance(v, Cx):
            return v
        return Cx(poly_of(v), ZERO)

    def merge_elem(self, c, x, y):
        if isinstance(x, Poly):
            return ite(c, x, y)
        if isinstance(x, B):
            return bor(band(c, x), band(bnot(c), y))
        if isinstance(x, tuple):
            return tuple(self.merge_elem(c, p, q) for p, q in zip(x, y))
        if x == y:
            return x
        raise MergeFail("elements")

    def merge_arr(self, c, a, b):
        if a is b:
            return a
        if a.shape != b.shape or a.mode != b.mode or a.dtype != b.dtype or a.mode not in ("c", "s"):
            raise MergeFail("arrays of different shape")
        if a.mode == "c":
            return ArrData(a.shape, a.dtype, "c", tuple(self.merge_elem(c, x, y) for x, y in zip(a.elems, b.elems)))
        return ArrData(a.shape, a.dtype, "s", self.merge_elem(c, a.elems, b.elems))

    def merge_state(self, c, o, a, b):
        """Merge two states of heap object o."""
        if a is b:
            return a
        if isinstance(o, ArrObj):
            return self.merge_arr(c, a, b)
        if isinstance(o, PyList):
            la, lb = self._glist(a), self._glist(b)
            n = 0
            while n < len(la) and n < len(lb) and la[n][0] == lb[n][0] and (la[n][1] is lb[n][1] or freeze(la[n][1]) == freeze(lb[n][1])):
                n += 1
            if n == len(la) == len(lb):
                return a
            if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
                return [self.merge(c, x, y) for x, y in zip(a, b)]
            ra, rb = la[n:], lb[n:]
            out = la[:n] + [(band(c, g), v) for g, v in ra] + [(band(bnot(c), g), v) for g, v in rb]
            return ("g", out)
        if isinstance(o, (PyDict, PyObj)) and isinstance(a, dict) and list(a) == list(b):
            return {k: self.merge(c, a[k], b[k]) for k in a}
        raise MergeFail("state")

    def _glist(self, st):
        if isinstance(st, list):
            return [(TRUE, v) for v in st]
        if st[0] == "g":
            return list(st[1])
        raise MergeFail("symbolic list")

    # ---- scopes
    def scoped(self, facts, thunk):
        n = len(self.facts)
        for f in facts:
            self.add_fact(f)
        try:
            return thunk()
        finally:
            del self.facts[n:]

    def nosplit(self, facts, thunk):
        """Evaluate under extra facts, without case splits."""
        self.explorers.append(_NoSplit())
        try:
            return self.scoped(facts, thunk)
        finally:
            self.explorers.pop()

    def simp(self, p):
        """Use the facts to resolve integer divisions that the normal form leaves open."""
        if isinstance(p, B):
            mp = {}
            for at in list(atoms_deep(p).values()):
                if at.kind == "app" and at.data[0] in ("idiv",):
                    r = self._idiv_resolve(at)
                    if r is not None:
                        mp[at.id] = r
            return subst_app_b(p, mp) if mp else p
        mp = {}
        for at in list(atoms_deep(p).values()):
            if at.kind == "app" and at.data[0] == "idiv":
                r = self._idiv_resolve(at)
                if r is not None:
                    mp[at.id] = r
        return subst_app(p, mp) if mp else p

    def index_facts(self):
        """The facts that only speak about integers."""
        return [f for f in self.facts if _index_only(f)]

    def resolve(self, e):
        """Drop the branches of conditional terms that the facts about indices exclude."""
        if isinstance(e, tuple):
            return tuple(self.resolve(x) for x in e)
        if not isinstance(e, (Poly, B)):
            return e
        if not any(at.kind == "ite" for at in atoms_deep(e).values()):
            return e
        return self._resolve(e, self.index_facts(), {})

    def _resolve(self, e, facts, memo):
        if isinstance(e, B):
            if e.op in ("eq", "lt", "le"):
                return T._cmp(e.op, self._resolve(e.args[0], facts, memo))
            if e.op == "not":
                return bnot(self._resolve(e.args[0], facts, memo))
            if e.op in ("and", "or"):
                xs = [self._resolve(x, facts, memo) for x in e.args]
                return band(*xs) if e.op == "and" else bor(*xs)
            return e
        mp = {}
        for a in e.atoms():
            at = T.get_atom(a)
            if a in memo:
                if memo[a] is not None:
                    mp[a] = memo[a]
                continue
            r = None
            if at.kind == "ite":
                c, x, y = at.data
                if _index_only(c):
                    if S.quick(facts, c):
                        r = self._resolve(x, facts, memo)
                    elif S.quick(facts, bnot(c)):
                        r = self._resolve(y, facts, memo)
                if r is None:
                    c2 = self._resolve(c, facts, memo)
                    if _index_only(c):
                        x2, y2 = self._resolve(x, facts + [c], {}), self._resolve(y, facts + [bnot(c)], {})
                    else:
                        x2, y2 = self._resolve(x, facts, memo), self._resolve(y, facts, memo)
                    r = ite(c2, x2, y2)
            elif at.kind == "app" and any(z.kind == "ite" for q in at.data[1] for z in atoms_deep(q).values()):
                r = T.rebuild_app(at.data[0], tuple(self._resolve(q, facts, memo) for q in at.data[1]), at.sort)
            elif at.kind == "inv" and any(z.kind == "ite" for z in atoms_deep(at.data[0]).values()):
                r = inv(self._resolve(at.data[0], facts, memo))
            memo[a] = r
            if r is not None:
                mp[a] = r
        return T.subst_atoms(e, mp) if mp else e

    def _idiv_resolve(self, at):
        p, c = at.data[1]
        q, r = poly_divmod(p, c)
        for dq in (0, -1, 1):
            qq, rr = q + dq, r - c * dq
            if self.quick(le(0, rr)) and self.quick(lt(rr, c)):
                return qq
        return None


def _index_only(b):
    r = INDEX_ONLY.get(b)
    if r is None:
        r = b.op not in ("forall", "exists", "bvar") and all(at.sort == "I" and (at.kind == "var" or at.kind == "app" and at.data[0] in ("div", "mod", "idiv")) for at in atoms_deep(b).values())
        INDEX_ONLY[b] = r
    return r


INDEX_ONLY = {}


def poly_divmod(p, c):
    """p = q*c + r by polynomial division on one atom of c that occurs linearly with unit coefficient."""
    for m, co in c.d.items():
        if len(m) == 1 and m[0][1] == 1 and abs(co) == 1 and T.get_atom(m[0][0]).kind == "var":
            a = m[0][0]
            if any(dict(mm).get(a, 0) > 1 or (a in dict(mm) and mm != m) for mm in c.d):
                continue
            q, r = ZERO, p
            for _ in range(6):
                t = {mm: cc for mm, cc in r.d.items() if dict(mm).get(a, 0) >= 1}
                if not t:
                    break
                dq = Poly({tuple((x, e - 1 if x == a else e) for x, e in mm if not (x == a and e == 1)): cc / co for mm, cc in t.items()})
                q = q + dq
                r = r - dq * c
            return q, r
    return ZERO, p


def subst_app(p, mp):
    """Replace atoms (by id) anywhere in p."""
    out = ZERO
    for m, c in p.d.items():
        t = P(c)
        for a, e in m:
            x = _subst_app_atom(a, mp)
            t = t * (x ** e if e > 0 else inv(x) ** (-e))
        out = out + t
    return out


def _subst_app_atom(a, mp):
    if a in mp:
        return subst_app(mp[a], {k: v for k, v in mp.items() if k != a})
    at = T.get_atom(a)
    if at.kind == "app":
        return rebuild_app(at.data[0], tuple(subst_app(x, mp) for x in at.data[1]), at.sort)
    if at.kind == "inv":
        return inv(subst_app(at.data[0], mp))
    if at.kind == "ite":
        c, x, y = at.data
        return ite(subst_app_b(c, mp), subst_app(x, mp), subst_app(y, mp))
    return atom_poly(at)


def subst_app_b(b, mp):
    if b.op in ("const", "bvar"):
        return b
    if b.op in ("eq", "lt", "le"):
        return T._cmp(b.op, subst_app(b.args[0], mp))
    if b.op == "not":
        return bnot(subst_app_b(b.args[0], mp))
    if b.op in ("and", "or"):
        xs = [subst_app_b(a, mp) for a in b.args]
        return band(*xs) if b.op == "and" else bor(*xs)
    k, lo, hi, body = b.args
    return close(k, subst_app(lo, mp), subst_app(hi, mp), subst_app_b(body, mp), b.op)


def str_parts(v):
    if isinstance(v, str):
        return (v,) if v else ()
    if isinstance(v, SStr):
        return v.parts
    if isinstance(v, OStr):
        return (("str", freeze(v)),)
    raise Unsupported("string expected, got %r" % (v,))


def mk_str(parts):
    s = SStr(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


# --------------------------------------------------------------------------- the world (modules)
class World:
    def __init__(self, repo="/repo"):
        self.repo = repo
        self.modules = {}
        self.contracts = {}
        self.loop_contracts = {}
        self.visited = set()
        self.sources = {}
        self.funcs = {}
        self.modelled = set()
        self.ctx0 = Ctx(self)
        self.ctx0.explorers.append(Explorer(10))

    def load(self, name):
        """Load a repository module by dotted name."""
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(path):
            f = os.path.join(path, "__init__.py")
            pkg = True
        else:
            f = path + ".py"
            pkg = False
        if not os.path.exists(f):
            raise Unsupported("module %s not found" % name)
        src = open(f).read()
        self.sources[name] = src
        tree = ast.parse(src, f)
        m = ModuleV(name, {"__name__": name})
        m.pkg = pkg
        self.modules[name] = m
        env = Env(None)
        env.vars = m.ns
        m.env = env
        it = Interp(self.ctx0, m)
        for st in tree.body:
            try:
                it.stmt(st, env)
            except Unsupported as e:
                names = [st.name] if isinstance(st, (ast.FunctionDef, ast.ClassDef)) else [a.asname or a.name.split(".")[0] for a in st.names] if isinstance(st, (ast.Import, ast.ImportFrom)) else \
                    [t.id for t in st.targets if isinstance(t, ast.Name)] if isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets) else []
                if not names or isinstance(st, ast.ImportFrom) and (st.level or st.module.split(".")[0] == "qctrlopencontrols"):
                    raise
                for x in names:
                    m.ns[x] = Unread(str(e))
        return m

    def get(self, dotted):
        mod, _, nm = dotted.partition(":")
        m = self.load(mod)
        v = m.ns
        cur = None
        for part in nm.split("."):
            if cur is None:
                cur = m.ns.get(part)
            else:
                cur = cur.find(part)
            if cur is None:
                raise Unsupported("%s not found in %s" % (nm, mod))
            if isinstance(cur, Unread):
                raise Unsupported(cur.reason)
        return cur


ASSIGNED = {}


def assigned_names(node):
    """Names assigned in a function body (not descending into nested functions or comprehensions)."""
    key = id(node)
    if key in ASSIGNED:
        return ASSIGNED[key][0]
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    tgt(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                tgt(c.target)
            elif isinstance(c, ast.withitem) and c.optional_vars is not None:
                tgt(c.optional_vars)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split(".")[0])
            walk(c)
    class W:
        pass
    for st in node if isinstance(node, list) else node.body:
        w = ast.Module(body=[st], type_ignores=[])
        walk(w)
    ASSIGNED[key] = (out, node)
    return out


class Interp:
    def __init__(self, ctx, module):
        self.c = ctx
        self.m = module

    # ------------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.c.steps += 1
        f = getattr(self, "s_" + type(st).__name__, None)
        if f is None:
            raise Unsupported("statement %s (line %s)" % (type(st).__name__, getattr(st, "lineno", "?")))
        return f(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            raise Unsupported("yield")
        self.ev(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        from . import models
        for a in st.names:
            mod = models.get_module(self.c.world, a.name)
            self.bind(env, a.asname or a.name.split(".")[0], mod)

    def s_ImportFrom(self, st, env):
        from . import models
        if st.level:
            parts = self.m.name.split(".")
            if not getattr(self.m, "pkg", False):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            base = ".".join(parts + ([st.module] if st.module else []))
        else:
            base = st.module
        w = self.c.world
        if st.level or base.split(".")[0] == "qctrlopencontrols":
            mod = w.load(base)
            for a in st.names:
                if a.name in mod.ns:
                    v = mod.ns[a.name]
                else:
                    v = w.load(base + "." + a.name)
                self.bind(env, a.asname or a.name, v)
        else:
            mod = models.get_module(w, base)
            for a in st.names:
                if a.name not in mod.ns:
                    raise Unsupported("%s.%s is not modelled" % (base, a.name))
                self.bind(env, a.asname or a.name, mod.ns[a.name])

    def bind(self, env, name, v):
        if name in env.globs:
            g = self.m.env
            if env is not g:
                self.c.module_writes.append(name)
            self.c.setvar(g, name, v)
            return
        if name in env.nonl:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    self.c.setvar(e, name, v)
                    return
                e = e.parent
        self.c.setvar(env, name, v)

    def s_Global(self, st, env):
        env.globs = tuple(env.globs) + tuple(st.names)

    def s_Nonlocal(self, st, env):
        env.nonl = tuple(env.nonl) + tuple(st.names)

    def s_FunctionDef(self, st, env):
        fn = self.mkfunc(st, env, st.name)
        v = fn
        for d in reversed(st.decorator_list):
            if isinstance(d, ast.Name) and d.id == "property":
                v = PropV(v)
            elif isinstance(d, ast.Name) and d.id == "staticmethod":
                v = StaticV(v)
            elif isinstance(d, ast.Name) and d.id == "classmethod":
                v = ClassMethV(v)
            elif isinstance(d, ast.Attribute) and d.attr == "setter":
                old = env.vars[d.value.id]
                v = PropV(old.fget, v)
            else:
                try:
                    dec = self.ev(d, env)
                    v = self.call(dec, [v], {})
                except Unsupported as e:
                    v = Unread("decorator of %s: %s" % (st.name, e))
                    break
        self.bind(env, st.name, v)

    def mkfunc(self, st, env, name):
        a = st.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = [self.ev(d, env) if d is not None else UNDEF for d in a.kw_defaults]
        f = FuncV(st, env, self.m, name, defaults, kwd)
        if not isinstance(st, ast.Lambda):
            for n in ast.walk(st):
                if isinstance(n, (ast.Yield, ast.YieldFrom)) and _owner(st, n):
                    f.isgen = True
        q = getattr(env, "func", None)
        f.qual = name
        return f

    def s_ClassDef(self, st, env):
        bases = [self.ev(b, env) for b in st.bases]
        if st.decorator_list or st.keywords:
            raise Unsupported("decorated class %s" % st.name)
        cenv = Env(env)
        ns = cenv.vars
        cls = ClassV(st.name, bases or [OBJECT], ns, self.m)
        self.block(st.body, cenv)
        ns = dict(cenv.vars)
        cls.ns = ns
        for k, v in ns.items():
            f = v.fget if isinstance(v, PropV) else v.f if isinstance(v, (StaticV, ClassMethV)) else v
            if isinstance(f, FuncV):
                f.qual = st.name + "." + f.name
                f.cls = cls
                # class scope is not visible from methods
                f.env = env
            if isinstance(v, PropV) and isinstance(v.fset, FuncV):
                v.fset.qual = st.name + "." + v.fset.name
                v.fset.cls = cls
                v.fset.env = env
        if any(isinstance(b, ClassV) and b.issub(ENUM) for b in bases):
            cls.enum_members = []
            for k in list(ns):
                if not k.startswith("_") and not isinstance(ns[k], (FuncV, PropV, StaticV, ClassMethV)):
                    mem = EnumMember(cls, k, ns[k])
                    ns[k] = mem
                    cls.enum_members.append(mem)
        self.bind(env, st.name, cls)

    def s_Return(self, st, env):
        raise Ret(self.ev(st.value, env) if st.value is not None else None)

    def s_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self.c, "handling", None)
            if cur:
                raise PyRaise(cur[-1])
            raise Unsupported("bare raise")
        v = self.ev(st.exc, env)
        if st.cause is not None:
            self.ev(st.cause, env)
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        raise PyRaise(v)

    def s_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env)):
            raise self.c.exc("AssertionError")

    def s_If(self, st, env):
        if self.truth(self.ev(st.test, env)):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.c.journal.append(("e", env, t.id, env.vars.get(t.id, UNDEF)))
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                i = self.ev_index(t.slice, env)
                if isinstance(o, PyDict):
                    d = dict(o.state)
                    if i not in d:
                        raise self.c.exc("KeyError")
                    del d[i]
                    self.c.put(o, d)
                elif isinstance(o, PyList) and isinstance(o.state, list) and isinstance(i, int):
                    l = list(o.state)
                    del l[i]
                    self.c.put(o, l)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.concrete_list(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                n = len(t.elts) - 1
                if len(xs) < n:
                    raise self.c.exc("ValueError")
                tail = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], xs[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, self.c.list_(list(xs[i:len(xs) - tail])), env)
                for e, x in zip(t.elts[i + 1:], xs[len(xs) - tail:]):
                    self.assign(e, x, env)
                return
            if len(xs) != len(t.elts):
                raise self.c.exc("ValueError", "unpack")
            for e, x in zip(t.elts, xs):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev_index(t.slice, env)
            self.setitem(o, i, v)
        else:
            raise Unsupported("assignment target")

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            v = self.ev(st.value, env)
            if isinstance(cur, ArrObj):
                from . import npmodel as N
                N.inplace(self, cur, st.op, v)
                self.bind(env, t.id, cur)
                return
            if isinstance(cur, PyList) and isinstance(st.op, ast.Add):
                self.list_extend(cur, v)
                return
            self.bind(env, t.id, self.binop(st.op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, env)
            if isinstance(cur, ArrObj):
                from . import npmodel as N
                N.inplace(self, cur, st.op, v)
                return
            self.setattr(o, t.attr, self.binop(st.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev_index(t.slice, env)
            cur = self.getitem(o, i)
            v = self.ev(st.value, env)
            self.setitem(o, i, self.binop(st.op, cur, v))
        else:
            raise Unsupported("augmented assignment")

    def s_Break(self, st, env):
        raise Brk()

    def s_Continue(self, st, env):
        raise Cnt()

    def s_While(self, st, env):
        con = self.c.world.loop_contracts.get(id(st))
        if con is not None:
            return con(self, st, env)
        n = 0
        while self.truth(self.ev(st.test, env)):
            n += 1
            if n > 20000:
                raise Unsupported("while loop bound")
            try:
                self.block(st.body, env)
            except Brk:
                return
            except Cnt:
                continue
        self.block(st.orelse, env)

    def s_With(self, st, env):
        exits = []
        for it in st.items:
            cm = self.ev(it.context_expr, env)
            if isinstance(cm, NativeObj):
                v = cm
                exits.append(cm)
            elif isinstance(cm, PyObj) and cm.cls.find("__enter__"):
                v = self.call(self.getattr(cm, "__enter__"), [], {})
                exits.append(cm)
            else:
                raise Unsupported("with")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.block(st.body, env)
        finally:
            for cm in reversed(exits):
                if isinstance(cm, PyObj):
                    self.call(self.getattr(cm, "__exit__"), [None, None, None], {})

    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.exc, self.ev(h.type, env)):
                        if h.name:
                            self.bind(env, h.name, e.exc)
                        st_ = getattr(self.c, "handling", None) or []
                        self.c.handling = st_ + [e.exc]
                        try:
                            self.block(h.body, env)
                        finally:
                            self.c.handling = st_
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        finally:
            if st.finalbody:
                self.block(st.finalbody, env)

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        return isinstance(t, ClassV) and exc.cls.issub(t)

    # ------------------------------------------------------------------ for loops
    def s_For(self, st, env):
        con = self.c.world.loop_contracts.get(id(st))
        if con is not None:
            return con(self, st, env)
        v = self.ev(st.iter, env)
        it = self.iterate(v)
        if it[0] == "list":
            self.for_concrete(st, env, it[1], v)
        else:
            from .loops import sym_loop
            sym_loop(self, st, env, it[1], it[2], self.sources(v))

    def sources(self, v):
        """Heap objects that an iteration over v reads while it goes on."""
        if isinstance(v, ArrObj):
            while v.base is not None:
                v = v.base
            return [v]
        if isinstance(v, GenV):
            out = []
            for x in v.srcs:
                out.extend(self.sources(x))
            return out
        if isinstance(v, (PyList, PyDict, SetV)):
            return [v]
        return []

    def for_concrete(self, st, env, xs, v):
        c = self.c
        mergeable = len(xs) > 3
        srcs = [(o, o.state) for o in self.sources(v)]
        i = -1
        while True:
            i += 1
            if any(o.state is not s for o, s in srcs):
                # the sequence was changed by the body: read the rest of it afresh
                if any(isinstance(o, (PyDict, SetV)) for o, _ in srcs):
                    raise Unsupported("a loop changes the dictionary it iterates over")
                srcs = [(o, o.state) for o, _ in srcs]
                again = self.iterate(v.redo() if isinstance(v, GenV) and v.redo else v)
                if again[0] != "list":
                    raise Unsupported("a loop changes the sequence it iterates over")
                xs = again[1]
            if i >= len(xs):
                break
            x = xs[i]

            def body():
                self.assign(st.target, x, env)
                self.block(st.body, env)
            if mergeable:
                try:
                    ok = self.run_merged(body)
                    if not ok:
                        # plain execution in the enclosing exploration
                        mergeable = False
                        body()
                except Brk:
                    return
                except Cnt:
                    continue
            else:
                try:
                    body()
                except Brk:
                    return
                except Cnt:
                    continue
        self.block(st.orelse, env)

    def run_merged(self, body):
        """Execute body; if it splits into several normal paths, merge their effects.
        Returns False (with no effects) when that is not possible."""
        c = self.c
        # cheap first run: only splits cost anything
        ex = Explorer(24)
        probe = _Probe()
        j0, nf, decs = len(c.journal), len(c.facts), c.decs
        c.explorers.append(probe)
        try:
            body()
            c.explorers.pop()
            return True
        except _Split:
            c.explorers.pop()
            c.undo(j0)
            del c.facts[nf:]
            c.decs = decs
        except BaseException:
            if c.explorers and c.explorers[-1] is probe:
                c.explorers.pop()
            raise
        try:
            res = c.explore(body)
        except Unsupported:
            return False
        if any(out[0] != "val" for _, out, _ in res):
            return False
        try:
            self.apply_merged(res)
        except MergeFail:
            return False
        return True

    def apply_merged(self, res):
        c = self.c
        objs, envs = {}, {}
        for cond, out, (o, e, other) in res:
            if other:
                raise MergeFail("library effects")
            for k, (ob, old, new) in o.items():
                objs[k] = (ob, old)
            for k, (en, nm, old, new) in e.items():
                envs[k] = (en, nm, old)
        newo, newe = {}, {}
        for k, (ob, old) in objs.items():
            vals = [(cond, o[k][2] if k in o else old) for cond, out, (o, e, _) in res]
            v = vals[-1][1]
            for cond, x in reversed(vals[:-1]):
                v = c.merge_state(cond, ob, x, v)
            newo[k] = v
        for k, (en, nm, old) in envs.items():
            vals = [(cond, e[k][3] if k in e else old) for cond, out, (o, e, _) in res]
            if any(x is UNDEF for _, x in vals):
                if all(x is UNDEF for _, x in vals):
                    continue
                newe[k] = UNDEF
                continue
            v = vals[-1][1]
            for cond, x in reversed(vals[:-1]):
                v = c.merge(cond, x, v)
            newe[k] = v
        for k, v in newo.items():
            c.put(objs[k][0], v)
        for k, v in newe.items():
            en, nm, old = envs[k]
            if v is UNDEF:
                c.journal.append(("e", en, nm, en.vars.get(nm, UNDEF)))
                en.vars.pop(nm, None)
            else:
                c.setvar(en, nm, v)

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        """-> ('list', [values]) or ('sym', n, fn(index Poly) -> value)"""
        from . import npmodel as N
        if isinstance(v, (tuple, list)):
            return ("list", list(v))
        if isinstance(v, str):
            return ("list", list(v))
        if isinstance(v, PyList):
            if isinstance(v.state, list):
                if v.state and v.state[0] is SENT:
                    raise Unsupported("a list is read in the loop that fills it")
                return ("list", list(v.state))
            if v.state is None:
                return ("sym", v.n, v.fn)
            if v.state[0] == "sym":
                n, t = v.state[1], v.state[2]
                return ("sym", n, lambda i: self.subst_val(t, {KID[0]: i}))
            raise Unsupported("iteration over a guarded list")
        if isinstance(v, GenV):
            return self.iterate(v.lst)
        if isinstance(v, PyDict):
            return ("list", list(v.state))
        if isinstance(v, SymDict):
            nm, n = v.state
            return ("sym", n, lambda i: OIdx(nm, i))
        if isinstance(v, RangeV):
            if all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
                return ("list", list(range(v.start, v.stop, v.step)))
            if v.step == 1:
                a, b = poly_of(v.start), poly_of(v.stop)
                n = b - a
                if not self.c.quick(le(0, n)):
                    if not self.c.decide(le(0, n)):
                        return ("list", [])
                return ("sym", n, lambda i: mk("i", a + i))
            if v.step == -1:
                a, b = poly_of(v.start), poly_of(v.stop)
                n = a - b
                if not self.c.decide(le(0, n)):
                    return ("list", [])
                return ("sym", n, lambda i: mk("i", a - i))
            raise Unsupported("symbolic range with a step")
        if isinstance(v, ArrObj):
            d = arr_data(v)
            if not d.shape:
                raise self.c.exc("TypeError", "iteration over a 0-d array")
            if d.mode == "g":
                raise Unsupported("iteration over a guarded array")
            if isinstance(d.shape[0], int):
                return ("list", [N.getitem(self, v, i) for i in range(d.shape[0])])
            return ("sym", d.shape[0], lambda i: N.getitem_at(self, v, i))
        if isinstance(v, SetV) and v.state[0] == "vals":
            xs = []
            for x in v.state[1]:
                if not any(freeze(x) == freeze(y) for y in xs):
                    xs.append(x)
            if len(xs) > 1 and not all(isinstance(x, (int, str)) for x in xs):
                raise Unsupported("iteration over a set of symbolic values")
            return ("list", xs)
        if isinstance(v, ClassV) and v.enum_members is not None:
            return ("list", list(v.enum_members))
        if isinstance(v, SStr) and all(not isinstance(p, str) and p[0] == "bit" for p in v.parts):
            return ("list", [SStr([p]) for p in v.parts])
        if v is None or is_scalar(v):
            raise self.c.exc("TypeError", "object is not iterable")
        if isinstance(v, PyObj) and v.cls.find("__iter__"):
            return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}))
        raise Unsupported("iteration over %r" % (v,))

    def concrete_list(self, v):
        it = self.iterate(v)
        if it[0] == "list":
            return it[1]
        n = it[1]
        # lengths that the facts pin down
        for k in range(0, 6):
            if self.c.quick(eq(n, k)):
                return [it[2](P(i)) for i in range(k)]
        raise Unsupported("a sequence of unknown length is unpacked")

    def subst_val(self, v, mp):
        if isinstance(v, (OIdx, OVal)):
            return type(v)(v.base, subst(v.idx, mp))
        if v is None or isinstance(v, (bool, int, str, OStr)):
            return v
        if isinstance(v, Num):
            return mk(v.kind, subst(v.p, mp), v.np)
        if isinstance(v, SBool):
            return mkb(subst_b(v.b, mp), v.np)
        if isinstance(v, Cx):
            return Cx(subst(v.re, mp), subst(v.im, mp))
        if isinstance(v, SStr):
            return mk_str(subst_parts(v.parts, mp))
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, mp) for x in v)
        if isinstance(v, PyDict):
            return self.c.alloc(PyDict({k: self.subst_val(x, mp) for k, x in v.state.items()}))
        if isinstance(v, PyList):
            if isinstance(v.state, list):
                return self.c.list_([self.subst_val(x, mp) for x in v.state])
            if v.state[0] == "sym":
                mp2 = {k: x for k, x in mp.items() if k not in KID}
                return self.c.list_(("sym", subst(v.state[1], mp), self.subst_val(v.state[2], mp2)))
        if isinstance(v, ArrObj):
            d = arr_data(v)
            return self.c.arr(subst_arr(d, mp))
        if isinstance(v, (FuncV, ClassV, Builtin, TypeV, EnumMember, BoundM)):
            return v
        raise Unsupported("value in a symbolic sequence: %r" % (v,))

    def comp_elems(self, gens, env, elt):
        """Evaluate a comprehension; -> python list, or ('sym', n, template) or ('g', ...)"""
        if len(gens) == 0:
            return [elt(env)]
        g = gens[0]
        it = self.iterate(self.ev(g.iter, env))
        inner = Env(env)
        if it[0] == "list":
            out = []
            guarded = False
            for x in it[1]:
                self.assign(g.target, x, inner)
                keep = TRUE
                skip = False
                for cond in g.ifs:
                    v = self.ev(cond, inner)
                    b = self.try_bool(v)
                    f = self.c.fast(b)
                    if f is None:
                        f = True if S.quick(self.c.facts, b) else False if S.quick(self.c.facts, bnot(b)) else None
                    if f is False:
                        skip = True
                        break
                    if f is None:
                        if len(it[1]) <= 4:
                            if not self.c.decide(b):
                                skip = True
                                break
                        else:
                            keep = band(keep, b)
                            guarded = True
                if skip:
                    continue
                r = self.comp_elems(gens[1:], inner, elt)
                if not isinstance(r, list):
                    raise Unsupported("nested symbolic comprehension")
                out.extend((keep, y) for y in r)
            if guarded:
                return ("g", out)
            return [y for _, y in out]
        n, fn = it[1], it[2]
        if len(gens) > 1:
            raise Unsupported("nested comprehension over a symbolic sequence")
        c = self.c
        c.loopsym += 1
        k = var("$l%d" % c.loopsym, "I")
        nf = len(c.facts)
        c.add_fact(le(0, k))
        c.add_fact(lt(k, n))

        def body():
            e2 = Env(inner)
            self.assign(g.target, fn(k), e2)
            for cond in g.ifs:
                if not self.truth(self.ev(cond, e2)):
                    return UNDEF
            return elt(e2)
        mark = c.oid
        try:
            res = c.explore(body)
        finally:
            del c.facts[nf:]
        return self.finish_sym(res, n, k, mark)

    def finish_sym(self, res, n, k, mark):
        """Combine the paths of a generic element into a template; exceptions become decisions."""
        c = self.c
        norm = []
        if len({out[1].cls for _, out, _ in res if out[0] == "raise"}) > 1:
            raise Unsupported("elements may raise different exceptions")
        for cond, out, (o, e, other) in res:
            if out[0] == "raise":
                if c.decide(exists(0, n, lambda i: subst_b(cond, {var_id(k): i}))):
                    raise PyRaise(out[1])
                continue
            if out[0] == "sig":
                raise Unsupported("control flow in comprehension")
            if other or any(ob.oid < mark for ob, _, _ in o.values()):
                raise Unsupported("side effects in comprehension")
            norm.append((cond, out[1]))
        if not norm:
            # every element raises, so the sequence is empty here
            return []
        if any(v is UNDEF for _, v in norm):
            return self.sym_filter(norm, n, k)
        v = norm[-1][1]
        try:
            for cond, x in reversed(norm[:-1]):
                v = c.merge(cond, x, v)
        except MergeFail as e:
            raise Unsupported(str(e))
        return ("sym", n, self.subst_val(v, {var_id(k): K[0]}))

    def sym_filter(self, norm, n, k):
        """[f(x) for x in xs if c(x)] over a sequence of unknown length."""
        from . import npmodel as N
        keep = FALSE
        v = None
        for cond, x in reversed(norm):
            if x is UNDEF:
                continue
            keep = bor(keep, cond)
            v = x if v is None else self.c.merge(cond, x, v)
        if v is None:
            return []
        mask = subst_b(keep, {var_id(k): K[0]})
        cnt, sel = N.filter_fn(self.c, n, mask)
        return ("sym", cnt, self.subst_val(v, {var_id(k): sel(K[0])}))

    def ev_ListComp(self, e, env):
        r = self.comp_elems(e.generators, Env(env), lambda en: self.ev(e.elt, en))
        return self.c.list_(r)

    def ev_GeneratorExp(self, e, env):
        return GenV(self.ev_ListComp(e, env))

    def ev_SetComp(self, e, env):
        r = self.comp_elems(e.generators, Env(env), lambda en: self.ev(e.elt, en))
        if not isinstance(r, list):
            raise Unsupported("symbolic set comprehension")
        return self.c.alloc(SetV(("vals", r)))

    def ev_DictComp(self, e, env):
        r = self.comp_elems(e.generators, Env(env), lambda en: (self.ev(e.key, en), self.ev(e.value, en)))
        if not isinstance(r, list):
            raise Unsupported("symbolic dict comprehension")
        d = {}
        for k, v in r:
            self.hashable(k)
            d[k] = v
        return self.c.alloc(PyDict(d))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        f = getattr(self, "ev_" + type(e).__name__, None)
        if f is None:
            raise Unsupported("expression %s (line %s)" % (type(e).__name__, getattr(e, "lineno", "?")))
        return f(e, env)

    def ev_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
            return v
        if isinstance(v, float):
            return Num("f", P(lit_fraction(self, e)), False)
        if isinstance(v, complex):
            return Cx(P(Fraction(str(v.real))), P(Fraction(str(v.imag))))
        if v is Ellipsis:
            return Ellipsis
        raise Unsupported("constant %r" % (v,))

    def ev_Name(self, e, env):
        n = e.id
        en = env
        while en is not None:
            if n in en.vars:
                v = en.vars[n]
                if isinstance(v, Unread):
                    raise Unsupported(v.reason)
                if v is POISON:
                    raise Unsupported("the loop carries variable %s in a way that is not understood" % n)
                if isinstance(v, LoopLocal):
                    if self.c.decide(lt(0, v.m)):
                        if v.v is POISON or v.v is UNDEF:
                            raise Unsupported("value of %s after the loop" % n)
                        v = self.subst_val(v.v, {v.lid: v.m - 1})
                    else:
                        v = v.pre
                    if v is UNDEF:
                        raise self.c.exc("UnboundLocalError", n)
                return v
            if en.func is not None and n in en.func.locals and n not in en.globs and n not in en.nonl:
                raise self.c.exc("UnboundLocalError", n)
            en = en.parent
        from . import models
        b = models.BUILTINS.get(n)
        if b is not None:
            return b
        if n in EXC:
            return EXC[n]
        if n in TYPES and n in ("int", "float", "bool", "complex", "str", "list", "tuple", "dict", "set", "type", "frozenset"):
            return TYPES[n]
        if n == "object":
            return OBJECT
        if n == "Ellipsis":
            return Ellipsis
        import builtins
        if hasattr(builtins, n):
            raise Unsupported("builtin %s is not modelled" % n)
        raise self.c.exc("NameError", n)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        t = env
        while t.func is None and t.parent is not None and t.parent.func is not None:
            t = t.parent
        self.assign(e.target, v, t)
        return v

    def ev_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def ev_List(self, e, env):
        return self.c.list_(self.elts(e.elts, env))

    def ev_Set(self, e, env):
        return self.c.alloc(SetV(("vals", self.elts(e.elts, env))))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_list(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def ev_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                if not isinstance(o, PyDict):
                    raise Unsupported("** in dict display")
                d.update(o.state)
            else:
                kk = self.ev(k, env)
                self.hashable(kk)
                d[kk] = self.ev(v, env)
        return self.c.alloc(PyDict(d))

    def hashable(self, k):
        if not (k is None or isinstance(k, (str, int, bool, tuple, EnumMember, OStr, ClassV))):
            raise Unsupported("dictionary key %r" % (k,))

    def ev_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = ""
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                if v.conversion == 114:
                    s = self.to_repr(x)
                elif spec:
                    s = self.fmt_value(x, spec)
                else:
                    s = self.to_str(x)
                parts.extend(str_parts(s))
        return mk_str(parts)

    def fmt_value(self, x, spec):
        if isinstance(x, str) and isinstance(spec, str):
            return format(x, spec)
        if isinstance(x, int) and isinstance(spec, str):
            return format(x, spec)
        return mk_str([("fmt", spec if isinstance(spec, str) else freeze(spec), freeze(x))])

    def ev_IfExp(self, e, env):
        b = self.try_bool(self.ev(e.test, env))
        f = self.c.fast(b)
        if f is None:
            f = True if S.quick(self.c.facts, b) else False if S.quick(self.c.facts, bnot(b)) else None
        if f is None:
            f = self.c.decide(b)
        return self.ev(e.body if f else e.orelse, env)

    def ev_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1 and acc is None:
                return v
            if isinstance(v, (bool, SBool)) and all(_pure(y) for y in e.values[i:]):
                b = bool_of(v)
                acc = b if acc is None else (band(acc, b) if isand else bor(acc, b))
                if acc.op == "const" and acc.args[0] != isand:
                    return acc.args[0]
                if i == len(e.values) - 1:
                    return mkb(acc)
                continue
            if acc is not None:
                # symbolic prefix followed by a general operand
                t = self.c.decide(acc)
                if t != isand:
                    return t
                acc = None
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return mkb(acc)

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, (bool, SBool)):
                return mkb(bnot(bool_of(v)))
            b = self.try_bool(v)
            return mkb(bnot(b))
        from . import npmodel as N
        if isinstance(v, ArrObj):
            if isinstance(e.op, ast.USub):
                return N.elementwise(self, lambda x: N.s_neg(self, x), [v])
            if isinstance(e.op, ast.Invert):
                return N.elementwise(self, lambda x: N.s_invert(self, x), [v])
            return v
        if isinstance(e.op, ast.USub):
            return N.s_neg(self, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return N.s_invert(self, v)
        raise Unsupported("unary operator")

    def ev_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def ev_Compare(self, e, env):
        left = self.ev(e.left, env)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            b = self.try_bool(v)
            acc = b if acc is None else band(acc, b)
            if acc.op == "const" and not acc.args[0]:
                return False
            left = right
        return mkb(acc)

    def ev_Lambda(self, e, env):
        return self.mkfunc(e, env, "<lambda>")

    def ev_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def ev_Subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.getitem(o, self.ev_index(e.slice, env))

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in s.elts)
        return self.ev(s, env)

    def ev_Starred(self, e, env):
        raise Unsupported("starred expression")

    def ev_Call(self, e, env):
        f = self.ev(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_list(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, PyDict):
                    raise Unsupported("** argument")
                kwargs.update(d.state)
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        if isinstance(f, Builtin) and f.name == "super" and not args:
            return self.mk_super(env)
        return self.call(f, args, kwargs)

    def mk_super(self, env):
        en = env
        while en is not None and en.func is None:
            en = en.parent
        if en is None or en.func.cls is None:
            raise Unsupported("super()")
        first = en.func.node.args.args[0].arg
        return SuperV(en.func.cls, en.vars[first])

    # ------------------------------------------------------------------ truth
    def try_bool(self, v):
        """B for the truth value of v."""
        if is_number(v):
            return bool_of(v)
        if v is None:
            return FALSE
        if isinstance(v, str):
            return bconst(bool(v))
        if isinstance(v, SStr):
            return bconst(True) if any(isinstance(p, str) for p in v.parts) else bvar("nonempty:%r" % (v.parts,))
        if isinstance(v, OStr):
            return bvar("nonempty:" + v.name)
        if isinstance(v, (tuple, list)):
            return bconst(bool(v))
        if isinstance(v, PyList):
            return ne(poly_of(self.length(v)), 0)
        if isinstance(v, PyDict):
            return bconst(bool(v.state))
        if isinstance(v, SymDict):
            return ne(v.state[1], 0)
        if isinstance(v, SetV):
            if v.state[0] == "vals":
                return bconst(bool(v.state[1]))
            return exists(0, v.state[1], lambda i: subst_b(v.state[2], {KID[0]: i}))
        if isinstance(v, ArrObj):
            d = arr_data(v)
            if d.mode == "c" and len(d.elems) == 1:
                e = d.elems[0]
                return e if isinstance(e, B) else ne(e, 0)
            if d.mode == "c":
                if len(d.elems) == 0:
                    return FALSE
                raise self.c.exc("ValueError", "truth value of an array")
            raise Unsupported("truth value of an array of unknown length")
        if isinstance(v, PyObj):
            if v.cls.find("__bool__") or v.cls.find("__len__"):
                raise Unsupported("__bool__")
            return TRUE
        if isinstance(v, (FuncV, ClassV, Builtin, BoundM, ModuleV, EnumMember, TypeV, NativeObj)):
            return TRUE
        if isinstance(v, RangeV):
            return bconst(len(self.concrete_list(v)) > 0)
        raise Unsupported("truth value of %r" % (v,))

    def truth(self, v):
        return self.c.decide(self.try_bool(v))

    def length(self, v):
        if isinstance(v, (str, tuple, list)):
            return len(v)
        if isinstance(v, SStr) and all(not isinstance(p, str) and p[0] == "bit" for p in v.parts):
            return len(v.parts)
        if isinstance(v, PyList):
            if isinstance(v.state, list):
                if v.state and v.state[0] is SENT:
                    raise Unsupported("a list is read in the loop that fills it")
                return len(v.state)
            if isinstance(v.state, Cat):
                return mk("i", sum((P(len(s)) if isinstance(s, list) else s[1] for s in v.state.parts), ZERO))
            if v.state[0] == "sym":
                return mk("i", v.state[1])
            return mk("i", guard_count(v.state[1]))
        if isinstance(v, PyDict):
            return len(v.state)
        if isinstance(v, SymDict):
            return mk("i", v.state[1])
        if isinstance(v, ArrObj):
            d = arr_data(v)
            if not d.shape:
                raise self.c.exc("TypeError", "len() of unsized object")
            return mk("i", dimP(d.shape[0]))
        if isinstance(v, RangeV):
            it = self.iterate(v)
            return len(it[1]) if it[0] == "list" else mk("i", it[1])
        if isinstance(v, SetV):
            if v.state[0] == "vals":
                xs = v.state[1]
                n = ZERO
                for i, x in enumerate(xs):
                    same = FALSE
                    for y in xs[:i]:
                        same = bor(same, self.eq_b(x, y))
                    n = n + ite(same, 0, 1)
                return mk("i", n)
            from . import npmodel as N
            return mk("i", N.sum_poly(self.c, v.state[1], ite(v.state[2], 1, 0)))
        if isinstance(v, GenV):
            raise self.c.exc("TypeError")
        if v is None or is_scalar(v):
            raise self.c.exc("TypeError", "object has no len()")
        if isinstance(v, PyObj) and v.cls.find("__len__"):
            return self.call(self.getattr(v, "__len__"), [], {})
        if isinstance(v, PyObj):
            raise self.c.exc("TypeError", "object has no len()")
        if isinstance(v, ClassV) and v.enum_members is not None:
            return len(v.enum_members)
        raise Unsupported("len(%r)" % (v,))

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        from . import npmodel as N
        if isinstance(a, ArrObj) or isinstance(b, ArrObj):
            return N.arr_binop(self, op, a, b)
        if is_scalar(a) and is_scalar(b):
            return N.s_binop(self, op, a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, SStr, OStr)) and isinstance(b, (str, SStr, OStr)):
                return mk_str(str_parts(a) + str_parts(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PyList) and isinstance(b, PyList):
                if isinstance(a.state, list) and isinstance(b.state, list):
                    return self.c.list_(a.state + b.state)
                return self.c.list_(self.concat_lists([a, b]))
            if isinstance(a, PyList) or isinstance(b, PyList) or isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
                if isinstance(a, NumLike) or isinstance(b, NumLike) or a is None or b is None or isinstance(a, (str, SStr, tuple)) or isinstance(b, (str, SStr, tuple)):
                    raise self.c.exc("TypeError", "unsupported operand")
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (PyList, tuple)) and is_number(y):
                    if isinstance(x, tuple):
                        if isinstance(y, int):
                            return x * y
                        raise Unsupported("tuple repetition")
                    if kind_of(y) == "f":
                        raise self.c.exc("TypeError", "can't multiply sequence by non-int")
                    if isinstance(x.state, list):
                        if isinstance(y, int):
                            return self.c.list_(list(x.state) * int(y))
                        n = poly_of(y)
                        if not self.c.decide(le(0, n)):
                            return self.c.list_([])
                        if len(x.state) == 1:
                            return self.c.list_(("sym", n, x.state[0]))
                    raise Unsupported("list repetition")
                if isinstance(x, str) and isinstance(y, int):
                    return x * y
        if isinstance(op, ast.Mod) and isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            return self.percent(a, list(args))
        if isinstance(a, SetV) and isinstance(b, SetV):
            m = {ast.BitAnd: "intersection", ast.BitOr: "union", ast.Sub: "difference"}.get(type(op))
            if m:
                return self.set_op(m, a, b)
        if isinstance(op, ast.BitOr) and isinstance(a, PyDict) and isinstance(b, PyDict):
            return self.c.alloc(PyDict({**a.state, **b.state}))
        if a is None or b is None:
            raise self.c.exc("TypeError", "unsupported operand type(s)")
        raise Unsupported("operator %s on %r and %r" % (type(op).__name__, a, b))

    def concat_lists(self, ls):
        """State of the concatenation of lists of which some are symbolic."""
        if any(isinstance(l.state, Cat) for l in ls):
            return Cat(ls)
        try:
            return self.merge_lists(ls)
        except MergeFail:
            return Cat(ls)

    def merge_lists(self, ls):
        n = ZERO
        t = None
        parts = []
        for l in ls:
            ln = poly_of(self.length(l))
            parts.append((n, ln, l))
            n = n + ln
        v = None
        for off, ln, l in reversed(parts):
            if ln == ZERO:
                continue
            if isinstance(l.state, list):
                x = None
                for i, y in reversed(list(enumerate(l.state))):
                    x = y if x is None else self.c.merge(eq(K[0], off + i), y, x)
            elif l.state[0] == "sym":
                x = self.subst_val(l.state[2], {KID[0]: K[0] - off})
            else:
                raise Unsupported("guarded list")
            v = x if v is None else self.c.merge(lt(K[0], off + ln), x, v)
        if v is None:
            return []
        return ("sym", n, v)

    def percent(self, fmt, args):
        parts = []
        i = 0
        buf = ""
        while i < len(fmt):
            ch = fmt[i]
            if ch == "%":
                nx = fmt[i + 1]
                if nx == "%":
                    buf += "%"
                elif nx == "s":
                    parts.append(buf)
                    buf = ""
                    parts.extend(str_parts(self.to_str(args.pop(0))))
                elif nx == "r":
                    parts.append(buf)
                    buf = ""
                    parts.extend(str_parts(self.to_repr(args.pop(0))))
                elif nx == "d" and isinstance(args[0], int):
                    buf += str(args.pop(0))
                else:
                    raise Unsupported("% format")
                i += 2
                continue
            buf += ch
            i += 1
        parts.append(buf)
        return mk_str(parts)

    def set_op(self, m, a, b):
        c = self.c
        if a.state[0] == "pred" and b.state[0] == "pred":
            if a.state[1] != b.state[1] and not c.quick(eq(a.state[1], b.state[1])):
                raise Unsupported("index sets of different arrays")
            x, y = a.state[2], b.state[2]
            t = {"intersection": band(x, y), "union": bor(x, y), "difference": band(x, bnot(y))}[m]
            return c.alloc(SetV(("pred", a.state[1], t)))
        if a.state[0] == "vals" and b.state[0] == "vals":
            xs, ys = a.state[1], b.state[1]
            if m == "union":
                return c.alloc(SetV(("vals", xs + ys)))
            out = []
            for x in xs:
                inb = FALSE
                for y in ys:
                    inb = bor(inb, self.eq_b(x, y))
                t = c.decide(inb)
                if t == (m == "intersection"):
                    out.append(x)
            return c.alloc(SetV(("vals", out)))
        raise Unsupported("set operation")

    def eq_b(self, a, b):
        """B for a == b (Python equality, not elementwise)."""
        if a is b and not isinstance(a, (Num, Cx)):
            return TRUE
        if is_number(a) and is_number(b):
            return eq(poly_of(a), poly_of(b))
        if is_scalar(a) and is_scalar(b):
            x, y = self.c.to_cx(a), self.c.to_cx(b)
            return band(eq(x.re, y.re), eq(x.im, y.im))
        if isinstance(a, str) and isinstance(b, str):
            return bconst(a == b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (OIdx, OVal)) and freeze(x) != freeze(y):
                raise Unsupported("comparison with an unknown entry of a dictionary")
            if isinstance(x, OVal):
                raise Unsupported("comparison of unknown values")
            if isinstance(x, OStr):
                if isinstance(y, str):
                    if y in x.but:
                        return FALSE
                    return bvar("%s==%r" % (x.name, y))
                if isinstance(y, OStr):
                    return TRUE if x.name == y.name else bvar("%s==%s" % tuple(sorted((x.name, y.name))))
                if not isinstance(y, SStr):
                    return FALSE
        if isinstance(a, (SStr,)) or isinstance(b, (SStr,)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SStr) and len(x.parts) == 1 and not isinstance(x.parts[0], str) and x.parts[0][0] == "bit" and isinstance(y, str):
                    return eq(x.parts[0][1], int(y)) if y in ("0", "1") else FALSE
            if isinstance(a, SStr) and isinstance(b, SStr) and a == b:
                return TRUE
            if not isinstance(a, (str, SStr, OStr)) or not isinstance(b, (str, SStr, OStr)):
                return FALSE
            raise Unsupported("comparison of computed strings")
        if a is None or b is None:
            return bconst(a is b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return band(*[self.eq_b(x, y) for x, y in zip(a, b)])
        if isinstance(a, PyList) and isinstance(b, PyList):
            if isinstance(a.state, list) and isinstance(b.state, list):
                if len(a.state) != len(b.state):
                    return FALSE
                return band(*[self.eq_b(x, y) for x, y in zip(a.state, b.state)])
            raise Unsupported("comparison of symbolic lists")
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            if set(a.state) != set(b.state):
                return FALSE
            return band(*[self.eq_b(a.state[k], b.state[k]) for k in a.state])
        if isinstance(a, SetV) and isinstance(b, SetV) and a.state[0] == b.state[0] == "vals":
            r = TRUE
            for x in a.state[1]:
                r = band(r, bor(FALSE, *[self.eq_b(x, y) for y in b.state[1]]))
            for x in b.state[1]:
                r = band(r, bor(FALSE, *[self.eq_b(x, y) for y in a.state[1]]))
            return r
        if isinstance(a, PyObj) and a.cls.find("__eq__"):
            return self.try_bool(self.call(self.getattr(a, "__eq__"), [b], {}))
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return bconst(a.name == b.name)
        if isinstance(a, (Heap, ClassV, EnumMember, FuncV, TypeV)) or isinstance(b, (Heap, ClassV, EnumMember, FuncV, TypeV)):
            return bconst(a is b)
        if type(a) is not type(b):
            return FALSE
        raise Unsupported("equality of %r and %r" % (a, b))

    def compare(self, op, a, b):
        from . import npmodel as N
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = a is b
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(a, SBool) or isinstance(b, SBool):
                if is_np(a) or is_np(b):
                    r = False
                elif isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                    x = iff(bool_of(a), bool_of(b))
                    return mkb(x if isinstance(op, ast.Is) else bnot(x))
                else:
                    r = False
            elif isinstance(a, (int, Num)) or isinstance(b, (int, Num)):
                if type(a) is type(b):
                    raise Unsupported("identity of numbers")
                r = False
            elif isinstance(a, (TypeV,)) and isinstance(b, TypeV):
                r = a.name == b.name
            elif isinstance(a, str) and isinstance(b, str):
                raise Unsupported("identity of strings") if a == b else None
                r = False
            elif isinstance(a, (OStr, SStr)) or isinstance(b, (OStr, SStr)):
                if isinstance(a, (OStr, SStr, str)) and isinstance(b, (OStr, SStr, str)):
                    raise Unsupported("identity of strings")
                r = False
            else:
                r = a is b
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return mkb(r if isinstance(op, ast.In) else bnot(r))
        if isinstance(a, ArrObj) or isinstance(b, ArrObj):
            return N.arr_compare(self, op, a, b)
        if isinstance(op, ast.Eq):
            return mkb(self.eq_b(a, b))
        if isinstance(op, ast.NotEq):
            return mkb(bnot(self.eq_b(a, b)))
        if is_scalar(a) and is_scalar(b):
            return N.s_compare(self, op, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Unsupported("tuple ordering")
        if isinstance(a, SetV) and isinstance(b, SetV):
            raise Unsupported("set ordering")
        if (a is None or isinstance(a, (str, PyList, PyDict, PyObj, tuple)) or is_scalar(a)) and (b is None or isinstance(b, (str, PyList, PyDict, PyObj, tuple)) or is_scalar(b)):
            raise self.c.exc("TypeError", "'<' not supported")
        raise Unsupported("comparison of %r and %r" % (a, b))

    def contains(self, box, x):
        if isinstance(box, str):
            if isinstance(x, str):
                return bconst(x in box)
            raise Unsupported("substring test")
        if isinstance(box, PyDict):
            if isinstance(x, OStr):
                return bor(FALSE, *[self.eq_b(x, k) for k in box.state])
            if x is None or isinstance(x, (str, int, tuple, EnumMember)):
                return bconst(x in box.state)
            raise Unsupported("membership")
        if isinstance(box, SetV) and box.state[0] == "pred":
            i = poly_of(x)
            return band(le(0, i), lt(i, box.state[1]), subst_b(box.state[2], {KID[0]: i}))
        if isinstance(box, ClassV) and box.enum_members is not None:
            return bconst(any(x is m for m in box.enum_members))
        if isinstance(box, SetV):
            return bor(FALSE, *[self.eq_b(x, y) for y in box.state[1]])
        it = self.iterate(box)
        if it[0] == "list":
            return bor(FALSE, *[self.eq_b(x, y) for y in it[1]])
        return exists(0, it[1], lambda i: self.eq_b(x, it[2](i)))

    # ------------------------------------------------------------------ items
    def getitem(self, o, i):
        from . import npmodel as N
        if isinstance(o, ArrObj):
            return N.getitem(self, o, i)
        if isinstance(o, (tuple, str)):
            if isinstance(i, bool) or isinstance(i, int):
                if -len(o) <= i < len(o):
                    return o[i]
                raise self.c.exc("IndexError", "index out of range")
            if isinstance(i, SliceV):
                return o[self.conc_slice(i)]
            if isinstance(o, tuple) and isinstance(i, Num) and i.kind == "i":
                return self.pick(list(o), i.p)
            raise Unsupported("index of %r" % (o,))
        if isinstance(o, SStr):
            if all(not isinstance(p, str) and p[0] == "bit" for p in o.parts):
                if isinstance(i, int):
                    if not -len(o.parts) <= i < len(o.parts):
                        raise self.c.exc("IndexError", "string index out of range")
                    return SStr([o.parts[i]])
                if isinstance(i, SliceV):
                    return mk_str(o.parts[self.conc_slice(i)])
            raise Unsupported("index into a computed string")
        if isinstance(o, PyList):
            st = o.state
            if isinstance(st, list):
                if st and st[0] is SENT:
                    raise Unsupported("a list is read in the loop that fills it")
                if isinstance(i, int):
                    if -len(st) <= i < len(st):
                        return st[i]
                    raise self.c.exc("IndexError", "list index out of range")
                if isinstance(i, SliceV):
                    try:
                        sl = self.conc_slice(i)
                    except Unsupported:
                        return self.sym_slice_list(o, i)
                    return self.c.list_(st[sl])
                if isinstance(i, Num) and i.kind == "i":
                    return self.pick(st, i.p)
                if isinstance(i, (Num, str, tuple)) or i is None:
                    raise self.c.exc("TypeError", "list indices")
                raise Unsupported("list index %r" % (i,))
            if st[0] == "sym":
                n = st[1]
                if is_number(i) and kind_of(i) in "ib":
                    p = self.index_poly(poly_of(i), n)
                    return self.subst_val(st[2], {KID[0]: p})
                if isinstance(i, SliceV):
                    return self.sym_slice_list(o, i)
            raise Unsupported("index into a symbolic list")
        if isinstance(o, SymDict) and isinstance(i, OIdx) and i.base == o.state[0]:
            if self.c.quick(band(le(0, i.idx), lt(i.idx, o.state[1]))):
                return OVal(i.base, i.idx)
        if isinstance(o, PyDict):
            if isinstance(i, (Num, SStr, OStr)):
                raise Unsupported("symbolic key")
            if isinstance(i, Heap):
                raise self.c.exc("TypeError", "unhashable")
            if i in o.state:
                return o.state[i]
            raise self.c.exc("KeyError", str(i))
        if isinstance(o, ClassV) and o.enum_members is not None:
            for m in o.enum_members:
                if m.name == i:
                    return m
            raise self.c.exc("KeyError")
        if isinstance(o, TypeAlias):
            return o
        if o is None or is_scalar(o):
            if isinstance(o, Num) and o.np:
                raise self.c.exc("IndexError", "invalid index to scalar variable.")
            raise self.c.exc("TypeError", "not subscriptable")
        if isinstance(o, PyObj) and o.cls.find("__getitem__"):
            return self.call(self.getattr(o, "__getitem__"), [i], {})
        if isinstance(o, (GenV, RangeV)):
            if isinstance(o, RangeV) and isinstance(i, int):
                return self.concrete_list(o)[i]
            raise Unsupported("index")
        raise Unsupported("index into %r" % (o,))

    def sym_slice_list(self, o, s):
        st = o.state
        n = poly_of(self.length(o))
        a, cnt = self.slice_bounds(s, n)
        if isinstance(st, list):
            raise Unsupported("symbolic slice of a list")
        t = self.subst_val(st[2], {KID[0]: K[0] + a})
        return self.c.list_(("sym", cnt, t))

    def slice_bounds(self, s, n):
        """(start, count) of a step-1 slice over length n (Poly)."""
        c = self.c
        if s.c not in (None, 1):
            raise Unsupported("slice step")

        def norm(x, dflt):
            if x is None:
                return dflt
            p = poly_of(x)
            if c.decide(lt(p, 0)):
                p = p + n
                if not c.decide(le(0, p)):
                    p = ZERO
            else:
                if not c.decide(le(p, n)):
                    p = n
            return p
        a, b = norm(s.a, ZERO), norm(s.b, n)
        cnt = b - a
        if not c.decide(le(0, cnt)):
            cnt = ZERO
        return a, cnt

    def index_poly(self, p, n):
        """Normalise an index into a sequence of length n; raises IndexError where out of range."""
        c = self.c
        if c.decide(lt(p, 0)):
            p = p + n
            if c.decide(lt(p, 0)):
                raise c.exc("IndexError", "index out of range")
            return p
        if not c.decide(lt(p, n)):
            raise c.exc("IndexError", "index out of range")
        return p

    def pick(self, xs, p):
        p = self.index_poly(p, P(len(xs)))
        v = xs[-1]
        try:
            for i in range(len(xs) - 2, -1, -1):
                v = self.c.merge(eq(p, i), xs[i], v)
        except MergeFail:
            for i in range(len(xs)):
                if self.c.decide(eq(p, i)):
                    return xs[i]
            raise Unsupported("index")
        return v

    def conc_slice(self, s):
        out = []
        for x in (s.a, s.b, s.c):
            if x is None or isinstance(x, int):
                out.append(x)
            else:
                raise Unsupported("symbolic slice")
        return slice(*out)

    def setitem(self, o, i, v):
        from . import npmodel as N
        if isinstance(o, ArrObj):
            return N.setitem(self, o, i, v)
        if isinstance(o, PyDict):
            self.hashable(i)
            d = dict(o.state)
            d[i] = v
            return self.c.put(o, d)
        if isinstance(o, PyList) and isinstance(o.state, list):
            if isinstance(i, int):
                l = list(o.state)
                if not -len(l) <= i < len(l):
                    raise self.c.exc("IndexError")
                l[i] = v
                return self.c.put(o, l)
            if isinstance(i, SliceV):
                l = list(o.state)
                l[self.conc_slice(i)] = self.concrete_list(v)
                return self.c.put(o, l)
        if isinstance(o, PyObj) and o.cls.find("__setitem__"):
            return self.call(self.getattr(o, "__setitem__"), [i, v], {})
        if isinstance(o, (tuple, str)):
            raise self.c.exc("TypeError", "does not support item assignment")
        raise Unsupported("item assignment on %r" % (o,))

    def list_extend(self, l, v):
        it = self.iterate(v)
        if it[0] == "list" and isinstance(l.state, list):
            self.c.put(l, l.state + it[1])
        else:
            other = v if isinstance(v, PyList) else self.as_list(v)
            self.c.put(l, self.concat_lists([l, other]))

    def as_list(self, v):
        it = self.iterate(v)
        if it[0] == "list":
            return self.c.list_(list(it[1]))
        return self.c.list_(("sym", it[1], it[2](K[0])))

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        from . import models, npmodel as N
        if isinstance(o, PyObj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if "@" + name in o.state:
                return o.state["@" + name]
            d = o.cls.find(name)
            if isinstance(d, PropV):
                return self.call(BoundM(o, d.fget), [], {})
            if name in o.state:
                return o.state[name]
            if d is not None:
                if isinstance(d, FuncV):
                    return BoundM(o, d)
                if isinstance(d, StaticV):
                    return d.f
                if isinstance(d, ClassMethV):
                    return BoundM(o.cls, d.f)
                return d
            if o.cls.find("__getattr__"):
                raise Unsupported("__getattr__")
            if any(k[0] == "@" for k in o.state):
                raise Unsupported("%s of an object known by its contract" % name)
            if name in ("__str__", "__repr__"):
                return Builtin(name, lambda it, a, k: it.to_str(o) if name == "__str__" else it.to_repr(o))
            if name == "__init__" and o.cls.issub(EXC["BaseException"]):
                return Builtin(name, lambda it, a, k: it.c.put(o, {**o.state, "args": tuple(a)}))
            if name == "with_traceback":
                return Builtin(name, lambda it, a, k: o)
            raise self.c.exc("AttributeError", name)
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro()
            for cl in mro[mro.index(o.cls) + 1:]:
                if name in cl.ns:
                    d = cl.ns[name]
                    if isinstance(d, FuncV):
                        return BoundM(o.obj, d)
                    if isinstance(d, PropV):
                        return self.call(BoundM(o.obj, d.fget), [], {})
                    return d
            if name == "__init__":
                if o.obj.cls.issub(EXC["BaseException"]):
                    return Builtin(name, lambda it, a, k: it.c.put(o.obj, {**o.obj.state, "args": tuple(a)}))
                return Builtin(name, lambda it, a, k: None)
            if name in ("__str__", "__repr__") and o.obj.cls.issub(EXC["BaseException"]):
                return Builtin(name, lambda it, a, k: it.exc_str(o.obj))
            raise self.c.exc("AttributeError", name)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            if name == "__doc__":
                return None
            d = o.find(name)
            if d is None:
                if name == "__members__" and o.enum_members is not None:
                    return self.c.alloc(PyDict({m.name: m for m in o.enum_members}))
                raise self.c.exc("AttributeError", name)
            if isinstance(d, StaticV):
                return d.f
            if isinstance(d, ClassMethV):
                return BoundM(o, d.f)
            return d
        if isinstance(o, EnumMember):
            if name == "value":
                return o.value
            if name == "name":
                return o.name
            if name == "__class__":
                return o.cls
            d = o.cls.find(name)
            if isinstance(d, PropV):
                return self.call(BoundM(o, d.fget), [], {})
            if isinstance(d, FuncV):
                return BoundM(o, d)
            raise self.c.exc("AttributeError", name)
        if isinstance(o, ModuleV):
            if isinstance(o.ns.get(name), Unread):
                raise Unsupported(o.ns[name].reason)
            if name in o.ns:
                return o.ns[name]
            if o.name.split(".")[0] == "qctrlopencontrols":
                raise self.c.exc("AttributeError", name)
            raise Unsupported("%s.%s is not modelled" % (o.name, name))
        if isinstance(o, ArrObj):
            return N.arr_attr(self, o, name)
        return models.attr(self, o, name)

    def give(self, o, values):
        """Attributes as a contract states them; where they are properties, how they are stored stays unknown."""
        self.c.put(o, {**o.state, **{("@" if isinstance(o.cls.find(k), PropV) else "") + k: v for k, v in values.items()}})

    def setattr(self, o, name, v):
        if isinstance(o, PyObj):
            if any(k[0] == "@" for k in o.state):
                raise Unsupported("assignment to an object known by its contract")
            d = o.cls.find(name)
            if isinstance(d, PropV):
                if d.fset is None:
                    raise self.c.exc("AttributeError", "can't set attribute")
                self.call(BoundM(o, d.fset), [v], {})
                return
            self.c.put(o, {**o.state, name: v})
            return
        if isinstance(o, ArrObj) and name == "shape":
            raise Unsupported("array shape assignment")
        if isinstance(o, (ClassV, ModuleV)):
            self.c.module_writes.append("%s.%s" % (o.name, name))
            old = o.ns.get(name, UNDEF)
            ns = o.ns

            def undo(old=old):
                if old is UNDEF:
                    ns.pop(name, None)
                else:
                    ns[name] = old
            self.c.journal.append(("f", undo))
            ns[name] = v
            return
        raise Unsupported("attribute assignment on %r" % (o,))

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        c = self.c
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, BoundM):
            return self.call(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, TypeV):
            from . import models
            return models.call_type(self, f, args, kwargs)
        if isinstance(f, StaticV):
            return self.call(f.f, args, kwargs)
        if isinstance(f, PyObj) and f.cls.find("__call__"):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        if f is None or is_scalar(f) or isinstance(f, (str, PyList, PyDict, ArrObj, tuple)):
            raise c.exc("TypeError", "object is not callable")
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kwargs):
        c = self.c
        if cls.enum_members is not None:
            for m in cls.enum_members:
                if c.decide(self.eq_b(m.value, args[0])):
                    return m
            raise c.exc("ValueError", "not a valid %s" % cls.name)
        init = cls.find("__init__")
        con = c.contracts.get(cls.name + ".__init__")
        o = c.alloc(PyObj(cls, {}))
        if cls.issub(EXC["BaseException"]):
            o.state = {"args": tuple(args)}
        if init is None:
            if args and not cls.issub(EXC["BaseException"]):
                raise c.exc("TypeError", "takes no arguments")
            return o
        if cls.find("__new__"):
            raise Unsupported("__new__")
        self.call(init, [o] + list(args), kwargs)
        return o

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            raise self.c.exc("TypeError", "%s() takes %d positional arguments" % (f.name, len(names)))
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kwargs)
        posonly = {x.arg for x in a.posonlyargs}
        kwnames = [x.arg for x in a.kwonlyargs]
        for n in list(kw):
            if (n in names and n not in posonly) or n in kwnames:
                if n in vals:
                    raise self.c.exc("TypeError", "multiple values for argument %s" % n)
                vals[n] = kw.pop(n)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.c.alloc(PyDict(kw))
        elif kw:
            raise self.c.exc("TypeError", "unexpected keyword argument %s" % list(kw)[0])
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in vals:
                vals[n] = d
        for n, d in zip(kwnames, f.kw_defaults):
            if n not in vals and d is not UNDEF:
                vals[n] = d
        for n in names + kwnames:
            if n not in vals:
                raise self.c.exc("TypeError", "missing argument %s" % n)
        return vals

    def call_func(self, f, args, kwargs):
        c = self.c
        vals = self.bind_args(f, args, kwargs)
        key = f.qual
        con = c.contracts.get(key)
        if con is not None and f.module.name.startswith("qctrlopencontrols") and key not in c.in_contract:
            r = con(self, f, vals)
            if r is not NotImplemented:
                return r
        c.world.visited.add("%s:%s" % (f.module.name, f.qual))
        if f.locals is None:
            if isinstance(f.node, ast.Lambda):
                f.locals = set()
            else:
                f.locals = assigned_names(f.node) | set(vals)
        if getattr(c, "depth", 0) > 60:
            raise Unsupported("recursion depth")
        env = Env(f.env, f)
        env.vars = dict(vals)
        sub = Interp(c, f.module)
        c.depth = getattr(c, "depth", 0) + 1
        try:
            if isinstance(f.node, ast.Lambda):
                return sub.ev(f.node.body, env)
            if f.isgen:
                return sub.run_generator(f, env)
            try:
                sub.block(f.node.body, env)
            except Ret as r:
                return r.v
            return None
        finally:
            c.depth -= 1

    def run_generator(self, f, env):
        raise Unsupported("generator function %s" % f.name)

    # ------------------------------------------------------------------ strings
    def exc_str(self, o):
        a = o.state.get("args", ())
        if len(a) == 0:
            return ""
        if len(a) == 1:
            return self.to_str(a[0])
        return self.to_repr(tuple(a))

    def to_str(self, v):
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, OStr):
            return v
        if isinstance(v, PyObj):
            m = v.cls.find("__str__")
            if isinstance(m, FuncV):
                return self.call(BoundM(v, m), [], {})
            if v.cls.issub(EXC["BaseException"]):
                return self.exc_str(v)
            return self.to_repr(v)
        if isinstance(v, (bool, int)) or v is None:
            return str(v)
        if isinstance(v, (Num, SBool, Cx)):
            return SStr([("str", freeze(v))])
        if isinstance(v, (ArrObj, OVal)):
            return SStr([("str", freeze(v))])
        return self.to_repr(v)

    def to_repr(self, v):
        if isinstance(v, str):
            return repr(v)
        if isinstance(v, (bool, int)) or v is None:
            return str(v)
        if isinstance(v, Num) or isinstance(v, (SBool, Cx)):
            # repr and str of a number are the same text in Python 3 / numpy 1
            return SStr([("str", freeze(v))])
        if isinstance(v, (OStr, SStr)):
            return SStr([("repr", freeze(v))])
        if isinstance(v, PyObj):
            m = v.cls.find("__repr__")
            if isinstance(m, FuncV):
                return self.call(BoundM(v, m), [], {})
            return SStr([("repr", ("object", v.cls.name, v.oid))])
        if isinstance(v, tuple) or (isinstance(v, PyList) and isinstance(v.state, list)):
            xs = v if isinstance(v, tuple) else v.state
            parts = ["(" if isinstance(v, tuple) else "["]
            for i, x in enumerate(xs):
                if i:
                    parts.append(", ")
                parts.extend(str_parts(self.to_repr(x)))
            if isinstance(v, tuple):
                parts.append(",)" if len(xs) == 1 else ")")
            else:
                parts.append("]")
            return mk_str(parts)
        if isinstance(v, PyDict):
            parts = ["{"]
            for i, (k, x) in enumerate(v.state.items()):
                if i:
                    parts.append(", ")
                parts.extend(str_parts(self.to_repr(k)))
                parts.append(": ")
                parts.extend(str_parts(self.to_repr(x)))
            parts.append("}")
            return mk_str(parts)
        return SStr([("repr", freeze(v))])

    def format(self, fmt, args, kwargs):
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            parts.append(lit)
            if field is None:
                continue
            first, rest = _field_split(field)
            if first == "":
                v = args[auto] if auto < len(args) else None
                if auto >= len(args):
                    raise self.c.exc("IndexError", "Replacement index out of range")
                auto += 1
            elif first.isdigit():
                if int(first) >= len(args):
                    raise self.c.exc("IndexError", "Replacement index out of range")
                v = args[int(first)]
            else:
                if first not in kwargs:
                    raise self.c.exc("KeyError", first)
                v = kwargs[first]
            for isattr, nm in rest:
                if isattr:
                    v = self.getattr(v, nm)
                else:
                    v = self.getitem(v, int(nm) if nm.isdigit() else nm)
            if conv == "r":
                s = self.to_repr(v)
            elif spec:
                s = self.fmt_value(v, spec)
            else:
                s = self.to_str(v)
            parts.extend(str_parts(s))
        return mk_str(parts)

    def join(self, sep, v):
        if isinstance(v, PyList) and isinstance(v.state, Cat):
            parts = []
            for s in v.state.parts:
                l = self.c.list_(s)
                if self.c.decide(eq(poly_of(self.length(l)), 0)):
                    continue
                if not parts:
                    parts = [self.join(sep, l)]
                elif isinstance(s, list):
                    parts += [sep, self.join(sep, l)]
                else:
                    if not isinstance(sep, str) or not isinstance(s[2], (str, SStr, OStr)):
                        raise Unsupported("join of a list in parts")
                    parts.append(SStr([("join", "", s[1], SStr([sep] + list(str_parts(s[2]))).parts)]))
            return mk_str([y for x in parts for y in str_parts(x)])
        it = self.iterate(v)
        if it[0] == "list":
            parts = []
            for i, x in enumerate(it[1]):
                if i:
                    parts.extend(str_parts(sep))
                if not isinstance(x, (str, SStr, OStr)):
                    raise self.c.exc("TypeError", "sequence item: expected str instance")
                parts.extend(str_parts(x))
            return mk_str(parts)
        x = it[2](K[0])
        if not isinstance(x, (str, SStr, OStr)):
            raise self.c.exc("TypeError", "sequence item: expected str instance")
        if not isinstance(sep, str):
            raise Unsupported("join separator")
        return SStr([("join", sep, it[1], tuple(str_parts(x)))])


class Cat:
    """State of a list made of parts whose elements have no common description; only its length and its text are known."""

    def __init__(self, ls):
        self.parts = []
        for l in ls:
            if isinstance(l.state, Cat):
                self.parts += l.state.parts
            elif isinstance(l.state, list) or l.state[0] == "sym":
                self.parts.append(l.state)
            else:
                raise Unsupported("guarded list")

    def __getitem__(self, i):
        raise Unsupported("a list of unlike parts is read")


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class TypeAlias:
    """typing constructs"""


NumLike = (Num, int, SBool, Cx)


class _Split(Exception):
    pass


class _Probe:
    """An explorer that refuses to split."""
    limit = 0

    @property
    def pos(self):
        raise _Split()

    @property
    def trace(self):
        raise _Split()


class _NoSplit:
    """An explorer for contexts in which a case split would be unsound."""
    limit = 0

    @property
    def pos(self):
        raise Unsupported("case split inside a quantified element")

    trace = pos


def _field_split(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return str(first), list(rest)


def _owner(fn, node):
    """node belongs to fn itself, not to a nested function."""
    stack = [(fn, True)]
    for ch in ast.walk(fn):
        if ch is not fn and isinstance(ch, (ast.FunctionDef, ast.Lambda)):
            for x in ast.walk(ch):
                if x is node:
                    return False
    return True


def _pure(e):
    """Evaluating e has no effect and cannot raise: names, attributes of self, comparisons of those."""
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return _pure(e.value)
    if isinstance(e, ast.Compare):
        return _pure(e.left) and all(_pure(x) for x in e.comparators)
    if isinstance(e, ast.UnaryOp):
        return _pure(e.operand)
    if isinstance(e, ast.BoolOp):
        return all(_pure(x) for x in e.values)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) and _pure(e.left) and _pure(e.right)
    return False


def lit_fraction(it, e):
    """Exact value of the decimal literal as written."""
    src = it.c.world.sources.get(it.m.name) if it.m is not None else None
    if src is not None:
        seg = ast.get_source_segment(src, e) if getattr(e, "end_col_offset", None) is not None else None
        if seg:
            try:
                return Fraction(seg.replace("_", ""))
            except ValueError:
                pass
    return Fraction(repr(e.value))


def guard_count(items):
    n = ZERO
    for g, _ in items:
        n = n + ite(g, 1, 0)
    return n


def subst_arr(d, mp):
    mp2 = {k: v for k, v in mp.items() if k not in KID}
    shape = tuple(norm_dim(subst(s, mp)) if isinstance(s, Poly) else s for s in d.shape)
    if d.mode == "c":
        return ArrData(shape, d.dtype, "c", tuple(subst_elem(e, mp) for e in d.elems))
    if d.mode == "s":
        return ArrData(shape, d.dtype, "s", subst_elem(d.elems, mp2))
    if d.mode in ("w", "cw"):
        raise Unsupported("a word in a loop")
    return ArrData(shape, d.dtype, "g", tuple((subst_b(g, mp), subst_elem(e, mp)) for g, e in d.elems))


# --------------------------------------------------------------------------- running a harness
class Path:
    def __init__(self, ctx, outcome):
        self.ctx, self.outcome = ctx, outcome
        self.facts = list(ctx.facts)
        self.decs = list(ctx.decs)

    @property
    def raised(self):
        return self.outcome[1] if self.outcome[0] == "raise" else None


def run_paths(world, thunk, limit=200, depth=60, deadline=None):
    """Execute thunk(interp) on every path.  After each path `yield`s it (with the heap of that path
    still in place), then undoes its effects on module state."""
    ex = Explorer(depth)
    n = 0
    while True:
        c = Ctx(world)
        c.oid = world.ctx0.oid
        c.deadline = deadline
        ex.pos = 0
        c.explorers.append(ex)
        it = Interp(c, None)
        try:
            out = ("val", thunk(it))
        except PyRaise as e:
            out = ("raise", e.exc)
        except Proved:
            out = ("proved", None)
        except Dead as e:
            out = ("dead", str(e))
        except Unsupported as e:
            if deadline and time.time() > deadline:
                raise
            out = ("unsup", str(e))
        n += 1
        yield Path(c, out)
        c.undo(0)
        if not ex.next():
            return
        if n >= limit:
            raise Unsupported("more than %d paths" % limit)
