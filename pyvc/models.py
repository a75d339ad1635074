"""Trusted contracts of the builtins and of the standard library modules that the repository uses."""
import ast
import copy
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from .vals import *
from . import npmodel as N
from .interp import (EXC, OBJECT, ENUM, TYPES, NativeObj, mk, mkb, is_number, is_scalar, kind_of, poly_of, bool_of, is_np, dimP, freeze,
                     arr_data, str_parts, mk_str, TypeAlias, SuperV, MergeFail, SENT)

BUILTINS = {}


def reg(name):
    def d(f):
        BUILTINS[name] = Builtin(name, f)
        return f
    return d


# --------------------------------------------------------------------------- modules
MODULES = {}


def get_module(world, name):
    if name.split(".")[0] == "qctrlopencontrols":
        return world.load(name)
    m = MODULES.get(name)
    if m is None:
        raise Unsupported("module %s is not modelled" % name)
    return m


MODULES["numpy"] = ModuleV("numpy", N.NP)
MODULES["numpy.linalg"] = N.NP["linalg"]
_typing = {n: TypeAlias() for n in ("Dict", "List", "Optional", "Tuple", "Union", "Any", "Callable", "Sequence", "Iterable", "TypeVar", "Generic", "Set", "Type", "NamedTuple", "TYPE_CHECKING", "Iterator", "Mapping", "Literal")}
_typing["TYPE_CHECKING"] = False
_typing["cast"] = Builtin("cast", lambda it, a, k: a[1])
MODULES["typing"] = ModuleV("typing", _typing)
MODULES["enum"] = ModuleV("enum", {"Enum": ENUM})
MODULES["__future__"] = ModuleV("__future__", {"annotations": None})
MODULES["warnings"] = ModuleV("warnings", {"warn": Builtin("warn", lambda it, a, k: None)})


def _math1(f):
    def g(it, a, k):
        v = a[0]
        if isinstance(v, ArrObj):
            d = arr_data(v)
            if d.mode == "c" and len(d.elems) == 1:
                v = N.elem_val(d.dtype, d.elems[0])
            else:
                raise it.c.exc("TypeError", "only size-1 arrays can be converted")
        if not is_number(v):
            raise it.c.exc("TypeError", "must be real number")
        return f(it, v)
    return g


def _domain(fn, ok):
    def g(it, v):
        if not it.c.decide(ok(poly_of(v))):
            raise it.c.exc("ValueError", "math domain error")
        r = fn(it, v)
        return mk("f", r.p) if isinstance(r, Num) else r
    return g


_math = {"pi": Num("f", PI), "e": Num("f", mk_exp(ONE))}
for _n, _f in [("sin", N.f_sin), ("cos", N.f_cos), ("tan", N.f_tan), ("exp", N.f_exp)]:
    _math[_n] = Builtin("math." + _n, _math1((lambda f: lambda it, v: mk("f", f(it, v).p))(_f)))
_math["sqrt"] = Builtin("math.sqrt", _math1(_domain(N.f_sqrt, lambda p: le(0, p))))
_math["acos"] = Builtin("math.acos", _math1(_domain(N.f_arccos, lambda p: band(le(-1, p), le(p, 1)))))
_math["asin"] = Builtin("math.asin", _math1(_domain(N.f_arcsin, lambda p: band(le(-1, p), le(p, 1)))))
_math["log2"] = Builtin("math.log2", _math1(_domain(N.f_log2, lambda p: lt(0, p))))
_math["floor"] = Builtin("math.floor", _math1(lambda it, v: mk("i", N.p_floor(it, poly_of(v)))))
_math["ceil"] = Builtin("math.ceil", _math1(lambda it, v: mk("i", -mk_floor(-poly_of(v)))))
_math["fabs"] = Builtin("math.fabs", _math1(lambda it, v: mk("f", poly_of(N.f_abs(it, v)))))
_math["hypot"] = Builtin("math.hypot", lambda it, a, k: mk("f", N.p_sqrt(it, poly_of(a[0]) ** 2 + poly_of(a[1]) ** 2)))


def _isclose(it, a, k):
    x, y = poly_of(a[0]), poly_of(a[1])
    rel = poly_of(k.get("rel_tol", Num("f", P(Fraction(1, 10 ** 9)))))
    ab = poly_of(k.get("abs_tol", 0))
    m = N.p_max(it, mk_abs(x), mk_abs(y))
    return mkb(le(mk_abs(x - y), N.p_max(it, rel * m, ab)))


_math["isclose"] = Builtin("math.isclose", _isclose)
MODULES["math"] = ModuleV("math", _math)


# --------------------------------------------------------------------------- files
def fs_set(it, name, f):
    c = it.c
    old = c.fs.get(name, UNDEF)

    def undo():
        if old is UNDEF:
            c.fs.pop(name, None)
        else:
            c.fs[name] = old
    c.journal.append(("f", undo))
    c.fs[name] = f


@reg("open")
def b_open(it, a, k):
    names = ["file", "mode", "buffering", "encoding", "errors", "newline"]
    kw = dict(zip(names, a))
    for n, v in k.items():
        if n not in names:
            raise Unsupported("open(%s)" % n)
        kw[n] = v
    mode = kw.get("mode", "r")
    if not isinstance(mode, str) or mode.replace("t", "") not in ("w", "a", "w+"):
        raise Unsupported("open mode %r" % (mode,))
    key = freeze(kw["file"])
    prev = it.c.fs.get(key)
    if mode.replace("t", "") == "a":
        st = list(prev.state) if prev is not None else [("existing",)]
    else:
        st = []
    f = it.c.alloc(NativeObj("file", st, {"name": key, "mode": mode.replace("t", ""), "newline": kw.get("newline"), "encoding": kw.get("encoding")}))
    fs_set(it, key, f)
    return f


def f_emit(it, f, entry):
    it.c.put(f, f.state + [entry])


def _dictwriter(it, a, k):
    names = ["f", "fieldnames", "restval", "extrasaction", "dialect"]
    kw = dict(zip(names, a))
    kw.update(k)
    f = kw["f"]
    if not (isinstance(f, NativeObj) and f.kind == "file"):
        raise Unsupported("csv writer on %r" % (f,))
    extra = set(kw) - {"f", "fieldnames", "lineterminator"}
    if extra:
        raise Unsupported("csv.DictWriter(%s)" % sorted(extra))
    return it.c.alloc(NativeObj("dictwriter", [], {"file": f, "fields": it.concrete_list(kw["fieldnames"])}))


def _writer(it, a, k):
    if not (isinstance(a[0], NativeObj) and a[0].kind == "file") or len(a) > 1 or set(k) - {"lineterminator"}:
        raise Unsupported("csv.writer")
    return it.c.alloc(NativeObj("writer", [], {"file": a[0]}))


MODULES["csv"] = ModuleV("csv", {"DictWriter": Builtin("csv.DictWriter", _dictwriter), "writer": Builtin("csv.writer", _writer)})


def jsonable(it, v):
    """Snapshot of a value as JSON content."""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, OStr) and not isinstance(v, OIdx):
        return ("ostr", v.name)
    if isinstance(v, SStr):
        return ("sstr", v.parts)
    if isinstance(v, Num):
        if v.kind == "i" and v.np:
            raise it.c.exc("TypeError", "int64 is not JSON serializable")
        return ("num", v.kind, v.p)
    if isinstance(v, SBool):
        if v.np:
            raise it.c.exc("TypeError", "bool_ is not JSON serializable")
        return ("bool", v.b)
    if isinstance(v, (tuple, PyList)):
        if isinstance(v, PyList) and not isinstance(v.state, list):
            if v.state[0] == "sym":
                return ("slist", v.state[1], jsonable(it, v.state[2]))
            raise Unsupported("json of a guarded list")
        return ("list",) + tuple(jsonable(it, x) for x in (v if isinstance(v, tuple) else v.state))
    if isinstance(v, PyDict):
        return ("dict",) + tuple((k, jsonable(it, x)) for k, x in v.state.items())
    if isinstance(v, (ArrObj, Cx, PyObj, SetV, EnumMember, ClassV, FuncV)):
        raise it.c.exc("TypeError", "Object is not JSON serializable")
    raise Unsupported("json of %r" % (v,))


def _json_opts(k, allowed=("sort_keys", "indent", "separators", "ensure_ascii")):
    if set(k) - set(allowed):
        raise Unsupported("json options %s" % sorted(set(k) - set(allowed)))


def _json_dump(it, a, k):
    kw = dict(k)
    obj = kw.pop("obj", a[0] if a else None)
    fp = kw.pop("fp", a[1] if len(a) > 1 else None)
    _json_opts(kw)
    if not (isinstance(fp, NativeObj) and fp.kind == "file"):
        raise Unsupported("json.dump target")
    f_emit(it, fp, ("json", jsonable(it, obj)))


def _json_dumps(it, a, k):
    kw = dict(k)
    obj = kw.pop("obj", a[0] if a else None)
    _json_opts(kw)
    return SStr([("json", jsonable(it, obj))])


MODULES["json"] = ModuleV("json", {"dump": Builtin("json.dump", _json_dump), "dumps": Builtin("json.dumps", _json_dumps)})


def native_attr(it, o, name):
    c = it.c
    if o.kind == "file":
        if name == "write":
            def write(it, a, k):
                v = a[0]
                if not isinstance(v, (str, SStr, OStr)):
                    raise c.exc("TypeError", "write() argument must be str")
                p = str_parts(v)
                if len(p) == 1 and not isinstance(p[0], str) and p[0][0] == "json":
                    f_emit(it, o, p[0])
                else:
                    f_emit(it, o, ("text", p))
            return Builtin("file.write", write)
        if name in ("close", "flush"):
            return Builtin("file." + name, lambda it, a, k: None)
    if o.kind == "dictwriter":
        f, fields = o.info["file"], o.info["fields"]
        if name == "fieldnames":
            return c.list_(list(fields))

        def row(it, d):
            if not isinstance(d, PyDict):
                raise Unsupported("csv row")
            extra = [k for k in d.state if k not in fields]
            if extra:
                raise c.exc("ValueError", "dict contains fields not in fieldnames")
            f_emit(it, f, ("row", tuple(d.state.get(k, "") for k in fields)))
        if name == "writeheader":
            return Builtin("writeheader", lambda it, a, k: f_emit(it, f, ("row", tuple(fields))))
        if name == "writerow":
            return Builtin("writerow", lambda it, a, k: row(it, a[0]))
        if name == "writerows":
            return Builtin("writerows", lambda it, a, k: rows(it, a[0], lambda d: tuple(_field(it, d, k_, fields) for k_ in fields), f))
    if o.kind == "writer":
        f = o.info["file"]
        if name == "writerow":
            return Builtin("writerow", lambda it, a, k: f_emit(it, f, ("row", tuple(it.concrete_list(a[0])))))
        if name == "writerows":
            return Builtin("writerows", lambda it, a, k: rows(it, a[0], lambda r: tuple(it.concrete_list(r)), f))
    raise Unsupported("%s.%s is not modelled" % (o.kind, name))


def _field(it, d, k, fields):
    if not isinstance(d, PyDict):
        raise Unsupported("csv row")
    if [x for x in d.state if x not in fields]:
        raise it.c.exc("ValueError", "dict contains fields not in fieldnames")
    return d.state.get(k, "")


def rows(it, v, conv, f):
    s = it.iterate(v)
    if s[0] == "list":
        for x in s[1]:
            f_emit(it, f, ("row", conv(x)))
    else:
        f_emit(it, f, ("rows", s[1], (("row", conv(s[2](K[0]))),)))


# --------------------------------------------------------------------------- builtins
@reg("len")
def b_len(it, a, k):
    return it.length(a[0])


@reg("range")
def b_range(it, a, k):
    for x in a:
        if not is_number(x) or kind_of(x) == "f":
            raise it.c.exc("TypeError", "object cannot be interpreted as an integer")
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    if a[2] == 0:
        raise it.c.exc("ValueError", "range() arg 3 must not be zero")
    return RangeV(*a)


def gen(it, seq, srcs=(), redo=None):
    """GenV from ('list', xs) or ('sym', n, fn)"""
    if seq[0] == "list":
        return GenV(it.c.list_(seq[1]), srcs, redo)
    return GenV(SymSeq(seq[1], seq[2]), srcs, redo)


def lazy(f):
    """The result reads its arguments while it is iterated over."""
    def g(it, a, k):
        r = f(it, a, k)
        r.srcs = tuple(a)
        r.redo = lambda: f(it, [x.redo() if isinstance(x, GenV) and x.redo else x for x in a], k)
        return r
    return g


class SymSeq(PyList):
    """A lazily evaluated symbolic sequence."""
    __slots__ = ("n", "fn")

    def __init__(self, n, fn):
        self.n, self.fn = n, fn
        self.state = None
        self.tag = None


@reg("enumerate")
@lazy
def b_enumerate(it, a, k):
    start = k.get("start", a[1] if len(a) > 1 else 0)
    s = it.iterate(a[0])
    if s[0] == "list":
        return gen(it, ("list", [(N.s_binop(it, ast.Add(), start, i), x) for i, x in enumerate(s[1])]))
    return gen(it, ("sym", s[1], lambda i: (mk("i", poly_of(start) + i), s[2](i))))


@reg("zip")
@lazy
def b_zip(it, a, k):
    if k:
        raise Unsupported("zip keyword")
    ss = [it.iterate(x) for x in a]
    if not ss:
        return gen(it, ("list", []))
    if all(s[0] == "list" for s in ss):
        return gen(it, ("list", [tuple(x) for x in zip(*[s[1] for s in ss])]))
    ns = [P(len(s[1])) if s[0] == "list" else s[1] for s in ss]
    n = ns[0]
    for m in ns[1:]:
        if m != n:
            if it.c.decide(le(m, n)):
                n = m
    if n.is_const():
        return gen(it, ("list", [tuple(s[1][i] if s[0] == "list" else s[2](P(i)) for s in ss) for i in range(int(n.const()))]))
    return gen(it, ("sym", n, lambda i: tuple(s[2](i) if s[0] == "sym" else it.pick(s[1], i) for s in ss)))


@reg("reversed")
@lazy
def b_reversed(it, a, k):
    s = it.iterate(a[0])
    if s[0] == "list":
        return gen(it, ("list", list(reversed(s[1]))))
    return gen(it, ("sym", s[1], lambda i: s[2](s[1] - 1 - i)))


@reg("iter")
@lazy
def b_iter(it, a, k):
    return gen(it, it.iterate(a[0]))


def guarded_items(v):
    """[(guard, value)] of a guarded sequence, or None"""
    if isinstance(v, GenV):
        v = v.lst
    if isinstance(v, ArrObj):
        d = arr_data(v)
        if d.mode == "g":
            return [(g, N.elem_val(d.dtype, e)) for g, e in d.elems]
    if isinstance(v, PyList) and isinstance(v.state, tuple) and v.state[0] == "g":
        return list(v.state[1])
    return None


def _quant(it, v, isall):
    gi = guarded_items(v)
    if gi is not None:
        acc = TRUE if isall else FALSE
        for g, x in gi:
            b = it.try_bool(x)
            acc = band(acc, bor(bnot(g), b)) if isall else bor(acc, band(g, b))
        return mkb(acc)
    s = it.iterate(v)
    if s[0] == "list":
        acc = TRUE if isall else FALSE
        for x in s[1]:
            b = it.try_bool(x)
            acc = band(acc, b) if isall else bor(acc, b)
        return mkb(acc)
    c = it.c
    c.loopsym += 1
    l = var("$l%d" % c.loopsym, "I")
    b = c.nosplit([le(0, l), lt(l, s[1])], lambda: it.try_bool(s[2](l)))
    q = forall if isall else exists
    return mkb(q(0, s[1], lambda i: subst_b(b, {var_id(l): i})))


@reg("all")
def b_all(it, a, k):
    return _quant(it, a[0], True)


@reg("any")
def b_any(it, a, k):
    return _quant(it, a[0], False)


@reg("sum")
def b_sum(it, a, k):
    start = k.get("start", a[1] if len(a) > 1 else 0)
    v = a[0]
    s = it.iterate(v)
    if s[0] == "list":
        r = start
        for x in s[1]:
            r = it.binop(ast.Add(), r, x)
        return r
    c = it.c
    c.loopsym += 1
    l = var("$l%d" % c.loopsym, "I")
    x = c.nosplit([le(0, l), lt(l, s[1])], lambda: s[2](l))
    if isinstance(x, Cx):
        raise Unsupported("sum of complex numbers")
    kk = "i" if kind_of(x) in "ib" else "f"
    body = subst(poly_of(x), {var_id(l): K[0]})
    r = mk(kk, N.sum_poly(c, s[1], body), is_np(x))
    return N.s_binop(it, ast.Add(), start, r)


def _minmax(it, a, k, ismax):
    kw = dict(k)
    default = kw.pop("default", UNDEF)
    if kw:
        raise Unsupported("max/min key")
    if len(a) == 1:
        s = it.iterate(a[0])
        if s[0] == "sym":
            c = it.c
            if not c.decide(lt(0, s[1])):
                if default is not UNDEF:
                    return default
                raise c.exc("ValueError", "max() arg is an empty sequence")
            c.loopsym += 1
            l = var("$l%d" % c.loopsym, "I")
            x = c.nosplit([le(0, l), lt(l, s[1])], lambda: s[2](l))
            if not is_number(x):
                raise Unsupported("max of %r" % (x,))
            body = subst(poly_of(x), {var_id(l): K[0]})
            p = N.max_poly(it, s[1], body) if ismax else -N.max_poly(it, s[1], -body)
            return mk("i" if kind_of(x) in "ib" else "f", p, is_np(x))
        xs = s[1]
    else:
        xs = list(a)
    if not xs:
        if default is not UNDEF:
            return default
        raise it.c.exc("ValueError", "max() arg is an empty sequence")
    if all(isinstance(x, str) for x in xs):
        return max(xs) if ismax else min(xs)
    r = xs[0]
    for x in xs[1:]:
        if isinstance(x, ArrObj) or isinstance(r, ArrObj):
            raise it.c.exc("ValueError", "truth value of an array")
        if not (is_number(x) and is_number(r)):
            if x is None or r is None or isinstance(x, (str, PyList, PyDict)) or isinstance(r, (str, PyList, PyDict)) or isinstance(x, Cx) or isinstance(r, Cx):
                raise it.c.exc("TypeError", "'>' not supported")
            raise Unsupported("max of %r" % (x,))
        px, pr = poly_of(x), poly_of(r)
        better = lt(pr, px) if ismax else lt(px, pr)
        f = it.c.fast(better)
        if f is None:
            f = True if it.c.quick(better) else False if it.c.quick(bnot(better)) else None
        if f is True:
            r = x
        elif f is None:
            kk = "i" if kind_of(x) in "ib" and kind_of(r) in "ib" else "f"
            r = mk(kk, ite(better, px, pr), is_np(x) or is_np(r))
    return r


@reg("max")
def b_max(it, a, k):
    return _minmax(it, a, k, True)


@reg("min")
def b_min(it, a, k):
    return _minmax(it, a, k, False)


@reg("abs")
def b_abs(it, a, k):
    v = a[0]
    if isinstance(v, ArrObj):
        return N.NP["abs"].fn(it, [v], {})
    if is_scalar(v):
        return N.f_abs(it, v)
    if isinstance(v, PyObj) and v.cls.find("__abs__"):
        return it.call(it.getattr(v, "__abs__"), [], {})
    raise it.c.exc("TypeError", "bad operand type for abs()")


@reg("round")
def b_round(it, a, k):
    v = a[0]
    if isinstance(v, int):
        return v
    if len(a) > 1:
        raise Unsupported("round to digits")
    p = poly_of(v)
    f = mk_floor(p + Fraction(1, 2))
    # ties go to even; only exact half-integers differ from floor(p + 1/2)
    tie = eq(p + Fraction(1, 2), f)
    return mk("i", ite(band(tie, eq(mk_mod(f, 2), 1)), f - 1, f)) if not p.is_const() else round(p.const())


@reg("divmod")
def b_divmod(it, a, k):
    return (N.s_floordiv(it, *a), N.s_mod(it, *a))


@reg("pow")
def b_pow(it, a, k):
    return N.s_pow(it, a[0], a[1])


@reg("sorted")
def b_sorted(it, a, k):
    kw = dict(k)
    rev = kw.pop("reverse", False)
    key = kw.pop("key", None)
    xs = it.concrete_list(a[0])
    ks = [it.call(key, [x], {}) if key is not None else x for x in xs]
    if all(isinstance(x, str) for x in ks) or all(isinstance(x, int) for x in ks):
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(rev))
        return it.c.list_([xs[i] for i in order])
    if all(is_number(x) for x in ks):
        out = []
        for i in range(len(xs)):
            j = len(out)
            while j > 0:
                p, q = poly_of(ks[i]), poly_of(ks[out[j - 1]])
                if it.c.decide(lt(q, p) if rev else lt(p, q)):
                    j -= 1
                else:
                    break
            out.insert(j, i)
        return it.c.list_([xs[i] for i in out])
    raise Unsupported("sorted")


def type_of(it, v):
    if v is None:
        return TYPES["NoneType"]
    if isinstance(v, bool):
        return TYPES["bool"]
    if isinstance(v, SBool):
        return TYPES["bool_" if v.np else "bool"]
    if isinstance(v, int):
        return TYPES["int"]
    if isinstance(v, Num):
        if v.kind == "i":
            return TYPES["int64" if v.np else "int"]
        return TYPES["float64" if v.np else "float"]
    if isinstance(v, Cx):
        return TYPES["complex"]
    if isinstance(v, (str, OStr, SStr)):
        return TYPES["str"]
    if isinstance(v, PyList):
        return TYPES["list"]
    if isinstance(v, tuple):
        return TYPES["tuple"]
    if isinstance(v, (PyDict, SymDict)):
        return TYPES["dict"]
    if isinstance(v, SetV):
        return TYPES["set"]
    if isinstance(v, ArrObj):
        return TYPES["ndarray"]
    if isinstance(v, PyObj):
        return v.cls
    if isinstance(v, EnumMember):
        return v.cls
    if isinstance(v, RangeV):
        return TYPES["range"]
    if isinstance(v, (FuncV, BoundM)):
        return TYPES["function"]
    if isinstance(v, (ClassV, TypeV)):
        return TYPES["type"]
    raise Unsupported("type of %r" % (v,))


SUPER = {"bool": ("int",), "float64": ("float",), "complex128": ("complex",)}


def isinst(it, v, t):
    if isinstance(t, tuple):
        return any(isinst(it, v, x) for x in t)
    tv = type_of(it, v)
    if isinstance(t, ClassV):
        if t is OBJECT:
            return True
        return isinstance(tv, ClassV) and tv.issub(t)
    if isinstance(t, TypeV):
        return isinstance(tv, TypeV) and (tv.name == t.name or t.name in SUPER.get(tv.name, ()))
    raise Unsupported("isinstance with %r" % (t,))


@reg("isinstance")
def b_isinstance(it, a, k):
    return isinst(it, a[0], a[1])


@reg("callable")
def b_callable(it, a, k):
    return isinstance(a[0], (FuncV, BoundM, Builtin, ClassV, TypeV))


@reg("getattr")
def b_getattr(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with a computed name")
    if len(a) > 2:
        try:
            return it.getattr(a[0], a[1])
        except PyRaise as e:
            if e.exc.cls.issub(EXC["AttributeError"]):
                return a[2]
            raise
    return it.getattr(a[0], a[1])


@reg("hasattr")
def b_hasattr(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if e.exc.cls.issub(EXC["AttributeError"]):
            return False
        raise


@reg("setattr")
def b_setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


@reg("map")
def b_map(it, a, k):
    ss = [it.iterate(x) for x in a[1:]]
    f = a[0]
    if all(s[0] == "list" for s in ss):
        return gen(it, ("list", [it.call(f, list(x), {}) for x in zip(*[s[1] for s in ss])]))
    if len(ss) == 1:
        return GenV(it.c.list_(_symmap(it, ss[0], lambda x: it.call(f, [x], {}))))
    raise Unsupported("map over several symbolic sequences")


def _symmap(it, s, f):
    c = it.c
    c.loopsym += 1
    l = var("$l%d" % c.loopsym, "I")
    nf = len(c.facts)
    c.add_fact(le(0, l))
    c.add_fact(lt(l, s[1]))
    mark = c.oid
    try:
        res = c.explore(lambda: f(s[2](l)))
    finally:
        del c.facts[nf:]
    return it.finish_sym(res, s[1], l, mark)


@reg("filter")
def b_filter(it, a, k):
    s = it.iterate(a[1])
    if s[0] != "list":
        raise Unsupported("filter over a symbolic sequence")
    out = []
    for x in s[1]:
        r = x if a[0] is None else it.call(a[0], [x], {})
        if it.truth(r):
            out.append(x)
    return gen(it, ("list", out))


@reg("repr")
def b_repr(it, a, k):
    return it.to_repr(a[0])


@reg("format")
def b_format(it, a, k):
    if len(a) == 1 or a[1] == "":
        return it.to_str(a[0])
    return it.fmt_value(a[0], a[1])


@reg("print")
def b_print(it, a, k):
    return None


@reg("id")
def b_id(it, a, k):
    raise Unsupported("id()")


@reg("super")
def b_super(it, a, k):
    if len(a) == 2:
        return SuperV(a[0], a[1])
    raise Unsupported("super")


@reg("next")
def b_next(it, a, k):
    raise Unsupported("next()")


@reg("slice")
def b_slice(it, a, k):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(*(list(a) + [None] * (3 - len(a))))


BUILTINS["property"] = Builtin("property", lambda it, a, k: PropV(*a))
BUILTINS["staticmethod"] = Builtin("staticmethod", lambda it, a, k: StaticV(a[0]))
BUILTINS["classmethod"] = Builtin("classmethod", lambda it, a, k: ClassMethV(a[0]))


# --------------------------------------------------------------------------- types called as functions
def call_type(it, t, args, kwargs):
    n = t.name
    c = it.c
    if n in ("float", "float64"):
        if not args:
            return Num("f", ZERO)
        v = args[0]
        if isinstance(v, ArrObj):
            d = arr_data(v)
            if d.mode == "c" and len(d.elems) == 1:
                v = N.elem_val(d.dtype, d.elems[0])
            elif n == "float64":
                return c.arr(N.astype(it, d, "f"))
            else:
                raise c.exc("TypeError", "only size-1 arrays can be converted to Python scalars")
        if is_number(v):
            return Num("f", poly_of(v), n == "float64")
        if isinstance(v, str):
            try:
                return Num("f", P(Fraction(v)), n == "float64")
            except ValueError:
                raise c.exc("ValueError", "could not convert string to float")
        if v is None or isinstance(v, (PyList, PyDict, tuple, PyObj, Cx)):
            raise c.exc("TypeError", "float() argument")
        raise Unsupported("float(%r)" % (v,))
    if n in ("int", "int64"):
        if not args:
            return 0
        v = args[0]
        if isinstance(v, SStr) and len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][0] == "bit":
            return mk("i", v.parts[0][1])
        if isinstance(v, str):
            try:
                return int(v, *args[1:])
            except ValueError:
                raise c.exc("ValueError", "invalid literal for int()")
        if isinstance(v, ArrObj):
            d = arr_data(v)
            if d.mode == "c" and len(d.elems) == 1:
                v = N.elem_val(d.dtype, d.elems[0])
            else:
                raise c.exc("TypeError", "only size-1 arrays can be converted to Python scalars")
        if is_number(v):
            if kind_of(v) in "ib":
                return mk("i", poly_of(v))
            p = poly_of(v)
            if not is_int_poly(p) and c.quick(le(0, p)):
                return mk("i", mk_floor(p))
            return mk("i", N.trunc(p))
        if v is None or isinstance(v, (PyList, PyDict, tuple, PyObj, Cx)):
            raise c.exc("TypeError", "int() argument")
        raise Unsupported("int(%r)" % (v,))
    if n in ("bool", "bool_"):
        return mkb(it.try_bool(args[0])) if args else False
    if n in ("complex", "complex128"):
        if len(args) == 1:
            return c.to_cx(args[0])
        return Cx(poly_of(args[0]), poly_of(args[1]))
    if n == "str":
        return it.to_str(args[0]) if args else ""
    if n == "list":
        if not args:
            return c.list_([])
        v = args[0]
        if isinstance(v, GenV) and not isinstance(v.lst, SymSeq):
            v = v.lst
        if isinstance(v, PyList) and not isinstance(v, SymSeq):
            if isinstance(v.state, list):
                it.iterate(v)
            return c.list_(list(v.state) if isinstance(v.state, list) else v.state)
        if isinstance(v, ArrObj):
            d = arr_data(v)
            if d.mode == "g":
                return c.list_(("g", [(g, N.elem_val(d.dtype, e)) for g, e in d.elems]))
        s = it.iterate(v)
        if s[0] == "list":
            return c.list_(s[1])
        return c.list_(_symmap(it, s, lambda x: x))
    if n == "tuple":
        return tuple(it.concrete_list(args[0])) if args else ()
    if n == "dict":
        d = {}
        if args:
            v = args[0]
            if isinstance(v, SymDict) and not kwargs:
                return c.alloc(SymDict(*v.state))
            if isinstance(v, PyDict):
                d.update(v.state)
            else:
                for x in it.concrete_list(v):
                    kk, vv = it.concrete_list(x)
                    it.hashable(kk)
                    d[kk] = vv
        d.update(kwargs)
        return c.alloc(PyDict(d))
    if n in ("set", "frozenset"):
        if not args:
            return c.alloc(SetV(("vals", [])))
        v = args[0]
        if isinstance(v, ArrObj) and v.tag and v.tag[0] == "where":
            return c.alloc(SetV(("pred", dimP(v.tag[1]), v.tag[2])))
        if isinstance(v, SetV):
            return c.alloc(SetV(v.state))
        s = it.iterate(v)
        if s[0] == "list":
            return c.alloc(SetV(("vals", s[1])))
        raise Unsupported("set of a symbolic sequence")
    if n == "type":
        return type_of(it, args[0])
    if n == "ndarray":
        raise Unsupported("ndarray()")
    raise Unsupported("call of type %s" % n)


# --------------------------------------------------------------------------- attributes of builtin values
def attr(it, o, name):
    c = it.c

    def m(f):
        return Builtin("%s.%s" % (type(o).__name__, name), f)
    if isinstance(o, NativeObj):
        return native_attr(it, o, name)
    if isinstance(o, PyList):
        return list_attr(it, o, name, m)
    if isinstance(o, PyDict):
        return dict_attr(it, o, name, m)
    if isinstance(o, SymDict):
        return symdict_attr(it, o, name, m)
    if isinstance(o, SetV):
        if name in ("intersection", "union", "difference"):
            return m(lambda it, a, k: it.set_op(name, o, a[0] if isinstance(a[0], SetV) else call_type(it, TYPES["set"], [a[0]], {})))
        if name == "isdisjoint":
            def dis(it, a, k):
                b = a[0] if isinstance(a[0], SetV) else call_type(it, TYPES["set"], [a[0]], {})
                return mkb(bnot(it.try_bool(it.set_op("intersection", o, b))))
            return m(dis)
        if name == "add":
            def add(it, a, k):
                if o.state[0] != "vals":
                    raise Unsupported("set.add")
                c.put(o, ("vals", o.state[1] + [a[0]]))
            return m(add)
        if name == "copy":
            return m(lambda it, a, k: c.alloc(SetV(o.state)))
        raise Unsupported("set.%s" % name)
    if isinstance(o, (str, SStr, OStr)):
        return str_attr(it, o, name, m)
    if is_scalar(o):
        if name == "__class__":
            return type_of(it, o)
        if name == "real":
            return mk("f", o.re) if isinstance(o, Cx) else o
        if name == "imag":
            return mk("f", o.im) if isinstance(o, Cx) else 0
        if name in ("conjugate", "conj"):
            return m(lambda it, a, k: Cx(o.re, -o.im) if isinstance(o, Cx) else o)
        if name == "is_integer":
            return m(lambda it, a, k: mkb(eq(poly_of(o), mk_floor(poly_of(o)))))
        if name == "item":
            return m(lambda it, a, k: N.py_scalar(o))
        if name == "bit_length" and isinstance(o, int):
            return m(lambda it, a, k: o.bit_length())
        if name == "bit_length":
            def bl(it, a, k):
                p = poly_of(o)
                for e in range(0, 40):
                    if c.quick(le(2 ** e, p)) and c.quick(lt(p, 2 ** (e + 1))):
                        return e + 1
                raise Unsupported("bit_length")
            return m(bl)
        if is_np(o) and name in ("shape", "size", "ndim"):
            return {"shape": (), "size": 1, "ndim": 0}[name]
        if is_np(o) and name == "astype":
            return m(lambda it, a, k: N.elem_val(N.dtype_arg(it, a[0]), N.elem_of(it, o, N.dtype_arg(it, a[0]))))
        if is_np(o) or isinstance(o, (Num, int)) and name in ("sum", "max", "min", "copy", "all", "any"):
            if is_np(o):
                raise Unsupported("numpy scalar attribute %s" % name)
        raise c.exc("AttributeError", name)
    if isinstance(o, Builtin) and hasattr(o, name):
        return getattr(o, name)
    if isinstance(o, (FuncV, BoundM)):
        f = o.func if isinstance(o, BoundM) else o
        if name in ("__name__", "__qualname__"):
            return f.name
        if name == "__doc__":
            return None
        raise Unsupported("function attribute %s" % name)
    if isinstance(o, TypeV):
        if name == "__name__":
            return o.name
        if o.name == "dict" and name == "fromkeys":
            def fk(it, a, k):
                ks = it.concrete_list(a[0])
                for x in ks:
                    it.hashable(x)
                return c.alloc(PyDict({x: (a[1] if len(a) > 1 else None) for x in ks}))
            return m(fk)
        raise Unsupported("%s.%s" % (o.name, name))
    if isinstance(o, tuple):
        if name == "count":
            return m(lambda it, a, k: count_of(it, list(o), a[0]))
        if name == "index":
            return m(lambda it, a, k: index_of(it, list(o), a[0]))
        raise c.exc("AttributeError", name)
    if o is None:
        raise c.exc("AttributeError", "'NoneType' object has no attribute '%s'" % name)
    if isinstance(o, PropV) and name == "fget":
        return o.fget
    raise Unsupported("attribute %s of %r" % (name, o))


def count_of(it, xs, v):
    n = ZERO
    for x in xs:
        n = n + ite(it.eq_b(x, v), 1, 0)
    return mk("i", n)


def index_of(it, xs, v):
    for i, x in enumerate(xs):
        if it.c.decide(it.eq_b(x, v)):
            return i
    raise it.c.exc("ValueError", "not in list")


def list_attr(it, o, name, m):
    c = it.c

    def conc():
        if not isinstance(o.state, list) or (o.state and o.state[0] is SENT):
            raise Unsupported("list.%s on a symbolic list" % name)
        return o.state
    if name == "append":
        def append(it, a, k):
            if isinstance(o.state, list):
                c.put(o, o.state + [a[0]])
            elif o.state[0] == "g":
                c.put(o, ("g", list(o.state[1]) + [(TRUE, a[0])]))
            else:
                one = c.list_([a[0]])
                c.put(o, it.concat_lists([o, one]))
        return m(append)
    if name == "extend":
        return m(lambda it, a, k: it.list_extend(o, a[0]))
    if name == "insert":
        def insert(it, a, k):
            if not isinstance(o.state, list) and a[0] == 0:
                c.put(o, it.concat_lists([c.list_([a[1]]), c.list_(o.state)]))
                return
            l = list(conc())
            l.insert(a[0], a[1])
            c.put(o, l)
        return m(insert)
    if name == "pop":
        def pop(it, a, k):
            l = list(conc())
            i = a[0] if a else -1
            if not isinstance(i, int):
                raise Unsupported("list.pop")
            if not -len(l) <= i < len(l):
                raise c.exc("IndexError", "pop")
            v = l.pop(i)
            c.put(o, l)
            return v
        return m(pop)
    if name == "copy":
        return m(lambda it, a, k: c.list_(list(conc()) if isinstance(o.state, list) else o.state))
    if name == "index":
        return m(lambda it, a, k: index_of(it, conc(), a[0]))
    if name == "count":
        return m(lambda it, a, k: count_of(it, conc(), a[0]))
    if name == "reverse":
        return m(lambda it, a, k: c.put(o, list(reversed(conc()))))
    if name == "sort":
        return m(lambda it, a, k: c.put(o, b_sorted(it, [o], k).state))
    if name == "remove":
        def remove(it, a, k):
            l = list(conc())
            i = index_of(it, l, a[0])
            l.pop(i)
            c.put(o, l)
        return m(remove)
    if name == "clear":
        return m(lambda it, a, k: c.put(o, []))
    raise c.exc("AttributeError", name)


def symdict_attr(it, o, name, m):
    nm, n = o.state
    key, val = OIdx(nm, K[0]), OVal(nm, K[0])
    if name in ("keys", "values", "items"):
        t = {"keys": key, "values": val, "items": (key, val)}[name]
        return m(lambda it, a, k: GenV(it.c.list_(("sym", n, t))))
    if name == "get":
        return m(lambda it, a, k: it.getitem(o, a[0]))
    if name == "copy":
        return m(lambda it, a, k: it.c.alloc(SymDict(nm, n)))
    raise Unsupported("%s of an unknown dictionary" % name)


def dict_attr(it, o, name, m):
    c = it.c
    d = o.state
    if name == "keys":
        return m(lambda it, a, k: GenV(c.list_(list(o.state))))
    if name == "values":
        return m(lambda it, a, k: GenV(c.list_(list(o.state.values()))))
    if name == "items":
        return m(lambda it, a, k: GenV(c.list_([(x, y) for x, y in o.state.items()])))
    if name == "get":
        def get(it, a, k):
            if isinstance(a[0], (Num, SStr, OStr)):
                raise Unsupported("symbolic key")
            return o.state.get(a[0], a[1] if len(a) > 1 else None)
        return m(get)
    if name == "pop":
        def pop(it, a, k):
            if a[0] in o.state:
                n = dict(o.state)
                v = n.pop(a[0])
                c.put(o, n)
                return v
            if len(a) > 1:
                return a[1]
            raise c.exc("KeyError", str(a[0]))
        return m(pop)
    if name == "update":
        def update(it, a, k):
            n = dict(o.state)
            if a:
                if isinstance(a[0], PyDict):
                    n.update(a[0].state)
                else:
                    for x in it.concrete_list(a[0]):
                        kk, vv = it.concrete_list(x)
                        n[kk] = vv
            n.update(k)
            c.put(o, n)
        return m(update)
    if name == "setdefault":
        def sd(it, a, k):
            if a[0] in o.state:
                return o.state[a[0]]
            v = a[1] if len(a) > 1 else None
            c.put(o, {**o.state, a[0]: v})
            return v
        return m(sd)
    if name == "copy":
        return m(lambda it, a, k: c.alloc(PyDict(dict(o.state))))
    if name == "clear":
        return m(lambda it, a, k: c.put(o, {}))
    raise c.exc("AttributeError", name)


def str_attr(it, o, name, m):
    c = it.c
    if name == "join":
        return m(lambda it, a, k: it.join(o, a[0]))
    if name == "format":
        if not isinstance(o, str):
            raise Unsupported("format of a computed string")
        return m(lambda it, a, k: it.format(o, a, k))
    if isinstance(o, str):
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "replace", "startswith", "endswith", "split", "find", "count", "isdigit", "zfill", "ljust", "rjust", "index", "swapcase", "splitlines", "casefold", "isalpha", "isidentifier"):
            def f(it, a, k):
                if any(not (x is None or isinstance(x, (str, int, tuple))) for x in a) or k:
                    raise Unsupported("str.%s arguments" % name)
                r = getattr(o, name)(*a)
                return c.list_(r) if isinstance(r, list) else r
            return m(f)
    if isinstance(o, OStr) and name in ("lower", "upper", "strip", "title", "capitalize"):
        return m(lambda it, a, k: OStr("%s.%s()" % (o.name, name)))
    if isinstance(o, SStr) and name == "count" and all(not isinstance(p, str) and p[0] == "bit" for p in o.parts):
        def count(it, a, k):
            n = ZERO
            for p in o.parts:
                n = n + (p[1] if a[0] == "1" else 1 - p[1] if a[0] == "0" else 0)
            return mk("i", n)
        return m(count)
    raise Unsupported("str.%s" % name)


def _reduce(it, a, k):
    xs = ([a[2]] if len(a) > 2 else []) + it.concrete_list(a[1])
    if not xs:
        raise it.c.exc("TypeError", "reduce() of empty sequence with no initial value")
    r = xs[0]
    for x in xs[1:]:
        r = it.call(a[0], [r, x], {})
    return r


def _chain(it, ls):
    ls = [it.iterate(l) for l in ls]
    if all(s[0] == "list" for s in ls):
        return gen(it, ("list", [x for s in ls for x in s[1]]))
    return GenV(it.c.list_(it.concat_lists([it.c.list_(list(s[1]) if s[0] == "list" else ("sym", s[1], s[2](K[0]))) for s in ls])))


def _product(it, a, k):
    import itertools
    ls = [it.concrete_list(x) for x in a]
    return gen(it, ("list", [tuple(x) for x in itertools.product(*ls, repeat=k.get("repeat", 1))]))


MODULES["functools"] = ModuleV("functools", {"reduce": Builtin("reduce", _reduce), "partial": Builtin("partial", lambda it, a, k: Builtin("partial", lambda it, b, l: it.call(a[0], list(a[1:]) + list(b), {**k, **l})))})
_ch = Builtin("chain", lambda it, a, k: _chain(it, a))
MODULES["itertools"] = ModuleV("itertools", {"chain": _ch, "product": Builtin("product", _product)})
