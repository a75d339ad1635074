"""Trusted contracts of the numpy functions that the repository uses (and of close relatives).

Arrays have real entries (no NaN, no infinities, no rounding).  Shapes may be symbolic.
"""
import ast
import itertools
import math
from .terms import *
from . import terms as T
from .vals import *
from . import solver as S
from . import words as W
from .interp import (Ctx, mk, mkb, is_number, is_scalar, kind_of, poly_of, bool_of, is_np, dimP, norm_dim, sum_squares, freeze, subst_elem,
                     arr_data, str_parts, mk_str, MergeFail, TYPES, guard_count, SStr)

NP = {}


# --------------------------------------------------------------------------- elements
def elem_val(dtype, e):
    if dtype in "fi":
        return mk(dtype, e, True)
    if dtype == "b":
        return mkb(e, True)
    if dtype == "c":
        return Cx(e[0], e[1])
    return e


def trunc(p):
    if is_int_poly(p):
        return p
    if p.is_const():
        return P(int(p.const()))
    return ite(le(0, p), mk_floor(p), -mk_floor(-p))


def cast(it, e, src, dst):
    """Element e of dtype src as dtype dst."""
    if src == dst:
        return e
    if dst == "f":
        if src == "i":
            return e
        if src == "b":
            return ite(e, 1, 0)
    if dst == "i":
        if src == "b":
            return ite(e, 1, 0)
        if src == "f":
            if not is_int_poly(e) and it.c.quick(eq(e, mk_floor(e))):
                return mk_floor(e)
            return trunc(e)
    if dst == "c":
        if src in "fi":
            return (e, ZERO)
        if src == "b":
            return (ite(e, 1, 0), ZERO)
    if dst == "b" and src in "fi":
        return ne(e, 0)
    if dst == "s" and src in "fib":
        return SStr([("str", freeze(elem_val(src, e)))])
    if dst == "f" and src == "c":
        raise Unsupported("complex values stored in a real array")
    raise Unsupported("conversion of array elements from %s to %s" % (src, dst))


def elem_of(it, v, dtype):
    if isinstance(v, (str, SStr)) and dtype == "s":
        return v
    if isinstance(v, ArrObj):
        d = arr_data(v)
        if d.mode == "c" and len(d.elems) == 1:
            return cast(it, d.elems[0], d.dtype, dtype)
        raise it.c.exc("ValueError", "setting an array element with a sequence.")
    k = kind_of(v)
    e = {"b": bool_of, "i": poly_of, "f": poly_of, "c": lambda v: (v.re, v.im)}[k](v)
    return cast(it, e, k, dtype)


ORDER = "bifc"


def join_dtype(*ds):
    if "s" in ds:
        return "s"
    return max(ds, key=ORDER.index)


# --------------------------------------------------------------------------- construction
def from_fn(it, shape, dtype, fn):
    """fn: tuple of index polynomials -> element"""
    shape = tuple(norm_dim(s) for s in shape)
    if all(isinstance(s, int) for s in shape):
        return ArrData(shape, dtype, "c", tuple(fn(tuple(P(i) for i in ix)) for ix in itertools.product(*[range(s) for s in shape])))
    if len(shape) > 4:
        raise Unsupported("array with more than 4 dimensions")
    e = in_range(it, shape, lambda: it.c.resolve(fn(tuple(K[:len(shape)]))))
    return ArrData(shape, dtype, "s", e)


def in_range(it, shape, thunk):
    fs = []
    for i, s in enumerate(shape):
        fs += [le(0, K[i]), lt(K[i], dimP(s))]
    return it.c.nosplit(fs, thunk)


def at(d, idx):
    """Element at the given index polynomials."""
    if d.mode == "s":
        return subst_elem(d.elems, {KID[i]: x for i, x in enumerate(idx)})
    if d.mode == "g":
        raise Unsupported("element of a guarded array")
    if d.mode in ("w", "cw"):
        raise Unsupported("element of a word")
    flat = 0
    conc = True
    for x, s in zip(idx, d.shape):
        if not x.is_const():
            conc = False
            break
        flat = flat * s + int(x.const())
    if conc:
        return d.elems[flat]
    # symbolic index into a concrete array
    e = None
    for n, ix in reversed(list(enumerate(itertools.product(*[range(s) for s in d.shape])))):
        c = band(*[eq(x, i) for x, i in zip(idx, ix)])
        e = d.elems[n] if e is None else merge_elem(c, d.elems[n], e)
    if e is None:
        raise Unsupported("element of an empty array")
    return e


def merge_elem(c, x, y):
    if isinstance(x, Poly):
        return ite(c, x, y)
    if isinstance(x, B):
        return bor(band(c, x), band(bnot(c), y)) if x != y else x
    if isinstance(x, tuple):
        return tuple(merge_elem(c, p, q) for p, q in zip(x, y))
    if x == y:
        return x
    raise MergeFail("elements")


def view_data(b, spec):
    """spec: tuple of ('pt', Poly) | ('sl', start Poly, count, step int) | ('new',)"""
    shape = []
    for s in spec:
        if s[0] == "sl":
            shape.append(s[2])
        elif s[0] == "new":
            shape.append(1)

    def fn(idx):
        idx = list(idx)
        out = []
        for s in spec:
            if s[0] == "pt":
                out.append(s[1])
            elif s[0] == "new":
                idx.pop(0)
            else:
                out.append(s[1] + idx.pop(0) * s[3])
        return at(b, out)
    if b.mode == "g":
        if all(s[0] == "sl" and s[1] == ZERO and s[3] == 1 for s in spec):
            return b
        raise Unsupported("slice of a guarded array")
    if all(isinstance(norm_dim(s), int) for s in shape):
        shape = tuple(norm_dim(s) for s in shape)
        return ArrData(shape, b.dtype, "c", tuple(fn(tuple(P(i) for i in ix)) for ix in itertools.product(*[range(s) for s in shape])))
    return ArrData(tuple(shape), b.dtype, "s", fn(tuple(K[:len(shape)])))


def to_arr(it, v, dtype=None):
    """Array contents of any value (array, list, number)."""
    if isinstance(v, ArrObj):
        d = arr_data(v)
    elif is_scalar(v):
        k = kind_of(v)
        d = ArrData((), k, "c", (elem_of(it, v, k),))
    elif isinstance(v, str):
        d = ArrData((), "s", "c", (v,))
    else:
        d = list_to_arr(it, v)
    if dtype is not None and d.dtype != dtype:
        d = astype(it, d, dtype)
    return d


def astype(it, d, dtype):
    if d.dtype == dtype:
        return d
    if d.mode == "c":
        return ArrData(d.shape, dtype, "c", tuple(cast(it, e, d.dtype, dtype) for e in d.elems))
    if d.mode == "g":
        return ArrData(d.shape, dtype, "g", tuple((g, cast(it, e, d.dtype, dtype)) for g, e in d.elems))
    if d.mode in ("w", "cw"):
        w, m = d.elems
        return ArrData(d.shape, dtype, d.mode, (w, tuple((s, cast(it, e, d.dtype, dtype)) for s, e in m)))
    return ArrData(d.shape, dtype, "s", in_range(it, d.shape, lambda: cast(it, d.elems, d.dtype, dtype)))


def list_to_arr(it, v):
    if isinstance(v, PyList) and not isinstance(v.state, list) and v.state[0] == "g":
        items = v.state[1]
        ks = [kind_of(x) for _, x in items]
        dt = join_dtype(*ks) if ks else "f"
        return ArrData((guard_count(items),), dt, "g", tuple((g, elem_of(it, x, dt)) for g, x in items))
    if v is None or isinstance(v, (PyDict, PyObj, FuncV, ClassV, OStr)):
        raise Unsupported("array of objects")
    seq = it.iterate(v)
    if seq[0] == "list":
        xs = [to_arr(it, x) if not (x is None) else None for x in seq[1]]
        if any(x is None for x in xs):
            raise Unsupported("array of objects")
        if not xs:
            return ArrData((0,), "f", "c", ())
        dt = join_dtype(*[x.dtype for x in xs])
        sh = xs[0].shape
        for x in xs[1:]:
            if x.shape != sh:
                if len(x.shape) == len(sh) and all(p == q or it.c.decide(eq(dimP(p), dimP(q))) for p, q in zip(x.shape, sh)):
                    continue
                raise Unsupported("ragged array")
        xs = [astype(it, x, dt) for x in xs]
        if all(x.mode == "c" for x in xs):
            return ArrData((len(xs),) + sh, dt, "c", tuple(e for x in xs for e in x.elems))
        return stack_data(it, xs)
    n, fn = seq[1], seq[2]
    x = in_range(it, (n,), lambda: to_arr(it, fn(K[0])))
    if x.mode == "c" and x.shape == ():
        return ArrData((n,), x.dtype, "s", x.elems[0])
    # rows
    if x.mode == "c":
        def el(idx):
            return at(x, idx[1:])
        e = None
        for m, ix in reversed(list(enumerate(itertools.product(*[range(s) for s in x.shape])))):
            c = band(*[eq(K[j + 1], i) for j, i in enumerate(ix)])
            e = x.elems[m] if e is None else merge_elem(c, x.elems[m], e)
        return ArrData((n,) + x.shape, x.dtype, "s", e)
    raise Unsupported("nested symbolic sequences")


def stack_data(it, xs):
    """Stack arrays of equal shape along a new first axis."""
    def fn(idx):
        e = None
        for i in range(len(xs) - 1, -1, -1):
            y = at(xs[i], idx[1:])
            e = y if e is None else (merge_elem(eq(idx[0], i), y, e) if not idx[0].is_const() else (y if idx[0] == P(i) else e))
        return e
    return from_fn(it, (len(xs),) + xs[0].shape, xs[0].dtype, fn)


# --------------------------------------------------------------------------- broadcasting, elementwise
def bshape(it, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        dims = []
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0:
                dims.append(norm_dim(s[j]))
        d = None
        for x in dims:
            if x == 1:
                continue
            if d is None or d == x:
                d = x
            else:
                # both differ from the number 1: equal, or one of them is 1, or an error
                if it.c.decide(eq(dimP(d), dimP(x))):
                    if isinstance(x, int):
                        d = x
                    continue
                if not isinstance(x, int) and it.c.decide(eq(x, 1)):
                    raise Unsupported("broadcast of a symbolic dimension equal to one")
                if not isinstance(d, int) and it.c.decide(eq(d, 1)):
                    raise Unsupported("broadcast of a symbolic dimension equal to one")
                raise it.c.exc("ValueError", "operands could not be broadcast together")
        out.append(1 if d is None else d)
    return tuple(out)


def bat(d, idx):
    """Element of d broadcast at index idx."""
    k = len(idx) - len(d.shape)
    ix = []
    for i, s in enumerate(d.shape):
        ix.append(ZERO if s == 1 else idx[i + k])
    return at(d, ix)


def elementwise(it, f, vals, dtype=None):
    """f: scalar values -> scalar value.  Returns an array (or a scalar when all are 0-d)."""
    ds = [to_arr(it, v) for v in vals]
    if any(d.mode == "g" for d in ds):
        gs = [d for d in ds if d.mode == "g"]
        others = [d for d in ds if d.mode != "g"]
        if all(len(o.shape) == 0 for o in others) and all([g for g, _ in d.elems] == [g for g, _ in gs[0].elems] for d in gs):
            items = []
            dt = dtype
            for i, (g, _) in enumerate(gs[0].elems):
                v = f(*[elem_val(d.dtype, d.elems[i][1] if d.mode == "g" else d.elems[0]) for d in ds])
                if dt is None:
                    dt = kind_of(v)
                items.append((g, elem_of(it, v, dt)))
            if dt is None:
                dt = "f"
            return it.c.arr(ArrData(gs[0].shape, dt, "g", tuple(items)))
        raise Unsupported("guarded array in an elementwise operation")
    if any(d.mode == "w" for d in ds):
        return W.elementwise(it, f, ds, dtype)
    if any(d.mode == "cw" for d in ds):
        raise Unsupported("elementwise operation on running sums of a word")
    shape = bshape(it, [d.shape for d in ds])
    if shape == () and not any(isinstance(v, ArrObj) for v in vals):
        return f(*vals)
    res = [dtype]

    def fn(idx):
        v = f(*[elem_val(d.dtype, bat(d, idx)) for d in ds])
        if isinstance(v, (str, SStr)):
            res[0] = "s"
            return v
        k = kind_of(v)
        if res[0] is None:
            res[0] = k
        elif res[0] != k:
            if dtype is None:
                res[0] = join_dtype(res[0], k)
        return elem_of(it, v, res[0])
    if any(s == 0 for s in shape):
        if res[0] is None:
            v = f(*[elem_val(d.dtype, {"f": var("$dummy"), "i": var("$dummyi", "I"), "b": bvar("$dummyb"), "c": (var("$dummy"), var("$dummy"))}.get(d.dtype)) for d in ds])
            res[0] = kind_of(v)
        return it.c.arr(ArrData(shape, res[0], "c", ()))
    first = None
    d = from_fn(it, shape, "f", fn)
    if d.mode == "c":
        # element kinds may have been refined while walking
        es = tuple(_fix(e, res[0]) for e in d.elems)
        d = ArrData(d.shape, res[0], "c", es)
    else:
        d = ArrData(d.shape, res[0], "s", d.elems)
    if shape == ():
        return elem_val(d.dtype, d.elems[0])
    return it.c.arr(d)


def _fix(e, dt):
    if dt == "f" and isinstance(e, B):
        return ite(e, 1, 0)
    if dt == "c" and isinstance(e, Poly):
        return (e, ZERO)
    return e


# --------------------------------------------------------------------------- scalar operations
def s_neg(it, v):
    if isinstance(v, Cx):
        return Cx(-v.re, -v.im)
    if isinstance(v, (bool, SBool)) and is_np(v):
        raise it.c.exc("TypeError", "numpy boolean negative")
    if is_number(v):
        return mk("i" if kind_of(v) == "b" else kind_of(v), -poly_of(v), is_np(v))
    if v is None or isinstance(v, (str, SStr, PyList, tuple)):
        raise it.c.exc("TypeError", "bad operand type for unary -")
    raise Unsupported("negation of %r" % (v,))


def s_invert(it, v):
    if isinstance(v, SBool):
        return mkb(bnot(v.b), v.np)
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return ~v
    raise Unsupported("~ on %r" % (v,))


def nonfinite(p):
    return app("nonfinite", p)


def s_div(it, a, b):
    np_ = is_np(a) or is_np(b)
    pb = poly_of(b)
    if pb.is_const():
        z = bconst(pb.const() == 0)
    else:
        z = eq(pb, 0)
    pa = poly_of(a)
    if z.op == "const" and not z.args[0]:
        return mk("f", pa * inv(pb), np_)
    if z.op != "const" and it.c.quick(bnot(z)):
        return mk("f", pa * inv(pb), np_)
    if np_:
        if z.op == "const":
            return mk("f", nonfinite(pa), True)
        return mk("f", ite(z, nonfinite(pa), pa * inv(pb)), True)
    if it.c.decide(z):
        raise it.c.exc("ZeroDivisionError", "division by zero")
    return mk("f", pa * inv(pb), np_)


def idiv(p, c):
    """floor(p / c) for integer terms, c > 0."""
    if c.is_const():
        return mk_div(p, int(c.const()))
    return mk_idiv(p, c)


def mk_idiv(p, c):
    if c.is_const() and c.const() > 0 and is_int_poly(p):
        return mk_div(p, int(c.const()))
    if p == ZERO:
        return ZERO
    return app("idiv", p, c, sort="I")


APP_HOOKS["idiv"] = mk_idiv


def _ax_idiv(args):
    p, c = args
    q = app("idiv", p, c, sort="I")

    def mkx():
        return [implies(lt(0, c), band(le(q * c, p), lt(p, q * c + c)))]
    yield ("idiv", p, c), mkx


S.AX["idiv"] = _ax_idiv


def s_floordiv(it, a, b):
    pa, pb = poly_of(a), poly_of(b)
    np_ = is_np(a) or is_np(b)
    if kind_of(a) == "f" or kind_of(b) == "f":
        q = s_div(it, a, b)
        return mk("f", mk_floor(q.p), np_)
    if pb.is_const():
        if pb.const() == 0:
            if np_:
                raise Unsupported("integer division by zero")
            raise it.c.exc("ZeroDivisionError")
        if pb.const() < 0:
            return mk("i", mk_div(-pa, int(-pb.const())), np_)
        return mk("i", mk_div(pa, int(pb.const())), np_)
    if it.c.quick(lt(0, pb)) or it.c.decide(lt(0, pb)):
        q, r = _polydiv(it, pa, pb)
        return mk("i", q, np_)
    raise Unsupported("integer division by a possibly non-positive number")


def _polydiv(it, pa, pb):
    from .interp import poly_divmod
    q, r = poly_divmod(pa, pb)
    for dq in (0, -1, 1):
        if it.c.quick(le(0, r - pb * dq)) and it.c.quick(lt(r - pb * dq, pb)):
            return q + dq, r - pb * dq
    d = mk_idiv(pa, pb)
    return d, pa - d * pb


def s_mod(it, a, b):
    pa, pb = poly_of(a), poly_of(b)
    np_ = is_np(a) or is_np(b)
    if kind_of(a) in "ib" and kind_of(b) in "ib":
        if pb.is_const() and pb.const() > 0:
            return mk("i", mk_mod(pa, int(pb.const())), np_)
        if not pb.is_const() and it.c.quick(lt(0, pb)):
            return mk("i", _polydiv(it, pa, pb)[1], np_)
        raise Unsupported("modulo")
    q = s_div(it, mk("f", pa, np_), mk("f", pb, np_))
    if it.c.quick(band(le(0, q.p), lt(q.p, 1))):
        return mk("f", pa, np_)
    return mk("f", pa - pb * mk_floor(q.p), np_)


def s_pow(it, a, b):
    np_ = is_np(a) or is_np(b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        if isinstance(a, Cx) and isinstance(b, int) and 0 <= b <= 8:
            r = Cx(ONE, ZERO)
            for _ in range(b):
                r = cmul(r, a)
            return r
        raise Unsupported("complex power")
    ka, kb = kind_of(a), kind_of(b)
    pa, pb = poly_of(a), poly_of(b)
    k = "f" if "f" in (ka, kb) else "i"
    if pb.is_const():
        e = pb.const()
        if e.denominator == 1:
            n = int(e)
            if n >= 0:
                if n > 64 and not pa.is_const():
                    raise Unsupported("large power")
                return mk(k, pa ** n, np_)
            if k == "i" and np_:
                raise it.c.exc("ValueError", "Integers to negative integer powers are not allowed.")
            if pa.is_const() and pa.const() != 0 or it.c.quick(ne(pa, 0)):
                return mk("f", inv(pa) ** (-n), np_)
            return s_div(it, 1, mk("f", pa ** (-n), np_))
        if e == Fraction(1, 2):
            return f_sqrt(it, mk("f", pa, np_))
        if e == Fraction(-1, 2):
            return s_div(it, 1, f_sqrt(it, mk("f", pa, np_)))
        if e.denominator == 2 and e > 0:
            s = f_sqrt(it, mk("f", pa, np_))
            return mk("f", s.p ** int(2 * e), np_)
        raise Unsupported("power %s" % e)
    if it.c.quick(bor(eq(pb, 0), eq(pb, 1))):
        return mk(k, ite(eq(pb, 0), 1, pa), np_)
    if pa == P(-1) and kb == "i":
        return mk(k, ite(eq(mk_mod(pb, 2), 0), 1, -1), np_)
    if pa.is_const() and pa.const() > 0:
        lo, hi = None, None
        for e in range(0, 14):
            if it.c.quick(eq(pb, e)):
                return mk(k, pa ** e, np_)
        if k == "i" and pa == P(2) and it.c.quick(le(0, pb)):
            return mk(k, W.pow2(pb), np_)
    raise Unsupported("symbolic power")


def cmul(a, b):
    return Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)


def s_binop(it, op, a, b):
    t = type(op)
    if isinstance(a, Cx) or isinstance(b, Cx):
        x, y = it.c.to_cx(a), it.c.to_cx(b)
        if t is ast.Add:
            return Cx(x.re + y.re, x.im + y.im)
        if t is ast.Sub:
            return Cx(x.re - y.re, x.im - y.im)
        if t is ast.Mult:
            return cmul(x, y)
        if t is ast.Div:
            if not isinstance(b, Cx):
                n = True
                re = s_div(it, mk("f", x.re, n), mk("f", y.re, n))
                im = s_div(it, mk("f", x.im, n), mk("f", y.re, n))
                return Cx(re.p, im.p)
            m = y.re * y.re + y.im * y.im
            z = cmul(x, Cx(y.re, -y.im))
            re = s_div(it, mk("f", z.re, True), mk("f", m, True))
            im = s_div(it, mk("f", z.im, True), mk("f", m, True))
            return Cx(re.p, im.p)
        if t is ast.Pow:
            return s_pow(it, a, b)
        raise Unsupported("complex operator")
    np_ = is_np(a) or is_np(b)
    ka, kb = kind_of(a), kind_of(b)
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if ka == "b" and kb == "b":
            x, y = bool_of(a), bool_of(b)
            r = band(x, y) if t is ast.BitAnd else bor(x, y) if t is ast.BitOr else bnot(iff(x, y))
            return mkb(r, np_)
        if isinstance(a, int) and isinstance(b, int):
            return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}[t]
        if t is ast.BitAnd and isinstance(b, int) and b > 0 and (b & (b + 1)) == 0 and ka == "i":
            return mk("i", mk_mod(poly_of(a), b + 1), np_)
        if "f" in (ka, kb):
            raise it.c.exc("TypeError", "unsupported operand type(s) for bit operation")
        if t is ast.BitAnd and isinstance(a, int) and not isinstance(a, bool):
            a, b, ka, kb = b, a, kb, ka
        if t is ast.BitAnd and isinstance(b, int) and 0 <= b < 2 ** 16 and ka == "i":
            return mk("i", sum((mk_mod(mk_div(poly_of(a), 2 ** j), 2) * 2 ** j for j in range(b.bit_length()) if b >> j & 1), ZERO), np_)
        if t is ast.BitXor and all(it.c.quick(band(le(0, x), le(x, 1))) for x in (poly_of(a), poly_of(b))):
            return mk("i", mk_mod(poly_of(a) + poly_of(b), 2), np_)
        raise Unsupported("bit operation")
    if np_ and ka == "b" and kb == "b":
        if t is ast.Add:
            return mkb(bor(bool_of(a), bool_of(b)), True)
        if t is ast.Mult:
            return mkb(band(bool_of(a), bool_of(b)), True)
        if t is ast.Sub:
            raise it.c.exc("TypeError", "numpy boolean subtract")
    k = "f" if "f" in (ka, kb) else "i"
    if t is ast.Add:
        return mk(k, poly_of(a) + poly_of(b), np_)
    if t is ast.Sub:
        return mk(k, poly_of(a) - poly_of(b), np_)
    if t is ast.Mult:
        return mk(k, poly_of(a) * poly_of(b), np_)
    if t is ast.Div:
        return s_div(it, a, b)
    if t is ast.FloorDiv:
        return s_floordiv(it, a, b)
    if t is ast.Mod:
        return s_mod(it, a, b)
    if t is ast.Pow:
        return s_pow(it, a, b)
    if t is ast.LShift and isinstance(b, int) and ka in "ib":
        return mk("i", poly_of(a) * (2 ** b), np_)
    if t is ast.RShift and isinstance(b, int) and ka in "ib":
        return mk("i", mk_div(poly_of(a), 2 ** b), np_)
    if t is ast.LShift and isinstance(a, int) and kb == "i":
        return s_binop(it, ast.Mult(), a, s_pow(it, 2, b))
    raise Unsupported("operator %s" % t.__name__)


def s_compare(it, op, a, b):
    t = type(op)
    if isinstance(a, Cx) or isinstance(b, Cx):
        if t in (ast.Eq, ast.NotEq):
            r = it.eq_b(a, b)
            return mkb(r if t is ast.Eq else bnot(r))
        raise it.c.exc("TypeError", "complex ordering")
    np_ = is_np(a) or is_np(b)
    x, y = poly_of(a), poly_of(b)
    r = {ast.Lt: lambda: lt(x, y), ast.LtE: lambda: le(x, y), ast.Gt: lambda: lt(y, x), ast.GtE: lambda: le(y, x), ast.Eq: lambda: eq(x, y), ast.NotEq: lambda: ne(x, y)}[t]()
    return mkb(r, np_)


def arr_binop(it, op, a, b):
    for x, y in ((a, b), (b, a)):
        if y is None or isinstance(y, (str, PyObj, PyDict)):
            raise it.c.exc("TypeError", "unsupported operand type(s)")
    if isinstance(op, ast.MatMult):
        return np_dot(it, [a, b], {})
    if isinstance(op, (ast.Mult, ast.Div)):
        for x, y, left in ((a, b, True), (b, a, False)):
            if isinstance(x, ArrObj) and arr_data(x).mode == "cw" and is_number(y) and (left or isinstance(op, ast.Mult)):
                return W.scaled(it, arr_data(x), lambda v: s_binop(it, op, v, y) if left else s_binop(it, op, y, v))
    return elementwise(it, lambda x, y: s_binop(it, op, x, y), [a, b])


def arr_compare(it, op, a, b):
    for x in (a, b):
        if x is None or isinstance(x, (str, PyObj, PyDict, SetV)):
            if isinstance(op, ast.Eq) and x is None:
                o = b if x is a else a
                return elementwise(it, lambda v: False, [o])
            if isinstance(op, ast.NotEq) and x is None:
                o = b if x is a else a
                return elementwise(it, lambda v: True, [o])
            raise Unsupported("comparison of an array with %r" % (x,))
    return elementwise(it, lambda x, y: s_compare(it, op, x, y), [a, b])


# --------------------------------------------------------------------------- elementary functions
def real_fn(name, f):
    def g(it, v):
        if isinstance(v, Cx):
            raise Unsupported("%s of a complex number" % name)
        if not is_number(v):
            if v is None or isinstance(v, (str, PyObj, PyDict)):
                raise it.c.exc("TypeError", "%s of a non-number" % name)
            raise Unsupported("%s of %r" % (name, v))
        return mk("f", f(it, poly_of(v)), True)
    return g


def p_sqrt(it, p):
    if sum_squares(p) or p.is_const() and p.const() >= 0:
        return mk_sqrt(p)
    if it.c.quick(le(0, p)):
        return mk_sqrt(p)
    return ite(le(0, p), mk_sqrt(p), nonfinite(p))


def p_arc(mkf, name):
    def f(it, p):
        if p.is_const() and abs(p.const()) <= 1:
            return mkf(p)
        d = band(le(-1, p), le(p, 1))
        if it.c.quick(d):
            return mkf(p)
        return ite(d, mkf(p), nonfinite(p))
    return f


def p_floor(it, p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = T.get_atom(m[0][0])
            if a.kind == "app" and a.data[0] == "log2":
                x = a.data[1][0]
                for e in range(0, 40):
                    if it.c.quick(le(2 ** e, x)) and it.c.quick(lt(x, 2 ** (e + 1))):
                        return P(e)
    r = mk_floor(p)
    return r


def p_log2(it, p):
    if p.is_const() and p.const() > 0 and p.const().denominator == 1:
        n = int(p.const())
        if n & (n - 1) == 0:
            return P(n.bit_length() - 1)
    return app("log2", p)


def p_sign(it, p):
    v = sign_of(it, p)
    if v is not None:
        return P(v)
    return ite(lt(0, p), 1, ite(lt(p, 0), -1, 0))


def sign_of(it, p):
    if p.is_const():
        c = p.const()
        return (c > 0) - (c < 0)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and m[0][1] == 1:
            a = T.get_atom(m[0][0])
            if a.kind == "app" and a.data[0] == "sin":
                q, rest = T.pi_split(a.data[1][0])
                if not rest.d:
                    # sin(q*pi), 0 < q < 1/2 after normalisation (never zero)
                    q = q % 2
                    s = 0 if q in (0, 1) else 1 if q < 1 else -1
                    return s if c > 0 else -s
            if a.kind == "app" and a.data[0] == "cos":
                q, rest = T.pi_split(a.data[1][0])
                if not rest.d:
                    q = (q + Fraction(1, 2)) % 2
                    s = 0 if q in (0, 1) else 1 if q < 1 else -1
                    return s if c > 0 else -s
            if a.kind == "app" and a.data[0] == "sqrt" and a.data[1][0].is_const():
                return 1 if c > 0 else -1
    s = it.c.signs(p)
    if s:
        return s
    return None


f_sqrt = real_fn("sqrt", p_sqrt)
f_sin = real_fn("sin", lambda it, p: mk_sin(p))
f_cos = real_fn("cos", lambda it, p: mk_cos(p))


def _tan(it, p):
    s, c = mk_sin(p), mk_cos(p)
    if it.c.quick(ne(c, 0)):
        return s * inv(c)
    return ite(eq(c, 0), nonfinite(s), s * inv(c))


f_tan = real_fn("tan", _tan)
f_arccos = real_fn("arccos", p_arc(mk_arccos, "arccos"))
f_arcsin = real_fn("arcsin", p_arc(mk_arcsin, "arcsin"))
f_floor = real_fn("floor", p_floor)
f_ceil = real_fn("ceil", lambda it, p: -mk_floor(-p))
f_log2 = real_fn("log2", p_log2)


def f_exp(it, v):
    if isinstance(v, Cx):
        m = mk_exp(v.re)
        return Cx(m * mk_cos(v.im), m * mk_sin(v.im))
    return mk("f", mk_exp(poly_of(v)), True)


def f_abs(it, v):
    if isinstance(v, Cx):
        return mk("f", mk_sqrt(v.re * v.re + v.im * v.im), True)
    p = poly_of(v)
    k = "i" if kind_of(v) in "ib" else "f"
    np_ = is_np(v)
    s = sign_of(it, p)
    if s is not None:
        return mk(k, p if s >= 0 else -p, np_)
    if it.c.quick(le(0, p)):
        return mk(k, p, np_)
    return mk(k, mk_abs(p), np_)


def f_sign(it, v):
    return mk(kind_of(v), p_sign(it, poly_of(v)), True)


def f_square(it, v):
    return s_binop(it, ast.Mult(), v, v)


def f_isclose(it, a, b, rtol, atol):
    if isinstance(a, Cx) or isinstance(b, Cx):
        x, y = it.c.to_cx(a), it.c.to_cx(b)
        dr, di = x.re - y.re, x.im - y.im
        l = mk_sqrt(dr * dr + di * di)
        r = poly_of(atol) + poly_of(rtol) * mk_sqrt(y.re * y.re + y.im * y.im)
        return mkb(le(l, r), True)
    x, y = poly_of(a), poly_of(b)
    d = poly_of(f_abs(it, mk("f", x - y, True)))
    rb = poly_of(rtol) * poly_of(f_abs(it, mk("f", y, True)))
    return mkb(le(d, poly_of(atol) + rb), True)


def f_max(it, a, b):
    k = "f" if "f" in (kind_of(a), kind_of(b)) else "i"
    x, y = poly_of(a), poly_of(b)
    return mk(k, p_max(it, x, y), True)


def p_max(it, x, y):
    if it.c.quick(le(y, x)):
        return x
    if it.c.quick(le(x, y)):
        return y
    return ite(lt(x, y), y, x)


def p_min(it, x, y):
    return -p_max(it, -x, -y)


def f_min(it, a, b):
    k = "f" if "f" in (kind_of(a), kind_of(b)) else "i"
    return mk(k, p_min(it, poly_of(a), poly_of(b)), True)


def ufunc(name, f, nin=1):
    def g(it, args, kw):
        kw = dict(kw)
        where = kw.pop("where", None)
        out = kw.pop("out", None)
        dt = kw.pop("dtype", None)
        if where is True:
            where = None
        if kw or where is not None and (name not in ("divide", "true_divide") or not isinstance(out, ArrObj) or len(args) != 2):
            raise Unsupported("keyword arguments of np.%s" % name)
        if where is not None:
            # entries where the condition is false keep their value in out, and nothing is divided there
            b = elementwise(it, lambda m, y: _where(it, m, y, 1), [where, args[1]])
            q = elementwise(it, lambda x, y: f(it, x, y), [args[0], b])
            setitem(it, out, SliceV(None, None, None), elementwise(it, lambda m, x, y: _where(it, m, x, y), [where, q, out]))
            return out
        if len(args) == nin + 1 and out is None:
            out = args[nin]
            args = args[:nin]
        if len(args) != nin:
            raise it.c.exc("TypeError", "np.%s arguments" % name)
        for a in args:
            if a is None or isinstance(a, (str, PyDict, PyObj)):
                raise it.c.exc("TypeError", "ufunc %s not supported for the input types" % name)
        if any(isinstance(a, (PyList, tuple, GenV, RangeV)) for a in args):
            args = [it.c.arr(to_arr(it, a)) if isinstance(a, (PyList, tuple, GenV, RangeV)) else a for a in args]
        r = elementwise(it, lambda *xs: f(it, *xs), list(args))
        if out is not None:
            setitem(it, out, SliceV(None, None, None), r)
            return out
        if not isinstance(r, ArrObj):
            r = np_scalar(r)
        return r
    return Builtin("np." + name, g)


def np_scalar(v):
    if isinstance(v, Num) and not v.np:
        return Num(v.kind, v.p, True)
    return v


def reg(name):
    def d(f):
        NP[name] = Builtin("np." + name, f)
        return f
    return d


for _n, _f in [("sqrt", f_sqrt), ("sin", f_sin), ("cos", f_cos), ("tan", f_tan), ("arccos", f_arccos), ("arcsin", f_arcsin), ("floor", f_floor), ("ceil", f_ceil), ("log2", f_log2), ("exp", f_exp),
               ("abs", f_abs), ("absolute", f_abs), ("fabs", f_abs), ("sign", f_sign), ("square", f_square)]:
    NP[_n] = ufunc(_n, _f)
NP["negative"] = ufunc("negative", s_neg)
NP["real"] = ufunc("real", lambda it, v: mk("f", v.re, True) if isinstance(v, Cx) else v)
NP["imag"] = ufunc("imag", lambda it, v: mk("f", v.im, True) if isinstance(v, Cx) else mk("f", ZERO, True))
NP["conj"] = NP["conjugate"] = ufunc("conj", lambda it, v: Cx(v.re, -v.im) if isinstance(v, Cx) else v)
NP["logical_not"] = ufunc("logical_not", lambda it, v: mkb(bnot(bool_of(v)), True))
NP["trunc"] = ufunc("trunc", lambda it, v: mk("f", trunc(poly_of(v)), True))
NP["deg2rad"] = NP["radians"] = ufunc("deg2rad", lambda it, v: mk("f", poly_of(v) * PI * Fraction(1, 180), True))
NP["isnan"] = ufunc("isnan", lambda it, v: False)
NP["isinf"] = ufunc("isinf", lambda it, v: False)
NP["isfinite"] = ufunc("isfinite", lambda it, v: True)
for _n, _op in [("add", ast.Add), ("subtract", ast.Sub), ("multiply", ast.Mult), ("divide", ast.Div), ("true_divide", ast.Div), ("power", ast.Pow), ("mod", ast.Mod), ("remainder", ast.Mod), ("floor_divide", ast.FloorDiv),
                ("bitwise_and", ast.BitAnd), ("bitwise_or", ast.BitOr)]:
    def _mk(op):
        def f(it, a, b):
            def n(x):
                return Num(x.kind, x.p, True) if isinstance(x, Num) else Num("i", P(x), True) if isinstance(x, int) and not isinstance(x, bool) else x
            return s_binop(it, op(), n(a), n(b))
        return f
    NP[_n] = ufunc(_n, _mk(_op), 2)
for _n, _op in [("greater", ast.Gt), ("less", ast.Lt), ("greater_equal", ast.GtE), ("less_equal", ast.LtE), ("equal", ast.Eq), ("not_equal", ast.NotEq)]:
    NP[_n] = ufunc(_n, (lambda op: lambda it, a, b: s_compare(it, op(), a, b))(_op), 2)
NP["maximum"] = NP["fmax"] = ufunc("maximum", f_max, 2)
NP["minimum"] = NP["fmin"] = ufunc("minimum", f_min, 2)
NP["hypot"] = ufunc("hypot", lambda it, a, b: mk("f", p_sqrt(it, poly_of(a) ** 2 + poly_of(b) ** 2), True), 2)


def _logical(name, op):
    u = ufunc(name, lambda it, a, b: mkb(op(bool_of(a), bool_of(b)), True), 2)

    def reduce(it, args, kw):
        xs = args[0]
        ax = kw.get("axis", args[1] if len(args) > 1 else 0)
        d = to_arr(it, xs)
        if ax is None:
            return reduce_bool(it, d, name == "logical_and")
        return reduce_axis_bool(it, d, ax, name == "logical_and")
    u.reduce = Builtin("np.%s.reduce" % name, reduce)
    return u


NP["logical_and"] = _logical("logical_and", band)
NP["logical_or"] = _logical("logical_or", bor)
NP["logical_xor"] = ufunc("logical_xor", lambda it, a, b: mkb(bnot(iff(bool_of(a), bool_of(b))), True), 2)


def to_b(e):
    return e if isinstance(e, B) else ne(e, 0) if isinstance(e, Poly) else bnot(band(eq(e[0], 0), eq(e[1], 0)))


def reduce_bool(it, d, isall):
    if d.mode == "c":
        r = band(*[to_b(e) for e in d.elems]) if isall else bor(*[to_b(e) for e in d.elems])
        return mkb(r, True)
    if d.mode == "g":
        r = band(*[implies(g, to_b(e)) for g, e in d.elems]) if isall else bor(*[band(g, to_b(e)) for g, e in d.elems])
        return mkb(r, True)

    def rec(i, mp):
        if i == len(d.shape):
            return subst_b(to_b(d.elems), mp)
        q = forall if isall else exists
        return q(0, dimP(d.shape[i]), lambda k: rec(i + 1, {**mp, KID[i]: k}))
    return mkb(rec(0, {}), True)


def reduce_axis_bool(it, d, axis, isall):
    nd = len(d.shape)
    axis = axis % nd
    shape = d.shape[:axis] + d.shape[axis + 1:]
    if not shape:
        return reduce_bool(it, d, isall)

    def fn(idx):
        full = lambda k: list(idx[:axis]) + [k] + list(idx[axis:])
        n = dimP(d.shape[axis])
        if n.is_const():
            xs = [to_b(at(d, full(P(i)))) for i in range(int(n.const()))]
            return band(*xs) if isall else bor(*xs)
        q = forall if isall else exists
        return q(0, n, lambda k: to_b(at(d, full(k))))
    return it.c.arr(from_fn(it, shape, "b", fn))


@reg("all")
def np_all(it, args, kw):
    return _bool_red(it, args, kw, True)


@reg("any")
def np_any(it, args, kw):
    return _bool_red(it, args, kw, False)


def _bool_red(it, args, kw, isall):
    v = args[0]
    ax = kw.get("axis", args[1] if len(args) > 1 else None)
    if isinstance(v, GenV):
        # numpy treats a generator as one (true) object
        return True
    d = to_arr(it, v)
    if ax is None:
        return reduce_bool(it, d, isall)
    return reduce_axis_bool(it, d, ax, isall)


NP["alltrue"] = NP["all"]
NP["sometrue"] = NP["any"]


# --------------------------------------------------------------------------- sums, maxima, filters
REG = {}
NAMES = {}


def index_params(body):
    """Index variables (other than K[0]) that occur free in a template."""
    fv = fv_poly(body) if isinstance(body, Poly) else fv_b(body)
    out = []
    for v in sorted(fv):
        a = T.get_atom(v)
        if v == KID[0]:
            continue
        if a.sort == "I" and a.data[0][0] in "$!":
            out.append(v)
    return out


def define(kind, body):
    """Function symbol for a body template over K[0]; returns (name, actual parameter polys)."""
    ps = index_params(body)
    mp = {v: var("$p%d" % i, "I") for i, v in enumerate(ps)}
    b = subst(body, mp) if isinstance(body, Poly) else subst_b(body, mp)
    key = (kind, b, kind == "cnt" and bool(MANUAL))
    if key not in REG:
        name = "%s%d" % (kind, len(REG))
        REG[key] = name
        NAMES[name] = (kind, b, len(ps))
        _install(name, kind, b, len(ps))
    return REG[key], [atom_poly(T.get_atom(v)) for v in ps]


def _body(name, k, ps):
    kind, b, n = NAMES[name]
    mp = {var_id(var("$p%d" % i, "I")): p for i, p in enumerate(ps)}
    mp[KID[0]] = k
    return subst(b, mp) if isinstance(b, Poly) else subst_b(b, mp)


def sum_app(name, u, ps):
    """sum over 0 <= j < u of body(j)."""
    if u.is_const() and 0 <= u.const() <= 24:
        r = ZERO
        for j in range(int(u.const())):
            r = r + _body(name, P(j), ps)
        return r
    kind, b, n = NAMES[name]
    return app(name, u, *ps, sort="I" if is_int_poly(b) else "R")


def is01(b):
    """Body with values 0 and 1 only."""
    if b == ZERO or b == ONE:
        return True
    if len(b.d) == 1:
        (m, c), = b.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = T.get_atom(m[0][0])
            if a.kind == "ite":
                return is01(a.data[1]) and is01(a.data[2])
    if len(b.d) == 2 and b.d.get(()) == 1:
        return is01(ONE - b)
    return False


def _install(name, kind, b, npar):
    if kind == "sum":
        APP_HOOKS[name] = lambda u, *ps: sum_app(name, u, ps)
        nonneg01 = is01(b)

        def ax(args):
            u, ps = args[0], args[1:]
            sort = "I" if is_int_poly(b) else "R"
            s = app(name, u, *ps, sort=sort)
            f = lambda j: _body(name, j, ps)

            def one():
                prev = sum_app(name, u - 1, ps)
                out = [bor(lt(u, 1), eq(s, prev + f(u - 1))), bor(lt(0, u), eq(s, 0))]
                if nonneg01:
                    out += [bor(lt(u, 0), band(le(0, s), le(s, u)))]
                    # full and empty counts
                    out += [bor(lt(u, 0), lt(s, u), forall(0, u, lambda j: eq(f(j), 1)))]
                    out += [bor(lt(u, 0), lt(0, s), forall(0, u, lambda j: eq(f(j), 0)))]
                    out += [bor(lt(u, 0), eq(s, u), exists(0, u, lambda j: eq(f(j), 0)))]
                    out += [bor(lt(u, 0), eq(s, 0), exists(0, u, lambda j: eq(f(j), 1)))]
                else:
                    out += [bor(lt(u, 0), le(0, s), exists(0, u, lambda j: lt(f(j), 0)))]
                    out += [bor(le(u, 0), lt(0, s), exists(0, u, lambda j: le(f(j), 0)))]
                    out += [bor(lt(u, 0), eq(s, 0), exists(0, u, lambda j: ne(f(j), 0)))]
                return out
            yield (name, args), one
        S.AX[name] = ax

        def pairs(alist):
            out = []
            for x in alist[:6]:
                for y in alist[:6]:
                    if x is y or x[1:] != y[1:]:
                        continue
                    d = y[0] - x[0]
                    if d.is_const() and abs(d.const()) <= 1 or d.is_const() and d.const() < 0:
                        continue

                    def mkp(x=x, y=y):
                        sx, sy = sum_app(name, x[0], x[1:]), sum_app(name, y[0], y[1:])
                        f = lambda j: _body(name, j, x[1:])
                        return [bor(lt(x[0], 0), lt(y[0], x[0]), le(sx, sy), exists(x[0], y[0], lambda j: lt(f(j), 0))),
                                bor(lt(x[0], 0), le(y[0], x[0]), lt(sx, sy), exists(x[0], y[0], lambda j: le(f(j), 0)))]
                    out.append(((name, "mono", x, y), mkp))
            return out
        S.AXP[name] = pairs
    elif kind == "max":
        def ax(args):
            n, ps = args[0], args[1:]
            s = app(name, n, *ps, sort="I" if is_int_poly(b) else "R")
            f = lambda j: _body(name, j, ps)

            def one():
                return [bor(lt(n, 1), exists(0, n, lambda j: eq(f(j), s))), forall(0, n, lambda j: le(f(j), s))]
            yield (name, args), one
        S.AX[name] = ax
    elif kind == "cnt":
        # number of indices below u at which the mask holds; sel: the j-th of them
        selname, rankname = "sel" + name[3:], "rank" + name[3:]
        APP_HOOKS[name] = lambda u, *ps: cnt_app(name, u, ps)
        if MANUAL:
            return

        def ax(args):
            u, ps = args[0], args[1:]
            s = app(name, u, *ps, sort="I")
            m = lambda j: _body(name, j, ps)

            def one():
                prev = cnt_app(name, u - 1, ps)
                return [bor(lt(u, 1), band(m(u - 1), eq(s, prev + 1)), band(bnot(m(u - 1)), eq(s, prev))), bor(lt(0, u), eq(s, 0)),
                        bor(lt(u, 0), band(le(0, s), le(s, u))),
                        bor(lt(u, 0), lt(0, s), forall(0, u, lambda j: bnot(m(j)))),
                        bor(lt(u, 0), lt(s, u), forall(0, u, m)),
                        # every index that is kept has a position
                        forall(0, u, lambda j: bor(bnot(m(j)), band(le(0, cnt_app(name, j, ps)), lt(cnt_app(name, j, ps), s), eq(app(selname, cnt_app(name, j, ps), *ps, sort="I"), j))))]
            yield (name, args), one
        S.AX[name] = ax

        def pairs(alist):
            out = []
            for x in alist[:6]:
                for y in alist[:6]:
                    if x is y or x[1:] != y[1:]:
                        continue

                    def mkp(x=x, y=y):
                        sx, sy = cnt_app(name, x[0], x[1:]), cnt_app(name, y[0], y[1:])
                        m = lambda j: _body(name, j, x[1:])
                        return [bor(lt(x[0], 0), lt(y[0], x[0]), band(le(sx, sy), le(sy - sx, y[0] - x[0]))),
                                bor(lt(x[0], 0), le(y[0], x[0]), lt(sx, sy), forall(x[0], y[0], lambda j: bnot(m(j))))]
                    out.append(((name, "mono", x, y), mkp))
            return out
        S.AXP[name] = pairs

        def axsel(args):
            j, ps = args[0], args[1:]
            s = app(selname, j, *ps, sort="I")
            m = lambda i: _body(name, i, ps)

            def one():
                # position j is valid for bound u when 0 <= j < cnt(u); then sel(j) < u.
                # cnt(sel(j)) = j whenever j is a valid position for some bound (recorded by VALID)
                out = []
                for u in list(CNT_BOUNDS.get(name, ())):
                    if len(index_params(u)) == 0 or True:
                        c = cnt_app(name, u, ps)
                        out.append(bor(lt(j, 0), le(c, j), band(le(0, s), lt(s, u), m(s), eq(cnt_app(name, s, ps), j))))
                return out
            yield (selname, args), one
        S.AX[selname] = axsel

        def selpairs(alist):
            out = []
            for x in alist[:6]:
                for y in alist[:6]:
                    if x is y or x[1:] != y[1:]:
                        continue

                    def mkp(x=x, y=y):
                        res = []
                        for u in list(CNT_BOUNDS.get(name, ())):
                            c = cnt_app(name, u, x[1:])
                            a, b_ = app(selname, x[0], *x[1:], sort="I"), app(selname, y[0], *y[1:], sort="I")
                            m = lambda i: _body(name, i, x[1:])
                            res.append(bor(lt(x[0], 0), le(c, y[0]), le(y[0], x[0]), lt(a, b_)))
                            # nothing is kept between neighbouring positions
                            if y[0] - x[0] == ONE:
                                res.append(bor(lt(x[0], 0), le(c, y[0]), forall(a + 1, b_, lambda i: bnot(m(i)))))
                        return res
                    out.append(((selname, "mono", x, y), mkp))
            return out
        S.AXP[selname] = selpairs


CNT_BOUNDS = {}
MANUAL = []         # not empty: what is known about selections is given by the task instead of axioms


def cnt_app(name, u, ps):
    if u.is_const() and 0 <= u.const() <= 12:
        r = ZERO
        for j in range(int(u.const())):
            r = r + ite(_body(name, P(j), ps), 1, 0)
        return r
    return app(name, u, *ps, sort="I")


def filter_fn(ctx, n, mask):
    """(count, sel) of the positions k < n at which mask (template over K[0]) holds."""
    name, ps = define("cnt", mask)
    CNT_BOUNDS.setdefault(name, [])
    if n not in CNT_BOUNDS[name]:
        CNT_BOUNDS[name].append(n)
    selname = "sel" + name[3:]
    if MANUAL:
        c = app(name, n, *ps, sort="I")
        ctx.add_fact(band(le(0, c), le(c, n)))
    return app(name, n, *ps, sort="I"), lambda j: app(selname, j, *ps, sort="I")


def sum_poly(ctx, n, body):
    """Sum over 0 <= K[0] < n of body (template)."""
    n = dimP(n)
    if n.is_const():
        r = ZERO
        for j in range(int(n.const())):
            r = r + subst(body, {KID[0]: P(j)})
        return r
    if KID[0] not in fv_poly(body):
        return body * n
    # pull a constant factor out
    l = lead(body)
    if l != 1 and l != 0:
        return sum_poly(ctx, n, body * (1 / l)) * l
    name, ps = define("sum", body)
    return sum_app(name, n, ps)


def max_poly(it, n, body):
    """Maximum over 0 <= K[0] < n (n >= 1)."""
    n = dimP(n)
    if KID[0] not in fv_poly(body):
        return body
    if n.is_const():
        xs = [subst(body, {KID[0]: P(j)}) for j in range(int(n.const()))]
        r = xs[0]
        for x in xs[1:]:
            r = p_max(it, r, x)
        return r
    name, ps = define("max", body)
    return app(name, n, *ps, sort="I" if is_int_poly(body) else "R")


def reduce_num(it, d, axis, op, initial=None):
    """op in sum, max, min, prod"""
    if axis is not None:
        nd = len(d.shape)
        axis = axis % nd
        if nd > 1:
            shape = d.shape[:axis] + d.shape[axis + 1:]

            def fn(idx):
                n = d.shape[axis]
                if isinstance(n, int):
                    xs = [at(d, list(idx[:axis]) + [P(i)] + list(idx[axis:])) for i in range(n)]
                    return red_list(it, xs, d.dtype, op)
                raise Unsupported("reduction along a symbolic axis of a matrix")
            dt = d.dtype
            if dt == "b":
                d2 = astype(it, d, "i")
                return reduce_num(it, d2, axis, op)
            return it.c.arr(from_fn(it, shape, dt, fn))
    if d.dtype == "b" and op in ("sum", "prod"):
        d = astype(it, d, "i")
    if d.mode == "c":
        if not d.elems and op in ("max", "min"):
            raise it.c.exc("ValueError", "zero-size array to reduction operation")
        return elem_val(d.dtype, red_list(it, list(d.elems), d.dtype, op))
    if d.mode == "g":
        if op == "sum" and d.dtype in "fi":
            return elem_val(d.dtype, sum((ite(g, e, 0) for g, e in d.elems), ZERO))
        raise Unsupported("reduction of a guarded array")
    if len(d.shape) == 2:
        # fixed small second dimension
        if isinstance(d.shape[1], int) and op == "sum":
            t = ZERO
            for i in range(d.shape[1]):
                t = t + subst(d.elems, {KID[1]: P(i)})
            return mk(d.dtype, sum_poly(it.c, d.shape[0], t), True)
        if isinstance(d.shape[0], int) and op == "sum":
            t = ZERO
            for i in range(d.shape[0]):
                t = t + subst(d.elems, {KID[0]: P(i), KID[1]: K[0]})
            return mk(d.dtype, sum_poly(it.c, d.shape[1], t), True)
        raise Unsupported("reduction of a symbolic matrix")
    if len(d.shape) != 1:
        raise Unsupported("reduction")
    n = d.shape[0]
    if op == "sum":
        if d.dtype == "c":
            return Cx(sum_poly(it.c, n, d.elems[0]), sum_poly(it.c, n, d.elems[1]))
        return mk(d.dtype, sum_poly(it.c, n, d.elems), True)
    if op in ("max", "min") and d.dtype in "fi":
        if not it.c.decide(lt(0, n)):
            raise it.c.exc("ValueError", "zero-size array to reduction operation")
        return mk(d.dtype, max_poly(it, n, d.elems) if op == "max" else -max_poly(it, n, -d.elems), True)
    raise Unsupported("np.%s of a symbolic array" % op)


def red_list(it, xs, dt, op):
    if op == "sum":
        if dt == "c":
            return (sum((x[0] for x in xs), ZERO), sum((x[1] for x in xs), ZERO))
        r = ZERO
        for x in xs:
            r = r + x
        return r
    if op == "prod":
        if dt == "c":
            r = Cx(ONE, ZERO)
            for x in xs:
                r = cmul(r, Cx(*x))
            return (r.re, r.im)
        r = ONE
        for x in xs:
            r = r * x
        return r
    if dt == "b":
        return bor(*xs) if op == "max" else band(*xs)
    r = xs[0]
    for x in xs[1:]:
        r = p_max(it, r, x) if op == "max" else p_min(it, r, x)
    return r


def _red(name, op):
    def f(it, args, kw):
        kw = dict(kw)
        ax = kw.pop("axis", args[1] if len(args) > 1 else None)
        init = kw.pop("initial", None)
        if kw.pop("keepdims", False) or kw.pop("where", None) is not None:
            raise Unsupported("np.%s keyword" % name)
        kw.pop("dtype", None)
        if kw:
            raise Unsupported("np.%s keyword" % name)
        d = to_arr(it, args[0])
        if init is None:
            return reduce_num(it, d, ax, op)
        if ax is not None or len(d.shape) != 1 or d.dtype not in "fi" or op == "prod":
            raise Unsupported("np.%s keyword" % name)
        i = poly_of(init)
        if d.mode != "g" and not it.c.decide(lt(0, dimP(d.shape[0]))):
            return mk(d.dtype, i, True)
        r = poly_of(reduce_num(it, d, None, op))
        return mk(d.dtype, r + i if op == "sum" else p_max(it, r, i) if op == "max" else p_min(it, r, i), True)
    NP[name] = Builtin("np." + name, f)


for _n, _o in [("sum", "sum"), ("max", "max"), ("amax", "max"), ("min", "min"), ("amin", "min"), ("prod", "prod"), ("product", "prod")]:
    _red(_n, _o)
NP["nansum"], NP["nanmax"], NP["nanmin"] = NP["sum"], NP["max"], NP["min"]


def np_norm(it, args, kw):
    """np.linalg.norm: root of the sum of the squares, of a vector or along one axis."""
    kw = dict(kw)
    ax, keep, order = kw.pop("axis", None), kw.pop("keepdims", False), kw.pop("ord", args[1] if len(args) > 1 else None)
    d = to_arr(it, args[0])
    if kw or len(args) > 2 or order not in (None, 2) or d.dtype not in "fi" or ax is None and (len(d.shape) != 1 or keep) or ax is not None and not isinstance(ax, int):
        raise Unsupported("np.linalg.norm")
    s = reduce_num(it, arr_data(elementwise(it, lambda x: f_square(it, x), [it.c.arr(d)])), ax, "sum")
    r = NP["sqrt"].fn(it, [s], {})
    if keep:
        ax = ax % len(d.shape)
        e = arr_data(r)
        shape = d.shape[:ax] + (1,) + d.shape[ax + 1:]
        r = it.c.arr(from_fn(it, shape, "f", lambda idx: at(e, list(idx[:ax]) + list(idx[ax + 1:]))))
    return r


@reg("mean")
def np_mean(it, args, kw):
    d = to_arr(it, args[0])
    if kw or len(args) > 1 or len(d.shape) != 1:
        raise Unsupported("np.mean")
    s = reduce_num(it, d, None, "sum")
    return s_div(it, np_scalar(mk("f", poly_of(s), True)), mk("i", dimP(d.shape[0])))


@reg("ptp")
def np_ptp(it, args, kw):
    d = to_arr(it, args[0])
    return s_binop(it, ast.Sub(), reduce_num(it, d, None, "max"), reduce_num(it, d, None, "min"))


@reg("count_nonzero")
def np_count_nonzero(it, args, kw):
    if kw or len(args) > 1:
        raise Unsupported("count_nonzero axis")
    d = to_arr(it, args[0])
    if d.mode == "c":
        n = ZERO
        for e in d.elems:
            n = n + ite(to_b(e), 1, 0)
        return mk("i", n)
    if d.mode == "g":
        n = ZERO
        for g, e in d.elems:
            n = n + ite(band(g, to_b(e)), 1, 0)
        return mk("i", n)
    if len(d.shape) != 1:
        raise Unsupported("count_nonzero of a matrix")
    return mk("i", sum_poly(it.c, d.shape[0], ite(to_b(d.elems), 1, 0)))


@reg("cumsum")
def np_cumsum(it, args, kw):
    kw = dict(kw)
    ax = kw.pop("axis", args[1] if len(args) > 1 else None)
    kw.pop("dtype", None)
    if kw:
        raise Unsupported("cumsum keyword")
    d = to_arr(it, args[0])
    if d.dtype == "b":
        d = astype(it, d, "i")
    if d.mode in ("w", "cw"):
        return W.cumsum(it, d)
    if len(d.shape) != 1:
        if ax is None and d.mode == "c":
            d = ArrData((len(d.elems),), d.dtype, "c", d.elems)
        else:
            raise Unsupported("cumsum of a matrix")
    if d.mode == "c":
        out, s = [], ZERO
        for e in d.elems:
            s = s + e
            out.append(s)
        return it.c.arr(ArrData(d.shape, d.dtype, "c", tuple(out)))
    if d.mode != "s" or d.dtype not in "fi":
        raise Unsupported("cumsum")
    return it.c.arr(ArrData(d.shape, d.dtype, "s", sum_poly(it.c, K[0] + 1, d.elems)))


# --------------------------------------------------------------------------- creation
def dtype_arg(it, v):
    if v is None:
        return None
    if isinstance(v, TypeV):
        if v.dtype is None:
            raise Unsupported("dtype %s" % v.name)
        return v.dtype
    if isinstance(v, str):
        t = {"float": "f", "float64": "f", "f8": "f", "d": "f", "f": "f", "int": "i", "int64": "i", "bool": "b", "complex": "c", "complex128": "c", "str": "s"}.get(v)
        if t:
            return t
    raise Unsupported("dtype %r" % (v,))


def getkw(it, args, kw, names, defaults=()):
    """Bind arguments of a modelled function."""
    out = dict(zip(names, args))
    if len(args) > len(names):
        raise it.c.exc("TypeError", "too many arguments")
    for k, v in kw.items():
        if k not in names:
            raise Unsupported("keyword %s" % k)
        if k in out:
            raise it.c.exc("TypeError", "multiple values for %s" % k)
        out[k] = v
    res = []
    nd = len(names) - len(defaults)
    for i, n in enumerate(names):
        if n in out:
            res.append(out[n])
        elif i >= nd:
            res.append(defaults[i - nd])
        else:
            raise it.c.exc("TypeError", "missing argument %s" % n)
    return res


@reg("asarray")
def np_asarray(it, args, kw):
    v, dt, order = getkw(it, args, kw, ["a", "dtype", "order"], (None, None))
    dt = dtype_arg(it, dt)
    if isinstance(v, ArrObj):
        d = arr_data(v)
        if dt is None or d.dtype == dt:
            return v
        return it.c.arr(astype(it, d, dt))
    return it.c.arr(to_arr(it, v, dt))


NP["asanyarray"] = NP["asarray"]
NP["ascontiguousarray"] = NP["asarray"]


@reg("array")
def np_array(it, args, kw):
    v, dt, copy, ndmin = getkw(it, args, kw, ["object", "dtype", "copy", "ndmin"], (None, True, 0))
    if ndmin != 0 or copy is not True:
        raise Unsupported("np.array arguments")
    if v is None:
        return it.c.arr(ArrData((), "o", "c", (None,)))
    return it.c.arr(to_arr(it, v, dtype_arg(it, dt)))


@reg("copy")
def np_copy(it, args, kw):
    return it.c.arr(to_arr(it, args[0]))


def shape_arg(it, v):
    if is_number(v):
        xs = [v]
    else:
        xs = it.concrete_list(v)
    out = []
    for x in xs:
        if not is_number(x) or kind_of(x) == "f":
            raise it.c.exc("TypeError", "shape must be integers")
        p = poly_of(x)
        if not p.is_const():
            if not it.c.decide(le(0, p)):
                raise it.c.exc("ValueError", "negative dimensions are not allowed")
        elif p.const() < 0:
            raise it.c.exc("ValueError", "negative dimensions are not allowed")
        out.append(norm_dim(p))
    return tuple(out)


def full(it, shape, dtype, e):
    return it.c.arr(from_fn(it, shape, dtype, lambda idx: e))


@reg("zeros")
def np_zeros(it, args, kw):
    s, dt, o = getkw(it, args, kw, ["shape", "dtype", "order"], (None, None))
    dt = dtype_arg(it, dt) or "f"
    return full(it, shape_arg(it, s), dt, cast(it, ZERO, "i", dt))


@reg("ones")
def np_ones(it, args, kw):
    s, dt, o = getkw(it, args, kw, ["shape", "dtype", "order"], (None, None))
    dt = dtype_arg(it, dt) or "f"
    return full(it, shape_arg(it, s), dt, cast(it, ONE, "i", dt))


@reg("empty")
def np_empty(it, args, kw):
    s, dt, o = getkw(it, args, kw, ["shape", "dtype", "order"], (None, None))
    dt = dtype_arg(it, dt) or "f"
    it.c.sk += 1
    n = "garbage%d" % it.c.sk
    if dt != "f":
        raise Unsupported("np.empty of dtype %s" % dt)
    return it.c.arr(from_fn(it, shape_arg(it, s), dt, lambda idx: app(n, *idx)))


@reg("full")
def np_full(it, args, kw):
    s, v, dt, o = getkw(it, args, kw, ["shape", "fill_value", "dtype", "order"], (None, None))
    dt = dtype_arg(it, dt) or kind_of(v)
    return full(it, shape_arg(it, s), dt, elem_of(it, v, dt))


def _like(name, base):
    def f(it, args, kw):
        a = to_arr(it, args[0])
        kw = dict(kw)
        sh = kw.pop("shape", None)
        dt = dtype_arg(it, kw.pop("dtype", None)) or a.dtype
        if name == "full_like":
            v = kw.pop("fill_value", args[1] if len(args) > 1 else None)
            e = elem_of(it, v, dt)
        else:
            if len(args) > 1:
                dt = dtype_arg(it, args[1])
            e = cast(it, base, "i", dt)
        if kw or sh is not None:
            raise Unsupported(name)
        return full(it, a.shape, dt, e)
    NP[name] = Builtin("np." + name, f)


_like("zeros_like", ZERO)
_like("ones_like", ONE)
_like("full_like", None)


@reg("empty_like")
def np_empty_like(it, args, kw):
    return np_empty(it, [tuple(mk("i", dimP(s)) for s in to_arr(it, args[0]).shape)], kw)


@reg("eye")
def np_eye(it, args, kw):
    n = args[0]
    dt = dtype_arg(it, kw.get("dtype")) or "f"
    if not isinstance(n, int):
        raise Unsupported("np.eye")
    return it.c.arr(from_fn(it, (n, n), dt, lambda idx: cast(it, ONE if idx[0] == idx[1] else ZERO, "i", dt)))


NP["identity"] = NP["eye"]


@reg("arange")
def np_arange(it, args, kw):
    kw = dict(kw)
    dt = dtype_arg(it, kw.pop("dtype", None))
    if len(args) == 1 and not kw:
        a, b, s = 0, args[0], 1
    else:
        a, b, s = getkw(it, args, kw, ["start", "stop", "step"], (1,))
    ks = [kind_of(x) for x in (a, b, s)]
    k = "f" if "f" in ks else "i"
    pa, pb, ps = poly_of(a), poly_of(b), poly_of(s)
    if ps == ONE and is_int_poly(pb - pa):
        n = pb - pa
    else:
        q = s_div(it, mk("f", pb - pa, True), mk("f", ps, True)).p
        n = -mk_floor(-q)
    if n.is_const():
        n = P(max(0, int(n.const())))
    elif not it.c.decide(le(0, n)):
        n = ZERO
    return it.c.arr(from_fn(it, (n,), dt or k, lambda idx: pa + idx[0] * ps))


@reg("linspace")
def np_linspace(it, args, kw):
    a, b, n, endpoint, retstep, dt = getkw(it, args, kw, ["start", "stop", "num", "endpoint", "retstep", "dtype"], (50, True, False, None))
    if retstep is not False:
        raise Unsupported("linspace retstep")
    if isinstance(a, ArrObj) or isinstance(b, ArrObj):
        raise Unsupported("linspace of arrays")
    if kind_of(n) == "f":
        raise it.c.exc("TypeError", "linspace num")
    pn = poly_of(n)
    if not (pn.is_const() and pn.const() >= 0) and not it.c.decide(le(0, pn)):
        raise it.c.exc("ValueError", "Number of samples must be non-negative.")
    pa, pb = poly_of(a), poly_of(b)
    if it.truth(endpoint):
        den = pn - 1
    else:
        den = pn
    if pn.is_const() and pn.const() <= 1 or it.c.decide(le(den, 0)):
        return it.c.arr(from_fn(it, (pn,), "f", lambda idx: pa))
    r = inv(den)
    return it.c.arr(from_fn(it, (pn,), "f", lambda idx: pa + (pb - pa) * r * idx[0]))


# --------------------------------------------------------------------------- combination
def cat_data(it, xs, axis=0):
    """Concatenate arrays along an axis."""
    xs = [x for x in xs]
    if any(x.mode in ("w", "cw") for x in xs):
        return W.concat(it, xs)
    dt = join_dtype(*[x.dtype for x in xs])
    xs = [astype(it, x, dt) for x in xs]
    nd = len(xs[0].shape)
    if any(len(x.shape) != nd for x in xs):
        raise it.c.exc("ValueError", "all the input array dimensions must match")
    if nd == 0:
        raise it.c.exc("ValueError", "zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    for i in range(nd):
        if i != axis:
            for x in xs[1:]:
                if x.shape[i] != xs[0].shape[i] and not it.c.decide(eq(dimP(x.shape[i]), dimP(xs[0].shape[i]))):
                    raise it.c.exc("ValueError", "all the input array dimensions must match")
    if any(x.mode == "g" for x in xs):
        items = []
        for x in xs:
            if x.mode == "g":
                items += list(x.elems)
            elif x.mode == "c":
                items += [(TRUE, e) for e in x.elems]
            else:
                raise Unsupported("concatenation with a guarded array")
        return ArrData((guard_count(items),), dt, "g", tuple(items))
    offs = []
    n = ZERO
    for x in xs:
        offs.append(n)
        n = n + dimP(x.shape[axis])
    shape = list(xs[0].shape)
    shape[axis] = n
    live = [(x, o) for x, o in zip(xs, offs) if x.shape[axis] != 0]

    def fn(idx):
        k = idx[axis]
        e = None
        for x, o in reversed(live):
            ix = list(idx)
            ix[axis] = k - o
            if k.is_const() and o.is_const():
                # concrete selection
                if k.const() >= o.const() and (not isinstance(x.shape[axis], int) or k.const() < o.const() + x.shape[axis]):
                    return at(x, ix) if e is None or True else e
                continue
            hi = o + dimP(x.shape[axis])
            v = at_clamped(x, ix, axis)
            e = v if e is None else merge_elem(lt(k, hi), v, e)
        if e is None:
            raise Unsupported("empty concatenation")
        return e
    allc = all(isinstance(norm_dim(s), int) for s in shape)
    if not live:
        return ArrData(tuple(norm_dim(s) for s in shape), dt, "c", ())
    return from_fn(it, shape, dt, fn)


def at_clamped(x, ix, axis):
    """Element, tolerating an index that may lie outside (the caller guards it)."""
    if x.mode == "c" and x.shape[axis] == 1:
        ix = list(ix)
        ix[axis] = ZERO
    return at(x, ix)


@reg("concatenate")
def np_concatenate(it, args, kw):
    xs, axis = getkw(it, args, kw, ["arrays", "axis"], (0,))
    seq = it.iterate(xs)
    if seq[0] != "list":
        # a symbolic number of pieces of fixed length
        row = to_arr(it, seq[2](K[1]))
        if row.mode == "c" and len(row.shape) == 1:
            m = row.shape[0]
            n = seq[1]

            def fn(idx):
                k = idx[0]
                q = mk_div(k, m)
                r = mk_mod(k, m)
                e = None
                for i in range(m - 1, -1, -1):
                    v = subst_elem(row.elems[i], {KID[1]: q})
                    e = v if e is None else merge_elem(eq(r, i), v, e)
                return e
            return it.c.arr(from_fn(it, (n * m,), row.dtype, fn))
        raise Unsupported("concatenation of a symbolic number of arrays")
    ds = [to_arr(it, x) for x in seq[1]]
    if not ds:
        raise it.c.exc("ValueError", "need at least one array to concatenate")
    if axis is None:
        ds = [ravel(it, d) for d in ds]
        axis = 0
    return it.c.arr(cat_data(it, ds, axis))


@reg("append")
def np_append(it, args, kw):
    a, b, axis = getkw(it, args, kw, ["arr", "values", "axis"], (None,))
    da, db = to_arr(it, a), to_arr(it, b)
    if axis is None:
        da, db = ravel(it, da), ravel(it, db)
        axis = 0
    return it.c.arr(cat_data(it, [da, db], axis))


def atleast1(d):
    if d.shape == ():
        return ArrData((1,), d.dtype, "c", d.elems)
    return d


def seq_arrs(it, v):
    return [to_arr(it, x) for x in it.concrete_list(v)]


def expand(it, d, axis):
    """Insert an axis of length one."""
    shape = d.shape[:axis] + (1,) + d.shape[axis:]
    return from_fn(it, shape, d.dtype, lambda idx: at(d, list(idx[:axis]) + list(idx[axis + 1:])))


@reg("hstack")
def np_hstack(it, args, kw):
    ds = [atleast1(d) for d in seq_arrs(it, args[0])]
    return it.c.arr(cat_data(it, ds, 0 if len(ds[0].shape) == 1 else 1))


@reg("vstack")
def np_vstack(it, args, kw):
    ds = [atleast1(d) for d in seq_arrs(it, args[0])]
    ds = [expand(it, d, 0) if len(d.shape) == 1 else d for d in ds]
    return it.c.arr(cat_data(it, ds, 0))


NP["row_stack"] = NP["vstack"]


@reg("column_stack")
def np_column_stack(it, args, kw):
    ds = [atleast1(d) for d in seq_arrs(it, args[0])]
    ds = [expand(it, d, 1) if len(d.shape) == 1 else d for d in ds]
    return it.c.arr(cat_data(it, ds, 1))


@reg("stack")
def np_stack(it, args, kw):
    xs, axis = getkw(it, args, kw, ["arrays", "axis"], (0,))
    ds = seq_arrs(it, xs)
    nd = len(ds[0].shape) + 1
    axis = axis % nd
    return it.c.arr(cat_data(it, [expand(it, d, axis) for d in ds], axis))


@reg("insert")
def np_insert(it, args, kw):
    a, obj, vals, axis = getkw(it, args, kw, ["arr", "obj", "values", "axis"], (None,))
    d = to_arr(it, a)
    if axis is not None and not (len(d.shape) == 1 and axis in (0, -1)):
        raise Unsupported("np.insert axis")
    if len(d.shape) != 1:
        d = ravel(it, d)
    v = to_arr(it, vals)
    n = dimP(d.shape[0])
    if is_number(obj):
        pos = [obj]
        scalar = True
    else:
        pos = it.concrete_list(obj)
        scalar = False
    vs = [v.elems[0]] if v.shape == () else None
    if vs is None:
        if v.mode != "c" or len(v.shape) != 1:
            raise Unsupported("np.insert values")
        vs = list(v.elems)
        if scalar:
            pos = [pos[0]] * len(vs)
        elif len(vs) == 1:
            vs = vs * len(pos)
        elif len(vs) != len(pos):
            raise it.c.exc("ValueError", "np.insert shape mismatch")
    else:
        vs = vs * len(pos)
    vs = [cast(it, e, v.dtype, d.dtype) for e in vs]
    ps = []
    for x in pos:
        if kind_of(x) == "f":
            raise it.c.exc("IndexError", "np.insert index")
        p = poly_of(x)
        if it.c.decide(lt(p, 0)):
            p = p + n
            if it.c.decide(lt(p, 0)):
                raise it.c.exc("IndexError", "out of bounds")
        elif not it.c.decide(le(p, n)):
            raise it.c.exc("IndexError", "out of bounds")
        ps.append(p)
    # stable sort of the positions
    order = []
    for i, p in enumerate(ps):
        j = len(order)
        while j > 0 and it.c.decide(lt(p, ps[order[j - 1]])):
            j -= 1
        order.insert(j, i)
    pieces = []
    last = ZERO
    for i in order:
        pieces.append(view_data(d, (("sl", last, norm_dim(ps[i] - last), 1),)))
        pieces.append(ArrData((1,), d.dtype, "c", (vs[i],)))
        last = ps[i]
    pieces.append(view_data(d, (("sl", last, norm_dim(n - last), 1),)))
    return it.c.arr(cat_data(it, pieces, 0))


@reg("delete")
def np_delete(it, args, kw):
    d = to_arr(it, args[0])
    i = args[1]
    if not is_number(i) or len(d.shape) != 1 or kw:
        raise Unsupported("np.delete")
    n = dimP(d.shape[0])
    p = it.index_poly(poly_of(i), n)
    return it.c.arr(cat_data(it, [view_data(d, (("sl", ZERO, norm_dim(p), 1),)), view_data(d, (("sl", p + 1, norm_dim(n - p - 1), 1),))], 0))


@reg("diff")
def np_diff(it, args, kw):
    a, n, axis, prepend, append = getkw(it, args, kw, ["a", "n", "axis", "prepend", "append"], (1, -1, None, None))
    d = to_arr(it, a)
    if n != 1 or len(d.shape) != 1:
        raise Unsupported("np.diff arguments")
    parts = [d]
    if prepend is not None:
        parts.insert(0, atleast1(to_arr(it, prepend)))
    if append is not None:
        parts.append(atleast1(to_arr(it, append)))
    if len(parts) > 1:
        d = cat_data(it, parts)
    m = dimP(d.shape[0])
    cnt = m - 1
    if m.is_const():
        cnt = P(max(0, int(m.const()) - 1))
    elif not it.c.decide(le(1, m)):
        cnt = ZERO
    if d.dtype == "b":
        return it.c.arr(from_fn(it, (cnt,), "b", lambda idx: bnot(iff(at(d, [idx[0] + 1]), at(d, [idx[0]])))))
    return it.c.arr(from_fn(it, (cnt,), d.dtype, lambda idx: sub_elem(at(d, [idx[0] + 1]), at(d, [idx[0]]))))


def sub_elem(x, y):
    return x - y if isinstance(x, Poly) else (x[0] - y[0], x[1] - y[1])


@reg("ediff1d")
def np_ediff1d(it, args, kw):
    if kw or len(args) > 1:
        raise Unsupported("ediff1d")
    return np_diff(it, args, kw)


def ravel(it, d):
    if len(d.shape) == 1:
        return d
    if d.mode == "c":
        return ArrData((len(d.elems),), d.dtype, "c", d.elems)
    if len(d.shape) == 2:
        R, C = d.shape
        if isinstance(C, int):
            return from_fn(it, (dimP(R) * C,), d.dtype, lambda idx: at(d, [mk_div(idx[0], C), mk_mod(idx[0], C)]))
        if isinstance(R, int):
            def fn(idx):
                e = None
                for r in range(R - 1, -1, -1):
                    v = at(d, [P(r), idx[0] - C * r])
                    e = v if e is None else merge_elem(lt(idx[0], C * (r + 1)), v, e)
                return e
            return from_fn(it, (C * R,), d.dtype, fn)

        def fn(idx):
            q = mk_idiv(idx[0], C)
            return at(d, [q, idx[0] - q * C])
        return from_fn(it, (dimP(R) * C,), d.dtype, fn)
    raise Unsupported("flatten")


def reshape(it, d, shape):
    xs = [norm_dim(poly_of(x)) for x in (it.concrete_list(shape) if not is_number(shape) else [shape])]
    size = ONE
    for s in d.shape:
        size = size * dimP(s)
    if any(x == -1 for x in xs):
        rest = ONE
        for x in xs:
            if x != -1:
                rest = rest * dimP(x)
        q, r = _polydiv(it, size, rest) if not (size.is_const() and rest.is_const()) else (P(size.const() / rest.const()), P(size.const() % rest.const()))
        if r != ZERO and not it.c.quick(eq(r, 0)):
            raise Unsupported("reshape")
        xs = [norm_dim(q) if x == -1 else x for x in xs]
    tot = ONE
    for x in xs:
        tot = tot * dimP(x)
    if tot != size and not it.c.decide(eq(tot, size)):
        raise it.c.exc("ValueError", "cannot reshape array")
    f = ravel(it, d)
    if len(xs) == 1:
        return f
    if len(xs) == 2:
        return from_fn(it, xs, d.dtype, lambda idx: at(f, [idx[0] * dimP(xs[1]) + idx[1]]))
    if f.mode == "c" and all(isinstance(x, int) for x in xs):
        return ArrData(tuple(xs), d.dtype, "c", f.elems)
    raise Unsupported("reshape")


@reg("reshape")
def np_reshape(it, args, kw):
    return it.c.arr(reshape(it, to_arr(it, args[0]), args[1] if len(args) > 1 else kw["newshape"]))


@reg("ravel")
def np_ravel(it, args, kw):
    return it.c.arr(ravel(it, to_arr(it, args[0])))


@reg("transpose")
def np_transpose(it, args, kw):
    if len(args) > 1 or kw:
        raise Unsupported("transpose axes")
    return it.c.arr(transpose(it, to_arr(it, args[0])))


def transpose(it, d):
    if len(d.shape) < 2:
        return d
    return from_fn(it, tuple(reversed(d.shape)), d.dtype, lambda idx: at(d, list(reversed(idx))))


@reg("repeat")
def np_repeat(it, args, kw):
    a, r, axis = getkw(it, args, kw, ["a", "repeats", "axis"], (None,))
    d = atleast1(to_arr(it, a))
    if len(d.shape) != 1:
        raise Unsupported("repeat of a matrix")
    if isinstance(r, ArrObj) or isinstance(r, PyList):
        raise Unsupported("repeat with counts")
    pr = poly_of(r)
    n = dimP(d.shape[0])
    if n.is_const() and n.const() == 1:
        return it.c.arr(from_fn(it, (norm_dim(pr),), d.dtype, lambda idx: at(d, [ZERO])))
    if pr.is_const():
        m = int(pr.const())
        return it.c.arr(from_fn(it, (n * m,), d.dtype, lambda idx: at(d, [mk_div(idx[0], m)])))
    if d.mode == "c":
        C = pr

        def fn(idx):
            e = None
            for r_ in range(len(d.elems) - 1, -1, -1):
                v = d.elems[r_]
                e = v if e is None else merge_elem(lt(idx[0], C * (r_ + 1)), v, e)
            return e
        return it.c.arr(from_fn(it, (n * C,), d.dtype, fn))
    return it.c.arr(from_fn(it, (n * pr,), d.dtype, lambda idx: at(d, [mk_idiv(idx[0], pr)])))


@reg("tile")
def np_tile(it, args, kw):
    a, r = getkw(it, args, kw, ["A", "reps"])
    d = atleast1(to_arr(it, a))
    if len(d.shape) != 1 or not is_number(r):
        raise Unsupported("tile")
    pr = poly_of(r)
    n = dimP(d.shape[0])
    if n.is_const():
        m = int(n.const())
        if m == 0:
            return it.c.arr(d)
        return it.c.arr(from_fn(it, (pr * m,), d.dtype, lambda idx: at(d, [mk_mod(idx[0], m)])))
    if pr.is_const():
        return it.c.arr(cat_data(it, [d] * int(pr.const())))
    return it.c.arr(from_fn(it, (pr * n,), d.dtype, lambda idx: at(d, [idx[0] - mk_idiv(idx[0], n) * n])))


@reg("flip")
def np_flip(it, args, kw):
    d = to_arr(it, args[0])
    if len(d.shape) != 1:
        raise Unsupported("flip")
    n = dimP(d.shape[0])
    return it.c.arr(from_fn(it, d.shape, d.dtype, lambda idx: at(d, [n - 1 - idx[0]])))


@reg("where")
def np_where(it, args, kw):
    if len(args) == 1:
        return nonzero(it, to_arr(it, args[0]))
    c, a, b = args
    return elementwise(it, lambda m, x, y: _where(it, m, x, y), [c, a, b])


def _where(it, m, x, y):
    bm = bool_of(m)
    if isinstance(x, Cx) or isinstance(y, Cx):
        p, q = it.c.to_cx(x), it.c.to_cx(y)
        return Cx(ite(bm, p.re, q.re), ite(bm, p.im, q.im))
    if kind_of(x) == "b" and kind_of(y) == "b":
        return mkb(bor(band(bm, bool_of(x)), band(bnot(bm), bool_of(y))), True)
    k = "f" if "f" in (kind_of(x), kind_of(y)) else "i"
    return mk(k, ite(bm, poly_of(x), poly_of(y)), True)


def nonzero(it, d):
    if len(d.shape) != 1:
        raise Unsupported("where of a matrix")
    if d.mode == "g":
        raise Unsupported("where of a guarded array")
    if d.mode == "c":
        items = [(to_b(e), P(i)) for i, e in enumerate(d.elems)]
        if all(g.op == "const" for g, _ in items):
            r = ArrData((sum(1 for g, _ in items if g.args[0]),), "i", "c", tuple(e for g, e in items if g.args[0]))
        else:
            items = [(g, e) for g, e in items if not (g.op == "const" and not g.args[0])]
            r = ArrData((guard_count(items),), "i", "g", tuple(items))
        o = it.c.arr(r)
        m = FALSE
        for i, e in enumerate(d.elems):
            m = bor(m, band(eq(K[0], i), to_b(e)))
        o.tag = ("where", P(d.shape[0]), m)
        return (o,)
    mask = to_b(d.elems)
    cnt, sel = filter_fn(it.c, d.shape[0], mask)
    o = it.c.arr(ArrData((cnt,), "i", "s", sel(K[0])))
    o.tag = ("where", d.shape[0], mask)
    return (o,)


@reg("nonzero")
def np_nonzero(it, args, kw):
    return nonzero(it, to_arr(it, args[0]))


@reg("flatnonzero")
def np_flatnonzero(it, args, kw):
    return nonzero(it, ravel(it, to_arr(it, args[0])))[0]


@reg("argwhere")
def np_argwhere(it, args, kw):
    raise Unsupported("argwhere")


@reg("isclose")
def np_isclose(it, args, kw):
    a, b, rtol, atol, en = getkw(it, args, kw, ["a", "b", "rtol", "atol", "equal_nan"], (Num("f", P(Fraction(1, 100000))), Num("f", P(Fraction(1, 10 ** 8))), False))
    if any(isinstance(x, (PyList, tuple)) for x in (a, b)):
        a, b = [it.c.arr(to_arr(it, x)) if isinstance(x, (PyList, tuple)) else x for x in (a, b)]
    for x in (a, b):
        if x is None or isinstance(x, (str, PyObj, PyDict)):
            raise it.c.exc("TypeError", "isclose")
    return elementwise(it, lambda x, y, r, t: f_isclose(it, x, y, r, t), [a, b, rtol, atol])


@reg("allclose")
def np_allclose(it, args, kw):
    r = np_isclose(it, args, kw)
    if isinstance(r, ArrObj):
        return reduce_bool(it, arr_data(r), True)
    return r


@reg("array_equal")
def np_array_equal(it, args, kw):
    a, b = to_arr(it, args[0]), to_arr(it, args[1])
    if len(a.shape) != len(b.shape):
        return False
    for x, y in zip(a.shape, b.shape):
        if not it.c.decide(eq(dimP(x), dimP(y))):
            return False
    r = elementwise(it, lambda x, y: mkb(it.eq_b(x, y)), [it.c.arr(a), it.c.arr(b)])
    return reduce_bool(it, arr_data(r), True) if isinstance(r, ArrObj) else r


@reg("clip")
def np_clip(it, args, kw):
    a, lo, hi = getkw(it, args, kw, ["a", "a_min", "a_max"], (None, None))
    if lo is not None:
        a = elementwise(it, lambda x, y: f_max(it, x, y), [a, lo])
    if hi is not None:
        a = elementwise(it, lambda x, y: f_min(it, x, y), [a, hi])
    return a


@reg("size")
def np_size(it, args, kw):
    if len(args) > 1:
        return mk("i", dimP(to_arr(it, args[0]).shape[args[1]]))
    return arr_size(to_arr(it, args[0]))


@reg("shape")
def np_shape(it, args, kw):
    return tuple(mk("i", dimP(s)) for s in to_arr(it, args[0]).shape)


@reg("ndim")
def np_ndim(it, args, kw):
    return len(to_arr(it, args[0]).shape)


def arr_size(d):
    n = ONE
    for s in d.shape:
        n = n * dimP(s)
    return mk("i", n)


@reg("dot")
def np_dot(it, args, kw):
    a, b = to_arr(it, args[0]), to_arr(it, args[1])
    if a.shape == () or b.shape == ():
        return elementwise(it, lambda x, y: s_binop(it, ast.Mult(), x, y), [args[0], args[1]])
    dt = join_dtype(a.dtype, b.dtype)
    a, b = astype(it, a, dt), astype(it, b, dt)
    n, m = a.shape[-1], b.shape[0] if len(b.shape) == 1 else b.shape[-2]
    if n != m and not it.c.decide(eq(dimP(n), dimP(m))):
        raise it.c.exc("ValueError", "shapes not aligned")
    if dt == "c" and not isinstance(n, int):
        raise Unsupported("complex dot")

    def mul(x, y):
        if dt == "c":
            r = cmul(Cx(*x), Cx(*y))
            return (r.re, r.im)
        return x * y

    def inner(fa, fb):
        if isinstance(n, int):
            return red_list(it, [mul(fa(P(i)), fb(P(i))) for i in range(n)], dt, "sum")
        return sum_poly(it.c, n, mul(fa(K[0]), fb(K[0])))
    if len(a.shape) == 1 and len(b.shape) == 1:
        return elem_val(dt, inner(lambda k: at(a, [k]), lambda k: at(b, [k])))
    if not isinstance(n, int):
        raise Unsupported("matrix product of symbolic size")
    if len(a.shape) == 2 and len(b.shape) == 2:
        return it.c.arr(from_fn(it, (a.shape[0], b.shape[1]), dt, lambda ix: inner(lambda k: at(a, [ix[0], k]), lambda k: at(b, [k, ix[1]]))))
    if len(a.shape) == 2 and len(b.shape) == 1:
        return it.c.arr(from_fn(it, (a.shape[0],), dt, lambda ix: inner(lambda k: at(a, [ix[0], k]), lambda k: at(b, [k]))))
    if len(a.shape) == 1 and len(b.shape) == 2:
        return it.c.arr(from_fn(it, (b.shape[1],), dt, lambda ix: inner(lambda k: at(a, [k]), lambda k: at(b, [k, ix[0]]))))
    raise Unsupported("dot")


NP["matmul"] = NP["dot"]


@reg("outer")
def np_outer(it, args, kw):
    a, b = ravel(it, atleast1(to_arr(it, args[0]))), ravel(it, atleast1(to_arr(it, args[1])))
    dt = join_dtype(a.dtype, b.dtype)
    if dt == "c":
        raise Unsupported("complex outer")
    return it.c.arr(from_fn(it, (a.shape[0], b.shape[0]), dt, lambda ix: at(a, [ix[0]]) * at(b, [ix[1]])))


@reg("unique")
def np_unique(it, args, kw):
    kw = dict(kw)
    rc = kw.pop("return_counts", False)
    if kw or len(args) > 1:
        raise Unsupported("np.unique arguments")
    d = to_arr(it, args[0])
    if len(d.shape) != 1:
        d = ravel(it, d)
    if d.mode == "cw":
        return W.unique(it, d, rc is True)
    if d.mode != "c" or d.dtype not in "fi":
        raise Unsupported("np.unique of a symbolic array")
    groups = []
    for e in d.elems:
        lo = 0
        hi = len(groups)
        # binary search with decided comparisons (the order is usually known from signs)
        pos = None
        while lo < hi:
            m = (lo + hi) // 2
            g = groups[m]
            if g[0] == e:
                pos = m
                break
            if it.c.decide(lt(e, g[0])):
                hi = m
            elif it.c.decide(lt(g[0], e)):
                lo = m + 1
            else:
                pos = m
                break
        if pos is None:
            groups.insert(lo, [e, 1])
        else:
            groups[pos][1] += 1
    vals = it.c.arr(ArrData((len(groups),), d.dtype, "c", tuple(g[0] for g in groups)))
    if rc:
        return (vals, it.c.arr(ArrData((len(groups),), "i", "c", tuple(P(g[1]) for g in groups))))
    return vals


@reg("sort")
def np_sort(it, args, kw):
    d = to_arr(it, args[0])
    if d.mode != "c" or len(d.shape) != 1 or kw or len(args) > 1 or d.dtype not in "fi":
        raise Unsupported("np.sort")
    out = []
    for e in d.elems:
        j = len(out)
        while j > 0 and it.c.decide(lt(e, out[j - 1])):
            j -= 1
        out.insert(j, e)
    return it.c.arr(ArrData(d.shape, d.dtype, "c", tuple(out)))


@reg("argmax")
def np_argmax(it, args, kw):
    d = to_arr(it, args[0])
    if d.mode != "c" or len(d.shape) != 1 or kw:
        raise Unsupported("argmax")
    best = 0
    for i in range(1, len(d.elems)):
        if it.c.decide(lt(d.elems[best], d.elems[i])):
            best = i
    return best


@reg("binary_repr")
def np_binary_repr(it, args, kw):
    n, width = getkw(it, args, kw, ["num", "width"], (None,))
    if isinstance(n, int):
        import numpy
        return numpy.binary_repr(n, width)
    p = poly_of(n)
    top = None
    for e in range(0, 40):
        if it.c.quick(le(2 ** e, p)) and it.c.quick(lt(p, 2 ** (e + 1))):
            top = e
            break
    if top is None:
        raise Unsupported("binary_repr of a number of unknown size")
    parts = [("bit", bit(it, p, i)) for i in range(top, -1, -1)]
    if width is not None and isinstance(width, int):
        parts = [("bit", ZERO)] * max(0, width - len(parts)) + parts
    return SStr(parts)


def bit(it, p, i):
    """i-th binary digit; resolved directly when p is a sum of distinct 0/1 variables times powers of two."""
    q = mk_mod(mk_div_(it, p, 2 ** i), 2)
    for a in (ZERO, ONE):
        pass
    return q


def mk_div_(it, p, k):
    """floor(p/k), dropping a remainder that the facts bound by 0 <= r < k."""
    hi = Poly({m: c for m, c in p.d.items() if c % k == 0})
    r = p - hi
    if r.d and it.c.quick(le(0, r)) and it.c.quick(lt(r, k)):
        return Poly({m: c / k for m, c in hi.d.items()})
    return mk_div(p, k)


# --------------------------------------------------------------------------- indexing
def basic_spec(it, d, idx):
    """Spec of a basic index, or None for advanced indexing."""
    if not isinstance(idx, tuple):
        idx = (idx,)
    if Ellipsis in [x for x in idx if not isinstance(x, Heap)]:
        n = sum(1 for x in idx if x is not None and x is not Ellipsis)
        out = []
        for x in idx:
            if x is Ellipsis:
                out += [SliceV(None, None, None)] * (len(d.shape) - n)
            else:
                out.append(x)
        idx = tuple(out)
    spec = []
    dim = 0
    for x in idx:
        if x is None:
            spec.append(("new",))
            continue
        if isinstance(x, (ArrObj, PyList, tuple)):
            return None
        if dim >= len(d.shape):
            raise it.c.exc("IndexError", "too many indices for array")
        n = dimP(d.shape[dim])
        if isinstance(x, SliceV):
            spec.append(slice_spec(it, x, n))
        elif isinstance(x, (bool, SBool)):
            return None
        elif is_number(x):
            if kind_of(x) == "f":
                raise it.c.exc("IndexError", "only integers, slices are valid indices")
            spec.append(("pt", it.index_poly(poly_of(x), n)))
        else:
            raise it.c.exc("IndexError", "invalid index")
        dim += 1
    while dim < len(d.shape):
        spec.append(("sl", ZERO, norm_dim(dimP(d.shape[dim])), 1))
        dim += 1
    return tuple(spec)


def slice_spec(it, s, n):
    c = it.c
    step = 1 if s.c is None else s.c
    if not isinstance(step, int) or step == 0:
        raise Unsupported("slice step")
    for x in (s.a, s.b):
        if x is not None and (not is_number(x) or kind_of(x) == "f"):
            raise c.exc("TypeError", "slice indices must be integers")
    if n.is_const() and all(x is None or isinstance(x, int) for x in (s.a, s.b)):
        r = range(*slice(s.a, s.b, step).indices(int(n.const())))
        return ("sl", P(r.start), len(r), step)
    if step == -1 and s.a is None and s.b is None:
        return ("sl", n - 1, norm_dim(n), -1)
    if step < 0:
        raise Unsupported("negative slice step")
    a, cnt = it.slice_bounds(SliceV(s.a, s.b, None), n)
    if step > 1:
        cnt = -mk_div(-cnt, step) if is_int_poly(cnt) else cnt
    return ("sl", a, norm_dim(cnt), step)


def getitem(it, o, idx):
    d = arr_data(o)
    if d.mode in ("w", "cw"):
        return W.getitem(it, o, d, idx)
    if d.mode == "g":
        if isinstance(idx, SliceV) and idx.a is None and idx.b is None and idx.c is None:
            return o
        if isinstance(idx, int) and idx == 0 and d.elems and d.elems[0][0] == TRUE:
            return elem_val(d.dtype, d.elems[0][1])
        if isinstance(idx, int) and idx == -1 and d.elems and d.elems[-1][0] == TRUE:
            return elem_val(d.dtype, d.elems[-1][1])
        if isinstance(idx, ArrObj):
            return adv_get(it, o, d, idx)
        raise Unsupported("index into a guarded array")
    spec = basic_spec(it, d, idx)
    if spec is None:
        return adv_get(it, o, d, idx)
    if all(s[0] == "pt" for s in spec):
        note_read(it, o, spec)
        return elem_val(d.dtype, it.c.resolve(at(d, [s[1] for s in spec])))
    note_read(it, o, spec)
    v = ArrObj(None)
    v.base = o
    v.spec = spec
    return it.c.alloc(v)


def getitem_at(it, o, i):
    """o[i] for an index known to be in range."""
    d = arr_data(o)
    spec = (("pt", i),) + tuple(("sl", ZERO, norm_dim(dimP(s)), 1) for s in d.shape[1:])
    note_read(it, o, spec)
    if len(d.shape) == 1:
        return elem_val(d.dtype, it.c.resolve(at(d, [i])))
    v = ArrObj(None)
    v.base = o
    v.spec = spec
    return it.c.alloc(v)


def note_read(it, o, spec):
    if it.c.reads is not None:
        r, s = root_of(o, spec)
        it.c.reads.append((r, s))


def root_of(o, spec):
    while o.base is not None:
        spec = compose(o.spec, spec)
        o = o.base
    return o, spec


def compose(outer, inner):
    """outer: spec of the view on its base; inner: spec on the view."""
    inner = list(inner)
    inner_real = [s for s in inner]
    out = []
    for s in outer:
        if s[0] == "pt":
            out.append(s)
        elif s[0] == "new":
            x = inner_real.pop(0)
            # selecting position 0 of a new axis (or all of it) leaves the base untouched
        else:
            while inner_real and inner_real[0][0] == "new":
                inner_real.pop(0)
            x = inner_real.pop(0)
            if x[0] == "pt":
                out.append(("pt", s[1] + x[1] * s[3]))
            else:
                out.append(("sl", s[1] + x[1] * s[3], x[2], s[3] * x[3]))
    return tuple(out)


def adv_get(it, o, d, idx):
    if isinstance(idx, tuple):
        return adv_get_tuple(it, o, d, idx)
    if isinstance(idx, (bool, SBool)):
        raise Unsupported("boolean scalar index")
    x = to_arr(it, idx)
    if x.shape == (0,) and x.mode == "c" and not isinstance(idx, ArrObj):
        x = ArrData((0,), "i", "c", ())
    if x.dtype == "b":
        if len(x.shape) != 1:
            if d.mode == "c" and x.mode == "c" and x.shape == d.shape:
                items = [(b, e) for b, e in zip(x.elems, d.elems)]
                return it.c.arr(guard_arr(items, d.dtype))
            raise Unsupported("boolean index with a matrix")
        if d.mode == "g":
            if x.mode != "g" or [g for g, _ in x.elems] != [g for g, _ in d.elems]:
                raise Unsupported("boolean index of a guarded array")
            items = [(band(g, b), e) for (g, e), (_, b) in zip(d.elems, x.elems)]
            return it.c.arr(guard_arr(items, d.dtype))
        if x.shape[0] != d.shape[0] and not it.c.decide(eq(dimP(x.shape[0]), dimP(d.shape[0]))):
            raise it.c.exc("IndexError", "boolean index did not match indexed array")
        if x.mode == "c" and d.mode == "c":
            if len(d.shape) == 1:
                return it.c.arr(guard_arr(list(zip(x.elems, d.elems)), d.dtype))
            if all(e.op == "const" for e in x.elems):
                rows = [i for i, e in enumerate(x.elems) if e.args[0]]
                return it.c.arr(from_fn(it, (len(rows),) + d.shape[1:], d.dtype, lambda ix: at(d, [P(rows[int(ix[0].const())])] + list(ix[1:]))))
            raise Unsupported("boolean row selection")
        if x.mode == "s":
            f = x.elems
        else:
            f = bor(FALSE, *[band(eq(K[0], i), e) for i, e in enumerate(x.elems)])
        if f.op == "const":
            return it.c.arr(d) if f.args[0] else it.c.arr(ArrData((0,), d.dtype, "c", ()))
        cnt, sel = filter_fn(it.c, dimP(x.shape[0]), f)
        r = ArrData((cnt,) + d.shape[1:], d.dtype, "s", at(d, [sel(K[0])] + list(K[1:len(d.shape)])))
        return it.c.arr(r)
    if x.dtype == "i":
        n = dimP(d.shape[0])

        def norm(p):
            if it.c.quick(le(0, p)):
                return p
            if it.c.quick(lt(p, 0)):
                return p + n
            return ite(lt(p, 0), p + n, p)
        if d.mode == "g" or x.mode == "g":
            if x.mode == "g" and d.mode == "c" and len(d.shape) == 1:
                return it.c.arr(ArrData(x.shape, d.dtype, "g", tuple((g, at(d, [e])) for g, e in x.elems)))
            raise Unsupported("index array with guards")
        rng = in_bounds(it, x, n)
        if not it.c.decide(rng):
            raise it.c.exc("IndexError", "index out of bounds")
        return it.c.arr(from_fn(it, x.shape + d.shape[1:], d.dtype, lambda ix: at(d, [norm(at(x, ix[:len(x.shape)]))] + list(ix[len(x.shape):]))))
    raise it.c.exc("IndexError", "arrays used as indices must be of integer (or boolean) type")


def in_bounds(it, x, n):
    f = lambda p: band(le(-n, p), lt(p, n))
    if x.mode == "c":
        return band(*[f(e) for e in x.elems])
    return bool_of(reduce_bool(it, ArrData(x.shape, "b", "s", f(x.elems)), True))


def guard_arr(items, dtype):
    items = [(g, e) for g, e in items if not (g.op == "const" and not g.args[0])]
    if all(g.op == "const" for g, _ in items):
        return ArrData((len(items),), dtype, "c", tuple(e for _, e in items))
    return ArrData((guard_count(items),), dtype, "g", tuple(items))


def adv_get_tuple(it, o, d, idx):
    adv = [i for i, x in enumerate(idx) if isinstance(x, (ArrObj, PyList))]
    if len(adv) == 1 and all(isinstance(x, SliceV) and x.a is None and x.b is None and x.c is None for i, x in enumerate(idx) if i not in adv) and len(idx) == 2 and len(d.shape) == 2:
        if adv[0] == 0:
            return adv_get(it, o, d, idx[0])
        t = it.c.arr(transpose(it, d))
        r = adv_get(it, t, arr_data(t), idx[1])
        return it.c.arr(transpose(it, arr_data(r)))
    if len(adv) == len(idx) == len(d.shape) and all(to_arr(it, x).dtype == "i" for x in idx):
        xs = [to_arr(it, x) for x in idx]
        sh = bshape(it, [x.shape for x in xs])
        return it.c.arr(from_fn(it, sh, d.dtype, lambda ix: at(d, [bat(x, ix) for x in xs])))
    if len(adv) == 1 and len(idx) == 2 and len(d.shape) == 2:
        # a[i, mask] / a[i, indices]
        j = 1 - adv[0]
        if is_number(idx[j]):
            row = getitem(it, o, (idx[j],) if j == 0 else (SliceV(None, None, None), idx[j]))
            return getitem(it, row, idx[adv[0]])
    raise Unsupported("advanced indexing")


def setitem(it, o, idx, v):
    d = arr_data(o)
    if isinstance(idx, ArrObj) and arr_data(idx).mode == "w" and arr_data(idx).dtype == "b":
        val = to_arr(it, v)
        if val.shape != () or o.base is not None:
            raise Unsupported("assignment through the mask of a word")
        return W.masked_set(it, o, d, arr_data(idx), cast(it, val.elems[0], val.dtype, d.dtype))
    if d.mode in ("w", "cw"):
        raise Unsupported("assignment into a word")
    if d.mode == "g":
        raise Unsupported("assignment into a guarded array")
    spec = basic_spec(it, d, idx)
    if spec is None:
        return adv_set(it, o, d, idx, v)
    shape = tuple(s[2] if s[0] == "sl" else 1 for s in spec if s[0] != "pt")
    if isinstance(v, (str,)) and d.dtype != "s" or v is None or isinstance(v, (PyObj, PyDict)):
        raise it.c.exc("TypeError", "float() argument must be a number")
    val = to_arr(it, v)
    if val.mode == "g":
        raise Unsupported("assignment from a guarded array")
    if len(val.shape) > len(shape):
        # leading axes of length one are dropped
        while len(val.shape) > len(shape) and val.shape[0] == 1:
            val = view_data(val, (("pt", ZERO),) + tuple(("sl", ZERO, s, 1) for s in val.shape[1:]))
        if len(val.shape) > len(shape):
            raise it.c.exc("ValueError", "setting an array element with a sequence.")
    b = bshape(it, [shape, val.shape]) if val.shape else shape
    if tuple(norm_dim(x) for x in b) != tuple(norm_dim(x) for x in shape):
        for x, y in zip(b, shape):
            if norm_dim(x) != norm_dim(y) and not it.c.decide(eq(dimP(x), dimP(y))):
                raise it.c.exc("ValueError", "could not broadcast input array")
    val = astype(it, val, d.dtype)
    region_write(it, o, spec, val)


def region_write(it, o, spec, val):
    root, s = root_of(o, spec)
    d = root.state
    if it.c.wlog is not None:
        it.c.wlog.append((root, s))
    nsl = [x for x in s if x[0] == "sl"]
    if d.mode == "c" and all((x[0] == "pt" and x[1].is_const()) or (x[0] == "sl" and x[1].is_const() and isinstance(x[2], int)) for x in s):
        elems = list(d.elems)
        ranges = [[int(x[1].const())] if x[0] == "pt" else [int(x[1].const()) + x[3] * i for i in range(x[2])] for x in s]
        strides = [1] * len(d.shape)
        for i in range(len(d.shape) - 2, -1, -1):
            strides[i] = strides[i + 1] * d.shape[i + 1]
        for ix in itertools.product(*[range(len(r)) for r in ranges]):
            flat = sum(ranges[i][j] * strides[i] for i, j in enumerate(ix))
            sub = [P(j) for i, j in enumerate(ix) if s[i][0] == "sl"]
            elems[flat] = bat(val, sub) if val.shape else val.elems[0]
        it.c.put(root, ArrData(d.shape, d.dtype, "c", tuple(elems)))
        return

    def upd(idx, old):
        cond = TRUE
        sub = []
        for k, x in zip(idx, s):
            if x[0] == "pt":
                cond = band(cond, eq(k, x[1]))
            else:
                st, cnt, step = x[1], dimP(x[2]), x[3]
                if step == 1:
                    cond = band(cond, le(st, k), lt(k, st + cnt))
                    sub.append(k - st)
                elif step > 1:
                    cond = band(cond, le(st, k), lt(k, st + cnt * step), eq(mk_mod(k - st, step), 0))
                    sub.append(mk_div(k - st, step))
                else:
                    raise Unsupported("write through a reversed view")
        if cond.op == "const":
            return (bat(val, sub) if val.shape else val.elems[0]) if cond.args[0] else old
        new = bat(val, sub) if val.shape else val.elems[0]
        return merge_elem(cond, new, old)
    if d.mode == "c":
        elems = []
        for n, ix in enumerate(itertools.product(*[range(x) for x in d.shape])):
            elems.append(upd([P(i) for i in ix], d.elems[n]))
        it.c.put(root, ArrData(d.shape, d.dtype, "c", tuple(elems)))
    else:
        it.c.put(root, ArrData(d.shape, d.dtype, "s", simp_elem(it, d.shape, upd(list(K[:len(d.shape)]), d.elems))))


def simp_elem(it, shape, e):
    """Drop the range conditions that always hold."""
    if isinstance(e, Poly) and len(e.d) == 1:
        (m, c), = e.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = T.get_atom(m[0][0])
            if a.kind == "ite":
                if in_range(it, shape, lambda: it.c.quick(a.data[0])):
                    return a.data[1]
    return e


def adv_set(it, o, d, idx, v):
    x = None if isinstance(idx, tuple) else to_arr(it, idx)
    if x is None:
        if len(idx) == 2 and len(d.shape) == 2 and isinstance(idx[1], (ArrObj, PyList)) and is_number(idx[0]):
            return setitem(it, getitem(it, o, idx[0]), idx[1], v)
        if len(idx) == 2 and len(d.shape) == 2 and isinstance(idx[0], (ArrObj, PyList)) and is_number(idx[1]):
            return setitem(it, getitem(it, o, (SliceV(None, None, None), idx[1])), idx[0], v)
        raise Unsupported("advanced assignment")
    val = to_arr(it, v)
    if x.dtype == "b" and x.shape == d.shape and val.shape == () and x.mode == d.mode:
        e = cast(it, val.elems[0], val.dtype, d.dtype)
        if d.mode == "c":
            new = ArrData(d.shape, d.dtype, "c", tuple(merge_elem(m, e, y) if m.op != "const" else (e if m.args[0] else y) for m, y in zip(x.elems, d.elems)))
        else:
            new = ArrData(d.shape, d.dtype, "s", merge_elem(x.elems, e, d.elems))
        return write_all(it, o, new)
    if x.dtype == "i" and x.mode == "c" and len(x.shape) == 1 and len(d.shape) == 1:
        vals = [val.elems[0]] * len(x.elems) if val.shape == () else list(val.elems) if val.mode == "c" and len(val.elems) == len(x.elems) else None
        if vals is None:
            raise Unsupported("assignment to an index array")
        for p, e in zip(x.elems, vals):
            setitem(it, o, mk("i", p), elem_val(val.dtype, e))
        return
    raise Unsupported("advanced assignment")


def write_all(it, o, new):
    """Replace the contents of o (a view or a base array)."""
    if o.base is None:
        if it.c.wlog is not None:
            it.c.wlog.append((o, tuple(("sl", ZERO, norm_dim(dimP(s)), 1) for s in new.shape)))
        it.c.put(o, new)
    else:
        region_write(it, o.base, o.spec, new) if not any(s[0] == "new" for s in o.spec) else _bad("write through a view with a new axis")


def _bad(m):
    raise Unsupported(m)


def inplace(it, o, op, v):
    d = arr_data(o)
    r = arr_binop(it, op, o, v)
    rd = to_arr(it, r)
    if rd.dtype != d.dtype and ORDER.index(rd.dtype) > ORDER.index(d.dtype):
        raise it.c.exc("TypeError", "Cannot cast ufunc output")
    if rd.shape != d.shape:
        raise it.c.exc("ValueError", "non-broadcastable output operand")
    write_all(it, o, astype(it, rd, d.dtype))


# --------------------------------------------------------------------------- attributes of arrays
def arr_attr(it, o, name):
    d = arr_data(o)
    if name == "shape":
        return tuple(mk("i", dimP(s)) for s in d.shape)
    if name == "size":
        return arr_size(d)
    if name == "ndim":
        return len(d.shape)
    if name == "T":
        if len(d.shape) < 2:
            return o
        return it.c.arr(transpose(it, d))
    if name == "real":
        return NP["real"].fn(it, [o], {})
    if name == "imag":
        return NP["imag"].fn(it, [o], {})
    if name == "dtype":
        return {"f": TYPES["float64"], "i": TYPES["int64"], "b": TYPES["bool_"], "c": TYPES["complex128"], "s": TYPES["str"]}[d.dtype]
    if name == "flat":
        return it.c.arr(ravel(it, d))
    if name == "__len__":
        return Builtin("len", lambda it, a, k: it.length(o))

    def m(f):
        return Builtin("ndarray." + name, f)
    if name == "copy":
        return m(lambda it, a, k: it.c.arr(arr_data(o)))
    if name in ("flatten", "ravel"):
        return m(lambda it, a, k: it.c.arr(ravel(it, arr_data(o))))
    if name == "reshape":
        return m(lambda it, a, k: it.c.arr(reshape(it, arr_data(o), a[0] if len(a) == 1 else tuple(a))))
    if name == "astype":
        return m(lambda it, a, k: it.c.arr(astype(it, arr_data(o), dtype_arg(it, a[0] if a else k["dtype"]))))
    if name == "tolist":
        return m(lambda it, a, k: tolist(it, o))
    if name == "item":
        def item(it, a, k):
            dd = arr_data(o)
            if not a and dd.mode == "c" and len(dd.elems) == 1:
                return py_scalar(elem_val(dd.dtype, dd.elems[0]))
            if len(a) == 1:
                return py_scalar(getitem(it, o, a[0]))
            raise Unsupported("item")
        return m(item)
    if name == "transpose":
        return m(lambda it, a, k: NP["transpose"].fn(it, [o] + a, k))
    if name == "fill":
        def fill(it, a, k):
            dd = arr_data(o)
            e = elem_of(it, a[0], dd.dtype)
            write_all(it, o, from_fn(it, dd.shape, dd.dtype, lambda idx: e))
        return m(fill)
    if name == "sort":
        def sort(it, a, k):
            r = np_sort(it, [o], {})
            write_all(it, o, arr_data(r))
        return m(sort)
    if name in ("sum", "max", "min", "prod", "cumsum", "all", "any", "mean", "repeat", "nonzero", "clip", "dot", "conj", "argmax", "round", "ptp"):
        if name not in NP:
            raise Unsupported("ndarray.%s" % name)
        return m(lambda it, a, k: NP[name].fn(it, [o] + list(a), k))
    raise Unsupported("ndarray.%s is not modelled" % name)


def py_scalar(v):
    if isinstance(v, Num):
        return mk(v.kind, v.p, False)
    if isinstance(v, SBool):
        return mkb(v.b, False)
    return v


def tolist(it, o):
    d = arr_data(o)
    if len(d.shape) == 1:
        if d.mode == "c":
            return it.c.list_([py_scalar(elem_val(d.dtype, e)) for e in d.elems])
        if d.mode == "s":
            return it.c.list_(("sym", dimP(d.shape[0]), py_scalar(elem_val(d.dtype, d.elems))))
        return it.c.list_(("g", [(g, py_scalar(elem_val(d.dtype, e))) for g, e in d.elems]))
    if len(d.shape) == 0:
        return py_scalar(elem_val(d.dtype, d.elems[0]))
    if d.mode == "c":
        return it.c.list_([tolist(it, getitem(it, o, i)) for i in range(d.shape[0])])
    raise Unsupported("tolist of a symbolic matrix")


NP["pi"] = Num("f", PI, False)
NP["newaxis"] = None
NP["e"] = Num("f", mk_exp(ONE), False)
for _n in ("float", "float64", "double"):
    NP[_n] = TYPES["float64"] if _n != "float" else TYPES["float"]
NP["int"] = TYPES["int"]
NP["int64"] = NP["int32"] = NP["int_"] = TYPES["int64"]
NP["bool"] = TYPES["bool"]
NP["bool_"] = TYPES["bool_"]
NP["complex"] = TYPES["complex"]
NP["complex128"] = TYPES["complex128"]
NP["ndarray"] = TYPES["ndarray"]
NP["str"] = TYPES["str"]
NP["linalg"] = ModuleV("numpy.linalg", {"norm": Builtin("np.linalg.norm", np_norm)})
