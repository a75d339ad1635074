"""Terms of the verification conditions.

Real and integer terms are Laurent polynomials over interned atoms, kept in a canonical
form (so that equal polynomials are equal objects up to ==).  Boolean terms are built from
comparisons of a polynomial with zero.
"""
from fractions import Fraction
from functools import lru_cache
import math

# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "data", "sort", "ints", "_fv")

    def __init__(self, id, kind, data, sort):
        self.id, self.kind, self.data, self.sort = id, kind, data, sort
        self._fv = None

    def __repr__(self):
        return show_atom(self)


_table = {}
_atoms = []


def _intern(kind, data, sort):
    key = (kind, data, sort)
    a = _table.get(key)
    if a is None:
        a = Atom(len(_atoms), kind, data, sort)
        _table[key] = a
        _atoms.append(a)
    return a


def reset_terms():
    _table.clear()
    _atoms.clear()
    _subst_cache.clear()
    _mk_consts()


# --------------------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("d", "_h", "_c")

    def __init__(self, d):
        self.d = d
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), Fraction(0)) if self.d else Fraction(0)

    def __add__(self, o):
        o = P(o)
        if not self.d:
            return o
        if not o.d:
            return self
        d = dict(self.d)
        for m, c in o.d.items():
            x = d.get(m, 0) + c
            if x:
                d[m] = x
            else:
                d.pop(m, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            if o == 0:
                return ZERO
            if o == 1:
                return self
            return Poly({m: c * o for m, c in self.d.items()})
        if o.is_const():
            return self * o.const()
        if self.is_const():
            return o * self.const()
        out = {}
        extra = None
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, special = mono_mul(m1, m2)
                if special is None:
                    x = out.get(m, 0) + c1 * c2
                    if x:
                        out[m] = x
                    else:
                        out.pop(m, None)
                else:
                    t = special * (c1 * c2)
                    extra = t if extra is None else extra + t
        r = Poly(out)
        return r if extra is None else r + extra

    __rmul__ = __mul__

    def __pow__(self, n):
        assert isinstance(n, int)
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        raise TypeError("bool as polynomial")
    if isinstance(x, int):
        x = Fraction(x)
    if isinstance(x, Fraction):
        return Poly({(): x}) if x else ZERO
    raise TypeError("not a polynomial: %r" % (x,))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def atom_poly(a):
    return Poly({((a.id, 1),): Fraction(1)})


@lru_cache(maxsize=None)
def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def mono_mul(m1, m2):
    """-> (monomial, None) or (None, polynomial) when a rewriting applies."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    m = _mono_mul(m1, m2)
    for a, e in m:
        if e >= 2:
            at = _atoms[a]
            if at.kind == "app":
                if at.data[0] == "cos":
                    # cos^2 = 1 - sin^2
                    rest = tuple((b, k) for b, k in m if b != a)
                    s = mk_sin_raw(at.data[1][0])
                    p = Poly({rest: Fraction(1)}) * ((ONE - s * s) ** (e // 2))
                    if e % 2:
                        p = p * atom_poly(at)
                    return None, p
                if at.data[0] == "sqrt":
                    rest = tuple((b, k) for b, k in m if b != a)
                    p = Poly({rest: Fraction(1)}) * (at.data[1][0] ** (e // 2))
                    if e % 2:
                        p = p * atom_poly(at)
                    return None, p
                if at.data[0] == "abs":
                    rest = tuple((b, k) for b, k in m if b != a)
                    x = at.data[1][0]
                    p = Poly({rest: Fraction(1)}) * (x ** (2 * (e // 2)))
                    if e % 2:
                        p = p * atom_poly(at)
                    return None, p
    return m, None


def lead(p):
    """Canonical leading coefficient (0 for the zero polynomial)."""
    if not p.d:
        return Fraction(0)
    m = max(p.d, key=lambda m: (len(m), m))
    return p.d[m]


def content(p):
    return abs(lead(p)) or Fraction(1)


def var(name, sort="R"):
    return atom_poly(_intern("var", (name,), sort))


def app(fname, *args, sort="R"):
    return atom_poly(_intern("app", (fname, tuple(args)), sort))


def inv(p):
    """1/p for p known to be non-zero (no particular number for zero)."""
    if p.is_const():
        if p.const() == 0:
            return app("nonfinite", ONE)
        return P(Fraction(1) / p.const())
    if len(p.d) == 1:
        (m, c), = p.d.items()
        q = Poly({(): Fraction(1) / c})
        for a, e in m:
            at = _atoms[a]
            if at.kind == "inv":
                q = q * at.data[0] ** e
            else:
                q = q * Poly({((a, -e),): Fraction(1)})
        return q
    l = lead(p)
    pn = p * (Fraction(1) / l)
    # common monomial factor
    common = None
    for m in pn.d:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm and min(e, dm[a]) > 0}
    common = {a: e for a, e in (common or {}).items() if e > 0}
    if common:
        cm = Poly({tuple(sorted(common.items())): Fraction(1)})
        pn2 = Poly({_mono_mul(m, tuple(sorted((a, -e) for a, e in common.items()))): c for m, c in pn.d.items()})
        return inv(cm) * inv(pn2) * (Fraction(1) / l)
    return atom_poly(_intern("inv", (pn,), "R")) * (Fraction(1) / l)


def _mk_consts():
    global PI
    PI = var("PI")


_subst_cache = {}
_mk_consts()


def pi_split(p):
    """p = q*PI + rest."""
    a = PI.d and next(iter(PI.d))
    q = p.d.get(a, Fraction(0))
    if q:
        return q, p - PI * q
    return Fraction(0), p


def mk_sin_raw(p):
    return app("sin", p)


def _trig(p):
    """(sign, shift h in quarter turns, canonical argument) with p = sign*(arg) + ... handled by callers."""


def mk_sin(p):
    q, rest = pi_split(p)
    if rest.d and lead(rest) < 0:
        return -mk_sin(-p)
    if not rest.d and q < 0:
        return -mk_sin(-p)
    h = math.floor(2 * q)
    r = q - Fraction(h, 2)
    arg = rest + PI * r
    h %= 4
    if h == 0:
        return _sin0(arg, rest, r)
    if h == 1:
        return _cos0(arg, rest, r)
    if h == 2:
        return -_sin0(arg, rest, r)
    return -_cos0(arg, rest, r)


def mk_cos(p):
    return mk_sin(p + PI * Fraction(1, 2)) if pi_split(p)[1].d == {} else _cos_general(p)


def _cos_general(p):
    q, rest = pi_split(p)
    if lead(rest) < 0:
        return _cos_general(-p)
    h = math.floor(2 * q)
    r = q - Fraction(h, 2)
    arg = rest + PI * r
    h %= 4
    if h == 0:
        return _cos0(arg, rest, r)
    if h == 1:
        return -_sin0(arg, rest, r)
    if h == 2:
        return -_cos0(arg, rest, r)
    return _sin0(arg, rest, r)


def _single_app(p, names):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = _atoms[m[0][0]]
            if at.kind == "app" and at.data[0] in names:
                return at
    return None


def _sin0(arg, rest, r):
    if not rest.d:
        if r == 0:
            return ZERO
        if r == Fraction(1, 6):
            return P(Fraction(1, 2))
        if r == Fraction(1, 3):
            return mk_sqrt(P(3)) * Fraction(1, 2)
        if r == Fraction(1, 4):
            return mk_sqrt(P(2)) * Fraction(1, 2)
    at = _single_app(arg, ("arcsin", "arccos"))
    if at is not None:
        x = at.data[1][0]
        return x if at.data[0] == "arcsin" else mk_sqrt(ONE - x * x)
    return app("sin", arg)


def _cos0(arg, rest, r):
    if not rest.d:
        if r == 0:
            return ONE
        if r == Fraction(1, 6):
            return mk_sqrt(P(3)) * Fraction(1, 2)
        if r == Fraction(1, 3):
            return P(Fraction(1, 2))
        if r == Fraction(1, 4):
            return mk_sqrt(P(2)) * Fraction(1, 2)
    at = _single_app(arg, ("arcsin", "arccos"))
    if at is not None:
        x = at.data[1][0]
        return x if at.data[0] == "arccos" else mk_sqrt(ONE - x * x)
    return app("cos", arg)


def _isqrt_frac(c):
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def mk_sqrt(p):
    """Square root of a term that is known to be non-negative."""
    if p.is_const():
        c = p.const()
        if c >= 0:
            s = _isqrt_frac(c)
            if s is not None:
                return P(s)
            # sqrt(a/b) = sqrt(ab)/b, square-free part pulled out for small numbers
            n, dnm = c.numerator * c.denominator, c.denominator
            k = 1
            f = 2
            while f * f <= n and f < 1000:
                while n % (f * f) == 0:
                    n //= f * f
                    k *= f
                f += 1
            return app("sqrt", P(n)) * Fraction(k, dnm)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c > 0 and all(e % 2 == 0 for a, e in m):
            half = Poly({tuple((a, e // 2) for a, e in m): Fraction(1)})
            return mk_sqrt(P(c)) * mk_abs(half)
    c = content(p)
    s = _isqrt_frac(c)
    if s is not None and c != 1:
        return app("sqrt", p * (1 / c)) * s
    return app("sqrt", p)


NONNEG_APPS = {"sqrt", "abs", "exp"}


def mk_abs(p):
    if p.is_const():
        return P(abs(p.const()))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        out = P(abs(c))
        left = []
        for a, e in m:
            at = _atoms[a]
            if e % 2 == 0 or at is _pi_atom() or (at.kind == "app" and at.data[0] in NONNEG_APPS):
                out = out * Poly({((a, e),): Fraction(1)})
            else:
                left.append((a, e))
        if left:
            out = out * app("abs", Poly({tuple(left): Fraction(1)}))
        return out
    if lead(p) < 0:
        p = -p
    return app("abs", p)


def _pi_atom():
    return _atoms[next(iter(PI.d))[0][0]]


def mk_exp(p):
    return ONE if not p.d else app("exp", p)


def mk_arccos(p):
    if p.is_const():
        c = p.const()
        t = {Fraction(1): Fraction(0), Fraction(-1): Fraction(1), Fraction(0): Fraction(1, 2), Fraction(1, 2): Fraction(1, 3), Fraction(-1, 2): Fraction(2, 3)}
        if c in t:
            return PI * t[c]
    if lead(p) < 0:
        return PI - app("arccos", -p)
    return app("arccos", p)


def mk_arcsin(p):
    if p.is_const():
        c = p.const()
        t = {Fraction(1): Fraction(1, 2), Fraction(-1): Fraction(-1, 2), Fraction(0): Fraction(0), Fraction(1, 2): Fraction(1, 6), Fraction(-1, 2): Fraction(-1, 6)}
        if c in t:
            return PI * t[c]
    if lead(p) < 0:
        return -app("arcsin", -p)
    return app("arcsin", p)


def mk_floor(p):
    if p.is_const():
        return P(math.floor(p.const()))
    v = pi_only_value(p)
    if v is not None:
        import mpmath
        return P(int(mpmath.floor(v)))
    # pull out integer constant
    c = p.d.get((), Fraction(0))
    k = math.floor(c)
    if is_int_poly(p):
        return p
    return app("floor", p - k, sort="I") + k


def is_int_poly(p):
    return all(c.denominator == 1 for c in p.d.values()) and all(_atoms[a].sort == "I" and e > 0 for m in p.d for a, e in m)


def mk_div(p, k):
    """Floor division of an integer term by a positive integer constant."""
    assert k > 0
    if k == 1:
        return p
    if p.is_const():
        return P(math.floor(p.const() / k))
    q = {m: c for m, c in p.d.items() if c % k == 0}
    r = {m: c for m, c in p.d.items() if c % k != 0}
    c0 = r.get((), None)
    if c0 is not None:
        fl = math.floor(c0 / k)
        r[()] = c0 - fl * k
        if not r[()]:
            del r[()]
    else:
        fl = 0
    base = Poly({m: c / k for m, c in q.items()}) + fl
    rp = Poly(r)
    if rp.is_const():
        return base
    return base + app("div", rp, P(k), sort="I")


def mk_mod(p, k):
    return p - mk_div(p, k) * k


# --------------------------------------------------------------------------- booleans
class B:
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.args))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, B) and self.op == o.op and hash(self) == hash(o) and self.args == o.args)

    def __repr__(self):
        return show_b(self)


TRUE = B("const", (True,))
FALSE = B("const", (False,))


def bconst(x):
    return TRUE if x else FALSE


def pi_only_value(p):
    """Numeric value (mpmath, 60 digits) when PI is the only atom."""
    a = _pi_atom().id
    for m in p.d:
        if m and not (len(m) == 1 and m[0][0] == a):
            return None
    import mpmath
    with mpmath.workdps(60):
        s = mpmath.mpf(0)
        for m, c in p.d.items():
            t = mpmath.mpf(c.numerator) / c.denominator
            if m:
                t *= mpmath.pi ** m[0][1]
            s += t
        return +s


def _nonzero_choice(a):
    at = _atoms[a]
    return at.kind == "ite" and at.data[1].is_const() and at.data[2].is_const() and at.data[1].const() != 0 and at.data[2].const() != 0


def _drop_nonzero(p):
    """p without common factors that are never zero."""
    common = None
    for m in p.d:
        ids = {a: e for a, e in m}
        common = ids if common is None else {a: min(e, ids[a]) for a, e in common.items() if a in ids}
        if not common:
            return p
    common = {a: e for a, e in common.items() if e > 0 and _nonzero_choice(a)}
    if not common:
        return p
    return Poly({tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0)): c for m, c in p.d.items()})


def _cmp(op, p):
    if p.is_const():
        c = p.const()
        return bconst({"eq": c == 0, "lt": c < 0, "le": c <= 0}[op])
    v = pi_only_value(p)
    if v is not None and abs(v) > 1e-40:
        return bconst({"eq": False, "lt": v < 0, "le": v < 0}[op])
    if op == "eq" and () not in p.d:
        p = _drop_nonzero(p)
        if p.is_const():
            return bconst(p.const() == 0)
    l = lead(p)
    if op == "eq":
        p = p * (1 / l)
    else:
        p = p * (1 / abs(l))
    return B(op, (p,))


def eq(a, b):
    return _cmp("eq", P(a) - P(b))


def lt(a, b):
    return _cmp("lt", P(a) - P(b))


def le(a, b):
    return _cmp("le", P(a) - P(b))


def ne(a, b):
    return bnot(eq(a, b))


def bvar(name):
    return B("bvar", (name,))


def bnot(x):
    if x.op == "const":
        return bconst(not x.args[0])
    if x.op == "not":
        return x.args[0]
    if x.op == "lt":
        return _cmp("le", -x.args[0])
    if x.op == "le":
        return _cmp("lt", -x.args[0])
    if x.op == "and":
        return bor(*[bnot(a) for a in x.args])
    if x.op == "or":
        return band(*[bnot(a) for a in x.args])
    if x.op == "forall":
        k, lo, hi, body = x.args
        return B("exists", (k, lo, hi, bnot(body)))
    if x.op == "exists":
        k, lo, hi, body = x.args
        return B("forall", (k, lo, hi, bnot(body)))
    return B("not", (x,))


def band(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == "and" else (x,)):
            if y.op == "const":
                if not y.args[0]:
                    return FALSE
                continue
            if y in seen:
                continue
            if bnot(y) in seen:
                return FALSE
            seen.add(y)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B("and", tuple(out))


def bor(*xs):
    out = []
    seen = set()
    for x in xs:
        for y in (x.args if x.op == "or" else (x,)):
            if y.op == "const":
                if y.args[0]:
                    return TRUE
                continue
            if y in seen:
                continue
            if bnot(y) in seen:
                return TRUE
            seen.add(y)
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return B("or", tuple(out))


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    if a == b:
        return TRUE
    if a.op == "const":
        return b if a.args[0] else bnot(b)
    if b.op == "const":
        return a if b.args[0] else bnot(a)
    return band(implies(a, b), implies(b, a))


def forall(lo, hi, fn):
    """For all integers k with lo <= k < hi: fn(k)."""
    lo, hi = P(lo), P(hi)
    if lo.is_const() and hi.is_const():
        a, b = int(lo.const()), int(hi.const())
        if b - a <= 4096:
            return band(*[fn(P(i)) for i in range(a, b)])
    k = _fresh_bound()
    body = fn(k)
    if body.op == "and":
        return band(*[close(k, lo, hi, b) for b in body.args])
    return close(k, lo, hi, body)


def exists(lo, hi, fn):
    return bnot(forall(lo, hi, lambda k: bnot(fn(k))))


_bcount = [0]


def _fresh_bound():
    _bcount[0] += 1
    return var("$t%d" % _bcount[0], "I")


def bound_height(x):
    """1 + the largest number of a canonical bound variable occurring in x."""
    h = 0
    for at in atoms_deep(x).values():
        if at.kind == "var" and at.data[0].startswith("$b"):
            h = max(h, int(at.data[0][2:]))
    return h + 1


def close(k, lo, hi, body, op="forall"):
    """Quantify k with a canonical name, so that equal formulas are equal objects."""
    if body.op == "const":
        if op == "forall":
            return TRUE if body.args[0] else le(hi, lo)
        return FALSE if not body.args[0] else lt(lo, hi)
    if lo.is_const() and hi.is_const() and hi.const() <= lo.const():
        return TRUE if op == "forall" else FALSE
    h = max(bound_height(body), _quant_height(body))
    c = var("$b%d" % h, "I")
    b = subst_b(body, {var_id(k): c})
    if var_id(c) not in fv_b(b):
        return bor(le(hi, lo), b) if op == "forall" else band(lt(lo, hi), b)
    return B(op, (c, lo, hi, b))


def _quant_height(x):
    if x.op in ("forall", "exists"):
        k = x.args[0]
        n = get_atom(var_id(k)).data[0]
        return max(int(n[2:]) + 1 if n.startswith("$b") else 1, _quant_height(x.args[3]))
    if x.op in ("and", "or", "not"):
        return max(_quant_height(a) for a in x.args)
    return 1


def ite(c, a, b):
    """Polynomial if-then-else."""
    a, b = P(a), P(b)
    if c.op == "const":
        return a if c.args[0] else b
    if a == b:
        return a
    # canonical polarity
    if c.op == "not":
        return ite(c.args[0], b, a)
    # resolve nested occurrences of the same condition
    a2, b2 = assume(a, c, True), assume(b, c, False)
    if a2 == b2:
        return a2
    sort = "I" if is_int_poly(a2) and is_int_poly(b2) else "R"
    return atom_poly(_intern("ite", (c, a2, b2), sort))


def assume(p, c, val):
    """Simplify top-level ite atoms of p under c == val."""
    hit = [a for a in p.atoms() if _atoms[a].kind == "ite" and (_atoms[a].data[0] == c or bnot(_atoms[a].data[0]) == c)]
    if not hit:
        return p
    mp = {}
    for a in hit:
        cc, x, y = _atoms[a].data
        t = val if cc == c else not val
        mp[a] = x if t else y
    return subst_atoms(p, mp)


def subst_atoms(p, mp):
    out = ZERO
    for m, c in p.d.items():
        t = P(c)
        keep = []
        for a, e in m:
            if a in mp:
                t = t * (mp[a] ** e if e > 0 else inv(mp[a]) ** (-e))
            else:
                keep.append((a, e))
        out = out + t * Poly({tuple(keep): Fraction(1)})
    return out


# --------------------------------------------------------------------------- free variables, substitution
def fv_poly(p):
    s = set()
    for a in p.atoms():
        s |= fv_atom(_atoms[a])
    return s


def fv_atom(a):
    if a._fv is None:
        if a.kind == "var":
            r = {a.id}
        elif a.kind == "app":
            r = set()
            for x in a.data[1]:
                r |= fv_poly(x)
        elif a.kind == "inv":
            r = set(fv_poly(a.data[0]))
        else:
            r = fv_b(a.data[0]) | fv_poly(a.data[1]) | fv_poly(a.data[2])
        a._fv = frozenset(r)
    return a._fv


_fvb = {}


def fv_b(x):
    r = _fvb.get(x)
    if r is None:
        if x.op in ("const", "bvar"):
            r = frozenset()
        elif x.op in ("eq", "lt", "le"):
            r = frozenset(fv_poly(x.args[0]))
        elif x.op in ("forall", "exists"):
            k, lo, hi, body = x.args
            kid = next(iter(k.d))[0][0]
            r = frozenset((fv_b(body) - {kid}) | fv_poly(lo) | fv_poly(hi))
        else:
            r = frozenset().union(*[fv_b(a) for a in x.args])
        _fvb[x] = r
    return r


def var_id(p):
    (m, c), = p.d.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1
    return m[0][0]


def rebuild_app(fname, args, sort):
    if fname == "sin":
        return mk_sin(args[0])
    if fname == "cos":
        return mk_cos(args[0])
    if fname == "abs":
        return mk_abs(args[0])
    if fname == "sqrt":
        return mk_sqrt(args[0])
    if fname == "exp":
        return mk_exp(args[0])
    if fname == "arccos":
        return mk_arccos(args[0])
    if fname == "arcsin":
        return mk_arcsin(args[0])
    if fname == "floor":
        return mk_floor(args[0])
    if fname == "div":
        return mk_div(args[0], int(args[1].const()))
    h = APP_HOOKS.get(fname)
    if h is not None:
        return h(*args)
    return app(fname, *args, sort=sort)


APP_HOOKS = {}


def subst(p, mp):
    """mp: atom id of a variable -> Poly."""
    if not mp:
        return p
    fv = fv_poly(p)
    if not any(k in fv for k in mp):
        return p
    key = (p, tuple(sorted(mp.items(), key=lambda kv: kv[0])))
    r = _subst_cache.get(key)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.d.items():
        t = P(c)
        keep = []
        for a, e in m:
            at = _atoms[a]
            if any(k in fv_atom(at) for k in mp):
                x = subst_atom(at, mp)
                t = t * (x ** e if e > 0 else inv(x) ** (-e))
            else:
                keep.append((a, e))
        out = out + t * Poly({tuple(keep): Fraction(1)})
    _subst_cache[key] = out
    return out


def subst_atom(at, mp):
    if at.kind == "var":
        return mp.get(at.id, atom_poly(at))
    if at.kind == "app":
        return rebuild_app(at.data[0], tuple(subst(x, mp) for x in at.data[1]), at.sort)
    if at.kind == "inv":
        return inv(subst(at.data[0], mp))
    c, a, b = at.data
    return ite(subst_b(c, mp), subst(a, mp), subst(b, mp))


def subst_b(x, mp):
    if x.op in ("const", "bvar"):
        return x
    fv = fv_b(x)
    if not any(k in fv for k in mp):
        return x
    if x.op in ("eq", "lt", "le"):
        return _cmp(x.op, subst(x.args[0], mp))
    if x.op in ("forall", "exists"):
        k, lo, hi, body = x.args
        kid = var_id(k)
        mp2 = {a: b for a, b in mp.items() if a != kid}
        # capture: bound variables are globally fresh, so replacement terms never contain them,
        # except when a quantified fact is instantiated with itself; rename to be safe
        if any(kid in fv_poly(b) for b in mp2.values()):
            nk = _fresh_bound()
            body = subst_b(body, {kid: nk})
            k, kid = nk, var_id(nk)
        lo2, hi2 = subst(lo, mp2), subst(hi, mp2)
        b2 = subst_b(body, mp2)
        if lo2.is_const() and hi2.is_const() and hi2.const() - lo2.const() <= 4096:
            xs = [subst_b(b2, {kid: P(i)}) for i in range(int(lo2.const()), int(hi2.const()))]
            return band(*xs) if x.op == "forall" else bor(*xs)
        if b2.op == "const":
            if x.op == "forall":
                return TRUE if b2.args[0] else le(hi2, lo2)
            return FALSE if not b2.args[0] else lt(lo2, hi2)
        return close(k, lo2, hi2, b2, x.op)
    if x.op == "not":
        return bnot(subst_b(x.args[0], mp))
    xs = [subst_b(a, mp) for a in x.args]
    return band(*xs) if x.op == "and" else bor(*xs)


def atoms_deep(x, out=None):
    """All atoms (recursively) of a Poly or B."""
    if out is None:
        out = {}
    if isinstance(x, Poly):
        for a in x.atoms():
            if a in out:
                continue
            at = _atoms[a]
            out[a] = at
            if at.kind == "app":
                for y in at.data[1]:
                    atoms_deep(y, out)
            elif at.kind == "inv":
                atoms_deep(at.data[0], out)
            elif at.kind == "ite":
                atoms_deep(at.data[0], out)
                atoms_deep(at.data[1], out)
                atoms_deep(at.data[2], out)
    elif x.op in ("eq", "lt", "le"):
        atoms_deep(x.args[0], out)
    elif x.op in ("forall", "exists"):
        atoms_deep(x.args[1], out)
        atoms_deep(x.args[2], out)
        atoms_deep(x.args[3], out)
    elif x.op in ("and", "or", "not"):
        for a in x.args:
            atoms_deep(a, out)
    return out


def get_atom(i):
    return _atoms[i]


# --------------------------------------------------------------------------- printing
def show_atom(a):
    if a.kind == "var":
        return a.data[0]
    if a.kind == "app":
        return "%s(%s)" % (a.data[0], ", ".join(show(x) for x in a.data[1]))
    if a.kind == "inv":
        return "1/(%s)" % show(a.data[0])
    return "ite(%s, %s, %s)" % (show_b(a.data[0]), show(a.data[1]), show(a.data[2]))


def show(p):
    if not p.d:
        return "0"
    parts = []
    for m in sorted(p.d, key=lambda m: (len(m), m)):
        c = p.d[m]
        t = "*".join(show_atom(_atoms[a]) + ("" if e == 1 else "^%d" % e) for a, e in m)
        if not m:
            parts.append(str(c))
        elif c == 1:
            parts.append(t)
        elif c == -1:
            parts.append("-" + t)
        else:
            parts.append("%s*%s" % (c, t))
    return " + ".join(parts)


def show_b(x):
    if x.op == "const":
        return str(x.args[0])
    if x.op == "bvar":
        return x.args[0]
    if x.op in ("eq", "lt", "le"):
        return "(%s %s 0)" % (show(x.args[0]), {"eq": "==", "lt": "<", "le": "<="}[x.op])
    if x.op == "not":
        return "not " + show_b(x.args[0])
    if x.op in ("forall", "exists"):
        return "%s %s in [%s, %s): %s" % (x.op, show(x.args[0]), show(x.args[1]), show(x.args[2]), show_b(x.args[3]))
    return "(" + (" %s " % x.op).join(show_b(a) for a in x.args) + ")"


def replace_atoms(p, mp):
    """Replace atoms (by id, of any kind) by polynomials, everywhere inside p (Poly or B)."""
    memo = {}

    def rp(q):
        r = memo.get(q)
        if r is not None:
            return r
        out = ZERO
        for m, c in q.d.items():
            t = P(c)
            for a, e in m:
                x = ra(_atoms[a])
                t = t * (x ** e if e > 0 else inv(x) ** (-e))
            out = out + t
        memo[q] = out
        return out

    def ra(at):
        if at.id in mp:
            return mp[at.id]
        if at.kind == "var":
            return atom_poly(at)
        if at.kind == "app":
            return rebuild_app(at.data[0], tuple(rp(x) for x in at.data[1]), at.sort)
        if at.kind == "inv":
            return inv(rp(at.data[0]))
        c, a, b = at.data
        return ite(rb(c), rp(a), rp(b))

    def rb(x):
        if x.op in ("const", "bvar"):
            return x
        if x.op in ("eq", "lt", "le"):
            return _cmp(x.op, rp(x.args[0]))
        if x.op in ("forall", "exists"):
            k, lo, hi, body = x.args
            return close(k, rp(lo), rp(hi), rb(body), x.op)
        if x.op == "not":
            return bnot(rb(x.args[0]))
        xs = [rb(a) for a in x.args]
        return band(*xs) if x.op == "and" else bor(*xs)
    return rp(p) if isinstance(p, Poly) else rb(p)
