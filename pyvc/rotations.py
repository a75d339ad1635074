"""Products of rotations of a qubit, exactly: angles that are sums of rational multiples of pi, of one
real unknown and of arcsin / arccos terms.  Equalities are decided as membership in the ideal of the
relations between the cosines and sines (Groebner basis); closed terms also by interval arithmetic."""
from fractions import Fraction
from functools import reduce
from math import gcd
import sympy as sp
from mpmath import iv
from . import terms as T
from .vals import Unsupported

PIS = sp.Symbol("pi_", positive=True)


def linear(p):
    """-> (rational multiple of pi, {atom id: rational})"""
    c, gens = Fraction(0), {}
    pa = T._pi_atom().id
    for m, k in T.P(p).d.items():
        if len(m) == 1 and m[0][1] == 1:
            if m[0][0] == pa:
                c += k
                continue
            at = T.get_atom(m[0][0])
            if at.kind == "var" or (at.kind == "app" and at.data[0] in ("arcsin", "arccos")):
                gens[m[0][0]] = gens.get(m[0][0], 0) + Fraction(k)
                continue
        raise Unsupported("angle %s" % T.show(p)[:100])
    return Fraction(c), gens


class Exact:
    """cos and sin of angles as polynomials in the cosines and sines of base angles."""

    def __init__(self):
        self.lcd = {}
        self.rel = []
        self.base = {}

    def scan(self, p):
        c, gens = linear(p)
        for g, k in gens.items():
            self.lcd[g] = self.lcd.get(g, 1) * k.denominator // gcd(self.lcd.get(g, 1), k.denominator)
            at = T.get_atom(g)
            if at.kind == "app":
                for a2 in T.atoms_deep(at.data[1][0]).values():
                    if a2.kind == "app" and a2.data[0] in ("sin", "cos"):
                        self.scan(a2.data[1][0])

    def cs(self, p):
        """(cos p, sin p)"""
        c, gens = linear(p)
        r = self.pi_multiple(c)
        for g, k in sorted(gens.items()):
            b = self.gen(g)
            n = k * self.lcd[g]
            if n.denominator != 1:
                raise Unsupported("angle not scanned")
            z = self.power(b, int(n))
            r = (r[0] * z[0] - r[1] * z[1], r[0] * z[1] + r[1] * z[0])
        return tuple(sp.expand(x) for x in r)

    def power(self, b, n):
        z = (sp.Integer(1), sp.Integer(0))
        c, s = b if n >= 0 else (b[0], -b[1])
        for _ in range(abs(n)):
            z = (sp.expand(z[0] * c - z[1] * s), sp.expand(z[0] * s + z[1] * c))
        return z

    def pi_multiple(self, c):
        if (2 * c).denominator == 1:
            k = int(2 * c) % 4
            return tuple(sp.Integer(x) for x in ((1, 0), (0, 1), (-1, 0), (0, -1))[k])
        q = sp.Rational(c.numerator, c.denominator)
        a, b = sp.cos(sp.pi * q), sp.sin(sp.pi * q)
        if a.has(sp.cos) or b.has(sp.sin):
            raise Unsupported("cosine of %s pi" % c)
        return a, b

    def gen(self, g):
        if g in self.base:
            return self.base[g]
        c, s = sp.Symbol("c%d" % g), sp.Symbol("s%d" % g)
        self.base[g] = (c, s)
        self.rel.append(c ** 2 + s ** 2 - 1)
        at = T.get_atom(g)
        if at.kind == "app":
            z = self.power((c, s), self.lcd[g])
            x = self.value(at.data[1][0])
            e = sp.together((z[1] if at.data[0] == "arcsin" else z[0]) - x)
            self.rel.append(sp.expand(sp.numer(e)))
        return self.base[g]

    def value(self, p):
        """A term as a rational expression."""
        r = sp.Integer(0)
        for m, k in T.P(p).d.items():
            x = sp.Rational(Fraction(k).numerator, Fraction(k).denominator)
            for a, e in m:
                x = x * self.atom(a) ** e
            r = r + x
        return r

    def atom(self, a):
        at = T.get_atom(a)
        if a == T._pi_atom().id:
            return PIS
        if at.kind == "var" or (at.kind == "app" and at.data[0] in ("arcsin", "arccos")):
            return sp.Symbol("v%d" % a)
        if at.kind == "inv":
            return 1 / self.value(at.data[0] if not isinstance(at.data, T.Poly) else at.data)
        if at.kind == "app" and at.data[0] in ("sin", "cos"):
            return self.cs(at.data[1][0])[1 if at.data[0] == "sin" else 0]
        raise Unsupported("term %s" % T.show_atom(at)[:80])

    def zero(self, exprs):
        """All expressions vanish by the relations."""
        exprs = [sp.expand(sp.numer(sp.together(e))) for e in exprs]
        exprs = [e for e in exprs if e != 0]
        if not exprs:
            return True
        gens = sorted(set().union(*[e.free_symbols for e in exprs + self.rel]), key=str)
        G = sp.groebner(self.rel, *gens, order="grevlex", domain="QQ") if self.rel else None
        return G is not None and all(G.reduce(e)[1] == 0 for e in exprs)


class Enclosed:
    """cos and sin of closed angles as intervals."""

    def cs(self, p):
        c, gens = linear(p)
        a = iv.pi * iv.mpf(c.numerator) / c.denominator
        r = (iv.cos(a), iv.sin(a))
        for g, k in sorted(gens.items()):
            at = T.get_atom(g)
            if at.kind != "app":
                raise Unsupported("angle with an unknown")
            n, d = k.numerator, k.denominator
            x = self.value(at.data[1][0])
            y = iv.sqrt(1 - x * x)
            z = (x, y) if at.data[0] == "arccos" else (y, x)
            while d % 2 == 0:
                # half of an angle in [-pi/2, pi]
                h = iv.sqrt((1 + z[0]) / 2)
                z = (h, z[1] / (2 * h))
                d //= 2
            if d != 1:
                raise Unsupported("fraction of an inverse function")
            if n < 0:
                z, n = (z[0], -z[1]), -n
            for _ in range(n):
                r = (r[0] * z[0] - r[1] * z[1], r[0] * z[1] + r[1] * z[0])
        return r

    def value(self, p):
        r = iv.mpf(0)
        for m, k in T.P(p).d.items():
            k = Fraction(k)
            x = iv.mpf(k.numerator) / k.denominator
            for a, e in m:
                v = self.atom(a)
                for _ in range(abs(e)):
                    x = x * v if e > 0 else x / v
            r = r + x
        return r

    def atom(self, a):
        at = T.get_atom(a)
        if a == T._pi_atom().id:
            return iv.pi
        if at.kind == "inv":
            return 1 / self.value(at.data[0] if not isinstance(at.data, T.Poly) else at.data)
        if at.kind == "app" and at.data[0] == "sqrt":
            return iv.sqrt(self.value(at.data[1][0]))
        if at.kind == "app" and at.data[0] in ("sin", "cos"):
            return self.cs(at.data[1][0])[1 if at.data[0] == "sin" else 0]
        raise Unsupported("term %s" % T.show_atom(at)[:80])


def qmul(a, b):
    """Product of quaternions (a after b): (w, x, y, z) stands for w - i (x X + y Y + z Z)."""
    return (a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0])


def rotation(D, theta, phi):
    """Rotation by theta about the axis at azimuth phi."""
    c, s = D.cs(theta * Fraction(1, 2))
    a, b = D.cs(phi)
    return (c, s * a, s * b, 0 * c)


def amplitude_slope(D, theta, phi):
    """Derivative of rotation((1 + e) theta, phi) at e = 0."""
    c, s = D.cs(theta * Fraction(1, 2))
    a, b = D.cs(phi)
    h = D.value(theta) / 2
    return (-h * s, h * c * a, h * c * b, 0 * c)


def detuning_slope(D, theta, phi, weight):
    """Derivative at e = 0 of the rotation when the drive of rate w acquires the detuning e weight w:
    the axis tilts by e weight and the rate changes at second order only."""
    c, s = D.cs(theta * Fraction(1, 2))
    return (0 * c, 0 * c, 0 * c, s * weight)


def product(qs):
    """qs in time order."""
    return reduce(lambda acc, q: simp(qmul(q, acc)), qs)


def simp(q):
    return tuple(sp.expand(x) if isinstance(x, sp.Basic) else x for x in q)


def slope(qs, ds):
    """Derivative of the product when each factor has derivative ds[j]."""
    tot = None
    for j in range(len(qs)):
        t = product(qs[:j] + [ds[j]] + qs[j + 1:])
        tot = t if tot is None else tuple(a + b for a, b in zip(tot, t))
    return simp(tot)
