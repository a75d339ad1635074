"""Integer words of unknown length, known only by what they contain between their ones.

A word over a finite alphabet that contains 1 is described by the number of ones in it, by
occ(s, k), the number of entries s (other than 1) that are preceded by exactly k ones, and by its last
entry.  Concatenation, dropping the last entry, selecting by symbol, running sums and counting equal
running sums are exact on this description (the lemmas behind them are obligations of the task "lemmas about words").

An array of mode "w" has elems = (word, ((symbol, value), ...)): each kept symbol stands for the value;
mode "cw" is the array of running sums of such an array."""
from fractions import Fraction
from .terms import *
from . import terms as T
from . import solver as S
from .vals import *


class Word:
    def __init__(self, c, syms, ones, occ, last, length=None, inside=None):
        self.syms = tuple(sorted(syms))
        self.ones, self.occ, self.last = P(ones), occ, P(last)
        self.inside = inside or occ     # the same for 1 <= k <= ones
        self.lens = {}
        if length is not None:
            self.lens[self.syms] = P(length)

    def length(self, c, kept):
        kept = tuple(sorted(kept))
        if kept not in self.lens:
            c.wordlens = getattr(c, "wordlens", 0) + 1
            n = app("wordlen", P(c.wordlens), sort="I")
            c.add_fact(le(0, n))
            if 1 in kept:
                c.add_fact(le(self.ones, n))
            self.lens[kept] = n
        return self.lens[kept]

    def total(self, k):
        return sum((self.occ(s, k) for s in self.syms if s != 1), ZERO)


def wordarr(c, w, mapping=None, dtype="i", mode="w"):
    m = tuple(sorted((mapping if mapping is not None else {s: P(s) for s in w.syms}).items(), key=lambda x: x[0]))
    return ArrData((w.length(c, [s for s, _ in m]),), dtype, mode, (w, m))


def literal(c, xs):
    xs = [int(x) for x in xs]
    if not xs:
        raise Unsupported("empty word")
    n, at = 0, {}
    for x in xs:
        if x == 1:
            n += 1
        else:
            at[(x, n)] = at.get((x, n), 0) + 1

    def occ(s, k):
        return sum((ite(eq(k, j), m, 0) for (x, j), m in sorted(at.items()) if x == s), ZERO)
    return Word(c, set(xs) | {1}, n, occ, xs[-1], length=len(xs))


def as_word(c, d):
    """The word an integer array spells, or None."""
    if len(d.shape) != 1 or d.dtype != "i":
        return None
    if d.mode == "w":
        w, m = d.elems
        if len(m) == len(w.syms) and all(v == P(s) for s, v in m):
            return w
        return None
    if d.mode == "c" and d.elems and all(e.is_const() for e in d.elems):
        return literal(c, [e.const() for e in d.elems])
    return None


def concat(it, ds):
    """Concatenation of arrays of which at least one is a word of unknown length."""
    c = it.c
    ws = [as_word(c, d) for d in ds if d.shape != (0,)]
    if any(w is None for w in ws):
        raise Unsupported("concatenation with a word")
    r = ws[0]
    for w in ws[1:]:
        r = cat(c, r, w)
    return wordarr(c, r)


def cat(c, a, b):
    def occ(s, k):
        r = ZERO
        if s in a.syms:
            r = r + a.occ(s, k)
        if s in b.syms:
            r = r + b.occ(s, k - a.ones)
        return r
    return Word(c, set(a.syms) | set(b.syms), a.ones + b.ones, occ, b.last)


def drop_last(it, d):
    c = it.c
    w = as_word(c, d)
    if w is None:
        raise Unsupported("slice of a word")
    ones = w.ones - ite(eq(w.last, 1), 1, 0)

    def occ(s, k):
        return w.occ(s, k) - ite(band(eq(w.last, s), eq(k, w.ones)), 1, 0)
    c.wordlens = getattr(c, "wordlens", 0) + 1
    last = app("wordlast", P(c.wordlens), sort="I")
    r = Word(c, w.syms, ones, occ, last)
    # what is left ends in 1 exactly when nothing follows its last one
    c.add_fact(bor(le(ones, 0), iff(eq(last, 1), eq(r.total(ones), 0))))
    c.add_fact(bor(*[eq(last, s) for s in w.syms]))
    return c.arr(wordarr(c, r))


def getitem(it, o, d, idx):
    from . import npmodel as N
    if d.mode == "w" and isinstance(idx, int) and not isinstance(idx, bool) and idx == -1:
        w = as_word(it.c, d)
        if w is not None and it.c.quick(le(1, d.shape[0])):
            return N.elem_val("i", w.last)
    if d.mode == "w" and isinstance(idx, SliceV) and idx.a is None and idx.c is None and idx.b == -1 and it.c.quick(le(1, d.shape[0])):
        return drop_last(it, d)
    if isinstance(idx, SliceV) and idx.a is None and idx.b is None and idx.c is None:
        return it.c.arr(d)
    if d.mode == "w" and isinstance(idx, ArrObj):
        m = N.arr_data(idx)
        if m.mode == "w" and m.dtype == "b" and m.elems[0] is d.elems[0] and [s for s, _ in m.elems[1]] == [s for s, _ in d.elems[1]]:
            if all(b.op == "const" for _, b in m.elems[1]):
                keep = {s for s, b in m.elems[1] if b.args[0]}
                return it.c.arr(wordarr(it.c, d.elems[0], {s: v for s, v in d.elems[1] if s in keep}, d.dtype))
    raise Unsupported("index into a word")


def elementwise(it, f, ds, dtype):
    """f on words with the same entries kept, and numbers."""
    from . import npmodel as N
    ws = [d for d in ds if d.mode == "w"]
    w, m = ws[0].elems
    syms = [s for s, _ in m]
    for d in ds:
        if d.mode == "w":
            if d.elems[0] is not w or [s for s, _ in d.elems[1]] != syms:
                raise Unsupported("operation on two words")
        elif d.shape != ():
            raise Unsupported("operation on a word and an array")
    out, dt = {}, dtype
    for i, s in enumerate(syms):
        v = f(*[N.elem_val(d.dtype, d.elems[1][i][1] if d.mode == "w" else d.elems[0]) for d in ds])
        if dt is None:
            dt = N.kind_of(v)
        out[s] = N.elem_of(it, v, dt)
    return it.c.arr(wordarr(it.c, w, out, dt))


def masked_set(it, o, d, m, e):
    """o[mask] = e for a constant array o and a mask over a word."""
    from . import npmodel as N
    w, bs = m.elems
    if d.mode == "w":
        if d.elems[0] is not w or [s for s, _ in d.elems[1]] != [s for s, _ in bs]:
            raise Unsupported("assignment through the mask of another word")
        old = dict(d.elems[1])
    elif d.mode == "s" and isinstance(d.elems, Poly) and d.elems.is_const() and d.shape == m.shape:
        old = {s: d.elems for s, _ in bs}
    else:
        raise Unsupported("assignment through the mask of a word")
    new = {s: N.merge_elem(b, e, old[s]) if b.op != "const" else (e if b.args[0] else old[s]) for s, b in bs}
    return N.write_all(it, o, wordarr(it.c, w, new, d.dtype))


def cumsum(it, d):
    if d.mode != "w" or d.dtype not in "fi":
        raise Unsupported("running sums of a word")
    return it.c.arr(ArrData(d.shape, d.dtype, "cw", d.elems))


def scaled(it, d, fn):
    """Running sums times a number: running sums of the multiples."""
    from . import npmodel as N
    out, dt = {}, None
    for s, v in d.elems[1]:
        r = fn(N.elem_val(d.dtype, v))
        dt = N.kind_of(r)
        out[s] = N.elem_of(it, r, dt)
    return it.c.arr(wordarr(it.c, d.elems[0], out, dt, mode="cw"))


def unique(it, d, counts):
    """Different running sums in increasing order, and how often each occurs: the k-th one (from 1) is
    reached at the k-th entry 1 and kept until the next one."""
    c = it.c
    w, m = d.elems
    step = dict(m).get(1)
    rest = [s for s, v in m if s != 1]
    if step is None or any(v != ZERO for s, v in m if s != 1) or not c.quick(lt(0, step)):
        raise Unsupported("np.unique of running sums")
    before = sum((w.occ(s, ZERO) for s in rest), ZERO)
    if before != ZERO and not c.quick(eq(before, 0)):
        raise Unsupported("np.unique of running sums that start with zero")
    vals = c.arr(ArrData((w.ones,), d.dtype, "s", step * (K[0] + 1)))
    if not counts:
        return vals
    n = ONE + sum((w.inside(s, K[0] + 1) for s in rest), ZERO)
    return (vals, c.arr(ArrData((w.ones,), "i", "s", n)))


# --------------------------------------------------------------------------- powers of two
def pow2(e):
    """Two to the power e; a positive constant part of the exponent becomes a factor."""
    e = P(e)
    c = e.d.get((), Fraction(0))
    if c.denominator == 1 and 0 <= c <= 64:
        c = int(c)
        rest = e - c
        if not rest.d:
            return P(2 ** c)
        return P(2 ** c) * app("pow2", rest, sort="I")
    return app("pow2", e, sort="I")


def _ax(args):
    e = args[0]
    s = app("pow2", e, sort="I")

    def one():
        out = [bor(lt(e, 0), band(le(1, s), le(e + 1, s))), bor(ne(e, 0), eq(s, 1)), bor(lt(e, 1), le(2, s))]
        c = e.d.get((), 0)
        if c < 0:
            out.append(bor(lt(e, 0), eq(s * 2 ** int(-c), pow2(e - c))))
        return out
    yield ("pow2", args), one


S.AX["pow2"] = _ax
T.APP_HOOKS["pow2"] = pow2
