"""Contracts of the concatenated sequences at every order: C16, C17."""
from pyvc.spec import *
from pyvc import words as W
from pyvc.invariants import At, Form, follow, loops_of, prove
from . import seqs as SQ

MOD = SQ.MOD
U, PI = var("U"), T.PI
m, k = var("m", "I"), var("k", "I")
pow2 = W.pow2
TASKS = {}


# ------------------------------------------------------------------------------- words
def word_lemmas(t):
    """What pyvc/words.py says about words, by induction over their entries.  w and v stand for words, x for an
    entry; snoc(w, x) is w with x put at its end.  The definitions are those of counting."""
    t.soft = True
    w, v, x, j = (var(z, "I") for z in ("w", "v", "x", "j"))
    SYMS = [var("s%d" % i, "I") for i in range(3)]         # the symbols other than 1
    a, b, d = SYMS
    f = lambda name: lambda *args: app(name, *[P(z) for z in args], sort="I")
    ones, occ, snoc, cat, last, num, keep = (f(z) for z in ("ones", "occ", "snoc", "cat", "last", "num", "keep"))
    EMPTY = var("empty", "I")
    alphabet = [ne(p_, q) for i, p_ in enumerate(SYMS + [ONE]) for q in (SYMS + [ONE])[:i]]
    entry = alphabet + [bor(*[eq(x, q) for q in SYMS + [ONE]])]

    def defs(u, y, *at):
        """Definitions at snoc(u, y), counts at the given numbers of ones."""
        n1 = ite(eq(y, 1), 1, 0)
        out = [eq(ones(snoc(u, y)), ones(u) + n1), eq(last(snoc(u, y)), y)]
        for k_ in at:
            out += [eq(occ(snoc(u, y), q, k_), occ(u, q, k_) + ite(band(eq(y, q), eq(k_, ones(u))), 1, 0)) for q in SYMS]
            out.append(eq(num(snoc(u, y), k_), num(u, k_) + ite(eq(k_, ones(u) + n1), 1, 0)))
        return out
    nothing = [eq(ones(EMPTY), 0)] + [eq(occ(EMPTY, q, k_), 0) for q in SYMS for k_ in (j, j - ones(v))] + [eq(num(EMPTY, j), 0)]
    tot = lambda u, k_: sum((occ(u, q, k_) for q in SYMS), ZERO)

    p = At("counts are not negative, nothing beyond the last one")
    claim = lambda u, k_: band(le(0, ones(u)), *[band(le(0, occ(u, q, k_)), bor(band(le(0, k_), le(k_, ones(u))), eq(occ(u, q, k_), 0))) for q in SYMS])
    t.ob("base", p, claim(EMPTY, j), nothing)
    t.ob("step", p, claim(snoc(w, x), j), entry + defs(w, x, j) + [claim(w, j)])

    p = At("ones of a concatenation")
    t.ob("base", p, eq(ones(v), ones(v) + ones(EMPTY)), nothing)
    cat_def = eq(cat(v, snoc(w, x)), snoc(cat(v, w), x))
    t.ob("step", p, eq(ones(cat(v, snoc(w, x))), ones(v) + ones(snoc(w, x))), entry + [cat_def, eq(ones(cat(v, w)), ones(v) + ones(w))] + defs(w, x) + defs(cat(v, w), x))

    p = At("entries between ones of a concatenation")
    claim = lambda u: band(*[eq(occ(cat(v, u), q, j), occ(v, q, j) + occ(u, q, j - ones(v))) for q in SYMS])
    t.ob("base", p, claim(EMPTY), nothing + [eq(cat(v, EMPTY), v)])
    t.ob("step", p, claim(snoc(w, x)), entry + [cat_def, claim(w), eq(ones(cat(v, w)), ones(v) + ones(w))] + defs(w, x, j - ones(v)) + defs(cat(v, w), x, j))

    p = At("without the last entry")
    full = defs(w, x, j) + entry
    t.ob("ones", p, eq(ones(w), ones(snoc(w, x)) - ite(eq(last(snoc(w, x)), 1), 1, 0)), full)
    t.ob("entries", p, band(*[eq(occ(w, q, j), occ(snoc(w, x), q, j) - ite(band(eq(last(snoc(w, x)), q), eq(j, ones(snoc(w, x)))), 1, 0)) for q in SYMS]), full)

    p = At("a word with ones ends in 1 exactly when nothing follows its last one")
    n1 = ones(snoc(w, x))
    beyond = [band(le(0, occ(w, q, n1)), bor(le(n1, ones(w)), eq(occ(w, q, n1), 0))) for q in SYMS]
    t.ob("step", p, bor(lt(n1, 1), iff(eq(last(snoc(w, x)), 1), eq(tot(snoc(w, x), n1), 0))), entry + defs(w, x, n1) + beyond)

    p = At("entries at which the running number of ones is j")
    claim = lambda u: eq(num(u, j), tot(u, j) + ite(band(le(1, j), le(j, ones(u))), 1, 0))
    t.ob("base", p, claim(EMPTY), nothing)
    t.ob("step", p, claim(snoc(w, x)), entry + defs(w, x, j) + [claim(w), le(0, ones(w))])

    p = At("selection of some symbols and of the ones")
    kept = [eq(keep(EMPTY), EMPTY)]
    claim = lambda u: band(eq(ones(keep(u)), ones(u)), *[eq(occ(keep(u), q, j), occ(u, q, j)) for q in (a, b)])
    t.ob("base", p, claim(EMPTY), kept + nothing)
    t.ob("step", p, claim(snoc(w, x)), entry + [eq(keep(snoc(w, x)), ite(eq(x, d), keep(w), snoc(keep(w), x))), claim(w)] + defs(w, x, j) + defs(keep(w), x, j))


TASKS["lemmas about words"] = word_lemmas


# ------------------------------------------------------------------------------- the recursion C(l-1) X C(l-1) X
def xs(l, j):
    """Number of X pulses at slot j of the X-concatenation of order l."""
    return app("xpulses", P(l), P(j), sort="I")


def xs_def(l, j):
    """The definition at order l >= 0: C(l) over the slots 1 .. 2^l, slot j ending at j spacings."""
    h = pow2(l - 1)
    rec = ite(le(j, h), xs(l - 1, j), xs(l - 1, j - h)) + ite(bor(eq(j, h), eq(j, h * 2)), 1, 0)
    return [bor(lt(l, 1), lt(j, 1), lt(h * 2, j), eq(xs(l, j), rec)), bor(ne(l, 0), eq(xs(l, j), 0)), le(0, xs(l, j))]


def xs_end(l):
    """Lemma: as many pulses as the order at the very end."""
    return eq(xs(l, pow2(l)), l)


def x_word(c, l):
    """What the contract of _concatenation_x says about its result."""
    n = pow2(l)
    return W.Word(c, (0, 1), n, lambda s, j: ite(band(le(1, j), le(j, n)), xs(l, j), 0), ZERO, inside=lambda s, j: xs(l, j))


def only_argument(vals):
    vs = list(vals.values())
    if len(vs) != 1 or not I.is_number(vs[0]) or I.kind_of(vs[0]) != "i":
        raise Unsupported("call of the recursion")
    return I.poly_of(vs[0])


def recursion(t, fn, word, calls):
    """Contract at the recursive calls: the order is smaller and at least one."""
    depth = [0]

    def con(it, f, vals):
        l = only_argument(vals)
        depth[0] += 1
        if depth[0] == 1:
            return NotImplemented
        calls.append(l)
        if not it.c.quick(band(le(1, l), lt(l, m + 1))):
            raise Unsupported("the order of a recursive call")
        return it.c.arr(W.wordarr(it.c, word(it.c, l)))
    return con


def result_word(t, p):
    d = arr_data(p.outcome[1]) if p.outcome[0] == "val" and isinstance(p.outcome[1], ArrObj) else None
    return W.as_word(p.ctx, d) if d is not None else None


def x_recursion(t):
    t.soft = True
    fn = "_concatenation_x"
    calls = []

    def thunk(it):
        it.c.add_fact(le(0, m))
        t.use(it, fn, recursion(t, fn, x_word, calls))
        return it.call(t.world.get(MOD + fn), [Num("i", m + 1)], {})
    for p in t.paths(fn, thunk):
        w = result_word(t, p)
        if w is None:
            t.undecide(p.label, "the result is not a word")
            continue
        t.ob("one 1 for each slot", p, eq(w.ones, pow2(m + 1)))
        t.ob("symbols", p, set(w.syms) <= {0, 1})
        t.ob("nothing before the first 1", p, eq(w.occ(0, ZERO), 0))
        rng = [le(1, k), le(k, pow2(m + 1))]
        t.ob("zeros after the k-th 1 are the pulses at slot k", p, eq(w.occ(0, k), xs(m + 1, k)), rng + xs_def(m + 1, k) + xs_def(m, k) + xs_def(m, k - pow2(m)))


def x_lemmas(t):
    t.soft = True
    t.ob("base", At("pulses at the very end"), xs_end(ZERO), xs_def(ZERO, ONE))
    t.ob("step", At("pulses at the very end"), xs_end(m + 1), [le(0, m), xs_end(m)] + xs_def(m + 1, pow2(m) * 2))


TASKS["_concatenation_x, every order"] = x_recursion
TASKS["lemmas about X-concatenation"] = x_lemmas


l = var("l", "I")


def by_contract(word):
    """Calls from outside the recursion."""
    def con(it, f, vals):
        o = only_argument(vals)
        if not it.c.quick(le(1, o)):
            raise Unsupported("the recursion is called with an order below one")
        return it.c.arr(W.wordarr(it.c, word(it.c, o)))
    return con


def odd(x):
    return eq(T.mk_mod(x, 2), 1)


def selections(e):
    """Names of the selections by condition that occur in e."""
    return sorted({a.data[0] for a in atoms_deep(e).values() if a.kind == "app" and N.NAMES.get(a.data[0], ("",))[0] == "cnt"})


def accepted(t, p, Td, ok):
    """Refusals and the attributes that do not depend on the pulses; the sequence, or None."""
    if p.outcome[0] == "raise":
        t.ob("invalid requests only", p, bnot(ok))
        t.raises_args_error("raises the arguments error", p)
        return None
    t.ob("accepts only valid requests", p, ok)
    o = p.outcome[1]
    it = I.Interp(p.ctx, None)
    t.num_eq("duration", p, it.getattr(o, "duration"), Td)
    t.ob("name", p, it.getattr(o, "name") == OStr("name"))
    return [it.getattr(o, a) for a in ("offsets",) + SQ.ATTRS]


def labelled(fn, pp):
    return fn if pp is None else "%s, rotations %s" % (fn, "requested" if pp else "declined")


def wrapping(t, it, log, pp):
    """Calls of the function that adds rotations are by contract; what it is given is logged."""
    del log[:]
    if pp:
        t.use(it, SQ.WRAP, SQ.wrap_contract(log))


def unwrapped(t, p, got, log, pp, Td, extra=()):
    """The arrays without the rotations around them, or None; with them, they must be what the contract says."""
    if not pp:
        return got
    if not t.ob("wrapped once", p, len(log) == 1):
        return None
    if not isinstance(log[0]["duration"], Num):
        return t.undecide(p.label, "the duration given to the wrapping function")
    t.ob("duration given to the wrapping function", p, eq(I.poly_of(log[0]["duration"]), Td))
    ins = [p.ctx.arr(log[0][a]) for a in ("offsets",) + SQ.ATTRS]
    first = SQ.wrapping(Td)
    for x, a, attr in zip(got, ins, ("offsets",) + SQ.ATTRS):
        d = arr_data(a)
        n = I.dimP(d.shape[0])
        t.arr_eq("wrapped " + attr, p, x, n + 2, lambda i: ite(eq(i, 0), first[attr][0], ite(eq(i, n + 1), first[attr][1], SQ.entry(d, i - 1))), dtype=None)
    return ins


def x_sequence(t, pps=(None,)):
    for pp in pps:
        x_sequence_with(t, pp)


def x_sequence_with(t, pp):
    fn = "new_x_concatenated_sequence"
    t.soft = True
    log = []
    N_ = pow2(l)
    Td = U * N_         # any duration: U is the spacing
    t.case = lambda ev: dict(fam=fn[4:-9], T=ev(Td), args=[ev.int(l)], pp=pp, name=ev.text("name")) if 1 <= ev.int(l) <= 12 else None

    def thunk(it):
        it.c.add_fact(le(1, l))
        it.c.add_fact(xs_end(l))
        t.use(it, "_concatenation_x", by_contract(x_word))
        wrapping(t, it, log, pp)
        return SQ.call(t, it, fn, dict(duration=Num("f", Td), concatenation_order=Num("i", l)), pp, OStr("name"))
    for p in t.paths(labelled(fn, pp), thunk):
        got = accepted(t, p, Td, lt(0, U))
        got = got and unwrapped(t, p, got, log, pp, Td)
        if got is None:
            continue
        n = I.dimP(arr_data(got[0]).shape[0])
        names = selections(n)
        if len(names) != 1:
            t.undecide(p.label, "the pulses are not selected by one condition")
            continue
        name = names[0]
        rng = [le(1, k), le(k, N_)]
        t.ob("a slot is selected when the number of pulses at it is odd", p, iff(N._body(name, k - 1, ()), odd(xs(l, k))), rng)
        t.ob("number of pulses: slots before the last one that are selected", p, eq(n, N.cnt_app(name, N_ - 1, ())))
        t.arr_eq("offsets", p, got[0], n, lambda i: U * (app("sel" + name[3:], i, sort="I") + 1), dtype=None)
        for a, attr, v in zip(got[1:], SQ.ATTRS, SQ.KIND["X"]):
            t.arr_eq(attr, p, a, n, lambda i: v, dtype=None)


TASKS["new_x_concatenated_sequence, every order"] = x_sequence


# ------------------------------------------------------------------------------- the recursion C(l-1) X C(l-1) Y C(l-1) X C(l-1) Y
def xy(o, j):
    """Product of the pulses at slot j of the XY-concatenation of order o: 0 none, 1 X, 2 Y, 3 Z."""
    return app("xypulse", P(o), P(j), sort="I")


def times(a, b):
    """Product of a (0 to 3) with X or Y."""
    r = P(b)
    for x in (1, 2, 3):
        r = ite(eq(a, x), x ^ b, r)
    return r


def block(j, h):
    """0 to 3: which of the four blocks of h slots."""
    return ite(le(j, h), 0, ite(le(j, h * 2), 1, ite(le(j, h * 3), 2, 3)))


def xy_def(o, j):
    """The definition at order o >= 0: C(o) over the slots 1 .. 4^o."""
    h = pow2(o * 2 - 2)
    cases = []
    for b in range(4):
        i = j - h * b
        cases.append(bor(lt(i, 1), lt(h, i), eq(xy(o, j), ite(lt(i, h), xy(o - 1, i), times(xy(o - 1, h), 1 + b % 2)))))
    return [bor(lt(o, 1), x) for x in cases] + [bor(ne(o, 0), eq(xy(o, j), 0))]


def xy_range(o, j):
    return bor(lt(j, 1), lt(pow2(o * 2), j), band(le(0, xy(o, j)), le(xy(o, j), 3)))


def xy_end(o):
    """Lemma: Y at the very end when the order is odd, nothing otherwise."""
    return eq(xy(o, pow2(o * 2)), ite(odd(o), 2, 0))


def xy_first(o):
    """Lemma: X at the first slot."""
    return bor(lt(o, 1), eq(xy(o, ONE), 1))


def xy_after(o, j):
    """Lemma: a Z pulse is followed by an X pulse at the next slot."""
    return bor(lt(j, 1), lt(pow2(o * 2), j), ne(xy(o, j), 3), band(lt(j, pow2(o * 2)), eq(xy(o, j + 1), 1)))


def xy_word(c, o):
    """What the contract of _concatenation_xy says about its result."""
    n = pow2(o * 2)
    c.add_fact(xy_end(o))
    c.add_fact(le(1, n))
    return W.Word(c, (-3, -2, -1, 1), n, lambda s, j: ite(band(le(1, j), le(j, n), eq(xy(o, j), -s)), 1, 0), ite(odd(o), -2, 1),
                  inside=lambda s, j: ite(eq(xy(o, j), -s), 1, 0))


def xy_recursion(t):
    t.soft = True
    fn = "_concatenation_xy"
    calls = []
    h = pow2(m * 2)

    def thunk(it):
        it.c.add_fact(le(0, m))
        t.use(it, fn, recursion(t, fn, xy_word, calls))
        return it.call(t.world.get(MOD + fn), [Num("i", m + 1)], {})
    for p in t.paths(fn, thunk):
        w = result_word(t, p)
        if w is None:
            t.undecide(p.label, "the result is not a word")
            continue
        t.ob("one 1 for each slot", p, eq(w.ones, h * 4))
        t.ob("symbols", p, set(w.syms) <= {1, -1, -2, -3})
        t.ob("last entry", p, eq(w.last, ite(odd(m + 1), -2, 1)))
        rng = [le(1, k), le(k, h * 4)] + xy_def(m + 1, k) + [xy_range(m, j) for j in (k, k - h, k - h * 2, k - h * 3, h)] + [xy_end(m), xy_end(m + 1)] + xy_def(m, ONE)
        for s, g in ((-1, "X"), (-2, "Y"), (-3, "Z")):
            if s in w.syms:
                t.ob("nothing %s before the first 1" % g, p, eq(w.occ(s, ZERO), 0))
            t.ob("%d after the k-th 1 when the pulse at slot k is %s" % (s, g), p, eq(w.occ(s, k) if s in w.syms else ZERO, ite(eq(xy(m + 1, k), -s), 1, 0)), rng)


def xy_lemmas(t):
    t.soft = True
    h = pow2(m * 2)
    pos = [le(0, m)]
    rng = pos + [le(1, k), le(k, h * 4)]
    subs = [k - h * b for b in range(4)]
    a = At("a slot holds nothing, X, Y or Z")
    t.ob("base", a, xy_range(ZERO, k), xy_def(ZERO, k))
    t.ob("step", a, xy_range(m + 1, k), rng + xy_def(m + 1, k) + [xy_range(m, j) for j in subs + [h]])
    a = At("Y at the end of odd orders")
    t.ob("base", a, xy_end(ZERO), xy_def(ZERO, ONE))
    t.ob("step", a, xy_end(m + 1), pos + [xy_end(m)] + xy_def(m + 1, h * 4))
    a = At("X at the first slot")
    t.ob("step", a, xy_first(m + 1), pos + [xy_first(m), xy_end(m)] + xy_def(m + 1, ONE) + xy_def(m, ONE))
    a = At("X follows Z")
    t.ob("base", a, xy_after(ZERO, k), xy_def(ZERO, k))
    t.ob("step", a, xy_after(m + 1, k), rng + xy_def(m + 1, k) + xy_def(m + 1, k + 1) + [xy_after(m, j) for j in subs + [h]] + [xy_range(m, j) for j in subs + [h]]
         + [xy_end(m), xy_first(m)] + xy_def(m, ONE) + [xy_range(m, ONE)])


TASKS["_concatenation_xy, every order"] = xy_recursion
TASKS["lemmas about XY-concatenation"] = xy_lemmas


# ------------------------------------------------------------------------------- merging X, Y and Z pulses
L = var("l", "I")
N4 = pow2(L * 2)
KINDS = {"X": (1,), "Y": (2,), "Z": (3,), "B": (1, 2), "A": (1, 2, 3)}


class Picks:
    """Selections of slots by the kind of pulse: c(P, a) selected slots before slot a (from 0), s(P, i) the i-th
    selected one, for P one of X, Y, Z, B (X or Y), A (any)."""

    def __init__(self, names):
        self.names = names

    def kind(self, a):
        return xy(L, a + 1)

    def has(self, sel, a):
        return bor(*[eq(self.kind(a), g) for g in KINDS[sel]])

    def c(self, sel, a):
        return ZERO if P(a) == ZERO else app(self.names[sel], P(a), sort="I")

    def n(self, sel):
        return self.c(sel, N4)

    def s(self, sel, i):
        return app("sel" + self.names[sel][3:], P(i), sort="I")

    def about(self, slots, places):
        """Instances of the axioms of selections and of the lemmas about the recursion."""
        out = []
        slots = list(dict.fromkeys([P(a) for a in slots] + [self.s(*x) for x in places]))
        more = list(dict.fromkeys(slots + [a + 1 for a in slots] + [ZERO, N4]))
        for sel, i in places:
            a = self.s(sel, i)
            out.append(bor(lt(i, 0), le(self.n(sel), i), band(le(0, a), lt(a, N4), self.has(sel, a), eq(self.c(sel, a), i))))
        for a in slots:
            inside = bor(lt(a, 0), le(N4, a))
            out += [xy_range(L, a + 1), xy_after(L, a + 1)]
            for sel in KINDS:
                out.append(bor(inside, eq(self.c(sel, a + 1), self.c(sel, a) + ite(self.has(sel, a), 1, 0))))
                out.append(bor(inside, bnot(self.has(sel, a)), band(lt(self.c(sel, a), self.n(sel)), eq(self.s(sel, self.c(sel, a)), a))))
        for a in more:
            ok = bor(lt(a, 0), lt(N4, a))
            out += [bor(ok, self.sums(a))] + [bor(ok, le(0, self.c(sel, a))) for sel in KINDS]
            for b in more:
                if a is not b and not (b - a).is_const() and (b in slots or b == N4):
                    out += [bor(lt(a, 0), lt(b, a), lt(N4, b), le(self.c(sel, a), self.c(sel, b))) for sel in "XYZ"]
        return out

    def inside(self, sel):
        """Times of the selected slots are within the duration."""
        return forall(0, self.n(sel), lambda i: self.within(sel, i))

    def within(self, sel, i):
        return band(le(0, U * (self.s(sel, i) + 1)), le(U * (self.s(sel, i) + 1), U * N4))

    def sums(self, a):
        return band(eq(self.c("B", a), self.c("X", a) + self.c("Y", a)), eq(self.c("A", a), self.c("B", a) + self.c("Z", a)))


def by_U(p):
    """p / U, taking conditions apart; None when U does not divide it."""
    uid = var_id(U)
    out = ZERO
    for mono, co in P(p).d.items():
        d = dict(mono)
        if d.get(uid, 0) >= 1:
            d[uid] -= 1
            out = out + Poly({tuple((a, e) for a, e in sorted(d.items()) if e): co})
            continue
        if len(mono) != 1 or mono[0][1] != 1 or T.get_atom(mono[0][0]).kind != "ite":
            return None
        cond, x, y = T.get_atom(mono[0][0]).data
        x, y = by_U(x), by_U(y)
        if x is None or y is None:
            return None
        out = out + P(co) * ite(cond, x, y)
    return out


def per_spacing(b):
    """A condition on times as one on slots (U > 0)."""
    if b.op in ("lt", "le", "eq"):
        q = by_U(b.args[0])
        return b if q is None else T._cmp(b.op, q)
    if b.op in ("and", "or"):
        xs_ = [per_spacing(x) for x in b.args]
        return band(*xs_) if b.op == "and" else bor(*xs_)
    if b.op == "not":
        return bnot(per_spacing(b.args[0]))
    return b


def same(a, b):
    """Equality of array cells; times are compared in units of the spacing."""
    x, y = by_U(a), by_U(b)
    return eq(x, y) if x is not None and y is not None else eq(a, b)


class Merge(Form):
    """X and Y pulses are merged: the first g pulses are in place, all slots before q have been passed."""

    def __init__(self, name, pk, q, done=None):
        self.name, self.pk, self.q, self.done = name, pk, q, done
        self.base, self.given = pk.base, [pk.inside("B")]

    def at(self, g):
        """The slot up to which everything has been merged."""
        return self.q[g] if g in self.q else self.pk.s("B", g - 1) + 1

    def vars(self, g):
        a = self.at(g)
        return {"rabi_idx": self.pk.c("X", a), "azimuthal_idx": self.pk.c("Y", a), "carr_idx": g}

    def arrays(self, g):
        k0 = K[0]
        b = self.pk.s("B", k0)
        return {"offsets": ite(lt(k0, g), U * (b + 1), 0), "rabi_rotations": ite(lt(k0, g), PI, 0),
                "azimuthal_angles": ite(lt(k0, g), ite(eq(self.pk.kind(b), 2), PI * Fraction(1, 2), 0), 0)}

    def near(self, g):
        pk = self.pk
        return [self.at(g)], [("B", g - 1), ("B", g), ("X", pk.c("X", self.at(g))), ("Y", pk.c("Y", self.at(g)))]

    def facts(self, g):
        return self.pk.about(*self.near(g))

    def inv(self, g):
        a, pk = self.at(g), self.pk
        out = [("at most all X and Y pulses", band(le(0, g), le(g, pk.n("B")))), ("slots passed", bor(band(eq(g, 0), eq(a, 0)), band(lt(0, g), eq(a, pk.s("B", g - 1) + 1)))),
               ("slots passed are there", band(le(0, a), le(a, N4)))]
        if self.done:
            out.append(("all %s pulses are in place" % self.done, eq(pk.c(self.done, a), pk.n(self.done))))
        return out

    def cells(self, g, i):
        return self.pk.about([], [("B", i)])

    def after(self, g):
        pk = self.pk
        out = [("%s pulses placed" % x, eq(pk.c(x, self.at(g)), pk.n(x))) for x in ("X", "Y") if self.done == x]
        return out + [("X and Y pulses placed so far", eq(pk.c("X", self.at(g)) + pk.c("Y", self.at(g)), g)),
                      ("sizes", band(le(pk.c("X", self.at(g)), pk.n("X")), le(pk.c("Y", self.at(g)), pk.n("Y"))))]


class Insert(Form):
    """Z pulses are inserted: the first g pulses are final, the others are X and Y pulses shifted by z."""

    def __init__(self, name, pk, q):
        self.name, self.pk, self.q = name, pk, q
        self.base, self.given = pk.base, [pk.inside("A")]

    def at(self, g):
        return self.q[g] if g in self.q else self.pk.s("A", g - 1) + 1

    def after(self, g):
        return [("the loop breaks off", FALSE)]

    def final(self, g):
        return final(self.pk, K[0])

    def z(self, g):
        return self.pk.c("Z", self.at(g))

    def vars(self, g):
        return {"z_idx": self.z(g)}

    def arrays(self, g):
        pk, k0, z = self.pk, K[0], self.z(g)
        fin = final(pk, k0)
        b = pk.s("B", k0 - z)
        left = lt(k0 - z, pk.n("B"))
        rest = {"offsets": ite(left, U * (b + 1), 0), "rabi_rotations": ite(left, PI, 0),
                "azimuthal_angles": ite(left, ite(eq(pk.kind(b), 2), PI * Fraction(1, 2), 0), 0), "detuning_rotations": ZERO}
        return {n: ite(lt(k0, g), fin[n], rest[n]) for n in fin}

    def facts(self, g):
        pk, z = self.pk, self.z(g)
        return pk.about([self.at(g), pk.s("A", g) + 1], [("A", g - 1), ("A", g), ("B", g - z), ("Z", z)])

    def inv(self, g):
        a, pk = self.at(g), self.pk
        return [("at most all pulses", band(le(0, g), le(g, pk.n("A")))), ("slots passed", bor(band(eq(g, 0), eq(a, 0)), band(lt(0, g), eq(a, pk.s("A", g - 1) + 1)))),
                ("slots passed are there", band(le(0, a), le(a, N4))), ("Z pulses are left", lt(self.z(g), pk.n("Z")))]

    def inside(self, g):
        pk, z = self.pk, self.z(g)
        return [("an X or Y pulse is left", lt(g - z, pk.n("B")))]

    def cells(self, g, i):
        z = self.z(g)
        return self.pk.about([], [("A", i), ("B", i - z), ("B", i - z + 1)])

    def ending(self, g, i):
        pk, z = self.pk, self.z(g)
        return pk.about([self.at(g), pk.s("A", g), pk.s("A", g) + 1], [("A", i), ("B", i - z), ("B", i - z - 1)])


def final(pk, i):
    a = pk.s("A", i)
    g = pk.kind(a)
    return {"offsets": U * (a + 1), "rabi_rotations": ite(eq(g, 3), 0, PI), "azimuthal_angles": ite(eq(g, 2), PI * Fraction(1, 2), 0),
            "detuning_rotations": ite(eq(g, 3), PI, 0)}


def xy_sequence(t, pps=(None,)):
    fn = "new_xy_concatenated_sequence"
    t.soft = True
    f = t.world.get(MOD + fn)
    loops = loops_of(f.node)
    if [type(x) for x in loops] != [ast.While] * 3 + [ast.For]:
        return t.undecide(fn, "the loops are not the ones the contract is about")
    N.MANUAL.append(1)
    try:
        for pp in pps:
            xy_sequence_with(t, fn, loops, pp)
    finally:
        N.MANUAL.pop()


def picks(t, it, env):
    """The selections made by the code for X, Y and Z pulses, and those of the definition."""
    names = {}
    for sel, v in (("X", "rabi_offsets"), ("Y", "azimuthal_offsets"), ("Z", "detuning_offsets")):
        lst = env.vars.get(v)
        st = lst.state if isinstance(lst, PyList) else None
        if not isinstance(st, tuple) or st[0] != "sym":
            raise Unsupported("%s is not a selection" % v)
        nm = selections(P(st[1]))
        if len(nm) != 1 or P(st[1]) != app(nm[0], N4, sort="I"):
            raise Unsupported("%s is not a selection by one condition" % v)
        names[sel] = nm[0]
    for sel in "BA":
        names[sel] = N.define("cnt", bor(*[eq(xy(L, K[0] + 1), g) for g in KINDS[sel]]))[0]
    pk = Picks(names)
    at = At("selection of pulses", [le(1, L), le(0, k), lt(k, N4), le(1, N4), xy_range(L, k + 1)])
    for sel in "XYZ":
        prove(t, at, "a slot is selected when its pulse is %s" % sel, iff(N._body(names[sel], k, ()), pk.has(sel, k)))
    # numbers of pulses add up: induction over the slots
    prove(t, at, "numbers of pulses add up", pk.sums(k + 1), [pk.sums(k)] + [eq(pk.c(sel, k + 1), pk.c(sel, k) + ite(pk.has(sel, k), 1, 0)) for sel in KINDS])
    for sel in "BA":
        prove(t, at, "times are within the duration (%s)" % sel, per_spacing(pk.within(sel, k)), [lt(0, U), lt(k, pk.n(sel))] + pk.about([], [(sel, k)]))
    it.c.add_fact(pk.sums(N4))
    pk.base = list(it.c.facts)
    return pk


def xy_sequence_with(t, fn, loops, pp):
    con = t.world.loop_contracts
    Td = U * N4
    log = []
    t.case = lambda ev: dict(fam=fn[4:-9], T=ev(Td), args=[ev.int(L)], pp=pp, name=ev.text("name")) if 1 <= ev.int(L) <= 6 else None

    def merge(name, idx, done):
        def form(it, env):
            gh = it.c.ghost
            pk = gh.get("picks") or picks(t, it, env)
            gh["picks"] = pk
            g0 = I.poly_of(env.vars["carr_idx"])
            q = dict(gh.get("q", {ZERO: ZERO}))
            g, a = var("g%d" % idx, "I"), var("q%d" % idx, "I")
            q[g] = a
            gh["q"] = q
            return Merge(name, pk, q, done), g0, g
        con[id(loops[idx])] = follow(t, form, same)
    merge("merge of X and Y pulses", 0, None)
    merge("remaining X pulses", 1, "Y")
    merge("remaining Y pulses", 2, "X")

    def insert(it, env):
        g = var("g3", "I")
        return Insert("insertion of Z pulses", it.c.ghost["picks"], {ZERO: ZERO, g: var("q3", "I")}), ZERO, g
    con[id(loops[3])] = follow(t, insert, same)

    def thunk(it):
        for x in (le(1, L), lt(0, U), lt(0, N4), le(4, N4)):
            it.c.add_fact(x)
        t.use(it, "_concatenation_xy", by_contract(xy_word))
        wrapping(t, it, log, pp)
        return SQ.call(t, it, fn, dict(duration=Num("f", Td), concatenation_order=Num("i", L)), pp, OStr("name"))
    for p in t.paths(labelled(fn, pp), thunk):
        pk = p.ctx.ghost["picks"]
        got = accepted(t, p, Td, lt(0, U))
        got = got and unwrapped(t, p, got, log, pp, Td)
        if got is None:
            continue
        i = var("!c", "I")
        fin = final(pk, i)
        n = pk.n("A")
        rng = [le(0, i), lt(i, n)]
        for a, attr in zip(got, ("offsets",) + SQ.ATTRS):
            d = arr_data(a)
            if len(d.shape) != 1 or d.mode != "s":
                t.undecide(p.label, "%s are not a plain array" % attr)
                continue
            ex = pk.about([], [])
            t.ob("number of pulses (%s)" % attr, p, eq(I.dimP(d.shape[0]), n), ex)
            t.ob(attr, p, same(subst_e(d.elems, {KID[0]: i}), fin[attr]), rng + pk.about([], [("A", i), ("B", i), ("B", i - pk.n("Z"))]))
        if pp:
            t.ob("every pulse is an X, Y or Z pulse", p, bor(*[band(*[eq(fin[a], v) for a, v in zip(SQ.ATTRS, SQ.KIND[g])]) for g in "XYZ"]), rng + pk.about([], [("A", i)]))


def xy_refused(t):
    fn = "new_xy_concatenated_sequence"
    Tv = SQ.Tv
    t.case = lambda ev: dict(fam=fn[4:-9], T=ev(Tv), args=[ev.int(L)], pp=None, name=ev.text("name")) if 1 <= ev.int(L) <= 6 else None

    def thunk(it):
        it.c.add_fact(le(1, L))
        it.c.add_fact(le(Tv, 0))
        t.use(it, "_concatenation_xy", by_contract(xy_word))
        return SQ.call(t, it, fn, dict(duration=Num("f", Tv), concatenation_order=Num("i", L)), None, OStr("name"))
    for p in t.paths(fn + ", no duration", thunk):
        t.raises_args_error("raises the arguments error", p)


TASKS["new_xy_concatenated_sequence, every order"] = xy_sequence
TASKS["new_xy_concatenated_sequence, durations that are not positive"] = xy_refused
TASKS["new_x_concatenated_sequence wrapped, every order"] = lambda t: x_sequence(t, (True, False))
TASKS["new_xy_concatenated_sequence wrapped, every order"] = lambda t: xy_sequence(t, (True, False))
LAST = lambda x: not x.startswith("new_xy")         # the longest ones first
C16 = sorted([x for x in TASKS if "wrapped" not in x], key=LAST)
C17 = sorted([x for x in TASKS if "wrapped" in x or not x.startswith("new_")], key=LAST)
