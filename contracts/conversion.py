"""Contracts of the conversion of sequences to driven controls: C11 (times), C12 (pulses), C13 (refusals)."""
from pyvc.spec import *
from . import controls as CT
from . import exports as EX

n, Tv = CT.n, EX.Tv
Wr, Wd, m = var("Wr"), var("Wd"), var("m")
CONV = EX.CONVERT
TINY = Fraction(1, 10 ** 7)
TOL = Tv * Fraction(1, 10 ** 8) + m * Fraction(1, 10 ** 5)
ATTRS = ("rabi_rates", "azimuthal_angles", "detunings", "durations")


def absb(x, op):
    return op(ite(le(0, x), x, -x))


def larger(x, y):
    return ite(lt(x, y), y, x)


class Ref:
    """What the conversion has to do: the pulses at their places, and idle places at the ends that have no pulse.

    Place j of M holds pulse j - s, where s = 1 when the first pulse is not at time zero."""

    def __init__(self, first, last, empty=False):
        self.first, self.last, self.empty = first, last, empty
        self.s = 0 if first else 1
        self.M = P(2) if empty else n + self.s + (0 if last else 1)

    def is_pulse(self, j):
        if self.empty:
            return FALSE
        cs = []
        if not self.first:
            cs.append(le(1, j))
        if not self.last:
            cs.append(lt(j, self.M - 1))
        return band(*cs) if cs else TRUE

    def at(self, name, j, other):
        return ite(self.is_pulse(j), app(name, j - self.s), other)

    def mid(self, j):
        return self.at("o", j, ite(eq(j, 0), ZERO, Tv))

    def width(self, j):
        i = j - self.s
        r, e = app("r", i), app("e", i)
        w = ite(lt(0, r), larger(r * inv(Wr), m), ite(ne(e, 0), larger(T.mk_abs(e) * inv(Wd), m), ZERO))
        return ite(self.is_pulse(j), w, ZERO)

    def start(self, j):
        return ite(eq(j, 0), ZERO, ite(eq(j, self.M - 1), Tv - self.width(j), self.mid(j) - self.width(j) * Fraction(1, 2)))

    def end(self, j):
        return ite(eq(j, 0), self.width(j), ite(eq(j, self.M - 1), Tv, self.mid(j) + self.width(j) * Fraction(1, 2)))

    def gap(self, j):
        return self.start(j + 1) - self.end(j)


def domain(c):
    """Rotations are zero or at least 1e-7 (unless the pulse is to be refused anyway)."""
    def pulse(i):
        r, e = app("r", i), app("e", i)
        return bor(lt(r, 0), band(ne(r, 0), ne(e, 0)), band(bor(eq(r, 0), le(TINY, r)), bor(eq(e, 0), le(TINY, e), le(e, -TINY))))
    c.add_fact(forall(0, n, pulse))


def made(c, log):
    """The constructor of controls stores what it is given (C01); it needs lists of one length, positive
    durations and no negative Rabi rate."""
    def con(it, f, vals):
        if not all(isinstance(vals.get(a), ArrObj) and arr_data(vals[a]).dtype == "f" and len(arr_data(vals[a]).shape) == 1 for a in ATTRS):
            return NotImplemented
        log.append(vals)
        it.give(vals["self"], {a: vals[a] for a in ATTRS + ("name",)})
        return None
    return con


def shape_facts(c, ref):
    if ref.empty:
        c.add_fact(eq(n, 0))
        return
    c.add_fact(le(1, n))
    c.add_fact(eq(app("o", P(0)), 0) if ref.first else lt(0, app("o", P(0))))
    c.add_fact(eq(app("o", n - 1), Tv) if ref.last else lt(app("o", n - 1), Tv))


def conv_case(ev):
    d = EX.seq_case()(ev)
    d.update(Wr=ev(Wr), Wd=ev(Wd), m=ev(m), cname=ev.text("cn"))
    return d


class Segments:
    """The segments given to the constructor as a selection of candidates: entry a at candidate k, and the
    condition under which candidate k is kept.  All four lists have to come from one selection."""

    def __init__(self, vals):
        self.el, sels, lens = {}, {}, set()
        for a in ATTRS:
            d = arr_data(vals[a])
            if d.mode != "s" or not isinstance(d.elems, Poly):
                raise Unsupported("form of the segments")
            for at in atoms_deep(d.elems).values():
                if at.kind == "app" and at.data[0][:3] == "sel" and "cnt" + at.data[0][3:] in N.NAMES:
                    sels[at.id] = at
            lens.add(I.dimP(d.shape[0]))
            self.el[a] = d.elems
        ats = [at for L in lens for at in atoms_deep(L).values() if at.kind == "app" and N.NAMES.get(at.data[0], ("",))[0] == "cnt"]
        if len(sels) != 1 or len(lens) != 1 or len({at.id for at in ats}) != 1:
            raise Unsupported("form of the segments")
        self.sel, cnt, L = list(sels.values())[0], ats[0], lens.pop()
        if L != T.atom_poly(cnt) or self.sel.data[0][3:] != cnt.data[0][3:] or self.sel.data[1] != (K[0],) + cnt.data[1][1:]:
            raise Unsupported("form of the segments")
        self.name, self.ps, self.length = cnt.data[0], cnt.data[1][1:], cnt.data[1][0]

    def at(self, a, k):
        e = T.replace_atoms(self.el[a], {self.sel.id: P(k)})
        if KID[0] in T.fv_poly(e):
            raise Unsupported("form of the segments")
        return e

    def kept(self, k):
        return N._body(self.name, P(k), self.ps)


def iff(x, y):
    return bor(band(x, y), band(bnot(x), bnot(y)))


j = var("!j", "I")


def run(ref, t, judge, given=("m", "name")):
    """Every path of the conversion for valid limits."""
    t.soft = True
    t.size("n", 3)
    t.case = conv_case
    log = []

    def thunk(it):
        del log[:]
        c = it.c
        o = EX.make_seq(t, it, OStr("name"))
        shape_facts(c, ref)
        for x in (lt(0, Wr), lt(0, Wd), le(0, m) if "m" in given else eq(m, 0)):
            c.add_fact(x)
        domain(c)
        t.use(it, "DrivenControl.__init__", made(c, log))
        kw = {}
        if "m" in given:
            kw["minimum_segment_duration"] = Num("f", m)
        if "name" in given:
            kw["name"] = OStr("cn")
        return it.call(t.world.get(EX.DDSM + CONV), [o, Num("f", Wr), Num("f", Wd)], kw)
    for p in t.paths(CONV, thunk):
        judge(ref, t, p, log, given)


def result(t, p, log):
    """The returned control is the one that was constructed last."""
    v = p.outcome[1]
    if isinstance(v, PyObj) and len(log) == 1 and log[0]["self"] is v:
        return log[0]
    t.undecide(p.label, "the returned control is not the only one constructed")
    return None


def places(ref):
    return [le(0, j), lt(j, ref.M)]


def entries(ref, t, p, log):
    """The candidates: place j gives candidate 2 j, the time after it candidate 2 j + 1."""
    vals = result(t, p, log)
    if vals is None:
        return None
    if ref.empty:
        return vals
    sg = Segments(vals)
    ok = t.ob("two candidate segments for every place", p, eq(sg.length, 2 * ref.M))
    k = var("!k", "I")
    ok = t.ob("exactly the candidates of positive duration are segments", p, iff(sg.kept(k), lt(0, sg.at("durations", k))), [le(0, k), lt(k, sg.length)]) and ok
    return sg if ok else None


def idle(ref, t, p, vals):
    """Without pulses the control is one undriven segment."""
    for a in ATTRS:
        d = arr_data(vals[a])
        t.ob("one segment: " + a, p, eq(I.dimP(d.shape[0]), 1))
        if a != "azimuthal_angles":
            want = Tv if a == "durations" else ZERO
            for g, e in (d.elems if d.mode == "g" else [(TRUE, e) for e in d.elems] if d.mode == "c" else [(TRUE, subst(d.elems, {KID[0]: ZERO}))]):
                t.ob("undriven for the whole duration: " + a, p, bor(bnot(g), eq(e, want)))


def times(ref, t, p, log, given):
    """C11.  With S(k) the sum of the durations of the candidates before k: S(2 j) is the reference start of
    place j (induction over the places), and what is dropped lasts no longer than the tolerance."""
    if p.outcome[0] != "val":
        return
    sg = entries(ref, t, p, log)
    if sg is None:
        return
    if ref.empty:
        return idle(ref, t, p, sg)
    D = lambda k: sg.at("durations", k)
    rng = places(ref)
    t.ob("the first place starts at time zero", p, eq(ref.start(P(0)), 0))
    t.ob("a place ends where its segment ends, the next one starts after the gap", p, bor(eq(j, ref.M - 1), eq(ref.start(j) + D(2 * j) + D(2 * j + 1), ref.start(j + 1))), rng)
    t.ob("the last place ends with the sequence", p, eq(ref.start(ref.M - 1) + D(2 * ref.M - 2) + D(2 * ref.M - 1), Tv))
    t.ob("the segment of a pulse is centred at its offset", p,
         bor(bnot(ref.is_pulse(j)), eq(ref.mid(j), 0), eq(ref.mid(j), Tv), eq(ref.start(j) + D(2 * j) * Fraction(1, 2), ref.mid(j))), rng)
    t.ob("a pulse at time zero starts there", p, bor(bnot(ref.is_pulse(j)), ne(ref.mid(j), 0), eq(ref.start(j), 0)), rng)
    t.ob("a pulse at the end of the sequence ends there", p, bor(bnot(ref.is_pulse(j)), ne(ref.mid(j), Tv), eq(ref.start(j) + D(2 * j), Tv)), rng)
    rot = bor(ne(ref.at("r", j, ZERO), 0), ne(ref.at("e", j, ZERO), 0))
    t.ob("every pulse that rotates has a segment unless it takes no time", p, bor(bnot(rot), lt(0, D(2 * j))), rng)
    t.ob("a place without rotation has none", p, bor(rot, eq(D(2 * j), 0)), rng)
    t.ob("the time after a place is undriven", p, band(eq(sg.at("rabi_rates", 2 * j + 1), 0), eq(sg.at("detunings", 2 * j + 1), 0)), rng)
    t.ob("nothing follows the last place", p, eq(D(2 * ref.M - 1), 0))
    t.ob("a pulse segment is driven", p, bor(bnot(rot), ne(sg.at("rabi_rates", 2 * j), 0), ne(sg.at("detunings", 2 * j), 0)), rng)
    # what is left out
    t.ob("a gap that is left out is no longer than the tolerance", p, bor(eq(j, ref.M - 1), le(-TOL, D(2 * j + 1))), rng)
    F, B_, s0, d0, d1, s1 = (var("!" + x) for x in ("F", "B", "s", "d", "g", "u"))
    keep = lambda x: ite(lt(0, x), x, ZERO)
    near = lambda x, y, b: band(le(x - y, b), le(y - x, b))
    t.ob("lemma: leaving out a gap moves the later segments by no more than the tolerance", Facts(p, [le(0, B_), le(0, TOL), near(F, s0, B_), le(0, d0), le(-TOL, d1), eq(s0 + d0 + d1, s1)]),
         near(F + keep(d0) + keep(d1), s1, B_ + TOL))


class Facts:
    """A path with other facts."""

    def __init__(self, p, facts):
        self.label, self.ctx, self.facts = p.label, p.ctx, facts


def pulses(ref, t, p, log, given):
    """C12."""
    if p.outcome[0] != "val":
        return
    sg = entries(ref, t, p, log)
    nm = log[-1]["name"] if log else None
    t.ob("carries the requested name", p, freeze(nm) == freeze(OStr("cn")) if "name" in given else nm is None)
    if sg is None:
        return
    if ref.empty:
        idle(ref, t, p, sg)
        t.ob("the undriven segment is long enough", p, le(m - TOL, Tv))
        return
    rng = places(ref)
    r, e, a = ref.at("r", j, ZERO), ref.at("e", j, ZERO), ref.at("a", j, ZERO)
    D = sg.at("durations", 2 * j)
    R, E, A = (sg.at(x, 2 * j) for x in ("rabi_rates", "detunings", "azimuthal_angles"))
    t.ob("the duration of a pulse", p, eq(D, ref.width(j)), rng)
    t.ob("rate and duration give the Rabi rotation", p, bor(le(r, 0), eq(R, r * inv(D))), rng)
    t.ob("at the azimuthal angle", p, bor(le(r, 0), eq(A, a)), rng)
    t.ob("a Rabi pulse has no detuning", p, bor(le(r, 0), eq(E, 0)), rng)
    t.ob("detuning and duration give the detuning rotation", p, bor(eq(e, 0), eq(E, e * inv(D))), rng)
    t.ob("a detuning pulse has no Rabi rate", p, bor(eq(e, 0), eq(R, 0)), rng)
    t.ob("an undriven place has no segment", p, bor(ne(r, 0), ne(e, 0), eq(D, 0)), rng)
    # within the limits
    t.ob("a Rabi pulse lasts at least its rotation over the maximum Rabi rate", p, bor(le(r, 0), le(r * inv(Wr), D)), rng)
    t.ob("a detuning pulse lasts at least its rotation over the maximum detuning rate", p, bor(eq(e, 0), le(T.mk_abs(e) * inv(Wd), D)), rng)
    x, W, d = var("!x"), var("!W"), var("!d")
    t.ob("lemma: a duration of at least rotation over maximum rate keeps the rate within the maximum", Facts(p, [lt(0, W), lt(0, d), le(T.mk_abs(x) * inv(W), d)]),
         band(le(x * inv(d), W), le(-W, x * inv(d))))
    t.ob("a pulse takes time", p, bor(band(eq(r, 0), eq(e, 0)), lt(0, D)), rng)
    t.ob("undriven segments are undriven", p, band(eq(sg.at("rabi_rates", 2 * j + 1), 0), eq(sg.at("detunings", 2 * j + 1), 0)), rng)
    t.ob("undriven segments are long enough", p, bor(eq(j, ref.M - 1), le(m - TOL, sg.at("durations", 2 * j + 1))), rng)
    t.ob("nothing follows the last place", p, eq(sg.at("durations", 2 * ref.M - 1), 0))
    # what the constructor of controls needs
    t.ob("no segment has a negative Rabi rate", p, bor(le(D, 0), le(0, R)), rng)


def refusals(ref, t, p, log, given):
    """C13 for valid limits."""
    rr, ee, oo = (lambda i: app("r", i)), (lambda i: app("e", i)), (lambda i: app("o", i))
    if p.outcome[0] == "raise":
        t.raises_args_error("raises the arguments error", p)
        t.ob("refuses only what cannot be realised", p,
             bor(exists(0, n, lambda i: lt(rr(i), 0)), exists(0, n, lambda i: band(ne(rr(i), 0), ne(ee(i), 0))),
                 exists(0, n - 1, lambda i: le(oo(i + 1), oo(i))), lt(ref.gap(P(0)), m) if ref.empty else exists(0, ref.M - 1, lambda i: lt(ref.gap(i), m))))
        return
    i = [le(0, j), lt(j, n)]
    t.ob("accepts no negative Rabi rotation", p, le(0, rr(j)), i)
    t.ob("accepts no pulse with both rotations", p, bor(eq(rr(j), 0), eq(ee(j), 0)), i)
    t.ob("accepts only increasing offsets", p, lt(oo(j), oo(j + 1)), [le(0, j), lt(j, n - 1)])
    t.ob("accepts no gap that is too short", p, le(m - TOL, ref.gap(j)), [le(0, j), lt(j, ref.M - 1)])


def limits(t):
    """Limits that are not valid are refused whatever the sequence is."""
    t.soft = True
    t.size("n", 3)
    t.case = conv_case
    t.prefer = [le(n, 2)]

    def thunk(it):
        o = EX.make_seq(t, it, OStr("name"))
        it.c.add_fact(bor(le(Wr, 0), le(Wd, 0), lt(m, 0)))
        return it.call(t.world.get(EX.DDSM + CONV), [o, Num("f", Wr), Num("f", Wd), Num("f", m), OStr("cn")], {})
    for p in t.paths(CONV, thunk):
        t.raises_args_error("refuses limits that are not valid", p)


SHAPES = {
    "no pulse": Ref(0, 0, True),
    "no pulse at the ends": Ref(0, 0),
    "a pulse at the start": Ref(1, 0),
    "a pulse at the end": Ref(0, 1),
    "pulses at both ends": Ref(1, 1),
}
TASKS = {}
JUDGES = {"C11": times, "C12": pulses, "C13": refusals}
BY = {}
for pid, judge in JUDGES.items():
    for nm, ref in SHAPES.items():
        TASKS["%s, %s" % (judge.__name__, nm)] = lambda t, ref=ref, judge=judge: run(ref, t, judge)
    TASKS["%s, options omitted" % judge.__name__] = lambda t, judge=judge: run(SHAPES["no pulse at the ends"], t, judge, ())
    BY[pid] = [k for k in TASKS if k.startswith(judge.__name__)]
TASKS["limits"] = limits
BY["C13"].append("limits")
C11, C12, C13 = BY["C11"], BY["C12"], BY["C13"]
