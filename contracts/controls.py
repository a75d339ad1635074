"""Contracts of DrivenControl: C01 (construction), C02 (derived quantities), C03 (directions)."""
from pyvc.spec import *

INIT = "DrivenControl.__init__"
SEG = (("rabi_rates", "r", "rabi"), ("azimuthal_angles", "a", "az"), ("detunings", "e", "det"))
n = var("n", "I")


def rd(f, i):
    return app(f, i)


# ------------------------------------------------------------------------------- C01
def c01(kinds, name, optional, t):
    """durations of n entries; each optional quantity left out or of its own length."""
    nd = t.size("n", 3)
    lens = {}
    for attr, f, key in SEG:
        if attr in optional:
            lens[attr] = t.size("n_" + f, 3)

    def given(it, f, ln):
        c = it.c
        c.add_fact(le(0, ln))
        t.inputs.add(f)
        if kinds == "list":
            return c.alloc(PyList(("sym", ln, Num("f", app(f, K[0])))))
        if kinds == "ints":
            return c.arr(ArrData((ln,), "i", "s", app(f, K[0], sort="I")))
        return t.arr(c, f, ln)

    def thunk(it):
        kw = dict(durations=given(it, "d", nd))
        for attr, f, key in SEG:
            if attr in optional:
                kw[attr] = given(it, f, lens[attr])
        if name is not None:
            kw["name"] = name
        it.c.mark = it.c.oid
        return it.call(t.world.get(DC), [], kw)

    def case(ev):
        d = dict(durations=ev.arr("d", nd), name=None if name is None else ev.text("name"))
        for attr, f, key in SEG:
            d[key] = ev.arr(f, lens[attr]) if attr in optional else None
        return d
    t.case = case if kinds != "ints" else None
    srt = "I" if kinds == "ints" else "R"
    R = lambda f, i: app(f, i, sort=srt)
    ok = band(*[eq(lens[a], nd) for a in lens], forall(0, nd, lambda i: lt(0, R("d", i))),
              *([forall(0, lens["rabi_rates"], lambda i: le(0, R("r", i)))] if "rabi_rates" in lens else []))
    t.prefer = [ok]
    for p in t.paths(INIT, thunk):
        if p.outcome[0] == "raise":
            t.ob("malformed data only", p, bnot(ok))
            t.raises_args_error("raises the arguments error", p)
            continue
        t.ob("accepts only well-formed data", p, ok)
        o = p.outcome[1]
        t.ob("inputs unchanged", p, not p.ctx.writes)
        it = I.Interp(p.ctx, None)
        t.arr_eq("durations", p, it.getattr(o, "durations"), nd, lambda i: R("d", i))
        for attr, f, key in SEG:
            t.arr_eq(attr, p, it.getattr(o, attr), nd, (lambda i: R(f, i)) if attr in lens else (lambda i: ZERO))
        t.ob("name", p, it.getattr(o, "name") == name)


SUBSETS = [tuple(a for j, (a, f, k) in enumerate(SEG) if m >> j & 1) for m in range(8)]


# ------------------------------------------------------------------------------- a control with admissible symbolic data
def make(t, it, name=OStr("name"), least=1, case=None):
    """A driven control built by the real constructor from n >= least segments of admissible data."""
    c = it.c
    c.add_fact(le(least, n))
    c.add_fact(forall(0, n, lambda i: lt(0, app("d", i))))
    c.add_fact(forall(0, n, lambda i: le(0, app("r", i))))
    o = it.call(t.world.get(DC), [], dict(durations=t.arr(c, "d", n), rabi_rates=t.arr(c, "r", n), azimuthal_angles=t.arr(c, "a", n), detunings=t.arr(c, "e", n), name=name))
    c.mark = c.oid
    return o


def control_case(name=OStr("name"), **extra):
    def case(ev):
        d = dict(durations=ev.arr("d", n), rabi=ev.arr("r", n), az=ev.arr("a", n), det=ev.arr("e", n), name=ev.text("name") if name is not None else None)
        d.update(extra)
        return d
    return case


def prop(t, attr):
    t.size("n", 4)
    t.case = control_case()
    return t.paths("DrivenControl." + attr, lambda it: it.getattr(make(t, it), attr))


def pure(t, p):
    t.ob("no existing object is written", p, not p.ctx.writes)


# ------------------------------------------------------------------------------- C02
def extreme(attr, f, largest, t):
    for p in prop(t, attr):
        if not t.returns("returns", p):
            continue
        pure(t, p)
        v = p.outcome[1]
        if not isinstance(v, Num):
            t.ob("is a number", p, False)
            continue
        x = v.p
        t.ob("is at least (at most) every entry", p, forall(0, n, lambda i: le(app(f, i), x) if largest else le(x, app(f, i))))
        t.ob("is one of the entries", p, exists(0, n, lambda i: eq(app(f, i), x)))


def count(t):
    for p in prop(t, "number_of_segments"):
        if t.returns("returns", p):
            pure(t, p)
            t.num_eq("is the number of durations", p, p.outcome[1], n)


def total(t):
    """The sum is characterised by a running sum g with g(0)=0, g(i+1)=g(i)+d(i): value == g(n)."""
    for p in prop(t, "duration"):
        if t.returns("returns", p):
            pure(t, p)
            t.num_eq("is the sum of the durations", p, p.outcome[1], running(p, "d", n))


def running(p, f, u):
    """The mathematical sum of f over [0, u)."""
    return N.sum_poly(p.ctx, u, app(f, K[0]))


def pointwise(attr, fn, t):
    for p in prop(t, attr):
        if t.returns("returns", p):
            pure(t, p)
            t.arr_eq("values", p, p.outcome[1], n, fn)


def times(t):
    for p in prop(t, "times"):
        if not t.returns("returns", p):
            continue
        pure(t, p)
        a = p.outcome[1]
        if not isinstance(a, ArrObj) or len(arr_data(a).shape) != 1:
            t.ob("is a one-dimensional array", p, False)
            continue
        d = arr_data(a)
        t.ob("one more than the segments", p, eq(I.dimP(d.shape[0]), n + 1))
        at = lambda i: N.at(d, [i])
        t.elem_eq("starts at zero", p, at(ZERO), ZERO)
        k = var("!j", "I")
        e0, e1 = p.ctx.scoped([le(0, k), lt(k, n)], lambda: (p.ctx.resolve(at(k)), p.ctx.resolve(at(k + 1))))
        t.ob("increases by each duration in order", p, eq(e1 - e0, app("d", k)), [le(0, k), lt(k, n)])


# ------------------------------------------------------------------------------- C03
def directions(t):
    for p in prop(t, "directions"):
        if not t.returns("returns", p):
            continue
        pure(t, p)
        a = p.outcome[1]
        if not isinstance(a, ArrObj) or len(arr_data(a).shape) != 2:
            t.ob("is a two-dimensional array", p, False)
            continue
        d = arr_data(a)
        t.ob("shape", p, band(eq(I.dimP(d.shape[0]), n), eq(I.dimP(d.shape[1]), 3)))
        k = var("!j", "I")
        rng = [le(0, k), lt(k, n)]
        s = lambda i: mk_sqrt(app("r", i) ** 2 + app("e", i) ** 2)
        comp = [app("r", k) * mk_cos(app("a", k)), app("r", k) * mk_sin(app("a", k)), app("e", k)]
        zero = [eq(app("r", k), 0), eq(app("e", k), 0)]
        # drive strength larger than 1e-20 of the largest one
        strong = [lt(0, s(k)), forall(0, n, lambda i: lt(Fraction(1, 10**20) * s(i), s(k)))]
        for j, (c, ax) in enumerate(zip(comp, "xyz")):
            e = p.ctx.scoped(rng, lambda: p.ctx.resolve(N.at(d, [k, P(j)])))
            t.ob("undriven segment has direction zero, " + ax, p, eq(e, 0), rng + zero)
            t.ob("component along the drive, " + ax, p, eq(e * s(k), c), rng + strong)


TASKS = {}
for sub in SUBSETS:
    TASKS["init with " + ("+".join(sub) or "nothing else")] = lambda t, s=sub: c01("array", OStr("name"), s, t)
TASKS["init unnamed"] = lambda t: c01("array", None, SUBSETS[7], t)
TASKS["init from lists"] = lambda t: c01("list", OStr("name"), SUBSETS[7], t)
TASKS["init from integer arrays"] = lambda t: c01("ints", OStr("name"), SUBSETS[7], t)
C01 = [k for k in TASKS]
TASKS["maximum_rabi_rate"] = lambda t: extreme("maximum_rabi_rate", "r", True, t)
TASKS["maximum_detuning"] = lambda t: extreme("maximum_detuning", "e", True, t)
TASKS["maximum_duration"] = lambda t: extreme("maximum_duration", "d", True, t)
TASKS["minimum_duration"] = lambda t: extreme("minimum_duration", "d", False, t)
TASKS["number_of_segments"] = count
TASKS["duration"] = total
TASKS["amplitude_x"] = lambda t: pointwise("amplitude_x", lambda i: app("r", i) * mk_cos(app("a", i)), t)
TASKS["amplitude_y"] = lambda t: pointwise("amplitude_y", lambda i: app("r", i) * mk_sin(app("a", i)), t)
TASKS["angles"] = lambda t: pointwise("angles", lambda i: app("d", i) * mk_sqrt(app("r", i) ** 2 + app("e", i) ** 2), t)
TASKS["times"] = times
C02 = [k for k in TASKS if k not in C01]
TASKS["directions"] = directions
C03 = ["directions"]
