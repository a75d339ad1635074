"""Contracts of the predefined sequences: C14 (times), C15 (Walsh), C16 (concatenated), C17 (pre/post rotations)."""
from pyvc.spec import *
from . import controls as CT

MOD = "qctrlopencontrols.dynamic_decoupling_sequences.predefined:"
Tv = var("T")
PI = T.PI
HALF = Fraction(1, 2)
KIND = {"X": (PI, ZERO, ZERO), "Y": (PI, PI * HALF, ZERO), "Z": (ZERO, ZERO, PI)}


def call(t, it, fn, kw, pp, name):
    kw = dict(kw)
    if pp is not None:
        kw["pre_post_rotation"] = pp
    if name is not None:
        kw["name"] = name
    return it.call(t.world.get(MOD + fn), [], kw)


def sin2(x):
    return mk_sin(x) ** 2


def fam(fn, counts, times, kind, t):
    """counts: names of the counts; times(i, n): time of pulse i (from 0) over T."""
    n = var("n", "I")
    if counts:
        t.size("n", 4)

    def thunk(it):
        kw = dict(duration=Num("f", Tv))
        for c in counts:
            kw[c] = Num("i", n)
        return call(t, it, fn, kw, None, OStr("name"))

    def case(ev):
        return dict(fam=fn[4:-9], T=ev(Tv), args=[ev.int(n)] if counts else [], pp=None, name=ev.text("name"))
    t.case = case
    N_ = n if counts else P(times[0])
    ok = band(lt(0, Tv), *([le(1, n)] if counts else []))
    for p in t.paths(fn, thunk):
        if p.outcome[0] == "raise":
            t.ob("invalid requests only", p, bnot(ok))
            t.raises_args_error("raises the arguments error", p)
            continue
        t.ob("accepts only valid requests", p, ok)
        o = p.outcome[1]
        it = I.Interp(p.ctx, None)
        t.num_eq("duration", p, it.getattr(o, "duration"), Tv)
        t.arr_eq("offsets", p, it.getattr(o, "offsets"), N_, lambda i: times[1](i, n), dtype=None)
        for attr, v in zip(("rabi_rotations", "azimuthal_angles", "detuning_rotations"), KIND[kind] if kind else (ZERO,) * 3):
            t.arr_eq(attr, p, it.getattr(o, attr), N_, lambda i: v, dtype=None)
        t.ob("name", p, it.getattr(o, "name") == OStr("name"))


FAM = {
    "new_ramsey_sequence": ((), (0, lambda i, n: ZERO), None),
    "new_spin_echo_sequence": ((), (1, lambda i, n: Tv * HALF), "X"),
    "new_carr_purcell_sequence": (("offset_count",), (None, lambda i, n: Tv * (i + HALF) * inv(n)), "X"),
    "new_cpmg_sequence": (("offset_count",), (None, lambda i, n: Tv * (i + HALF) * inv(n)), "Y"),
    "new_uhrig_sequence": (("offset_count",), (None, lambda i, n: Tv * sin2(PI * (i + 1) * inv(2 * n + 2))), "Y"),
    "new_periodic_sequence": (("offset_count",), (None, lambda i, n: Tv * (i + 1) * inv(n + 1)), "X"),
}
TASKS = {}
for fn, (c, tm, k) in FAM.items():
    TASKS[fn] = lambda t, fn=fn, c=c, tm=tm, k=k: fam(fn, c, tm, k, t)


def quadratic(t):
    """m inner Z pulses in each of the n + 1 intervals, n outer X pulses; pulse j (m + 1) + k is the
    k-th inner pulse of interval j, or the outer pulse after it for k = m."""
    fn = "new_quadratic_sequence"
    m, n = t.size("m", 3), t.size("n", 3)

    def thunk(it):
        return call(t, it, fn, dict(duration=Num("f", Tv), inner_offset_count=Num("i", m), outer_offset_count=Num("i", n)), None, OStr("name"))
    t.case = lambda ev: dict(fam="quadratic", T=ev(Tv), args=[ev.int(m), ev.int(n)], pp=None, name=ev.text("name"))
    ok = band(lt(0, Tv), le(1, m), le(1, n))

    def edge(j):
        return ite(eq(j, 0), ZERO, ite(eq(j, n + 1), Tv, Tv * sin2(PI * j * inv(2 * n + 2))))
    for p in t.paths(fn, thunk):
        if p.outcome[0] == "raise":
            t.ob("invalid requests only", p, bnot(ok))
            t.raises_args_error("raises the arguments error", p)
            continue
        t.ob("accepts only valid requests", p, ok)
        o = p.outcome[1]
        it = I.Interp(p.ctx, None)
        t.num_eq("duration", p, it.getattr(o, "duration"), Tv)
        t.ob("name", p, it.getattr(o, "name") == OStr("name"))
        j, k = var("!j", "I"), var("!k", "I")
        total = m + n * (m + 1)
        inner = [le(0, j), le(j, n), le(0, k), lt(k, m)]
        outer = [le(0, j), lt(j, n)]
        want = {"offsets": (edge(j) + (edge(j + 1) - edge(j)) * sin2(PI * (k + 1) * inv(2 * m + 2)), edge(j + 1))}
        for a, x, z in zip(ATTRS, KIND["X"], KIND["Z"]):
            want[a] = (z, x)
        for attr in ("offsets",) + ATTRS:
            a = it.getattr(o, attr)
            if not isinstance(a, ArrObj) or len(arr_data(a).shape) != 1:
                t.ob(attr + " is an array", p, False)
                continue
            d = arr_data(a)
            if not t.ob(attr + " length", p, eq(I.dimP(d.shape[0]), total)):
                continue
            for lab, idx, facts, w in (("inner", j * (m + 1) + k, inner, want[attr][0]), ("outer", j * (m + 1) + m, outer, want[attr][1])):
                e = t.split_index(p, N.at(d, [idx]), facts, [j, j + 1, k])
                e = p.ctx.scoped(facts, lambda: p.ctx.resolve(e))
                t.elem_eq("%s of the %s pulses" % (attr, lab), p, e, w, facts)


ATTRS = ("rabi_rotations", "azimuthal_angles", "detuning_rotations")
TASKS["new_quadratic_sequence"] = quadratic


def fractions(fn, counts, most, t):
    """Counts are compared before they are rounded: any number below one (or above the largest) is refused."""
    x, n = var("x"), var("n", "I")

    def thunk(it):
        it.c.add_fact(le(1, n))
        it.c.add_fact(lt(0, Tv))
        it.c.add_fact(bor(lt(x, 1), lt(most, x)) if most else lt(x, 1))
        return call(t, it, fn, {"duration": Num("f", Tv), **{c: Num("f", x) if c == t.which else Num("i", n) for c in counts}}, None, OStr("name"))
    for t.which in counts:
        t.case = lambda ev, w=t.which: dict(fam=fn[4:-9], T=ev(Tv), args=[ev(x) if c == w else ev.int(n) for c in counts], pp=None, name=ev.text("name"))
        for p in t.paths("%s, any %s out of range" % (fn, t.which), thunk):
            t.raises_args_error("raises the arguments error", p)


for fn, (c, tm, k) in FAM.items():
    if c:
        TASKS[fn + ", any count below one"] = lambda t, fn=fn, c=c: fractions(fn, c, None, t)
TASKS["new_quadratic_sequence, any count below one"] = lambda t: fractions("new_quadratic_sequence", ("inner_offset_count", "outer_offset_count"), None, t)
C14 = list(TASKS)


# ------------------------------------------------------------------------------- C15
def digits(w):
    """An order of w binary digits."""
    bits = [var("b%d" % i, "I") for i in range(w - 1)] + [ONE]
    return sum((b * 2 ** i for i, b in enumerate(bits)), ZERO), [le(0, b) for b in bits[:-1]] + [le(b, 1) for b in bits[:-1]], bits


def walsh(w, t):
    """Orders of w binary digits, the digits below the leading one unknown.  The j-th Rademacher function
    changes sign at x = i / 2^w exactly when i 2^j / 2^w is whole, so the Walsh function changes sign
    there exactly when an odd number of the leading z + 1 digits are one, 2^z the power of two in i."""
    fn = "new_walsh_sequence"
    order, dom, bits = digits(w)

    def thunk(it):
        for f in dom:
            it.c.add_fact(f)
        return call(t, it, fn, dict(duration=Num("f", Tv), paley_order=Num("i", order) if w > 1 else 1), None, OStr("name"))
    t.case = lambda ev: dict(fam="walsh", T=ev(Tv), args=[ev.int(order)], pp=None, name=ev.text("name"))
    ok = band(lt(0, Tv), le(order, 2000))
    want = []
    for i in range(1, 2 ** w):
        z = (i & -i).bit_length() - 1
        want.append((eq(T.mk_mod(sum((bits[w - 1 - m] for m in range(z + 1)), ZERO), 2), 1), Tv * Fraction(i, 2 ** w)))
    for p in t.paths("%s, %d digits" % (fn, w), thunk):
        if p.outcome[0] == "raise":
            t.ob("invalid requests only", p, bnot(ok))
            t.raises_args_error("raises the arguments error", p)
            continue
        t.ob("accepts only valid requests", p, ok)
        o = p.outcome[1]
        it = I.Interp(p.ctx, None)
        t.num_eq("duration", p, it.getattr(o, "duration"), Tv)
        t.ob("name", p, it.getattr(o, "name") == OStr("name"))
        off = it.getattr(o, "offsets")
        d = arr_data(off)
        if len(d.shape) != 1 or d.mode == "s":
            t.undecide(p.label, "the number of pulses is not enumerated")
            continue
        n = I.dimP(d.shape[0])
        t.guarded_eq("pulse", p, d.elems if d.mode == "g" else [(TRUE, e) for e in d.elems], want)
        for attr, v in zip(ATTRS, KIND["X"]):
            t.arr_eq(attr, p, it.getattr(o, attr), n, lambda i: v, dtype=None)


def walsh_bad(t):
    n = var("n", "I")

    def thunk(it):
        it.c.add_fact(bor(le(n, 0), lt(2000, n)))
        return call(t, it, "new_walsh_sequence", dict(duration=Num("f", Tv), paley_order=Num("i", n)), None, OStr("name"))
    t.case = lambda ev: dict(fam="walsh", T=ev(Tv), args=[ev.int(n)], pp=None, name=ev.text("name"))
    for p in t.paths("new_walsh_sequence, order outside 1 to 2000", thunk):
        t.raises_args_error("raises the arguments error", p)


TASKS["walsh order out of range"] = walsh_bad
TASKS["walsh, any number out of range"] = lambda t: fractions("new_walsh_sequence", ("paley_order",), 2000, t)
for w_ in range(11, 0, -1):
    TASKS["walsh orders of %d digits" % w_] = lambda t, w=w_: walsh(w, t)
C15 = [k for k in TASKS if k.startswith("walsh")]


# ------------------------------------------------------------------------------- C16
CONC = (("new_x_concatenated_sequence", range(8, 0, -1)), ("new_xy_concatenated_sequence", range(4, 0, -1)))


def concatenation(fn, l):
    """The definition, multiplied out: pulses at each multiple of the spacing as elements of the group
    generated by X = 1, Y = 2 (their product Z = 3, everything its own inverse)."""
    pulses = (1, 1) if fn == "new_x_concatenated_sequence" else (1, 2, 1, 2)
    at = {}

    def rec(start, level):
        w = len(pulses) ** (level - 1)
        for j, g in enumerate(pulses):
            if level > 1:
                rec(start + j * w, level - 1)
            at[start + (j + 1) * w] = at.get(start + (j + 1) * w, 0) ^ g
    rec(0, l)
    n = len(pulses) ** l
    if len(pulses) == 2:
        at[n] = 0
    return [(Tv * Fraction(k, n), " XYZ"[at[k]]) for k in sorted(at) if at[k]]


def concatenated(fn, l, t):
    t.bounds.append("%s: order %d, every duration" % (fn, l))

    def thunk(it):
        return call(t, it, fn, dict(duration=Num("f", Tv), concatenation_order=l), None, OStr("name"))
    t.case = lambda ev: dict(fam=fn[4:-9], T=ev(Tv), args=[l], pp=None, name=ev.text("name"))
    want = concatenation(fn, l)
    ok = lt(0, Tv)
    for p in t.paths("%s, order %d" % (fn, l), thunk):
        if p.outcome[0] == "raise":
            t.ob("invalid requests only", p, bnot(ok))
            t.raises_args_error("raises the arguments error", p)
            continue
        t.ob("accepts only valid requests", p, ok)
        o = p.outcome[1]
        it = I.Interp(p.ctx, None)
        t.num_eq("duration", p, it.getattr(o, "duration"), Tv)
        t.ob("name", p, it.getattr(o, "name") == OStr("name"))
        for j, attr in enumerate(("offsets",) + ATTRS):
            d = arr_data(it.getattr(o, attr))
            if d.mode != "c":
                t.arr_eq(attr, p, it.getattr(o, attr), P(len(want)), lambda i: table([(x if j == 0 else KIND[k][j - 1]) for x, k in want], i), dtype=None)
                continue
            if t.ob(attr + " length", p, len(d.elems) == len(want)):
                t.ob(attr + " of each pulse", p, band(*[eq(P(e), x if j == 0 else KIND[k][j - 1]) for e, (x, k) in zip(d.elems, want)]))


def table(xs, i):
    r = ZERO
    for j, x in enumerate(xs):
        r = ite(eq(i, j), x, r)
    return r


def concatenated_bad(fn, t):
    n = var("n", "I")

    def thunk(it):
        it.c.add_fact(lt(n, 1))
        return call(t, it, fn, dict(duration=Num("f", Tv), concatenation_order=Num("i", n)), None, OStr("name"))
    t.case = lambda ev: dict(fam=fn[4:-9], T=ev(Tv), args=[ev.int(n)], pp=None, name=ev.text("name"))
    for p in t.paths("%s, order below one" % fn, thunk):
        t.raises_args_error("raises the arguments error", p)


for fn, ls in CONC:
    TASKS["%s order below one" % fn] = lambda t, fn=fn: concatenated_bad(fn, t)
    for l in ls:
        TASKS["%s order %d" % (fn, l)] = lambda t, fn=fn, l=l: concatenated(fn, l, t)
for fn in ("new_x_concatenated_sequence", "new_xy_concatenated_sequence"):
    TASKS[fn + ", any order below one"] = lambda t, fn=fn: fractions(fn, ("concatenation_order",), None, t)
C16 = [k for k in TASKS if "concatenated" in k]


# ------------------------------------------------------------------------------- C17
def is_kind(R, i, k):
    return band(*[eq(R[f](i), v) for f, v in zip(("rabi_rotations", "azimuthal_angles", "detuning_rotations"), KIND[k])])


def any_kind(R, i):
    return bor(*[is_kind(R, i, k) for k in "XYZ"])


def wrap_body(t):
    """_add_pre_post_rotations on any number of X, Y and Z pi pulses.  With a and b the parities of the
    numbers of X and Y, and of Y and Z pulses, the pulses multiply to X^a Z^b up to a phase (lemma
    pauli); the wrapped sequence is then I or Z exactly when the last rotation is about -x for a = b
    and about +x otherwise."""
    t.soft = True
    n = t.size("n", 4)
    R = {a: (lambda i, f=f: app(f, i)) for a, f in zip(ATTRS, "rae")}

    def thunk(it):
        c = it.c
        c.add_fact(lt(0, Tv))
        c.add_fact(le(0, n))
        c.add_fact(forall(0, n, lambda i: any_kind(R, i)))
        args = [t.arr(c, f, n) for f in "orae"]
        c.mark = c.oid
        return it.call(t.world.get(MOD + "_add_pre_post_rotations"), [Num("f", Tv)] + args, {})
    ind = {k: ite(is_kind(R, K[0], k), ONE, ZERO) for k in "XYZ"}
    cands = [("the %s pulses" % k, ind[k]) for k in "XYZ"]
    for p in t.paths("_add_pre_post_rotations", thunk):
        facts = t.sum_match(p, n, cands)
        f = t.sum_rule("every pulse is counted once", p, n, [(1, ind[k]) for k in "XYZ"], ONE)
        if f is not None:
            facts.append(f)
        if p.outcome[0] != "val":
            t.ob("never refuses X, Y and Z pulses", p, FALSE, facts)
            continue
        v = p.outcome[1]
        t.ob("inputs unchanged", p, not p.ctx.writes)
        if not isinstance(v, tuple) or len(v) != 4:
            t.ob("returns four arrays", p, False)
            continue
        cnt = {k: N.sum_poly(p.ctx, n, ind[k]) for k in "XYZ"}
        a, b = T.mk_mod(cnt["X"] + cnt["Y"], 2), T.mk_mod(cnt["Y"] + cnt["Z"], 2)
        last = ite(eq(a, b), PI, ZERO)
        first = dict(offsets=(ZERO, Tv), rabi_rotations=(PI * HALF, PI * HALF), azimuthal_angles=(ZERO, last), detuning_rotations=(ZERO, ZERO))
        for x, (attr, f) in zip(v, zip(("offsets",) + ATTRS, "orae")):
            t.arr_eq(attr, p, x, n + 2, lambda i: ite(eq(i, 0), first[attr][0], ite(eq(i, n + 1), first[attr][1], app(f, i - 1))), dtype=None, extra=facts)


def gmul(A, B):
    m = lambda x, y: (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
    s = lambda x, y: (x[0] + y[0], x[1] + y[1])
    return tuple(tuple(s(m(A[i][0], B[0][j]), m(A[i][1], B[1][j])) for j in (0, 1)) for i in (0, 1))


O, E, J = (0, 0), (1, 0), (0, 1)
MJ = (0, -1)
PAULI = {"I": ((E, O), (O, E)), "X": ((O, E), (E, O)), "Y": ((O, MJ), (J, O)), "Z": ((E, O), (O, (-1, 0)))}


def same_up_to_phase(A, B):
    """A = u B with u in {1, -1, i, -i}; exact Gaussian integers."""
    return any(A == tuple(tuple((u[0] * x[0] - u[1] * x[1], u[0] * x[1] + u[1] * x[0]) for x in row) for row in B) for u in (E, (-1, 0), J, MJ))


def pauli(t):
    """Exact arithmetic on Gaussian integers."""
    class At:
        facts = []
        label = "lemma pauli"
        ctx = None
    p = At()

    def net(a, b):
        return gmul(PAULI["X"] if a else PAULI["I"], PAULI["Z"] if b else PAULI["I"])
    bits = {"X": (1, 0), "Y": (1, 1), "Z": (0, 1)}
    t.ob("no pulse: identity", p, same_up_to_phase(net(0, 0), PAULI["I"]))
    for k in "XYZ":
        # a rotation by pi about an axis is the Pauli operator of that axis up to a phase
        ph, th = {"X": (ZERO, None), "Y": (PI * HALF, None), "Z": (None, None)}[k]
        if ph is not None:
            t.ob("a pi rotation about azimuth %s is %s" % ("0" if k == "X" else "pi/2", k), p,
                 band(eq(mk_cos(PI * HALF), 0), eq(mk_sin(PI * HALF), 1), eq(mk_cos(ph), 1 if k == "X" else 0), eq(mk_sin(ph), 0 if k == "X" else 1)))
        for a in (0, 1):
            for b in (0, 1):
                t.ob("one more %s pulse changes the parities (%d,%d)" % (k, a, b), p,
                     same_up_to_phase(gmul(PAULI[k], net(a, b)), net((a + bits[k][0]) % 2, (b + bits[k][1]) % 2)))
    # sqrt(2) times the rotation by pi/2 about +x or -x is 1 -+ i X
    half = {0: ((E, MJ), (MJ, E)), 1: ((E, J), (J, E))}
    for a in (0, 1):
        for b in (0, 1):
            M = gmul(half[1 if a == b else 0], gmul(net(a, b), half[0]))
            diag = M[0][1] == O and M[1][0] == O and (M[0][0] == M[1][1] or M[0][0] == tuple(-x for x in M[1][1]))
            t.ob("wrapped sequence of parities (%d,%d) is I or Z" % (a, b), p, diag and M[0][0] != O)
    x, y = var("x", "I"), var("y", "I")
    t.ob("parity of one more pulse", p, eq(T.mk_mod(x + 1, 2), 1 - T.mk_mod(x, 2)))


WRAP = "_add_pre_post_rotations"


def wrap_contract(log):
    """The contract of _add_pre_post_rotations at call sites (proved by `wrap_body`): logs what it is
    given and returns the wrapped arrays with the last azimuth the parities ask for."""
    def con(interp, f, vals):
        if set(vals) != {"duration", "offsets"} | set(ATTRS) or not all(isinstance(vals[k], ArrObj) and len(arr_data(vals[k]).shape) == 1 for k in ("offsets",) + ATTRS):
            return NotImplemented
        log.append({k: arr_data(v) if isinstance(v, ArrObj) else v for k, v in vals.items()})
        out = []
        for nm in ("offsets",) + ATTRS:
            d = arr_data(vals[nm])
            n = I.dimP(d.shape[0])
            first = wrapping(poly_of(vals["duration"]))[nm]
            if d.mode == "c":
                out.append(interp.c.arr(ArrData((d.shape[0] + 2,), "f", "c", (first[0],) + tuple(d.elems) + (first[1],))))
                continue
            if d.mode == "g":
                items = ((TRUE, first[0]),) + tuple(d.elems) + ((TRUE, first[1]),)
                out.append(interp.c.arr(ArrData((N.guard_count(items),), "f", "g", items)))
                continue
            out.append(interp.c.arr(N.from_fn(interp, (n + 2,), "f",
                                              lambda idx, first=first, d=d, n=n: ite(eq(idx[0], 0), first[0], ite(eq(idx[0], n + 1), first[1], N.at(d, [idx[0] - 1]))))))
        return tuple(out)
    return con


def wrapping(duration):
    last = ite(bvar("parities agree"), PI, ZERO)
    return dict(offsets=(ZERO, duration), rabi_rotations=(PI * HALF, PI * HALF), azimuthal_angles=(ZERO, last), detuning_rotations=(ZERO, ZERO))


def wrapped(fn, argnames, t):
    vs = [t.size("n%d" % i, 3) for i, a in enumerate(argnames)]
    wrapped_as(fn, {a: Num("i", v) for a, v in zip(argnames, vs)}, vs, [le(1, v) for v in vs], t)


def wrapped_walsh(w, t):
    order, dom, bits = digits(w)
    wrapped_as("new_walsh_sequence", dict(paley_order=Num("i", order) if w > 1 else 1), [order], dom + [le(order, 2000)], t)


def wrapped_concatenated(fn, l, t):
    t.bounds.append("%s: order %d" % (fn, l))
    wrapped_as(fn, dict(concatenation_order=l), [P(l)], [], t)


def wrapped_as(fn, args, vs, dom, t):
    """The sequence with pre- and post-rotations against the same sequence without."""
    for request in (True, False):
        log = []

        def thunk(it):
            c = it.c
            del log[:]
            c.add_fact(lt(0, Tv))
            for f in dom:
                c.add_fact(f)
            t.use(it, WRAP, wrap_contract(log))
            kw = dict(args, duration=Num("f", Tv))
            base = call(t, it, fn, kw, None, OStr("name"))
            return base, call(t, it, fn, kw, request, OStr("name"))
        t.case = lambda ev: dict(fam=fn[4:-9], T=ev(Tv), args=[ev.int(v) for v in vs], pp=request, name=ev.text("name"))
        for p in t.paths("%s, %s" % (fn, "requested" if request else "declined"), thunk):
            if not t.returns("accepts valid requests", p):
                continue
            it = I.Interp(p.ctx, None)
            base, seq = p.outcome[1]
            B = {a: arr_data(it.getattr(base, a)) for a in ("offsets",) + ATTRS}
            n = I.dimP(B["offsets"].shape[0])
            t.num_eq("duration", p, it.getattr(seq, "duration"), Tv)
            t.ob("name", p, it.getattr(seq, "name") == OStr("name"))
            if not request:
                for a in B:
                    same_arr(t, "unchanged " + a, p, it.getattr(seq, a), B[a], ())
                continue
            extra = []
            if log:
                if not t.ob("wrapped once", p, len(log) == 1):
                    continue
                g = log[0]
                k = var("!w", "I")
                R = {a: (lambda i, a=a: entry(g[a], i)) for a in ATTRS}
                m = I.dimP(g["offsets"].shape[0])
                for a in B:
                    same_arr(t, "what is wrapped is the sequence without rotations: " + a, p, p.ctx.arr(g[a]), B[a], ())
                if g["rabi_rotations"].mode == "c":
                    t.ob("every pulse is an X, Y or Z pulse", p, band(*[any_kind(R, P(i)) for i in range(g["offsets"].shape[0])]))
                else:
                    t.ob("every pulse is an X, Y or Z pulse", p, any_kind(R, k), [le(0, k), lt(k, m)])
            elif len(B["offsets"].shape) == 1 and B["offsets"].shape[0] == 0:
                # no pulses: the parities agree
                extra = [bvar("parities agree")]
            else:
                t.undecide(p.label, "the wrapping function was not called as its contract expects")
                continue
            first = wrapping(Tv)
            for a in B:
                if B[a].mode == "g":
                    same_arr(t, "wrapped " + a, p, it.getattr(seq, a), ArrData((n + 2,), "f", "g", ((TRUE, first[a][0]),) + tuple(B[a].elems) + ((TRUE, first[a][1]),)), extra)
                    continue
                t.arr_eq("wrapped " + a, p, it.getattr(seq, a), n + 2, lambda i: ite(eq(i, 0), first[a][0], ite(eq(i, n + 1), first[a][1], entry(B[a], i - 1))), dtype=None, extra=extra)


def same_arr(t, name, p, x, d, extra):
    """x has the entries of d."""
    if d.mode != "g":
        return t.arr_eq(name, p, x, I.dimP(d.shape[0]), lambda i: entry(d, i), dtype=None, extra=extra)
    if not isinstance(x, ArrObj):
        return t.ob(name + " is an array", p, False)
    e = arr_data(x)
    if e.mode == "g" and [g for g, v in e.elems] == [g for g, v in d.elems]:
        # present under the same conditions
        return t.ob(name + " entries", p, band(*[implies(g, eq(v, w)) for (g, v), (_, w) in zip(e.elems, d.elems)]), extra)
    t.undecide("%s: %s" % (p.label, name), "entries present under other conditions")
    return False


def entry(d, i):
    """Entry at index i; for short arrays with concrete entries and any index."""
    if d.mode == "c":
        if i.is_const():
            c = int(i.const())
            return d.elems[c] if 0 <= c < len(d.elems) else ZERO
        r = ZERO
        for j, e in enumerate(d.elems):
            r = ite(eq(i, j), e, r)
        return r
    return N.at(d, [i])


TASKS["pulses multiply to a Pauli operator"] = pauli
TASKS["wrapping any pulses"] = wrap_body
for fn, (c, tm, k) in FAM.items():
    TASKS[fn + " wrapped"] = lambda t, fn=fn, c=c: wrapped(fn, c, t)
TASKS["new_quadratic_sequence wrapped"] = lambda t: wrapped("new_quadratic_sequence", ("inner_offset_count", "outer_offset_count"), t)
for w_ in range(11, 0, -1):
    TASKS["new_walsh_sequence wrapped, %d digits" % w_] = lambda t, w=w_: wrapped_walsh(w, t)
for fn, ls in CONC:
    for l in (3, 2, 1):
        TASKS["%s wrapped, order %d" % (fn, l)] = lambda t, fn=fn, l=l: wrapped_concatenated(fn, l, t)
C17 = [k for k in TASKS if "wrap" in k or "Pauli" in k]
