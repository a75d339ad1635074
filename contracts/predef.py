"""Contracts of the predefined driven controls: C06, C07 (tables), C08 (net rotation), C09 (Gaussian)."""
from pyvc.spec import *
from pyvc import rotations as R

MOD = "qctrlopencontrols.driven_controls.predefined:"
PI = T.PI
HALF = Fraction(1, 2)
tv, fv, Wv = var("t"), var("f"), var("W")
ATTRS = ("rabi_rates", "azimuthal_angles", "detunings", "durations")
WIMP = ("bb1", "sk1", "corpse_in_bb1", "corpse_in_sk1")


def call(t, it, fam, rotation, azimuth, rate=None):
    kw = dict(rabi_rotation=rotation, maximum_rabi_rate=Num("f", Wv) if rate is None else rate, name=OStr("name"))
    if azimuth is not None:
        kw["azimuthal_angle"] = azimuth
    return it.call(t.world.get(MOD + "new_%s_control" % fam), [], kw)


def corpse(r, a):
    k = T.mk_arcsin(mk_sin(r * HALF) * HALF)
    return [(2 * PI + r * HALF - k, a), (2 * PI - 2 * k, a + PI), (r * HALF - k, a)]


def table(fam, t, f):
    first = corpse(t, f) if "corpse" in fam else [(t, f)]
    p = T.mk_arccos(-t * inv(4 * PI))
    if fam.endswith("bb1"):
        return first + [(PI, f + p), (2 * PI, f + 3 * p), (PI, f + p)]
    if fam.endswith("sk1"):
        return first + [(2 * PI, f - p), (2 * PI, f + p)]
    return first


def same(t, p, o, segs, rates=None):
    """The control has the segments (rotation, azimuth), driven at the rates (default W), no detuning."""
    it = I.Interp(p.ctx, None)
    n = len(segs)
    rates = rates or [Wv] * n
    want = dict(rabi_rates=rates, azimuthal_angles=[a for r, a in segs], detunings=[ZERO] * n, durations=[r * inv(w) for (r, a), w in zip(segs, rates)])
    for attr in ATTRS:
        x = it.getattr(o, attr)
        if not isinstance(x, ArrObj) or arr_data(x).shape != (n,):
            t.ob("%s has %d entries" % (attr, n), p, False)
            continue
        t.arr_eq(attr, p, x, P(n), lambda i: want[attr][int(i.const())], dtype=None)
    t.ob("name", p, it.getattr(o, "name") == OStr("name"))


def tab(fam, t):
    for given in (True, False):
        def thunk(it):
            return call(t, it, fam, Num("f", tv), Num("f", fv) if given else None)
        t.case = lambda ev: dict(fam=fam, t=ev(tv), f=ev(fv) if given else None, W=ev(Wv), name=ev.text("name"))
        ok = band(lt(0, Wv), lt(0, tv), *([le(tv, 4 * PI)] if fam in WIMP else []))
        for p in t.paths("new_%s_control%s" % (fam, "" if given else ", azimuth not given"), thunk):
            if p.outcome[0] == "raise":
                t.ob("refuses only what is outside the domain", p, bnot(ok))
                t.raises_args_error("raises the arguments error", p)
                continue
            t.ob("accepts only what is in the domain", p, ok)
            same(t, p, p.outcome[1], table(fam, tv, fv if given else ZERO))


TASKS = {}
for f_ in ("primitive", "bb1", "sk1", "corpse", "corpse_in_bb1", "corpse_in_sk1"):
    TASKS["table " + f_] = lambda t, f=f_: tab(f, t)
C06 = list(TASKS)


# ------------------------------------------------------------------------------- C07
ANG = {"pi": (Fraction(1), Fraction(1)), "pi/2": (Fraction(1, 2), Fraction(1152, 1800)), "pi/4": (Fraction(1, 4), Fraction(967, 1800))}
WAMF = {"pi": (Fraction(1), Fraction(1, 2)), "pi/2": ("2.5", "0.65667825"), "pi/4": ("2.25", "0.36256159")}


def scrofulous(ang, f):
    t, a = (PI * x for x in ANG[ang])
    p1 = T.mk_arccos(-PI * mk_cos(a) * inv(2 * a * mk_sin(t * HALF)))
    p2 = p1 - T.mk_arccos(-PI * inv(2 * a))
    return [(a, f + p1), (PI, f + p2), (a, f + p1)]


def wamf1(ang):
    a, b = WAMF[ang]
    if isinstance(a, str):
        x, y = Fraction(a), Fraction(b)
        a, b = (x + y) / 4, (x - y) / 4
    return PI * a, PI * b


def special(fam, t):
    for ang in ANG:
        for given in (True, False):
            def thunk(it):
                return call(t, it, fam, Num("f", PI * ANG[ang][0]), Num("f", fv) if given else None)
            t.case = lambda ev: dict(fam=fam, t=float(ANG[ang][0]) * 3.141592653589793, f=ev(fv) if given else None, W=ev(Wv), name=ev.text("name"))
            ok = lt(0, Wv)
            for p in t.paths("new_%s_control(%s)%s" % (fam, ang, "" if given else ", azimuth not given"), thunk):
                if p.outcome[0] == "raise":
                    t.ob("refuses only what is outside the domain", p, bnot(ok))
                    t.raises_args_error("raises the arguments error", p)
                    continue
                t.ob("accepts only what is in the domain", p, ok)
                f = fv if given else ZERO
                if fam == "wamf1":
                    a, b = wamf1(ang)
                    same(t, p, p.outcome[1], [(r, f) for r in (a, b, b, a)], [Wv, Wv * b * inv(a), Wv * b * inv(a), Wv])
                    continue
                segs = scrofulous(ang, f)
                if fam != "scrofulous":
                    segs = [s for r, a in segs for s in corpse(r, a)]
                same(t, p, p.outcome[1], segs)


def special_bad(fam, t):
    """Any other angle, and any rate that is not positive."""
    def thunk(it):
        near = [le(T.mk_abs(tv - PI * ANG[a][0]), Fraction(1, 10000)) for a in ANG]
        it.c.add_fact(bor(le(Wv, 0), bnot(bor(*near))))
        return call(t, it, fam, Num("f", tv), Num("f", fv))
    t.case = lambda ev: dict(fam=fam, t=ev(tv), f=ev(fv), W=ev(Wv), name=ev.text("name"))
    for p in t.paths("new_%s_control, other requests" % fam, thunk):
        t.raises_args_error("raises the arguments error", p)


for f_ in ("scrofulous", "corpse_in_scrofulous", "wamf1"):
    TASKS["supported angles " + f_] = lambda t, f=f_: special(f, t)
    TASKS["other requests " + f_] = lambda t, f=f_: special_bad(f, t)
C07 = [k for k in TASKS if k not in C06]


# ------------------------------------------------------------------------------- C08
AMP = ("bb1", "sk1", "corpse_in_bb1", "corpse_in_sk1")
DET = ("corpse", "corpse_in_bb1", "corpse_in_sk1", "wamf1")
FIT = 1e-7          # residual slope allowed for the constants WAMF1 tabulates to eight digits


def segments(t, p, o):
    """(rotation, azimuth less the target azimuth, rate over W) of every segment; None when not in reach."""
    it = I.Interp(p.ctx, None)
    d = {a: arr_data(it.getattr(o, a)) for a in ATTRS}
    if any(x.mode != "c" or len(x.shape) != 1 or len(x.elems) != len(d["durations"].elems) for x in d.values()):
        return None
    out = []
    for r, a, z, s in zip(*[d[k].elems for k in ATTRS]):
        if not t.ob("no detuning", p, eq(P(z), 0)):
            return None
        out.append((P(r) * P(s), P(a) - fv, P(r) * inv(Wv)))
    return out


def decide(t, name, p, thunk):
    """An obligation decided by exact computation."""
    t0 = time.time()
    full = "%s: %s" % (p.label, name)
    try:
        ok, back = thunk()
    except Unsupported as e:
        t.undecide(full, e)
        return
    t.obls.append(dict(name=full, status="discharged" if ok else "refuted" if ok is None else "open", backend=back, secs=round(time.time() - t0, 4)))
    if not ok:
        for j in range(3):
            t.cover(p, vary=j + 1)


def enclosed(xs, limit):
    """True: all within the limit; None: one certainly beyond."""
    if all(abs(x).b < limit for x in xs):
        return True
    return None if any(abs(x).a > 10 * limit for x in xs) else False


def covariance(t):
    """Turning every azimuth by f turns the product by f about z; so the net rotation and its distance
    from the target do not depend on f."""
    p = AtLemma("lemma: common azimuth")

    def go():
        D = R.Exact()
        a, b, f = var("lem_a"), var("lem_b"), var("lem_f")
        h = f * HALF
        for x in (a * HALF, b, b + f, h):
            D.scan(x)
        c, s = D.cs(h)
        z, zi = (c, 0 * c, 0 * c, s), (c, 0 * c, 0 * c, -s)
        lhs = R.product([zi, R.rotation(D, a, b), z])
        rhs = R.rotation(D, a, b + f)
        return D.zero([x - y for x, y in zip(lhs, rhs)]) and D.zero([x - y for x, y in zip(R.product([z, zi]), (1, 0, 0, 0))]), "groebner"
    decide(t, "a turn about z turns the azimuth", p, go)

    def tilt():
        # the slope of a detuning error is along z, which a turn about z leaves alone
        D = R.Exact()
        f = var("lem_f")
        D.scan(f * HALF)
        c, s = D.cs(f * HALF)
        z, zi = (c, 0 * c, 0 * c, s), (c, 0 * c, 0 * c, -s)
        lhs = R.product([zi, (0 * c, 0 * c, 0 * c, 1 + 0 * c), z])
        return D.zero([x - y for x, y in zip(lhs, (0, 0, 0, 1))]), "groebner"
    decide(t, "a turn about z leaves a detuning alone", p, tilt)


class AtLemma:
    facts = ()
    ctx = None

    def __init__(self, label):
        self.label = label


class Facts:
    """A path with other facts."""

    def __init__(self, p, facts):
        self.label, self.ctx, self.facts = p.label, p.ctx, facts


def net(fam, t, ang=None):
    rot = PI * ANG[ang][0] if ang else tv

    def thunk(it):
        it.c.add_fact(lt(0, Wv))
        if not ang:
            it.c.add_fact(lt(0, tv))
            if fam in WIMP:
                it.c.add_fact(le(tv, 4 * PI))
        return call(t, it, fam, Num("f", rot), Num("f", fv))
    t.case = lambda ev: dict(fam=fam, t=float(ANG[ang][0]) * 3.141592653589793 if ang else ev(tv), f=ev(fv), W=ev(Wv))
    for p in t.paths("new_%s_control%s" % (fam, "(%s)" % ang if ang else ""), thunk):
        if not t.returns("accepts the target", p):
            continue
        segs = segments(t, p, p.outcome[1])
        if segs is None:
            t.undecide(p.label, "segments")
            continue
        if any(var_id(fv) in [a for m in x.d for a, e in m] or var_id(Wv) in [a for m in x.d for a, e in m] for s in segs for x in s):
            t.undecide(p.label, "azimuth or rate does not separate")
            continue
        # exact constants of the tables or ones given to a few digits
        exact = fam not in ("scrofulous", "corpse_in_scrofulous")

        def product():
            D = R.Exact() if exact else R.Enclosed()
            if exact:
                for r, a, w in segs:
                    D.scan(r * HALF)
                    D.scan(a)
                D.scan(rot * HALF)
            try:
                qs = [R.rotation(D, r, a) for r, a, w in segs]
            except Unsupported:
                if not exact:
                    raise
                D = R.Enclosed()
                qs = [R.rotation(D, r, a) for r, a, w in segs]
            return D, qs, R.rotation(D, rot, ZERO)

        def same_rotation():
            if fam == "wamf1":
                # one axis: the rotations add up
                if any(a != ZERO for r, a, w in segs):
                    raise Unsupported("several axes")
                tot = sum((r for r, a, w in segs), ZERO) - rot
                k = tot * inv(2 * PI)
                return k.is_const() and k.const().denominator == 1, "normal-form"
            D, qs, want = product()
            got = R.product(qs)
            if isinstance(D, R.Exact):
                return D.zero([x - y for x, y in zip(got, want)]) or D.zero([x + y for x, y in zip(got, want)]), "groebner"
            # fidelity |<want, got>|^2 of the two unit quaternions
            o = sum(x * y for x, y in zip(want, got))
            return enclosed([1 - o * o], 1e-5), "interval"
        decide(t, "the segments multiply to the target rotation" + ("" if exact else ", infidelity below 1e-5"), p, same_rotation)

        def cancels(kind):
            D, qs, want = product()
            ds = [R.amplitude_slope(D, r, a) if kind == "amplitude" else R.detuning_slope(D, r, a, D.value(inv(w))) for r, a, w in segs]
            s = R.slope(qs, ds)
            if isinstance(D, R.Exact):
                return D.zero(s), "groebner"
            return enclosed(s, FIT), "interval"
        if fam in AMP:
            decide(t, "a fractional error of the rates cancels to first order", p, lambda: cancels("amplitude"))
        if fam in DET:
            decide(t, "a constant detuning cancels to first order" + (" (up to the digits of the table)" if fam == "wamf1" else ""), p, lambda: cancels("detuning"))


TASKS["common azimuth"] = covariance
for f_ in ("primitive", "bb1", "sk1", "corpse", "corpse_in_bb1", "corpse_in_sk1"):
    TASKS["net rotation " + f_] = lambda t, f=f_: net(f, t)
for f_ in ("scrofulous", "corpse_in_scrofulous", "wamf1"):
    for a_ in ANG:
        TASKS["net rotation %s %s" % (f_, a_)] = lambda t, f=f_, a=a_: net(f, t, a)
C08 = [k for k in TASKS if k not in C06 + C07]


# ------------------------------------------------------------------------------- C09
mv, Dv, vv = var("m"), var("D"), var("v")
GAUSS = "new_modulated_gaussian_control"


def same_body(t, p, e, kind, n, body, want):
    """Replace, in e, sums or maxima over [0, n) whose terms are those of body by the term want."""
    k = var("!s", "I")
    for at in list(atoms_deep(e).values()):
        if at.kind == "app" and N.NAMES.get(at.data[0], ("",))[0] == kind and at.data[1][0] == n and T.atom_poly(at) != want:
            b = N._body(at.data[0], k, at.data[1][1:])
            if S.prove(list(p.facts) + [le(0, k), lt(k, n)], eq(b, subst(body, {KID[0]: k})), timeout=1500, want_model=False).status == "proved":
                e = T.replace_atoms(e, {at.id: want})
    return e


def gaussian(t):
    def thunk(it):
        kw = dict(maximum_rabi_rate=Num("f", Wv), minimum_segment_duration=Num("f", mv), duration=Num("f", Dv), modulation_frequency=Num("f", vv))
        return it.call(t.world.get(MOD + GAUSS), [], kw)
    t.case = lambda ev: dict(W=ev(Wv), m=ev(mv), D=ev(Dv), v=ev(vv))
    ok = band(lt(0, Wv), lt(0, mv), lt(mv, Dv), le(mk_sqrt(2 * PI) * 10, Wv * Dv))
    for p in t.paths(GAUSS, thunk):
        if p.outcome[0] == "raise":
            t.ob("refuses only what is outside the domain", p, bnot(ok))
            t.raises_args_error("raises the arguments error", p)
            continue
        t.ob("accepts only what is in the domain", p, ok)
        it = I.Interp(p.ctx, None)
        d = {a: arr_data(it.getattr(p.outcome[1], a)) for a in ATTRS}
        if any(len(x.shape) != 1 or x.mode != "s" for x in d.values()):
            t.undecide(p.label, "segments")
            continue
        n = I.dimP(d["durations"].shape[0])
        t.ob("arrays of one length", p, band(*[eq(I.dimP(x.shape[0]), n) for x in d.values()]))
        if not t.ob("at least one segment", p, le(1, n)):
            continue
        k = var("!j", "I")
        rng = [le(1, n), le(0, k), lt(k, n)]
        at = {a: N.at(x, [k]) for a, x in d.items()}
        t.ob("equal segments adding up to the duration", p, eq(at["durations"] * n, Dv), rng)
        # D = q m with q whole; other durations are the known finding
        q_ = var("!q", "I")
        w = [subst_b(f, {var_id(Dv): q_ * mv}) for f in p.facts]
        t.ob("no segment shorter than the minimum when a whole number of them fills the duration", Facts(p, w), le(mv, subst(Dv * inv(n), {var_id(Dv): q_ * mv})), [lt(1, q_), lt(0, mv)])
        t.ob("no detuning", p, eq(at["detunings"], 0), rng)
        t.ob("azimuths 0 or pi", p, bor(eq(at["azimuthal_angles"], 0), eq(at["azimuthal_angles"], PI)), rng)
        # the envelope at the midpoint of segment k
        x = (K[0] + HALF) * Dv * inv(n) - Dv * HALF
        G = T.mk_exp(-HALF * (x * inv(Dv * Fraction(1, 10))) ** 2)
        modulated = S.prove(list(p.facts), ne(vv, 0), timeout=2000, want_model=False).status == "proved"
        plain = S.prove(list(p.facts), eq(vv, 0), timeout=2000, want_model=False).status == "proved"
        if not modulated and not plain:
            t.undecide(p.label, "modulation not decided on this path")
            continue
        E = G * mk_sin(2 * PI * vv * x) if modulated else G
        M = N.max_poly(it, n, E)
        r, a = (same_body(t, p, at[q], "max", n, E, M) for q in ("rabi_rates", "azimuthal_angles"))
        Ek = subst(E, {KID[0]: k})
        e, mx = var("!e"), var("!M")
        if modulated:
            dom = rng + [lt(0, M)]
            r, a = (p.ctx.scoped(dom, lambda z=z: p.ctx.resolve(z)) for z in (r, a))
            s = Wv * Ek * inv(M)
            gen = lambda z: T.replace_atoms(z, {one(M): mx}) if one(M) is not None else z
            facts = [lt(0, mx)]
            t.ob("signed amplitudes follow the modulated Gaussian", p, eq(gen(r) * ite(eq(gen(a), 0), ONE, -ONE), gen(s)), rng + facts)
            # lemmas about the envelope
            mirror = subst(E, {KID[0]: n - 1 - k})
            t.ob("the envelope is odd about the centre", p, eq(mirror, -Ek), rng)
            lem = [lt(0, mx), lt(0, Wv), le(e, mx), le(-e, mx)]
            L = AtLemma("lemma")
            t.ob("no sample exceeds the maximum", p, le(Ek, M), rng)
            t.ob("the mirror image of a sample is one of the samples", p, band(le(0, n - 1 - k), lt(n - 1 - k, n)), rng)
            t.ob("no segment exceeds the maximum rate", L, le(T.mk_abs(Wv * e * inv(mx)), Wv), lem)
            t.ob("the segment with the largest sample has the maximum rate", L, eq(Wv * e * inv(mx), Wv), [lt(0, mx), eq(e, mx)])
            t.ob("a largest sample exists", p, exists(0, n, lambda i: eq(subst(E, {KID[0]: i}), M)), [le(1, n)])
            # sum_k s(k) = sum_k s(n-1-k) = - sum_k s(k)
            z = var("!z")
            t.ob("the signed rotation adds up to zero", L, eq(z, 0), [eq(z, -z)])
            continue
        Bn = N.sum_poly(p.ctx, n, E * inv(M))
        r = same_body(t, p, r, "sum", n, E * inv(M), Bn)
        A = Dv * inv(n) * Wv * Bn
        turns = T.mk_floor(A * inv(2 * PI))
        c = 2 * PI * turns * n * inv(Dv) * inv(Bn)
        dom = rng + [le(2 * PI, A), lt(0, M), lt(0, Bn), le(1, turns)]
        t.ob("the samples and their sum are positive", p, band(lt(0, Ek), lt(0, M), lt(0, Bn)), rng)
        y, fl = var("!y"), var("!f", "I")
        t.ob("a full turn is available", AtLemma("lemma"), le(1, fl), [le(fl, y), lt(y, fl + 1), le(1, y)])
        r = p.ctx.scoped(dom, lambda: p.ctx.resolve(r))
        t.ob("amplitudes follow the Gaussian, scaled to whole turns", p, eq(r, c * Ek * inv(M)), dom)
        t.ob("azimuth zero", p, eq(a, 0), dom)
        t.ob("the rotations add up to the whole turns", p, eq(Dv * inv(n) * c * Bn, 2 * PI * turns), dom)
        b, g = var("!b"), var("!g")
        t.ob("no segment exceeds the maximum rate", AtLemma("lemma"), le(2 * PI * fl * g, Wv * b), [lt(0, b), lt(0, Wv), le(2 * PI * fl, Wv * b), le(0, g), le(g, 1)])
        t.ob("whole turns are at most what is available", p, le(2 * PI * turns, A), dom)


def one(p):
    """The atom a term consists of."""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


TASKS["modulated Gaussian"] = gaussian
C09 = ["modulated Gaussian"]
