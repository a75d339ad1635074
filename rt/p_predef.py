"""Run-time contracts of the predefined driven controls: C06-C09."""
from common import *

FAM1 = ["primitive", "bb1", "sk1", "corpse", "corpse_in_bb1", "corpse_in_sk1"]
WIMP = {"bb1", "sk1", "corpse_in_bb1", "corpse_in_sk1"}
FAM2 = ["scrofulous", "corpse_in_scrofulous", "wamf1"]


def ctor(fam):
    return getattr(q, "new_%s_control" % fam)


def corpse_tab(t, f):
    k = math.asin(math.sin(t / 2) / 2)
    return [(2 * PI + t / 2 - k, f), (2 * PI - 2 * k, f + PI), (t / 2 - k, f)]


def table(fam, t, f):
    if fam in WIMP:
        p = math.acos(max(-1.0, -t / (4 * PI)))
    first = [(t, f)] if "corpse" not in fam else corpse_tab(t, f)
    if fam in ("primitive", "corpse"):
        return first
    if fam.endswith("bb1"):
        return first + [(PI, f + p), (2 * PI, f + 3 * p), (PI, f + p)]
    return first + [(2 * PI, f - p), (2 * PI, f + p)]


def call(case, fn):
    kw = dict(rabi_rotation=case["t"], maximum_rabi_rate=case["W"])
    if case.get("f") is not None:
        kw["azimuthal_angle"] = case["f"]
    if case.get("name") is not None:
        kw["name"] = case["name"]
    return fn(**kw)


def compare(c, tab, W, name, n):
    need(len(c.durations) == n and len(c.rabi_rates) == n and len(c.azimuthal_angles) == n and len(c.detunings) == n, "segment-count", "%d segments, expected %d" % (len(c.durations), n))
    for i, (rot, az) in enumerate(tab):
        need(close(c.rabi_rates[i], W, 1e-12), "segment-rate", "segment %d driven at %r, expected %r" % (i, c.rabi_rates[i], W))
        need(float(c.detunings[i]) == 0.0, "segment-detuning", "segment %d detuned by %r" % (i, c.detunings[i]))
        need(close(c.durations[i] * W, rot, 1e-9, 1e-12), "segment-rotation", "segment %d rotates by %r, expected %r" % (i, c.durations[i] * W, rot))
        need(close(c.azimuthal_angles[i], az, 1e-9, 1e-9), "segment-azimuth", "segment %d has azimuth %r, expected %r" % (i, c.azimuthal_angles[i], az))
    need(c.name == name, "name", "%r, given %r" % (c.name, name))


# ------------------------------------------------------------------------------- C06
def c06_bank():
    out = []
    for fam in FAM1:
        for t in (PI, PI / 2, PI / 4, 0.1, 1e-3, 2.0, 2 * PI, 3 * PI, 4 * PI - 1e-6, 4 * PI, 7.5, 11.0):
            for f, W in ((0.0, 1.0), (0.7, 2 * PI), (None, 3.0), (-2.5, 1e6), (10.0, 1e-3)):
                out.append(dict(fam=fam, t=t, f=f, W=W, name=None))
        out.append(dict(fam=fam, t=1.3, f=0.2, W=2.0, name="nm"))
        out.append(dict(fam=fam, t=1.3, f=None, W=2.0, name=""))
        for t in (0.0, -1e-9, -1.0, -PI, -4 * PI, -5 * PI, -100.0):
            out.append(dict(fam=fam, t=t, f=0.3, W=2.0, name="nm"))
        for W in (0.0, -1e-9, -1.0, -1e6):
            out.append(dict(fam=fam, t=1.0, f=0.3, W=W, name="nm"))
            out.append(dict(fam=fam, t=-1.0, f=0.3, W=W, name=None))
        for t in (4 * PI + 1e-6, 13.0, 20.0, 100.0):
            out.append(dict(fam=fam, t=t, f=0.3, W=2.0, name=None))
    return out


def c06_gen(rng):
    t = rng.choice([rng.uniform(0.001, 4 * PI)] * 8 + [rng.uniform(-8, 0), rng.uniform(12.6, 40), 0.0])
    W = rng.choice([rng.uniform(0.1, 10), loguni(rng, -6, 8), loguni(rng, -6, 8), -rng.random()]) if rng.random() < 0.3 else loguni(rng, -3, 6)
    t, W = value_near(rng, t), value_near(rng, W)
    return dict(fam=rng.choice(FAM1), t=t, f=rng.choice([None, 0.0, rng.uniform(-7, 7), rng.uniform(-7, 7)]), W=W, name=rng.choice(NAMES))


def c06_check(case):
    fam, t, W = case["fam"], case["t"], case["W"]
    f = case["f"] if case["f"] is not None else 0.0
    fn = ctor(fam)
    if W <= 0 or t <= 0 or (fam in WIMP and t > 4 * PI * (1 + 1e-12)):
        expect_rejected(lambda: call(case, fn), "rejects-domain " + fam, "rotation %r at maximum rate %r" % (t, W))
        return
    if fam in WIMP and t > 4 * PI:
        return
    c = expect_ok(lambda: call(case, fn), "accepts-domain " + fam, "%s(rotation %r, rate %r)" % (fam, t, W))
    tab = table(fam, t, f)
    compare(c, tab, W, case["name"], len(tab))


# ------------------------------------------------------------------------------- C07
ANG = {"pi": PI, "pi/2": PI / 2, "pi/4": PI / 4}
TH1 = {"pi": 180.0, "pi/2": 115.2, "pi/4": 96.7}


def nearest(t):
    return min(ANG, key=lambda k: abs(ANG[k] - t))


def scrof(t):
    a = math.radians(TH1[nearest(t)])
    p1 = math.acos(-PI * math.cos(a) / (2 * a * math.sin(t / 2)))
    p2 = p1 - math.acos(-PI / (2 * a))
    return [(a, p1), (PI, p2), (a, p1)]


def c07_bank():
    out = []
    for fam in FAM2:
        for t in ANG.values():
            for f, W in ((0.0, 1.0), (0.7, 2 * PI), (None, 3.0), (-2.5, 1e6), (10.0, 1e-3), (PI / 2, 0.25)):
                out.append(dict(fam=fam, t=t, f=f, W=W, name=None))
            out.append(dict(fam=fam, t=t, f=0.5, W=2.0, name="abc"))
            for W in (0.0, -1.0, -1e-9, -PI):
                out.append(dict(fam=fam, t=t, f=0.5, W=W, name=None))
            for e in (2e-4, -2e-4, 1e-3, -1e-3, 0.05, -0.05):
                out.append(dict(fam=fam, t=t + e, f=0.5, W=1.0, name=None))
        for t in (0.0, -PI, -PI / 2, -PI / 4, 2 * PI, 3 * PI, 1.0, PI / 3, PI / 8, 3 * PI / 4, 180.0, 90.0, 5 * PI / 4):
            out.append(dict(fam=fam, t=t, f=0.5, W=1.0, name=None))
    return out


def c07_gen(rng):
    t = rng.choice(list(ANG.values()) * 3 + [rng.uniform(-7, 13)])
    return dict(fam=rng.choice(FAM2), t=t, f=rng.choice([None, rng.uniform(-7, 7), rng.uniform(-7, 7)]), W=value_near(rng, rng.choice([loguni(rng, -3, 6)] * 6 + [-rng.random(), 0.0])), name=rng.choice(NAMES))


def c07_check(case):
    fam, t, W = case["fam"], case["t"], case["W"]
    f = case["f"] if case["f"] is not None else 0.0
    fn = ctor(fam)
    off = abs(ANG[nearest(t)] - t)
    if W <= 0 or off > 1e-4:
        expect_rejected(lambda: call(case, fn), "rejects-domain " + fam, "rotation %r at maximum rate %r" % (t, W))
        return
    if off > 1e-9:
        return
    c = expect_ok(lambda: call(case, fn), "accepts-domain " + fam, "%s(rotation %r, rate %r)" % (fam, t, W))
    if fam == "wamf1":
        b = {"pi": (PI, PI / 2), "pi/2": (PI * (2.5 + 0.65667825) / 4, PI * (2.5 - 0.65667825) / 4), "pi/4": (PI * (2.25 + 0.36256159) / 4, PI * (2.25 - 0.36256159) / 4)}[nearest(t)]
        rots = [b[0], b[1], b[1], b[0]]
        need(len(c.durations) == 4 and len(c.rabi_rates) == 4, "segment-count", "%d" % len(c.durations))
        for i in range(4):
            need(close(c.durations[i], b[0] / W, 1e-9), "segment-duration", "segment %d lasts %r, expected %r" % (i, c.durations[i], b[0] / W))
            need(close(c.rabi_rates[i] * c.durations[i], rots[i], 1e-9), "segment-rotation", "segment %d rotates by %r, expected %r" % (i, c.rabi_rates[i] * c.durations[i], rots[i]))
            need(close(c.azimuthal_angles[i], f, 1e-9, 1e-9), "segment-azimuth", "segment %d: %r, expected %r" % (i, c.azimuthal_angles[i], f))
            need(float(c.detunings[i]) == 0, "segment-detuning", "segment %d: %r" % (i, c.detunings[i]))
        need(close(max(c.rabi_rates), W, 1e-9), "largest-rate", "%r, expected %r" % (max(c.rabi_rates), W))
        need(c.name == case["name"], "name", "%r" % c.name)
        return
    tab = [(a, f + p) for a, p in scrof(t)]
    if fam != "scrofulous":
        tab = [x for a, p in tab for x in corpse_tab(a, p)]
    compare(c, tab, W, case["name"], len(tab))


# ------------------------------------------------------------------------------- C08
AMP = {"bb1", "sk1", "corpse_in_bb1", "corpse_in_sk1"}
DET = {"corpse", "corpse_in_bb1", "corpse_in_sk1", "wamf1"}


def c08_bank():
    out = []
    for fam in FAM1:
        for t in (PI, PI / 2, PI / 4, 0.1, 1.3, 2.0, 2 * PI, 5.0, 9.0, 4 * PI):
            for f, W in ((0.0, 1.0), (0.7, 2 * PI), (-2.5, 1e6)):
                out.append(dict(fam=fam, t=t, f=f, W=W))
    for fam in FAM2:
        for t in ANG.values():
            for f, W in ((0.0, 1.0), (0.7, 2 * PI), (-2.5, 1e6)):
                out.append(dict(fam=fam, t=t, f=f, W=W))
    return out


def c08_gen(rng):
    fam = rng.choice(FAM1 + FAM2)
    t = rng.choice(list(ANG.values())) if fam in FAM2 else rng.uniform(0.01, 4 * PI)
    return dict(fam=fam, t=t, f=rng.uniform(-7, 7), W=loguni(rng, -3, 6))


def c08_check(case):
    fam, t, W, f = case["fam"], case["t"], case["W"], case.get("f") or 0.0
    if W <= 0 or t <= 0 or (fam in WIMP and t > 4 * PI) or (fam in FAM2 and abs(ANG[nearest(t)] - t) > 1e-12):
        return
    c = expect_ok(lambda: call(dict(case, f=f), ctor(fam)), "accepts-domain " + fam, "%s(%r, %r)" % (fam, t, W))
    target = su2(t, math.cos(f), math.sin(f), 0.0)
    rounding = 2e-13 + 1e-14 * (abs(f) + t) + (1e-12 if fam in FAM2 else 0)
    u = control_unitary(c)
    if "scrofulous" in fam:
        need(infid(target, u) < 1e-5 + rounding, "net-rotation " + fam, "infidelity %r for rotation %r about %r" % (infid(target, u), t, f))
    else:
        need(dist(target, u) < 1e-7 + rounding, "net-rotation " + fam, "distance %r from rotation %r about %r" % (dist(target, u), t, f))
    for kind, fams in (("amp", AMP), ("det", DET)):
        if fam in fams:
            for e in (1e-6, -1e-6, 1e-4, 1e-8):
                v = control_unitary(c, **({"amp": e} if kind == "amp" else {"det": e * W}))
                dd = dist(target, v)
                # second order, rounding, and for WAMF1 the digits of its table
                lim = 600 * (1 + t / 4) * e * e + rounding + (2e-8 * abs(e) if fam == "wamf1" else 0)
                need(dd < lim, "%s-error-cancelled %s" % ({"amp": "amplitude", "det": "detuning"}[kind], fam), "error %g leaves distance %r from the target rotation %r about %r" % (e, dd, t, f))


# ------------------------------------------------------------------------------- C09
def c09_bank():
    out = []
    for D, m, W, v in (
        (10.0, 1.0, 30.0, 0.0), (10.0, 1.0, 30.0, 0.3), (1.0, 0.01, 60.0, 0.0), (1.0, 0.01, 60.0, 7.0), (1.0, 0.01, 60.0, -7.0),
        (1.0, 0.3, 60.0, 0.0), (1.0, 0.3, 60.0, 1.3), (1.0, 0.4, 60.0, 1.3), (1.0, 0.99, 60.0, 0.0), (1.0, 0.99, 60.0, 2.2),
        (1e-5, 1e-7, 5e6, 2e5), (1e-5, 1e-7, 5e6, 0.0), (3.0, 0.125, 9.0, 0.0), (3.0, 0.125, 8.4, 1.0), (3.0, 0.7, 8.5, 0.0),
        (2.0, 0.05, 1000.0, 0.0), (2.0, 0.05, 1000.0, 5.0), (7.0, 0.1, 3.7, 0.0), (7.0, 0.1, 3.7, 0.11), (1.0, 0.5, 40.0, 0.6),
    ):
        out.append(dict(W=W, m=m, D=D, v=v))
    for bad in (dict(W=0.0), dict(W=-1.0), dict(m=0.0), dict(m=-0.1), dict(m=1.0), dict(m=2.0), dict(W=25.0), dict(W=1e-3), dict(D=0.001), dict(D=-1.0), dict(D=0.4), dict(D=0.8), dict(W=-100.0)):
        d = dict(W=60.0, m=0.01, D=1.0, v=3.0)
        d.update(bad)
        out.append(d)
        out.append(dict(d, v=0.0))
    return out


def c09_gen(rng):
    D = loguni(rng, -6, 3)
    x = rng.random()
    W = math.sqrt(2 * PI) / (0.1 * D) * (rng.uniform(1.0005, 3) if x < 0.5 else rng.uniform(1, 100) if x < 0.9 else rng.uniform(-1, 1))
    n = rng.choice([rng.randint(2, 60), rng.uniform(1.01, 80), rng.uniform(1.01, 80), rng.uniform(0.3, 1.2)])
    v = rng.choice([0.0, rng.uniform(-20, 20) / D, rng.uniform(0.2, 5) / D])
    n = size_near(rng, n)
    return dict(W=W, m=D / n, D=D, v=v)


def c09_check(case):
    W, m, D, v = case["W"], case["m"], case["D"], case["v"]
    mk = lambda: q.new_modulated_gaussian_control(maximum_rabi_rate=W, minimum_segment_duration=m, duration=D, modulation_frequency=v)
    lim = math.sqrt(2 * PI) / (0.1 * D) if D != 0 else float("inf")
    if W <= 0 or m <= 0 or D <= m or W < lim * (1 - 1e-12):
        expect_rejected(mk, "rejects-domain", "rate %r, minimum segment %r, duration %r" % (W, m, D))
        return
    if W < lim * (1 + 1e-12) or D / m > 2e4 or abs(v) * D > 1e5:
        return  # rounding decides, or too large for a run
    kind, c = outcome(mk)
    n_ref = math.ceil(D / m)
    mid = lambda n: [(i + 0.5) * D / n for i in range(n)]
    env = lambda n: [math.exp(-0.5 * ((x - D / 2) / (0.1 * D)) ** 2) * (math.sin(2 * PI * v * (x - D / 2)) if v != 0 else 1.0) for x in mid(n)]
    if v != 0 and not max(env(n_ref) + [0.0]) > 1e-9:
        return  # no positive sample: outside the domain of the property
    need(kind == "ok", "accepts-domain", lambda: "rate %r, minimum segment %r, duration %r, frequency %r raised %s: %s" % (W, m, D, v, type(c).__name__, str(c)[:200]))
    n = len(c.durations)
    need(n >= 1 and len(c.rabi_rates) == n and len(c.azimuthal_angles) == n and len(c.detunings) == n, "segment-count", "%d" % n)
    seg = [float(x) for x in c.durations]
    need(all(close(s, seg[0], 1e-12) for s in seg), "equal-segments", "%r" % seg[:5])
    need(close(math.fsum(seg), D, 1e-9), "total-duration", "%r, requested %r" % (math.fsum(seg), D))
    known = None
    if seg[0] < m * (1 - 1e-9):
        ratio = D / m
        need(ratio != round(ratio) and n == n_ref, "minimum-segment-duration", "segments last %r, requested at least %r" % (seg[0], m))
        known = "KNOWN minimum-segment-duration: segments last %r, requested at least %r (duration %r is not a whole number of minimum segments)" % (seg[0], m, D)
    need(all(float(x) == 0 for x in c.detunings), "no-detuning", "")
    e = env(n)
    mx = max(e)
    if v != 0 and mx <= 1e-9:
        return
    signed = []
    for r, a in zip(c.rabi_rates, c.azimuthal_angles):
        need(close(a, 0.0, 0, 1e-12) or close(a, PI, 1e-12), "azimuth-0-or-pi", "%r" % a)
        signed.append(float(r) if close(a, 0.0, 0, 1e-12) else -float(r))
    if v != 0:
        want = [W * x / mx for x in e]
        err = 1e-9 / min(1.0, mx / max(1e-300, max(abs(x) for x in e))) + 1e-13 * (1 + abs(v) * D) / mx
    else:
        A = seg[0] * math.fsum(x / mx for x in e) * W
        k = A / (2 * PI)
        full = [max(math.floor(k), 1)]
        if abs(k - round(k)) < 1e-9 + 1e-12 * k:
            full = [max(round(k), 1), max(round(k) - 1, 1)]
        tot = seg[0] * math.fsum(signed)
        need(any(close(tot, 2 * PI * z, 1e-9) for z in full), "net-rotation", "adds up to %r, available %r" % (tot, A))
        best = min(full, key=lambda z: abs(tot - 2 * PI * z))
        want = [W * x / mx * (2 * PI * best / A) for x in e]
        err = 1e-9
        if A < 2 * PI * (1 + 1e-9):
            for i in range(n):
                need(close(signed[i], want[i], 1e-8, err * W), "envelope", "segment %d: %r, expected %r" % (i, signed[i], want[i]))
            return known
    for i in range(n):
        need(close(signed[i], want[i], 1e-8, err * W), "envelope", "segment %d: %r, expected %r" % (i, signed[i], want[i]))
    need(max(c.rabi_rates) <= W * (1 + 1e-9), "maximum-rate", "%r exceeds %r" % (max(c.rabi_rates), W))
    if v != 0:
        need(close(max(c.rabi_rates), W, 1e-9), "largest-rate-reached", "%r, requested %r" % (max(c.rabi_rates), W))
        need(abs(math.fsum(signed)) <= (1e-9 + err) * n * W, "net-rotation", "adds up to %r" % (math.fsum(signed) * seg[0]))
    return known


REG = {
    "C06": (c06_bank, c06_gen, c06_check),
    "C07": (c07_bank, c07_gen, c07_check),
    "C08": (c08_bank, c08_gen, c08_check),
    "C09": (c09_bank, c09_gen, c09_check),
}
