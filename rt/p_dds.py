"""Run-time contracts of dynamic decoupling sequences: C10-C17, C21."""
import os
from common import *
from p_control import with_tmp, BAD_OPTS

# ------------------------------------------------------------------------------- C10
def c10_bank():
    out = []
    base = dict(duration=2.0, offsets=[0.0, 0.5, 2.0], rabi=[PI, 0.0, 1.0], az=[0.1, 0.2, -0.3], det=[0.0, -2.0, 0.0], name="s", kinds=["farr"] * 4)

    def v(**kw):
        d = dict(base); d.update(kw); out.append(d)
    v(); v(name=None)
    for kinds in (["list"] * 4, ["tuple"] * 4, ["farr", "list", "tuple", "farr"]):
        v(kinds=kinds)
    v(offsets=[0, 1, 2], rabi=[1, 2, 3], az=[0, 1, 2], det=[0, 0, 0], kinds=["iarr"] * 4)
    v(duration=2, offsets=[0, 1, 2], kinds=["list"] * 4)
    for T in (0.0, -1.0, -2.0, 1.999999, 1e-9, 1e9):
        v(duration=T)
    for i in range(3):
        for x in (-1e-9, -1.0, 2.0000001, 5.0, 0.0, 2.0):
            o = list(base["offsets"]); o[i] = x
            v(offsets=o)
    for field in ("rabi", "az", "det", "offsets"):
        for bad in ([], [1.0], [1.0, 1.0], [1.0, 1.0, 1.0, 1.0]):
            v(**{field: bad})
    v(offsets=[], rabi=[], az=[], det=[])
    v(offsets=[], rabi=[], az=[], det=[], kinds=["list"] * 4, duration=-1.0)
    v(offsets=[1.0], rabi=[-1.0], az=[9.0], det=[-9.0])
    v(offsets=[1.0, 0.5], rabi=[1.0, 0.0], az=[9.0, 0.0], det=[-9.0, 2.0])
    v(offsets=[1.0, 0.5], rabi=[1.0], az=[9.0], det=[-9.0])
    return out


def c10_gen(rng):
    c = gen_seq(rng, spread=False)
    n = len(c["offsets"])
    for f in ("rabi", "az", "det"):
        if rng.random() < 0.1:
            c[f] = [rng.uniform(-2, 2) for _ in range(max(0, n + rng.choice([-1, 1])))]
    if n and rng.random() < 0.2:
        c["offsets"][rng.randrange(n)] = c["duration"] * rng.choice([-0.1, 1.1, 1.0, 0.0, 1 + 1e-9])
    if rng.random() < 0.1:
        c["duration"] *= rng.choice([0.0, -1.0])
    c["kinds"] = [rng.choice(["list", "tuple", "farr"]) for _ in range(4)]
    return c


def c10_check(case):
    k = case.get("kinds", ["farr"] * 4)
    A = [container(case[f], k[i]) for i, f in enumerate(("offsets", "rabi", "az", "det"))]
    T = case["duration"]
    vals = [[float(x) for x in a] for a in A]
    n = len(vals[0])
    ok = T > 0 and all(0 <= x <= T for x in vals[0]) and all(len(v) == n for v in vals)
    mk = lambda: q.DynamicDecouplingSequence(duration=T, offsets=A[0], rabi_rotations=A[1], azimuthal_angles=A[2], detuning_rotations=A[3], name=case["name"])
    if not ok:
        expect_rejected(mk, "rejects-malformed", "malformed pulse data")
        return
    s = expect_ok(mk, "accepts-wellformed", "constructing from well-formed pulse data")
    need(s.duration == T, "stored-duration", "%r, given %r" % (s.duration, T))
    for a, w in zip(("offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations"), vals):
        got = getattr(s, a)
        need(isinstance(got, np.ndarray) and got.shape == (n,) and [float(x) for x in got] == w, "stored-" + a, "%r, given %r" % (got, w))
    need(s.name == case["name"], "stored-name", "%r, given %r" % (s.name, case["name"]))
    e = expect_ok(s.export, "export-succeeds", "export()")
    need(set(e) == {"Rabi", "Detuning"}, "export-keys", "%r" % sorted(e))
    for key in e:
        need(len(e[key]) == n, "export-one-entry-per-pulse", "%s has %d entries for %d pulses" % (key, len(e[key]), n))
        for i in range(n):
            row = e[key][i]
            need(set(row) == {"rotation", "offset"}, "export-entry", "%r" % row)
            w = vals[1][i] * complex(math.cos(vals[2][i]), math.sin(vals[2][i])) if key == "Rabi" else vals[3][i]
            need(close(row["rotation"], w, 1e-10), "export-rotation " + key, "pulse %d: %r, expected %r" % (i, row["rotation"], w))
            need(float(row["offset"]) == vals[0][i], "export-offset " + key, "pulse %d: %r, expected %r" % (i, row["offset"], vals[0][i]))


# ------------------------------------------------------------------------------- C11-C13
def conv_call(case, seq):
    kw = dict(maximum_rabi_rate=case["Wr"], maximum_detuning_rate=case["Wd"])
    if case.get("m") is not None:
        kw["minimum_segment_duration"] = case["m"]
    if case.get("cname") is not None:
        kw["name"] = case["cname"]
    return q.convert_dds_to_driven_control(seq, **kw)


def conv_expect(case):
    """-> ('reject', why) | ('accept', plan) | ('either', plan).  plan = (pulses, tol)."""
    Wr, Wd, m = case["Wr"], case["Wd"], case.get("m") or 0.0
    T = case["duration"]
    o, r, a, d = case["offsets"], case["rabi"], case["az"], case["det"]
    n = len(o)
    if Wr <= 0 or Wd <= 0:
        return "reject", "a maximum rate is not positive", None
    if m < 0:
        return "reject", "negative minimum segment duration", None
    if any(x < 0 for x in r):
        return "reject", "negative Rabi rotation", None
    if any(x != 0 and y != 0 for x, y in zip(r, d)):
        return "reject", "Rabi and detuning rotation in one pulse", None
    if any(o[i + 1] <= o[i] for i in range(n - 1)):
        return "reject", "offsets not increasing", None
    if any(0 < x < 1e-7 for x in r) or any(0 < abs(x) < 1e-7 for x in d):
        return "skip", "", None
    tol = 1e-8 * T + 1e-5 * m
    ops = []  # start, end, index (or None)
    for i in range(n):
        w = max(r[i] / Wr, m) if r[i] > 0 else (max(abs(d[i]) / Wd, m) if d[i] != 0 else 0.0)
        if 0 < w < 1e-10 * T:
            return "skip", "", None  # lost in the rounding of the times
        s, e = o[i] - w / 2, o[i] + w / 2
        if o[i] == 0:
            s, e = 0.0, w
        elif o[i] == T:
            s, e = T - w, T
        ops.append((s, e, i if w > 0 else None))
    if not n or o[0] != 0:
        ops.insert(0, (0.0, 0.0, None))
    if not n or o[-1] != T:
        ops.append((T, T, None))
    verdict = "accept"
    for x, y in zip(ops, ops[1:]):
        g = y[0] - x[1]
        eps = 1e-12 * T
        if g < m - tol * (1 + 1e-6) - eps:
            return "reject", "gap %r shorter than %r" % (g, m), None
        if g < m - eps:
            verdict = "either"
    return verdict, "", (ops, tol * (len(ops) - 1) if verdict == "either" else 0.0, tol)


def gen_conv(rng):
    c = gen_seq(rng, spread=rng.random() < 0.85)
    T = c["duration"]
    n = max(1, len(c["offsets"]))
    fast = rng.random() < 0.7
    base = 2 * PI * n / T
    c["Wr"] = base * (rng.uniform(5, 50) if fast else rng.uniform(0.5, 6))
    c["Wd"] = base * (rng.uniform(5, 50) if fast else rng.uniform(0.5, 6))
    c["m"] = rng.choice([None, 0.0, T / n * rng.uniform(0.001, 0.2), T / n * rng.uniform(0.05, 0.5)])
    c["cname"] = rng.choice([None, "conv", ""])
    x = rng.random()
    if x < 0.03:
        c["Wr"] *= rng.choice([0, -1])
    elif x < 0.06:
        c["Wd"] *= rng.choice([0, -1])
    elif x < 0.08:
        c["m"] = -T * rng.choice([1e-9, 0.1, 1])
    elif x < 0.11 and len(c["offsets"]):
        i = rng.randrange(len(c["offsets"])); c["rabi"][i] = -abs(c["rabi"][i] or 1.0)
    elif x < 0.15 and len(c["offsets"]):
        i = rng.randrange(len(c["offsets"])); c["rabi"][i] = rng.choice([rng.uniform(0.1, 3), loguni(rng, -9, 1)]); c["det"][i] = rng.choice([1, -1]) * rng.choice([rng.uniform(0.1, 3), loguni(rng, -9, 1)])
    elif x < 0.19 and len(c["offsets"]) > 1:
        i = rng.randrange(len(c["offsets"]) - 1)
        if rng.random() < 0.5:
            c["offsets"][i + 1] = c["offsets"][i]
            for j in rng.choice([(), (i,), (i + 1,), (i, i + 1)]):
                c["rabi"][j] = c["det"][j] = 0.0
        else:
            c["offsets"][i], c["offsets"][i + 1] = c["offsets"][i + 1], c["offsets"][i]
    return c


def conv_bank():
    out = []

    def v(T, o, r, a, d, Wr=20.0, Wd=30.0, m=None, **kw):
        out.append(dict(duration=T, offsets=o, rabi=r, az=a, det=d, Wr=Wr, Wd=Wd, m=m, name="seq", cname=kw.get("cname", "c")))
    for m in (None, 0.0, 0.05, 0.3, 0.4):
        v(10.0, [], [], [], [], m=m)
        v(10.0, [5.0], [PI], [0.3], [0.0], m=m)
        v(10.0, [5.0], [0.0], [0.3], [-PI], m=m)
        v(10.0, [5.0], [0.0], [0.3], [0.0], m=m)
        v(10.0, [0.0], [PI], [0.3], [0.0], m=m)
        v(10.0, [10.0], [PI], [0.3], [0.0], m=m)
        v(10.0, [0.0], [0.0], [0.3], [PI / 2], m=m)
        v(10.0, [10.0], [0.0], [0.3], [-PI / 2], m=m)
        v(10.0, [0.0, 10.0], [PI / 2, PI / 2], [0.0, PI], [0.0, 0.0], m=m)
        v(10.0, [0.0, 2.0, 5.5, 10.0], [PI / 2, 0.0, PI, 0.0], [0.0, 0.0, PI / 2, 0.4], [0.0, -PI, 0.0, 1.0], m=m)
        v(10.0, [1.0, 2.0, 5.5, 9.0], [PI / 2, 0.0, 0.0, 1.5], [1.0, 0.0, PI / 2, 0.4], [0.0, PI, -2.0, 0.0], m=m, Wr=5.0, Wd=7.0)
        v(10.0, [0.0, 0.5, 9.5, 10.0], [0.0, 1.0, 1.0, 0.0], [0.0] * 4, [0.0] * 4, m=m)
        v(1e-6, [0.0, 2e-7, 5.5e-7, 1e-6], [PI / 2, 0.0, PI, 0.0], [0.0, 0.0, PI / 2, 0.4], [0.0, -PI, 0.0, 1.0], Wr=2e8, Wd=3e8, m=None if m is None else m * 1e-7)
        v(1e-9, [0.0, 2e-10, 5.5e-10], [PI / 2, 0.0, PI], [0.0, 0.0, PI / 2], [0.0, -PI, 0.0], Wr=2e11, Wd=3e11, m=None if m is None else m * 1e-10)
        v(1e4, [0.0, 2e3, 5.5e3, 1e4], [PI / 2, 0.0, PI, 0.0], [0.0, 0.0, PI / 2, 0.4], [0.0, -PI, 0.0, 1.0], Wr=2e-2, Wd=3e-2, m=None if m is None else m * 1e3)
    # coincident pulses of which one or both do nothing
    for o in ([3.0, 3.0], [0.0, 0.0], [10.0, 10.0], [3.0, 3.0, 6.0], [2.0, 6.0, 6.0]):
        for keep in ([], [0], [len(o) - 1]):
            for m in (None, 0.0, 0.2):
                v(10.0, o, [1.0 if i in keep else 0.0 for i in range(len(o))], [0.0] * len(o), [0.0] * len(o), m=m)
    # back to back and overlapping pulses, at the start, in the middle, at the end
    for gap in (0.5, 0.1, 0.0, -0.01, -0.1, -1.0):
        w = PI / 4.0
        for m in (None, 0.1, 0.3):
            v(10.0, [3.0, 3.0 + w + gap], [PI, PI], [0.1, 0.2], [0.0, 0.0], Wr=4.0, m=m)
            v(10.0, [3.0, 3.0 + w + gap], [PI, 0.0], [0.1, 0.2], [0.0, -PI], Wr=4.0, Wd=4.0, m=m)
            v(10.0, [0.0, 1.5 * w + gap], [PI, PI], [0.1, 0.2], [0.0, 0.0], Wr=4.0, m=m)
            v(10.0, [10.0 - 1.5 * w - gap, 10.0], [PI, PI], [0.1, 0.2], [0.0, 0.0], Wr=4.0, m=m)
            v(10.0, [0.5 * w + gap], [PI], [0.1], [0.0], Wr=4.0, m=m)
            v(10.0, [10.0 - 0.5 * w - gap], [PI], [0.1], [0.0], Wr=4.0, m=m)
            v(2 * w + gap, [0.0, 2 * w + gap], [PI, PI], [0.1, 0.2], [0.0, 0.0], Wr=4.0, m=m)
            v(1e-6 * (2 * w + gap), [0.0, 1e-6 * (2 * w + gap)], [PI, PI], [0.1, 0.2], [0.0, 0.0], Wr=4.0e6, m=None if m is None else 1e-6 * m)
    base = dict(duration=10.0, offsets=[1.0, 4.0, 8.0], rabi=[1.0, 0.0, 2.0], az=[0.1, 0.2, 0.3], det=[0.0, -1.0, 0.0], Wr=20.0, Wd=30.0, m=None, name=None, cname=None)
    for kw in (dict(), dict(Wr=0.0), dict(Wr=-1.0), dict(Wd=0.0), dict(Wd=-5.0), dict(m=-1e-9), dict(m=-1.0), dict(m=0.0), dict(rabi=[-1.0, 0.0, 2.0]), dict(rabi=[1.0, 0.0, -2e-3]),
               dict(det=[0.5, -1.0, 0.0]), dict(det=[-0.5, -1.0, 0.0]), dict(det=[0.0, -1.0, -2.0]), dict(det=[0.0, -1.0, 2.0]), dict(rabi=[1.0, 1.0, 2.0]),
               dict(offsets=[4.0, 1.0, 8.0]), dict(offsets=[1.0, 8.0, 4.0]), dict(offsets=[1.0, 1.0, 8.0]), dict(offsets=[1.0, 8.0, 8.0]), dict(offsets=[0.0, 0.0, 8.0]), dict(offsets=[1.0, 10.0, 10.0]), dict(offsets=[10.0, 4.0, 1.0]),
               dict(Wr=-1.0, Wd=-1.0), dict(Wr=0.0, rabi=[0.0, 0.0, 0.0]), dict(Wd=0.0, det=[0.0, 0.0, 0.0]),
               dict(rabi=[-1e-9, 0.0, 2.0]), dict(det=[1e-9, -1.0, 0.0]), dict(det=[-1e-9, -1.0, 0.0])):
        out.append(dict(base, **kw))
    out.append(dict(duration=10.0, offsets=[], rabi=[], az=[], det=[], Wr=-1.0, Wd=1.0, m=None, name=None, cname=None))
    out.append(dict(duration=10.0, offsets=[], rabi=[], az=[], det=[], Wr=1.0, Wd=0.0, m=None, name=None, cname=None))
    out.append(dict(duration=10.0, offsets=[], rabi=[], az=[], det=[], Wr=1.0, Wd=1.0, m=11.0, name=None, cname=None))
    out.append(dict(duration=10.0, offsets=[], rabi=[], az=[], det=[], Wr=1.0, Wd=1.0, m=10.0, name=None, cname=None))
    return out


def conv_run(case):
    """-> (control, plan) when a result is to be judged, None otherwise."""
    kind, seq = outcome(lambda: mk_seq(case))
    if kind != "ok":
        return None
    v, why, plan = conv_expect(case)
    if v in ("reject", "skip"):
        return None
    k, c = outcome(lambda: conv_call(case, seq))
    if k != "ok":
        return None
    return c, plan


def driven_segments(c):
    """[(start, end, rabi, az, det)] of driven segments and list of idle (start, duration)."""
    t = 0.0
    dr, idle = [], []
    for r, a, d, w in zip(c.rabi_rates, c.azimuthal_angles, c.detunings, c.durations):
        r, a, d, w = float(r), float(a), float(d), float(w)
        if r != 0 or d != 0:
            dr.append((t, t + w, r, a, d))
        else:
            idle.append((t, w))
        t += w
    return dr, idle, t


def c11_check(case):
    x = conv_run(case)
    if x is None:
        return
    c, (ops, acc, tol) = x
    T = case["duration"]
    eps = acc + 1e-9 * T
    dr, idle, tot = driven_segments(c)
    need(abs(tot - T) <= eps, "total-duration", "%r, sequence lasts %r" % (tot, T))
    pulses = [p for p in ops if p[2] is not None]
    need(len(dr) == len(pulses), "one-segment-per-pulse", "%d driven segments for %d pulses" % (len(dr), len(pulses)))
    for s, p in zip(dr, pulses):
        o = case["offsets"][p[2]]
        if o == 0:
            need(abs(s[0]) <= eps, "first-pulse-starts-at-zero", "starts at %r" % s[0])
        elif o == T:
            need(abs(s[1] - T) <= eps, "last-pulse-ends-at-end", "ends at %r of %r" % (s[1], T))
        else:
            need(abs((s[0] + s[1]) / 2 - o) <= eps, "pulse-centred", "pulse at %r has its midpoint at %r" % (o, (s[0] + s[1]) / 2))


def c12_check(case):
    x = conv_run(case)
    if x is None:
        return
    c, (ops, acc, tol) = x
    T, m = case["duration"], case.get("m") or 0.0
    dr, idle, tot = driven_segments(c)
    pulses = [p for p in ops if p[2] is not None]
    need(len(dr) == len(pulses), "one-segment-per-pulse", "%d driven segments for %d pulses" % (len(dr), len(pulses)))
    for (s, e, r, a, d), p in zip(dr, pulses):
        i = p[2]
        R, D = case["rabi"][i], case["det"][i]
        w = max(R / case["Wr"], abs(D) / case["Wd"], m)
        need(close(e - s, w, 1e-9, 1e-12 * T), "pulse-duration", "pulse %d lasts %r, expected %r" % (i, e - s, w))
        if R:
            need(close(r * (e - s), R, 1e-9, 1e-11 * r * T), "pulse-rotation", "pulse %d rotates by %r, expected %r" % (i, r * (e - s), R))
            need(close(a, case["az"][i], 1e-12), "pulse-azimuth", "pulse %d: %r, expected %r" % (i, a, case["az"][i]))
            need(d == 0, "rabi-pulse-undetuned", "pulse %d: %r" % (i, d))
        else:
            need(r == 0, "detuning-pulse-without-rabi", "pulse %d: %r" % (i, r))
            need(close(d * (e - s), D, 1e-9, 1e-11 * abs(d) * T), "pulse-detuning-rotation", "pulse %d rotates by %r, expected %r" % (i, d * (e - s), D))
        slack = 1 + 1e-7 + 4e-15 * T / w
        need(r <= case["Wr"] * slack, "rabi-limit", "%r exceeds %r" % (r, case["Wr"]))
        need(abs(d) <= case["Wd"] * slack, "detuning-limit", "%r exceeds %r" % (d, case["Wd"]))
    for s, w in idle:
        need(w >= m - tol * (1 + 1e-6) - 1e-12 * T, "idle-duration", "idle segment lasts %r, minimum is %r" % (w, m))
    need(c.name == case.get("cname"), "name", "%r, requested %r" % (c.name, case.get("cname")))


def c13_check(case):
    kind, seq = outcome(lambda: mk_seq(case))
    if kind != "ok":
        return
    v, why, plan = conv_expect(case)
    if v == "skip":
        return
    if v == "reject":
        expect_rejected(lambda: conv_call(case, seq), "rejects: " + why.split(" shorter")[0].split(" 0")[0].split(" -")[0][:40], "sequence with %s" % why)
    elif v == "accept":
        expect_ok(lambda: conv_call(case, seq), "accepts-realisable", "converting a realisable sequence")
    else:
        k, e = outcome(lambda: conv_call(case, seq))
        need(k != "other", "error-kind", "%r" % e)


# ------------------------------------------------------------------------------- C14-C17
X, Y, Z = "X", "Y", "Z"


def uhrig(T, n):
    return [T * math.sin(PI * i / (2 * n + 2)) ** 2 for i in range(1, n + 1)]


def reference(fam, T, a):
    """-> list of (time, kind) of the pi pulses."""
    if fam == "ramsey":
        return []
    if fam == "spin_echo":
        return [(T / 2, X)]
    if fam == "carr_purcell":
        return [(T * (i - 0.5) / a[0], X) for i in range(1, a[0] + 1)]
    if fam == "cpmg":
        return [(T * (i - 0.5) / a[0], Y) for i in range(1, a[0] + 1)]
    if fam == "uhrig":
        return [(t, Y) for t in uhrig(T, a[0])]
    if fam == "periodic":
        return [(T * i / (a[0] + 1), X) for i in range(1, a[0] + 1)]
    if fam == "quadratic":
        m, n = a
        outer = uhrig(T, n)
        edges = [0.0] + outer + [T]
        out = []
        for j in range(n + 1):
            out += [(edges[j] + t, Z) for t in uhrig(edges[j + 1] - edges[j], m)]
            if j < n:
                out.append((outer[j], X))
        return out
    if fam == "walsh":
        k = a[0]
        bits = k.bit_length()
        S = 2 ** bits
        # Paley order: bit b of the order selects the Rademacher function of 2^(b+1) half periods
        val = []
        for j in range(S):
            par = 0
            for b in range(bits):
                if k >> b & 1:
                    par ^= (j >> (bits - 1 - b)) & 1
            val.append(par)
        return [(T * (j + 1) / S, X) for j in range(S - 1) if val[j] != val[j + 1]]
    l = a[0]
    if fam == "x_concatenated":
        out = []
        for k in range(1, 2 ** l):
            v = (k & -k).bit_length() - 1
            if v % 2 == 0:
                out.append((T * k / 2 ** l, X))
        return out
    if fam == "xy_concatenated":
        # Pauli label at position k after multiplying coincident pulses
        P = {}

        def put(k, p):
            P[k] = P.get(k, 0) ^ p  # X=1, Y=2, Z=3 multiply as xor up to phase

        def rec(start, level):
            if level == 0:
                return
            w = 4 ** (level - 1)
            for j, p in enumerate((1, 2, 1, 2)):
                rec(start + j * w, level - 1)
                put(start + (j + 1) * w, p)
        rec(0, l)
        return [(T * k / 4 ** l, {1: X, 2: Y, 3: Z}[P[k]]) for k in sorted(P) if P[k]]
    raise KeyError(fam)


ARGN = {"ramsey": [], "spin_echo": [], "carr_purcell": ["offset_count"], "cpmg": ["offset_count"], "uhrig": ["offset_count"],
        "periodic": ["offset_count"], "quadratic": ["inner_offset_count", "outer_offset_count"], "walsh": ["paley_order"],
        "x_concatenated": ["concatenation_order"], "xy_concatenated": ["concatenation_order"]}
C14F = ["ramsey", "spin_echo", "carr_purcell", "cpmg", "uhrig", "periodic", "quadratic"]


def seq_call(case):
    kind = {None: lambda x: x, "float": float, "np.int64": np.int64, "np.float64": np.float64}[case.get("kind")]
    kw = {k: kind(x) for k, x in zip(ARGN[case["fam"]], case["args"])}
    kw["duration"] = np.float64(case["T"]) if case.get("kind") == "np.int64" else case["T"]
    if case.get("pp") is not None:
        kw["pre_post_rotation"] = np.bool_(case["pp"]) if (case.get("kind") or "")[:2] == "np" else case["pp"]
    if case.get("name") is not None:
        kw["name"] = case["name"]
    return getattr(q, "new_%s_sequence" % case["fam"])(**kw)


def kind_of(r, a, d):
    r, a, d = float(r), float(a), float(d)
    if close(r, PI, 1e-9) and abs(a) < 1e-9 and d == 0:
        return X
    if close(r, PI, 1e-9) and close(a, PI / 2, 1e-9) and d == 0:
        return Y
    if r == 0 and abs(a) < 1e-9 and close(d, PI, 1e-9):
        return Z
    return "(%r,%r,%r)" % (r, a, d)


def seq_pulses(s):
    n = len(s.offsets)
    need(len(s.rabi_rotations) == n and len(s.azimuthal_angles) == n and len(s.detuning_rotations) == n, "pulse-lists", "unequal lengths")
    return [(float(o), kind_of(r, a, d)) for o, r, a, d in zip(s.offsets, s.rabi_rotations, s.azimuthal_angles, s.detuning_rotations)]


def seq_bad(case):
    fam, T, a = case["fam"], case["T"], case["args"]
    if T <= 0 or any(x < 1 for x in a):
        return True
    return fam == "walsh" and a[0] > 2000


def c14_check(case):
    fam, T = case["fam"], case["T"]
    if seq_bad(case):
        expect_rejected(lambda: seq_call(case), "rejects-domain " + fam, "%s with duration %r and arguments %r" % (fam, T, case["args"]))
        return
    s = expect_ok(lambda: seq_call(case), "accepts-domain " + fam, "%s with duration %r and arguments %r" % (fam, T, case["args"]))
    got = seq_pulses(s)
    want = reference(fam, T, case["args"])
    if case.get("pp"):
        need(len(got) >= 2, "pulse-count " + fam, "%d" % len(got))
        got = got[1:-1]
    need(len(got) == len(want), "pulse-count " + fam, "%d pulses, expected %d" % (len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        need(g[1] == w[1], "pulse-kind " + fam, "pulse %d is %s, expected %s" % (i, g[1], w[1]))
        need(abs(g[0] - w[0]) <= 1e-10 * T, "pulse-time " + fam, "pulse %d at %r, expected %r (duration %r)" % (i, g[0], w[0], T))
    need(close(s.duration, T, 0), "duration", "%r, requested %r" % (s.duration, T))
    need(s.name == case.get("name"), "name", "%r, requested %r" % (s.name, case.get("name")))


TS = [1.0, 10.0, 1e-6, 0.37, 2e3]


def args_for(fam, rng=None, i=0):
    k = len(ARGN[fam])
    if rng is None:
        return [i] * k
    if fam == "walsh":
        return [rng.randint(1, 2000)]
    if fam == "x_concatenated":
        return [size_near(rng, rng.randint(1, 8) if rng.random() < 0.9 else rng.randint(9, 11), 14)]
    if fam == "xy_concatenated":
        return [size_near(rng, rng.randint(1, 4) if rng.random() < 0.95 else 5, 7)]
    if k == 1 and rng.random() < 0.1:
        return [size_near(rng, rng.randint(41, 300))]
    return [size_near(rng, rng.randint(1, 40), 3000 if k == 1 else 60) for _ in range(k)]


def fam_bank(fams, counts, pps=(None,)):
    out = []
    for fam in fams:
        k = len(ARGN[fam])
        argl = [[]] if k == 0 else [[c] for c in counts] if k == 1 else [[a, b] for a in counts[:6] for b in counts[:6]]
        for j, a in enumerate(argl):
            for pp in pps:
                out.append(dict(fam=fam, T=TS[j % 5], args=a, pp=pp, name=[None, "nm"][j % 2]))
        for T in (0.0, -1.0, -1e-9):
            out.append(dict(fam=fam, T=T, args=[3] * k if fam != "xy_concatenated" else [2], pp=pps[0], name=None))
        for j, kind in enumerate(("float", "np.int64", "np.float64")):
            for T in (0.37, 3, -2):
                out.append(dict(fam=fam, T=T, args=[j + 2] * k, pp=pps[0], name=None, kind=kind))
        for b in (0, -1, -5, 0.5, 0.999999, -0.5):
            for pos in range(k):
                a = [2] * k
                a[pos] = b
                out.append(dict(fam=fam, T=1.0, args=a, pp=pps[0], name=None))
    return out


def c14_gen(rng):
    fam = rng.choice(C14F)
    return dict(fam=fam, T=value_near(rng, loguni(rng, -7, 4)), args=args_for(fam, rng), pp=rng.choice([None, False]), name=rng.choice(NAMES))


def c15_bank(tier="quick"):
    out = [dict(fam="walsh", T=TS[k % 5], args=[k], pp=None, name=None) for k in range(1, 2001)]
    out += [dict(fam="walsh", T=T, args=[k], pp=None, name="w") for T in (0.0, -1.0) for k in (1, 5, 2000)]
    out += [dict(fam="walsh", T=1.0, args=[k], pp=None, name="w") for k in (0, -1, -100, 2001, 2002, 4096, 10**6, 0.5, 0.999, 2000.5, 2000.0001)]
    out += [dict(fam="walsh", T=2, args=[k], pp=None, name="w", kind=d) for k in (1, 6, 37, 1999, 2000) for d in ("float", "np.int64", "np.float64")]
    out += [dict(fam="walsh", T=1.0, args=[k], pp=None, name="w") for k in (1, 2, 3, 7, 8, 1023, 1024, 1999, 2000)]
    return out


def c15_gen(rng):
    return dict(fam="walsh", T=value_near(rng, loguni(rng, -7, 4)), args=[rng.randint(1, 2000)], pp=rng.choice([None, False]), name=rng.choice(NAMES))


def c16_gen(rng):
    fam = rng.choice(["x_concatenated", "xy_concatenated"])
    return dict(fam=fam, T=value_near(rng, loguni(rng, -7, 4) * rng.uniform(1, 2)), args=args_for(fam, rng), pp=rng.choice([None, False]), name=rng.choice(NAMES))


def c16_bank():
    out = []
    for l in range(1, 11):
        for T in TS[:3] if l > 7 else TS + [math.sqrt(2), 1 / 3.0, 0.7, 7.1e-5]:
            out.append(dict(fam="x_concatenated", T=T, args=[l], pp=None, name=None))
    for l in range(1, 6):
        for T in TS[:2] + [1 / 3.0] if l > 4 else TS + [math.sqrt(2), 1 / 3.0, 0.7, 7.1e-5]:
            out.append(dict(fam="xy_concatenated", T=T, args=[l], pp=None, name=None))
    return out + [b for b in fam_bank(["x_concatenated", "xy_concatenated"], [1, 2, 3]) if seq_bad(b) or b["name"]]


ALLF = C14F + ["walsh", "x_concatenated", "xy_concatenated"]


def c17_bank():
    out = fam_bank([f for f in ALLF if f not in ("walsh", "x_concatenated", "xy_concatenated")], [1, 2, 3, 4, 5, 8, 13], (True, False))
    out += [dict(fam=f, T=1.0, args=[k], pp=True, name=None) for f in ("carr_purcell", "cpmg", "uhrig", "periodic") for k in (1023, 2048)]
    out += [dict(fam="quadratic", T=1.0, args=a, pp=True, name=None) for a in ([36, 37], [1, 600], [600, 1])]
    out += [dict(fam="walsh", T=TS[k % 5], args=[k], pp=p, name=None) for k in list(range(1, 34)) + [100, 511, 512, 2000] for p in (True, False)]
    out += [dict(fam="x_concatenated", T=TS[k % 5], args=[k], pp=p, name=None) for k in range(1, 8) for p in (True, False)]
    out += [dict(fam="xy_concatenated", T=TS[k % 5], args=[k], pp=p, name="n") for k in range(1, 5) for p in (True, False)]
    return [b for b in out if not seq_bad(b)]


def c17_gen(rng):
    fam = rng.choice(ALLF)
    return dict(fam=fam, T=value_near(rng, loguni(rng, -7, 4)), args=args_for(fam, rng), pp=rng.choice([True, True, False]), name=rng.choice(NAMES))


def raw(s):
    return [[float(x) for x in getattr(s, a)] for a in ("offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations")]


def c17_check(case):
    if seq_bad(case):
        return
    fam, T = case["fam"], case["T"]
    base = expect_ok(lambda: seq_call(dict(case, pp=None)), "accepts-domain " + fam, "%s without pre/post rotation" % fam)
    s = expect_ok(lambda: seq_call(case), "accepts-domain " + fam, "%s with pre/post rotation %r" % (fam, case["pp"]))
    B, S = raw(base), raw(s)
    need(s.name == case.get("name"), "name", "%r" % s.name)
    if not case["pp"]:
        need(B == S, "not-requested-unchanged " + fam, "pulses differ")
        return
    n = len(B[0])
    need(all(len(x) == n + 2 for x in S), "two-pulses-added " + fam, "%d pulses instead of %d" % (len(S[0]), n + 2))
    for b, x, nm in zip(B, S, ("offsets", "Rabi rotations", "azimuthal angles", "detuning rotations")):
        need(same_list(b, x[1:-1], 1e-12), "inner-pulses-kept " + fam, "%s differ" % nm)
    need(S[0][0] == 0.0 and S[0][-1] == T, "added-pulse-times " + fam, "%r and %r of %r" % (S[0][0], S[0][-1], T))
    need(close(S[1][0], PI / 2, 1e-12) and close(S[1][-1], PI / 2, 1e-12), "added-pulse-rotations " + fam, "%r, %r" % (S[1][0], S[1][-1]))
    need(S[3][0] == 0 and S[3][-1] == 0, "added-pulse-detunings " + fam, "%r, %r" % (S[3][0], S[3][-1]))
    need(abs(S[2][0]) < 1e-12, "first-rotation-about-plus-x " + fam, "%r" % S[2][0])
    need(abs(S[2][-1]) < 1e-12 or close(abs(S[2][-1]), PI, 1e-12), "last-rotation-about-x " + fam, "%r" % S[2][-1])
    u = ID
    for r, a, d in zip(S[1], S[2], S[3]):
        m = math.hypot(r, d)
        if m:
            u = mul(su2(m, r * math.cos(a) / m, r * math.sin(a) / m, d / m), u)
    need(min(dist(ID, u), dist((1 + 0j, 0j, 0j, -1 + 0j), u)) < 1e-6, "net-identity-or-z " + fam, "net operation %r" % (u,))


# ------------------------------------------------------------------------------- C21
def c21_gen(rng):
    c = gen_conv(rng)
    x = rng.random()
    c["opts"] = dict(rng.choice(BAD_OPTS)) if x < 0.15 else {} if x < 0.25 else dict(file_type=rng.choice(["CSV", "JSON"]), coordinates=rng.choice(["cartesian", "cylindrical"]))
    c["rates"] = rng.choice(["both"] * 8 + ["none", "rabi", "detuning"])
    c["existing"] = rng.random() < 0.5
    return c


def c21_bank():
    out = []
    s = dict(duration=10.0, offsets=[0.0, 4.0, 8.0], rabi=[1.0, 0.0, 2.0], az=[0.1, 0.2, 0.3], det=[0.0, -1.0, 0.0], name="sq")
    for ft in ("CSV", "JSON"):
        for co in ("cartesian", "cylindrical"):
            for Wr, Wd in ((3.0, 20.0), (20.0, 3.0)):
                out.append(dict(s, Wr=Wr, Wd=Wd, rates="both", opts=dict(file_type=ft, coordinates=co)))
                out.append(dict(s, Wr=Wr, Wd=Wd, rates="both", name=None, opts=dict(file_type=ft, coordinates=co), existing=True))
            out.append(dict(s, Wr=2 * PI, Wd=2 * PI, rates="none", opts=dict(file_type=ft, coordinates=co)))
            out.append(dict(s, Wr=3.0, Wd=2 * PI, rates="rabi", opts=dict(file_type=ft, coordinates=co)))
            out.append(dict(s, Wr=2 * PI, Wd=3.0, rates="detuning", opts=dict(file_type=ft, coordinates=co)))
    out.append(dict(s, Wr=2 * PI, Wd=2 * PI, rates="none", opts={}))
    for i, o in enumerate(BAD_OPTS):
        out.append(dict(s, Wr=3.0, Wd=20.0, rates="both", opts=o, existing=bool(i % 2)))
    for i, kw in enumerate((dict(Wr=0.0), dict(Wr=-1.0), dict(Wd=0.0), dict(Wr=0.01), dict(Wd=0.01), dict(rabi=[-1.0, 0.0, 1.0]), dict(det=[1.0, 1.0, 0.0]), dict(offsets=[0.0, 8.0, 4.0]))):
        for ft in ("CSV", "JSON"):
            d = dict(s, Wr=3.0, Wd=20.0, rates="both", opts=dict(file_type=ft), existing=bool(i % 2))
            d.update(kw)
            out.append(d)
    return out


def c21_check(case):
    kind, seq = outcome(lambda: mk_seq(case))
    if kind != "ok":
        return
    o = case["opts"]
    kw = dict(o)
    Wr = case["Wr"] if case["rates"] in ("both", "rabi") else 2 * PI
    Wd = case["Wd"] if case["rates"] in ("both", "detuning") else 2 * PI
    if case["rates"] in ("both", "rabi"):
        kw["maximum_rabi_rate"] = Wr
    if case["rates"] in ("both", "detuning"):
        kw["maximum_detuning_rate"] = Wd
    ff, ft, co = o.get("file_format", "Q-CTRL expanded"), o.get("file_type", "CSV"), o.get("coordinates", "cylindrical")
    valid = ff == "Q-CTRL expanded" and ft in ("CSV", "JSON") and co in ("cartesian", "cylindrical")
    k, ctl = outcome(lambda: q.convert_dds_to_driven_control(seq, maximum_rabi_rate=Wr, maximum_detuning_rate=Wd, minimum_segment_duration=0.0, name=seq.name))

    def body(d):
        a, b = os.path.join(d, "a.dat"), os.path.join(d, "b.dat")
        if case.get("existing"):
            with open(a, "w") as fh:
                fh.write("precious" * 300)
        if k != "ok" or not valid:
            expect_rejected(lambda: seq.export_to_file(filename=a, **kw), "rejects-invalid", "options %r" % kw)
            need(os.listdir(d) == (["a.dat"] if case.get("existing") else []), "rejected-writes-nothing", "%r" % os.listdir(d))
            if case.get("existing"):
                need(open(a).read() == "precious" * 300, "rejected-writes-nothing", "existing file changed")
            return
        k2, e2 = outcome(lambda: ctl.export_to_file(filename=b, file_format=ff, file_type=ft, coordinates=co))
        if k2 != "ok":
            return
        expect_ok(lambda: seq.export_to_file(filename=a, **kw), "export-succeeds", "export_to_file(%r)" % kw)
        need(sorted(os.listdir(d)) == ["a.dat", "b.dat"], "writes-the-file", "%r" % os.listdir(d))
        A, B = open(a, newline="").read(), open(b, newline="").read()
        need(A == B, "same-content", "files differ: %r... vs %r..." % (A[:200], B[:200]))
    with_tmp(body)


REG = {
    "C10": (c10_bank, c10_gen, c10_check),
    "C11": (conv_bank, gen_conv, c11_check),
    "C12": (conv_bank, gen_conv, c12_check),
    "C13": (conv_bank, gen_conv, c13_check),
    "C14": (lambda: fam_bank(C14F, [1, 2, 3, 4, 5, 6, 7, 10, 17, 50, 101, 1500]), c14_gen, c14_check),
    "C15": (c15_bank, c15_gen, c14_check),
    "C16": (c16_bank, c16_gen, c14_check),
    "C17": (c17_bank, c17_gen, c17_check),
    "C21": (c21_bank, c21_gen, c21_check),
}
