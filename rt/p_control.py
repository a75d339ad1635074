"""Run-time contracts of driven controls: C01-C05, C20 (control part)."""
import csv, json, os, shutil, tempfile
from common import *

# ------------------------------------------------------------------------------- C01
def c01_bank():
    out = []
    base = dict(durations=[1.0, 2.0, 3.0], rabi=[0.0, 1.0, 2.0], az=[0.1, -0.2, 4.0], det=[-1.0, 0.0, 2.5], name="x",
                kinds=["farr", "farr", "farr", "farr"])

    def v(**kw):
        d = dict(base)
        d.update(kw)
        out.append(d)
    v()
    v(name=None)
    for kinds in (["list"] * 4, ["tuple"] * 4, ["iarr", "farr", "list", "tuple"], ["list", "iarr", "iarr", "iarr"]):
        v(kinds=kinds)
    for keep in range(8):
        v(rabi=base["rabi"] if keep & 1 else None, az=base["az"] if keep & 2 else None, det=base["det"] if keep & 4 else None)
    for field in ("rabi", "az", "det"):
        for bad in ([], [1.0], [1.0, 2.0], [1.0, 2.0, 3.0, 4.0]):
            v(**{field: bad})
    for other in ("rabi", "az", "det"):  # only one optional, mismatched
        d = dict(rabi=None, az=None, det=None)
        d[other] = [1.0, 2.0]
        v(**d)
    for i in range(3):
        for x in (0.0, -1.0, -1e-12, -5e9):
            d = list(base["durations"]); d[i] = x
            v(durations=d)
        for x in (-1.0, -1e-12, -5e9):
            r = list(base["rabi"]); r[i] = x
            v(rabi=r)
        for x in (0.0, 1e-300, 1e12):
            r = list(base["rabi"]); r[i] = x
            v(rabi=r)
        d = list(base["durations"]); d[i] = 1e-12
        v(durations=d)
        for x in (-7.0, 100.0, 0.0):
            a = list(base["az"]); a[i] = x
            v(az=a); v(det=a)
    v(durations=[1.0], rabi=[1.0], az=[1.0], det=[1.0])
    v(durations=[2.0], rabi=None, az=None, det=None, kinds=["list"] * 4)
    v(durations=[1.0], rabi=[1.0, 1.0], az=None, det=None)
    v(durations=[1.0, 1.0], rabi=[1.0], az=None, det=None)
    v(durations=[1.0, 1.0], rabi=[1.0], az=[1.0], det=[1.0])
    v(durations=[0.0], rabi=None, az=None, det=None)
    v(durations=[1.0, 2.0], rabi=[-1.0, -2.0], az=None, det=None)
    v(durations=[1, 2], rabi=[1, 2], az=[3, 4], det=[5, -6], kinds=["iarr"] * 4)
    return out


def c01_gen(rng):
    c = gen_control(rng)
    n = len(c["durations"])
    for f in ("rabi", "az", "det"):
        x = rng.random()
        if x < 0.2:
            c[f] = None
        elif x < 0.3:
            m = rng.choice([n - 1, n + 1, 1, 0])
            c[f] = [rng.uniform(0, 2) for _ in range(max(m, 0))]
    if rng.random() < 0.15:
        c["durations"][rng.randrange(n)] *= rng.choice([0.0, -1.0, -1e-9])
    if c["rabi"] and rng.random() < 0.15:
        c["rabi"][rng.randrange(len(c["rabi"]))] = -rng.choice([1.0, 1e-9, 1e6])
    c["kinds"] = [rng.choice(["list", "tuple", "farr"]) for _ in range(4)]
    return c


def c01_check(case):
    k = case.get("kinds", ["farr"] * 4)
    dur = container(case["durations"], k[0])
    args = [container(case[f], k[i + 1]) for i, f in enumerate(("rabi", "az", "det"))]
    n = len(case["durations"])
    lens_ok = all(case[f] is None or len(case[f]) == n for f in ("rabi", "az", "det"))
    fvals = {f: (None if a is None else [float(x) for x in a]) for f, a in zip(("rabi", "az", "det"), args)}
    dvals = [float(x) for x in dur]
    ok = lens_ok and all(x > 0 for x in dvals) and (fvals["rabi"] is None or all(x >= 0 for x in fvals["rabi"]))
    mk = lambda: q.DrivenControl(durations=dur, rabi_rates=args[0], azimuthal_angles=args[1], detunings=args[2], name=case["name"])
    if not ok:
        expect_rejected(mk, "rejects-malformed", "malformed segment data")
        return
    c = expect_ok(mk, "accepts-wellformed", "constructing from well-formed segment data")
    want = dict(durations=dvals, rabi_rates=fvals["rabi"], azimuthal_angles=fvals["az"], detunings=fvals["det"])
    for a, w in want.items():
        w = [0.0] * n if w is None else w
        got = getattr(c, a)
        need(isinstance(got, np.ndarray) and got.dtype == np.float64, "stored-" + a, "%s is not a float array: %r" % (a, got))
        need(got.shape == (n,) and [float(x) for x in got] == w, "stored-" + a, "%s holds %r, given %r" % (a, got.tolist(), w))
    need(c.name == case["name"], "stored-name", "name is %r, given %r" % (c.name, case["name"]))


# ------------------------------------------------------------------------------- C02
def c02_check(case):
    c = mk_control(case)
    r, f, d, t = case["rabi"], case["az"], case["det"], case["durations"]
    n = len(t)
    g = lambda a: expect_ok(lambda: getattr(c, a), a, "reading " + a)
    need(g("number_of_segments") == n, "number_of_segments", "%r for %d segments" % (c.number_of_segments, n))
    need(close(g("maximum_rabi_rate"), max(r), 1e-12), "maximum_rabi_rate", "%r, largest is %r" % (c.maximum_rabi_rate, max(r)))
    need(close(g("maximum_detuning"), max(d), 1e-12, 1e-14 * max(abs(x) for x in d)), "maximum_detuning", "%r, largest is %r" % (c.maximum_detuning, max(d)))
    need(close(g("maximum_duration"), max(t), 1e-12, 1e-14 * math.fsum(t)), "maximum_duration", "%r, largest is %r" % (c.maximum_duration, max(t)))
    need(close(g("minimum_duration"), min(t), 1e-12, 1e-14 * math.fsum(t)), "minimum_duration", "%r, smallest is %r" % (c.minimum_duration, min(t)))
    need(close(g("duration"), math.fsum(t), 1e-12 * n), "duration", "%r, sum is %r" % (c.duration, math.fsum(t)))
    sc = max(max(r), 1e-300)
    for a, fn in (("amplitude_x", math.cos), ("amplitude_y", math.sin)):
        got = g(a)
        need(len(got) == n, a, "length %d" % len(got))
        for i in range(n):
            need(close(got[i], r[i] * fn(f[i]), 1e-12, 1e-14 * r[i]), a, "segment %d: %r, expected %r" % (i, got[i], r[i] * fn(f[i])))
    got = g("angles")
    need(len(got) == n, "angles", "length")
    for i in range(n):
        w = t[i] * math.hypot(r[i], d[i])
        need(close(got[i], w, 1e-11, 1e-14 * math.fsum(t) * math.hypot(r[i], d[i])), "angles", "segment %d: %r, expected %r" % (i, got[i], w))
    got = [float(x) for x in g("times")]
    need(len(got) == n + 1, "times-length", "%d times for %d segments" % (len(got), n))
    need(got[0] == 0.0, "times-start", "%r" % got[0])
    for i in range(n):
        need(close(got[i + 1], math.fsum(t[: i + 1]), 1e-12 * n), "times-running-sum", "time %d is %r, expected %r" % (i + 1, got[i + 1], math.fsum(t[: i + 1])))


# ------------------------------------------------------------------------------- C03
def c03_bank():
    out = [dict(b) for b in BANK_CONTROLS]
    for s in (1e-30, 1e-12, 1e-9, 1e-8, 9e-9, 2e-8, 1e-6, 1e-5, 1.0, 1e6, 1e13, 1e25):
        out.append(dict(durations=[1.0, 1.0, 1.0, 1.0], rabi=[s, 0.0, 0.0, 0.3 * s], az=[0.7, 0.2, 0.4, -2.0], det=[0.0, -s, 0.0, 0.4 * s], name=None))
    for ratio in (1e-3, 1e-7, 1e-9, 1e-12, 1e-15, 1e-17, 3e-20, 1.5e-20):
        for s in (1.0, 1e-6, 1e8):
            out.append(dict(durations=[1.0, 1.0, 1.0], rabi=[s, s * ratio, 0.0], az=[0.7, 2.2, 1.0], det=[s, 0.0, -s * ratio], name=None))
    return out


def c03_gen(rng):
    c = gen_control(rng)
    if c.get("whole"):
        return c
    n = len(c["durations"])
    for i in range(n):
        x = loguni(rng, -18, 0) if rng.random() < 0.4 else 1.0
        c["rabi"][i] *= x
        c["det"][i] *= x
    s = loguni(rng, -15, 15)
    c["rabi"] = [s * x for x in c["rabi"]]
    c["det"] = [s * x for x in c["det"]]
    return c


def c03_check(case):
    c = mk_control(case)
    r, f, d = case["rabi"], case["az"], case["det"]
    got = expect_ok(lambda: c.directions, "directions", "reading directions")
    n = len(r)
    need(np.shape(got) == (n, 3), "directions-shape", "%r for %d segments" % (np.shape(got), n))
    st = [math.hypot(a, b) for a, b in zip(r, d)]
    mx = max(st)
    for i in range(n):
        row = [float(x) for x in got[i]]
        if r[i] == 0 and d[i] == 0:
            need(row == [0.0, 0.0, 0.0], "undriven-zero", "segment %d without drive has direction %r" % (i, row))
        elif st[i] > 1.0000001e-20 * mx:
            w = [r[i] * math.cos(f[i]) / st[i], r[i] * math.sin(f[i]) / st[i], d[i] / st[i]]
            need(same_list(row, w, 1e-9, 1e-12), "unit-direction", "segment %d (strength %r of %r) has direction %r, expected %r" % (i, st[i], mx, row, w))


# ------------------------------------------------------------------------------- C04
BAD_COORDS = ["", "spherical", "Cartesian", "CYLINDRICAL", "cylindrical ", "polar", "cart"]


def c04_bank():
    out = []
    for b in BANK_CONTROLS:
        for co in ("cartesian", "cylindrical", None):
            for dim in (True, False, None):
                d = dict(b); d.update(coordinates=co, dimensionless=dim)
                out.append(d)
    for co in BAD_COORDS:
        for dim in (True, False):
            d = dict(BANK_CONTROLS[3]); d.update(coordinates=co, dimensionless=dim)
            out.append(d)
    return out


def c04_gen(rng):
    c = gen_control(rng)
    c["coordinates"] = rng.choice(["cartesian", "cylindrical", None] * 4 + BAD_COORDS)
    c["dimensionless"] = rng.choice([True, False, None])
    c["np"] = rng.random() < 0.3
    return c


def c04_check(case):
    c = mk_control(case)
    kw = {}
    if case["coordinates"] is not None:
        kw["coordinates"] = case["coordinates"]
    if case["dimensionless"] is not None:
        kw["dimensionless_rabi_rate"] = np.bool_(case["dimensionless"]) if case.get("np") else case["dimensionless"]
    co = case["coordinates"] or ("cylindrical" if case["coordinates"] is None else "")
    if co not in ("cartesian", "cylindrical"):
        expect_rejected(lambda: c.export(**kw), "rejects-coordinates", "coordinates %r" % co)
        return
    e = expect_ok(lambda: c.export(**kw), "export-succeeds", "export(%r)" % kw)
    r, f, d, t = case["rabi"], case["az"], case["det"], case["durations"]
    n = len(t)
    mx = max(r)
    norm = mx if (case["dimensionless"] in (True, None) and mx > 0) else 1.0
    if co == "cartesian":
        want = {"X amplitude": [a * math.cos(b) / norm for a, b in zip(r, f)], "Y amplitude": [a * math.sin(b) / norm for a, b in zip(r, f)]}
    else:
        want = {"Rabi rate": [a / norm * complex(math.cos(b), math.sin(b)) for a, b in zip(r, f)]}
    want["Detuning"] = d
    need(set(e) == set(want), "export-keys", "%r" % sorted(e))
    for key, vals in want.items():
        rows = list(e[key])
        need(len(rows) == n, "export-one-entry-per-segment", "%s has %d entries for %d segments" % (key, len(rows), n))
        sc = mx / norm if key != "Detuning" else 0.0
        for i in range(n):
            need(set(rows[i]) == {"value", "duration"}, "export-entry", "%s entry %d is %r" % (key, i, rows[i]))
            need(close(rows[i]["value"], vals[i], 1e-10, 1e-14 * sc), "export-value " + key, "entry %d is %r, expected %r" % (i, rows[i]["value"], vals[i]))
            need(close(rows[i]["duration"], t[i], 1e-12, 1e-14 * math.fsum(t)), "export-duration " + key, "entry %d lasts %r, expected %r" % (i, rows[i]["duration"], t[i]))


# ------------------------------------------------------------------------------- C05
BAD_OPTS = [
    dict(file_format="Q-CTRL"), dict(file_format="csv"), dict(file_format=""), dict(file_format="q-ctrl expanded"),
    dict(file_type="csv"), dict(file_type="json"), dict(file_type="XML"), dict(file_type=""), dict(file_type="Q-CTRL expanded"),
    dict(coordinates="spherical"), dict(coordinates=""), dict(coordinates="Cartesian"), dict(coordinates="CSV"),
    dict(file_type="XML", coordinates="cartesian"), dict(file_format="Q-CTRL", file_type="JSON"),
    dict(coordinates="polar", file_type="JSON"),
]


def c05_bank():
    out = []
    for b in BANK_CONTROLS:
        for ft in ("CSV", "JSON"):
            for co in ("cartesian", "cylindrical"):
                d = dict(b); d["opts"] = dict(file_type=ft, coordinates=co)
                out.append(d)
    for ft in ("CSV", "JSON"):
        out.append(dict(long_control(1100), opts=dict(file_type=ft, coordinates="cartesian")))
    for opts in ({}, {"file_type": "JSON"}, {"coordinates": "cartesian"}, {"file_format": "Q-CTRL expanded", "file_type": "CSV", "coordinates": "cylindrical"}):
        for b in BANK_CONTROLS[2:4]:
            d = dict(b); d["opts"] = opts
            out.append(d)
    for i, o in enumerate(BAD_OPTS):
        d = dict(BANK_CONTROLS[3]); d["opts"] = o; d["existing"] = bool(i % 2)
        out.append(d)
        d = dict(BANK_CONTROLS[2]); d["opts"] = o; d["existing"] = not (i % 2)
        out.append(d)
    return out


def c05_gen(rng):
    c = gen_control(rng)
    if rng.random() < 0.2:
        c["opts"] = dict(rng.choice(BAD_OPTS))
    else:
        c["opts"] = dict(file_type=rng.choice(["CSV", "JSON"]), coordinates=rng.choice(["cartesian", "cylindrical"]))
    c["existing"] = rng.random() < 0.5
    return c


def with_tmp(fn):
    d = tempfile.mkdtemp(prefix="vc_rt_")
    try:
        return fn(d)
    finally:
        shutil.rmtree(d)


def read_export(path, ft):
    """-> dict of column -> list of floats, plus name or None."""
    if ft == "CSV":
        with open(path, newline="") as fh:
            rows = list(csv.reader(fh))
        need(rows, "file-readable", "empty file")
        head = rows[0]
        need(len(set(head)) == len(head), "file-columns", "repeated column in %r" % head)
        cols = {h: [] for h in head}
        for row in rows[1:]:
            need(len(row) == len(head), "file-columns", "row %r does not match header %r" % (row, head))
            for h, x in zip(head, row):
                cols[h].append(float(x))
        return cols, None, False
    with open(path) as fh:
        d = json.load(fh)
    need(isinstance(d, dict), "file-readable", "not a dictionary")
    has = "name" in d
    return d, d.pop("name", None), has


def check_export_file(path, ft, co, r, f, d, t, name, prefix=""):
    n = len(t)
    try:
        cols, nm, has = read_export(path, ft)
    except Bad:
        raise
    except Exception as e:
        raise Bad(prefix + "file-readable", "%s: %s" % (type(e).__name__, e))
    keys = {"maximum_rabi_rate", "detuning", "duration"} | ({"amplitude_x", "amplitude_y"} if co == "cartesian" else {"rabi_rates", "azimuthal_angles"})
    need(set(cols) == keys, prefix + "file-columns", "%r" % sorted(cols))
    mx = max(r)
    if ft == "JSON":
        need((nm if has else None) == name, prefix + "file-name", "name is %r, control has %r" % (nm, name))
        M = [cols["maximum_rabi_rate"]] * n
        need(is_real(cols["maximum_rabi_rate"]), prefix + "file-maximum-rate", "%r" % (cols["maximum_rabi_rate"],))
    else:
        M = cols["maximum_rabi_rate"]
    for k, v in cols.items():
        if k != "maximum_rabi_rate" or ft == "CSV":
            need(isinstance(v, list) and len(v) == n, prefix + "file-segment-count", "%s has %r entries for %d segments" % (k, len(v) if isinstance(v, list) else v, n))
    for i in range(n):
        need(close(M[i], mx, 1e-12), prefix + "file-maximum-rate", "%r, control has %r" % (M[i], mx))
        need(close(cols["duration"][i], t[i], 1e-12), prefix + "file-duration", "segment %d: %r, control has %r" % (i, cols["duration"][i], t[i]))
        need(close(cols["detuning"][i], d[i], 1e-12), prefix + "file-detuning", "segment %d: %r, control has %r" % (i, cols["detuning"][i], d[i]))
        if co == "cartesian":
            for key, w in (("amplitude_x", r[i] * math.cos(f[i])), ("amplitude_y", r[i] * math.sin(f[i]))):
                need(close(cols[key][i] * M[i], w, 1e-10, 1e-13 * mx), prefix + "file-" + key, "segment %d: %r x %r, control has %r" % (i, cols[key][i], M[i], w))
        else:
            need(close(cols["rabi_rates"][i] * M[i], r[i], 1e-10, 1e-13 * mx), prefix + "file-rabi", "segment %d: %r x %r, control has %r" % (i, cols["rabi_rates"][i], M[i], r[i]))
            need(close(cols["azimuthal_angles"][i], f[i], 1e-12), prefix + "file-azimuth", "segment %d: %r, control has %r" % (i, cols["azimuthal_angles"][i], f[i]))


def c05_check(case):
    c = mk_control(case)
    o = case["opts"]
    ff, ft, co = o.get("file_format", "Q-CTRL expanded"), o.get("file_type", "CSV"), o.get("coordinates", "cylindrical")
    valid = ff == "Q-CTRL expanded" and ft in ("CSV", "JSON") and co in ("cartesian", "cylindrical")

    def body(d):
        path = os.path.join(d, "out.dat")
        if case.get("existing"):
            with open(path, "w") as fh:
                fh.write("precious" * 400)
        if not valid:
            expect_rejected(lambda: c.export_to_file(filename=path, **o), "rejects-options", "options %r" % o)
            files = os.listdir(d)
            need(files == (["out.dat"] if case.get("existing") else []), "rejected-writes-nothing", "files %r" % files)
            if case.get("existing"):
                need(open(path).read() == "precious" * 400, "rejected-writes-nothing", "existing file changed")
            return
        expect_ok(lambda: c.export_to_file(filename=path, **o), "export-succeeds", "export_to_file(%r)" % o)
        need(os.listdir(d) == ["out.dat"], "writes-the-file", "%r" % os.listdir(d))
        check_export_file(path, ft, co, case["rabi"], case["az"], case["det"], case["durations"], case["name"])
    with_tmp(body)


REG = {
    "C01": (c01_bank, c01_gen, c01_check),
    "C02": (lambda: [dict(b) for b in BANK_CONTROLS], gen_control, c02_check),
    "C03": (c03_bank, c03_gen, c03_check),
    "C04": (c04_bank, c04_gen, c04_check),
    "C05": (c05_bank, c05_gen, c05_check),
}
