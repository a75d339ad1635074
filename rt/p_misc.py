"""Run-time contracts about purity (C18), errors (C19) and text (C20)."""
import copy, os, re
from common import *
from p_control import with_tmp
import p_dds, p_predef


# ------------------------------------------------------------------------------- C18
def freeze(x):
    if isinstance(x, np.ndarray):
        return ("arr", str(x.dtype), x.shape, x.flags.writeable, tuple(freeze(v) for v in x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted((str(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, float) and x != x:
        return "nan"
    if isinstance(x, (np.floating, np.integer)):
        return freeze(x.item())
    if isinstance(x, (q.DrivenControl, q.DynamicDecouplingSequence)):
        return state(x)
    return x


CATTR = ("durations", "rabi_rates", "azimuthal_angles", "detunings", "name")
SATTR = ("duration", "offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations", "name")
CPROP = ("number_of_segments", "maximum_rabi_rate", "maximum_detuning", "amplitude_x", "amplitude_y", "angles", "directions", "times", "maximum_duration", "minimum_duration", "duration")


def state(o):
    at = CATTR if isinstance(o, q.DrivenControl) else SATTR
    return tuple(freeze(getattr(o, a)) for a in at)


def scribble(x):
    """The caller modifies a value it got back (derived values only)."""
    if isinstance(x, np.ndarray) and x.size and x.flags.writeable and x.dtype != object:
        x[...] = -77.25
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x["extra"] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append(None)


def c_ops(c, path):
    ops = [("read " + p, lambda p=p: getattr(c, p)) for p in CPROP]
    for co in ("cartesian", "cylindrical"):
        for dm in (True, False):
            ops.append(("export %s %s" % (co, dm), lambda co=co, dm=dm: c.export(coordinates=co, dimensionless_rabi_rate=dm)))
        for ft in ("CSV", "JSON"):
            def ex(co=co, ft=ft):
                c.export_to_file(filename=path, file_type=ft, coordinates=co)
                return open(path).read()
            ops.append(("export_to_file %s %s" % (co, ft), ex))
    ops.append(("str", lambda: str(c)))
    ops.append(("repr", lambda: repr(c)))
    ops.append(("rejected export", lambda: outcome(lambda: c.export(coordinates="nope"))[0]))
    return ops


def s_ops(s, case, path):
    ops = [("export", s.export), ("str", lambda: str(s)), ("repr", lambda: repr(s))]
    for m in (0.0, 1e-3 * case["duration"]):
        ops.append(("convert", lambda m=m: q.convert_dds_to_driven_control(s, maximum_rabi_rate=case["Wr"], maximum_detuning_rate=case["Wd"], minimum_segment_duration=m, name="k")))
    for ft in ("CSV", "JSON"):
        def ex(ft=ft):
            s.export_to_file(filename=path, file_type=ft, maximum_rabi_rate=case["Wr"], maximum_detuning_rate=case["Wd"])
            return open(path).read()
        ops.append(("export_to_file " + ft, ex))
    return ops


def c18_bank():
    out = []
    for b in BANK_CONTROLS:
        for kinds in (["farr"] * 4, ["list"] * 4):
            out.append(dict(b, what="control", kinds=kinds, seed=1))
    out.append(dict(BANK_CONTROLS[3], what="control", kinds=["farr"] * 4, omit=["rabi"], seed=2))
    out.append(dict(BANK_CONTROLS[3], what="control", kinds=["farr"] * 4, omit=["rabi", "az", "det"], seed=3))
    out.append(dict(BANK_CONTROLS[3], what="control", kinds=["farr"] * 4, omit=["az"], seed=3))
    for k, (o, r, a, d) in enumerate([
        ([1.0, 4.0, 8.0], [1.0, 0.0, 2.0], [0.1, 0.2, 0.3], [0.0, -1.0, 0.0]),
        ([0.0, 4.0, 10.0], [1.0, 0.0, 2.0], [0.1, 0.2, 0.3], [0.0, -1.0, 0.0]),
        ([0.0, 10.0], [0.0, 2.0], [0.1, 0.3], [-1.0, 0.0]),
        ([5.0], [0.0], [0.1], [3.0]),
        ([], [], [], []),
        ([0.0, 5.0, 10.0], [9.0, 9.0, 9.0], [0.1, 0.3, 0.4], [0.0, 0.0, 0.0]),
    ]):
        for kinds in (["farr"] * 4, ["list"] * 4):
            out.append(dict(what="sequence", duration=10.0, offsets=o, rabi=r, az=a, det=d, name="s", Wr=20.0, Wd=20.0, kinds=kinds, seed=k))
    for k in (["farr"] * 4, ["list"] * 4):
        out.append(dict(long_control(23), what="control", kinds=k, seed=8))
        out.append(dict(long_seq(23), what="sequence", Wr=200.0, Wd=200.0, kinds=k, seed=9))
    for fam in p_dds.ALLF:
        for pp in (True, False):
            out.append(dict(what="predefined-sequence", fam=fam, T=2.0, args=[2] * len(p_dds.ARGN[fam]), pp=pp, name="p", seed=5))
    for fam in p_predef.FAM1 + p_predef.FAM2:
        out.append(dict(what="predefined-control", fam=fam, t=PI / 2, W=3.0, f=0.3, name="p", seed=6))
    out.append(dict(what="gaussian", W=60.0, m=0.02, D=1.0, v=3.0, seed=7))
    out.append(dict(what="gaussian", W=60.0, m=0.02, D=1.0, v=0.0, seed=7))
    return out


def c18_gen(rng):
    x = rng.random()
    if x < 0.4:
        c = gen_control(rng, rng.choice([1, 2, 2, 3, 3, 5, 5, 9, 9, 20]))
        c.update(what="control", kinds=[rng.choice(["farr", "farr", "list"]) for _ in range(4)], seed=rng.randrange(10**6))
        return c
    if x < 0.8:
        c = p_dds.gen_conv(rng)
        c.update(what="sequence", kinds=[rng.choice(["farr", "farr", "list"]) for _ in range(4)], seed=rng.randrange(10**6))
        if c["Wr"] <= 0 or c["Wd"] <= 0:
            c["Wr"] = c["Wd"] = 20.0
        return c
    fam = rng.choice(p_dds.ALLF)
    return dict(what="predefined-sequence", fam=fam, T=loguni(rng, -3, 3), args=[rng.randint(1, 3) for _ in p_dds.ARGN[fam]], pp=rng.random() < 0.5, name="p", seed=rng.randrange(10**6))


def run_ops(obj, ops, rng, inputs, frozen):
    before = state(obj)
    first = {}
    order = list(range(len(ops)))
    for rnd in range(3):
        rng.shuffle(order)
        for i in order:
            nm, fn = ops[i]
            kind, v = outcome(fn)
            f = (kind, freeze(v) if kind == "ok" else type(v).__name__)
            if i in first:
                need(f == first[i], "repeatable " + nm.split()[0], "%s gave %r, then %r" % (nm, str(first[i])[:150], str(f)[:150]))
            else:
                first[i] = f
            if kind == "ok":
                if isinstance(v, q.DrivenControl):
                    for a in CATTR[:4]:
                        scribble(getattr(v, a))
                else:
                    scribble(v)
            need(state(obj) == before, "object-unchanged " + nm.split()[0], "%s changed the object" % nm)
            need([freeze(x) for x in inputs] == frozen, "inputs-unchanged " + nm.split()[0], "%s changed an input" % nm)


def spoil(obj):
    for a in (CATTR[:4] if isinstance(obj, q.DrivenControl) else SATTR[1:5]):
        scribble(getattr(obj, a))


def c18_check(case):
    rng = random.Random(case.get("seed", 0))
    what = case["what"]
    if what in ("predefined-sequence", "predefined-control", "gaussian"):
        if what == "predefined-sequence":
            mk = lambda: p_dds.seq_call(case)
        elif what == "predefined-control":
            mk = lambda: p_predef.call(case, p_predef.ctor(case["fam"]))
        else:
            mk = lambda: q.new_modulated_gaussian_control(maximum_rabi_rate=case["W"], minimum_segment_duration=case["m"], duration=case["D"], modulation_frequency=case["v"])
        k, a = outcome(mk)
        if k != "ok":
            return
        st = state(a)
        b = mk()
        need(state(b) == st, "repeatable constructor", "building twice gives different objects")
        spoil(a)
        need(state(b) == st, "objects-independent", "modifying one object changed the other")
        need(state(mk()) == st, "repeatable constructor", "building again after modifying the first object gives a different object")
        return

    def body(d):
        path = os.path.join(d, "f.dat")
        k = case["kinds"]
        omit = case.get("omit", [])
        if what == "control":
            A = [container(case["durations"], k[0])] + [None if f in omit else container(case[f], k[i + 1]) for i, f in enumerate(("rabi", "az", "det"))]
            mk = lambda A: q.DrivenControl(durations=A[0], rabi_rates=A[1], azimuthal_angles=A[2], detunings=A[3], name=case["name"])
        else:
            A = [container(case[f], k[i]) for i, f in enumerate(("offsets", "rabi", "az", "det"))]
            mk = lambda A: q.DynamicDecouplingSequence(duration=case["duration"], offsets=A[0], rabi_rotations=A[1], azimuthal_angles=A[2], detuning_rotations=A[3], name=case["name"])
        frozen = [freeze(x) for x in A]
        A2 = [copy.deepcopy(x) for x in A]
        kk, o = outcome(lambda: mk(A))
        need([freeze(x) for x in A] == frozen, "inputs-unchanged constructor", "construction changed an input")
        if kk != "ok":
            return
        o2 = mk(A2)
        st2 = state(o2)
        run_ops(o, c_ops(o, path) if what == "control" else s_ops(o, case, path), rng, A, frozen)
        need(state(o2) == st2, "objects-independent", "operations on one object changed another")
        A3 = [copy.deepcopy(x) for x in A]
        o3 = mk(A3)
        need(state(o3) == st2, "repeatable constructor", "same inputs give a different object")
        spoil(o3)
        need(state(o2) == st2, "objects-independent", "modifying one object changed another")
        need(state(mk(A2 if False else [copy.deepcopy(x) for x in A])) == st2, "repeatable constructor", "same inputs give a different object after another object was modified")
    with_tmp(body)


# ------------------------------------------------------------------------------- C19
class Odd:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<odd %s>" % self.t

    def __str__(self):
        return "STR"


VALS = [0, 1.5, "text", None, [1, 2], {"a": 1}, "O:1", "line\nbreak", -2, True, "A:3", "A:40", "A:2000", "L:30", "L:700", "x" * 300]


def unval(v):
    if isinstance(v, str) and v.startswith("O:"):
        return Odd(v)
    if isinstance(v, str) and v.startswith("A:"):
        return np.arange(int(v[2:])) * 0.5
    if isinstance(v, str) and v.startswith("L:"):
        return [i / 7.0 for i in range(int(v[2:]))]
    return v


def c19_bank():
    out = []
    A = [[], [["x", 1.5]], [["x", "text"], ["y", None]], [["b", 2], ["a", 1]], [["o", "O:1"], ["v", "A:3"], ["n", -2]], [["v", "A:2000"], ["l", "L:700"], ["t", "x" * 20000]], [["k%d" % i, i] for i in range(30)]]
    for desc in ("Something is wrong.", "", "two\nlines", "100% {} {0}"):
        for a in A:
            for e in [None] + A:
                out.append(dict(desc=desc, args=a, extras=e, how="error"))
    conds = [True, False, 1, 0, "np.True", "np.False", [], [0], "yes", "", None]
    for c in conds:
        for a in A[:4]:
            for e in (None, [], A[1]):
                out.append(dict(desc="Bad value.", args=a, extras=e, how="check", cond=c))
    for i in range(12):
        out.append(dict(how="public", which=i))
    return out


def c19_gen(rng):
    mkd = lambda x: [[rng.choice("k" + x) + "%d" % i if rng.random() < 0.8 else "weird key %d" % i, rng.choice(VALS)] for i in range(rng.choice([0, 1, 2, 3, 4, 9]))]
    c = dict(desc=rng.choice(["d", "long description here. ", "%s", "{}"]), args=mkd("a"), extras=rng.choice([None, mkd("e")]), how=rng.choice(["error", "check"]))
    c["cond"] = rng.choice([True, False, 0, 1, "np.True", "np.False"])
    return c


def expected_message(desc, a, e):
    m = desc
    for k, v in a.items():
        m += "\n%s=%s" % (k, repr(v))
    for k, v in (e or {}).items():
        m += "\n%s=%s" % (k, repr(v))
    return m


def judge_error(err, desc, a, e):
    need(isinstance(err, QctrlError) and isinstance(err, Exception), "error-type", "%r" % type(err))
    for k in ("description", "arguments", "extras", "message"):
        need(hasattr(err, k), "error-attribute", "the error has no attribute %r" % k)
    need(err.description == desc, "error-description", "%r, given %r" % (err.description, desc))
    need(list(err.arguments) == list(a) and all((err.arguments[k] is a[k]) or not isinstance(a[k], np.ndarray) and err.arguments[k] == a[k] for k in a), "error-arguments", "%r" % (err.arguments,))
    if e is None:
        need(not err.extras, "error-extras", "%r, given none" % (err.extras,))
    else:
        need(list(err.extras or {}) == list(e) and all((err.extras[k] is e[k]) or not isinstance(e[k], np.ndarray) and err.extras[k] == e[k] for k in e), "error-extras", "%r" % (err.extras,))
    w = expected_message(desc, a, e)
    need(err.message == w, "error-message", "%r, expected %r" % (err.message, w))
    need(str(err) == w, "error-text", "%r, expected %r" % (str(err), w))


PUBLIC = [
    (lambda: q.DrivenControl(durations=[1.0, -2.0]), dict(durations=[1.0, -2.0])),
    (lambda: q.DrivenControl(durations=[1.0], rabi_rates=[-1.0]), dict(rabi_rates=[-1.0])),
    (lambda: q.DrivenControl(durations=[1.0], rabi_rates=[1.0, 2.0]), dict(rabi_rates=[1.0, 2.0], durations=[1.0])),
    (lambda: q.DynamicDecouplingSequence(duration=-1.0, offsets=[], rabi_rotations=[], azimuthal_angles=[], detuning_rotations=[]), dict(duration=-1.0)),
    (lambda: q.DynamicDecouplingSequence(duration=1.0, offsets=[2.0], rabi_rotations=[0], azimuthal_angles=[0], detuning_rotations=[0]), dict(offsets=[2.0], duration=1.0)),
    (lambda: q.new_bb1_control(rabi_rotation=20.0, maximum_rabi_rate=1.0), dict(rabi_rotation=20.0)),
    (lambda: q.new_primitive_control(rabi_rotation=1.0, maximum_rabi_rate=-3.0), dict(maximum_rabi_rate=-3.0)),
    (lambda: q.new_walsh_sequence(duration=1.0, paley_order=3000), dict(paley_order=3000)),
    (lambda: q.new_cpmg_sequence(duration=1.0, offset_count=0), dict(offset_count=0)),
    (lambda: q.new_quadratic_sequence(duration=1.0, inner_offset_count=1, outer_offset_count=0), dict(outer_offset_count=0)),
    (lambda: q.DrivenControl(durations=[1.0]).export(coordinates="zzz"), dict(coordinates="zzz")),
    (lambda: q.new_modulated_gaussian_control(maximum_rabi_rate=1.0, minimum_segment_duration=0.1, duration=1.0, modulation_frequency=0), dict(maximum_rabi_rate=1.0)),
]


def c19_check(case):
    from qctrlopencontrols.utils import check_arguments
    if case["how"] == "public":
        fn, keys = PUBLIC[case["which"]]
        e = expect_rejected(fn, "public-rejection", "invalid call %d" % case["which"])
        for k in ("description", "arguments", "extras"):
            need(hasattr(e, k), "error-attribute", "the error has no attribute %r" % k)
        judge_error(e, e.description, dict(e.arguments), e.extras)
        for k in keys:
            need(k in e.arguments, "offending-argument-named", "%r not among %r" % (k, list(e.arguments)))
            need(np.array_equal(e.arguments[k], keys[k]), "offending-value", "%s is %r, given %r" % (k, e.arguments[k], keys[k]))
        need(isinstance(e.description, str) and e.description, "error-description", "%r" % (e.description,))
        return
    a = {k: unval(v) for k, v in case["args"]}
    ex = None if case["extras"] is None else {k: unval(v) for k, v in case["extras"]}
    fa, fe = dict(a), None if ex is None else dict(ex)
    if case["how"] == "error":
        for form in (0, 1):
            if ex is None:
                err = expect_ok(lambda: ArgumentsValueError(case["desc"], a), "error-constructs", "error") if form else expect_ok(lambda: ArgumentsValueError(case["desc"], a, extras=None), "error-constructs", "error")
            else:
                err = expect_ok(lambda: ArgumentsValueError(case["desc"], a, extras=ex) if form else ArgumentsValueError(case["desc"], a, ex), "error-constructs", "error")
            judge_error(err, case["desc"], fa, fe)
        return
    c = case["cond"]
    cond = {"np.True": np.bool_(True), "np.False": np.bool_(False)}.get(c, c) if isinstance(c, str) else c
    kind, v = outcome(lambda: check_arguments(cond, case["desc"], a) if ex is None else check_arguments(cond, case["desc"], a, extras=ex))
    if cond:
        need(kind == "ok", "true-condition-passes", "%r raised %r" % (cond, v))
        need(v is None, "true-condition-passes", "returned %r" % (v,))
    else:
        need(kind == "args", "false-condition-raises", "condition %r: %s" % (cond, kind))
        judge_error(v, case["desc"], fa, fe)


# ------------------------------------------------------------------------------- C20
def parse_line(line, label, clause):
    m = re.match(r"^%s = \[(.*)\] x (.*)$" % re.escape(label), line)
    need(m, clause, "line %r is not of the form '%s = [..] x scale'" % (line, label))
    body = m.group(1)
    vals = [x.strip() for x in body.split(",")] if body.strip() else []
    try:
        sc = PI if m.group(2) == "pi" else float(m.group(2))
        return [float(x) for x in vals], sc
    except ValueError:
        raise Bad(clause, "line %r holds something that is not a number" % line)


def c20_gen(rng):
    if rng.random() < 0.5:
        c = gen_control(rng)
        c["what"] = "control"
    else:
        c = gen_seq(rng, spread=False)
        c["what"] = "sequence"
        if rng.random() < 0.3:
            for i in range(len(c["offsets"])):
                c["det"][i] = -abs(rng.uniform(0, 3))
    return c


def c20_bank():
    out = [dict(b, what="control") for b in BANK_CONTROLS + [long_control(23), long_control(1100)]] + [dict(long_seq(k), what="sequence") for k in (23, 1100)]
    for nm in (None, "s", ""):
        out.append(dict(what="sequence", duration=10.0, offsets=[1.0, 4.0, 8.0], rabi=[1.0, 0.0, 2.0], az=[0.1, 0.2, 0.3], det=[0.0, -1.0, 0.0], name=nm))
    out.append(dict(what="sequence", duration=1e-6, offsets=[0.0, 1e-6], rabi=[-1.0, 0.0], az=[0.1, -9.0], det=[0.0, -1.0], name=None))
    out.append(dict(what="sequence", duration=3.0, offsets=[1.5], rabi=[0.0], az=[0.0], det=[0.0], name="z"))
    out.append(dict(what="sequence", duration=3.0, offsets=[], rabi=[], az=[], det=[], name="z"))
    return out


def c20_check(case):
    name = case.get("name")
    if case["what"] == "control":
        o = mk_control(case)
        lines = [("Rabi Rates", case["rabi"]), ("Azimuthal Angles", case["az"]), ("Detunings", case["det"]), ("Durations", case["durations"])]
        extra = None
        attrs = ("rabi_rates", "azimuthal_angles", "detunings", "durations", "name")
        cls = "DrivenControl"
    else:
        o = mk_seq(case)
        lines = [("Offsets", case["offsets"]), ("Rabi Rotations", case["rabi"]), ("Azimuthal Angles", case["az"]), ("Detuning Rotations", case["det"])]
        extra = case["duration"]
        attrs = ("duration", "offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations", "name")
        cls = "DynamicDecouplingSequence"
    t = expect_ok(lambda: str(o), "str-succeeds", "str()")
    L = t.split("\n")
    i = 0
    if name is not None:
        need(L[0] == name + ":", "name-line", "%r" % L[0])
        i = 1
    if extra is not None:
        m = re.match(r"^Duration = (.*)$", L[i] if i < len(L) else "")
        ok = False
        if m:
            try:
                ok = float(m.group(1)) == extra
            except ValueError:
                ok = False
        need(ok, "duration-line", "%r, duration is %r" % (L[i] if i < len(L) else None, extra))
        i += 1
    need(len(L) == i + len(lines), "line-count", "%d lines" % len(L))
    for line, (label, want) in zip(L[i:], lines):
        vals, sc = parse_line(line, label, "line " + label)
        need(len(vals) == len(want), "values " + label, "%d values for %d entries" % (len(vals), len(want)))
        big = max([abs(x) for x in want] + [0.0])
        for j, (v, w) in enumerate(zip(vals, want)):
            need(close(v * sc, w, 1e-12, 1e-14 * big), "values " + label, "entry %d reads %r x %r, stored value is %r" % (j, v, sc, w))
    rp = expect_ok(lambda: repr(o), "repr-succeeds", "repr()")
    need(rp.startswith(cls + "(") and rp.endswith(")"), "repr-form", rp[:80])
    body = rp[len(cls) + 1:-1]
    parts = ["%s=%s" % (a, repr(getattr(o, a))) for a in attrs]
    # every argument once, in any order, separated by commas
    rest = body
    for p in sorted(parts, key=len, reverse=True):
        need(rest.count(p) >= 1, "repr-argument " + p.split("=")[0], "%s missing from %r" % (p, rp[:300]))
        rest = rest.replace(p, "", 1)
    need(not rest.replace(",", "").strip(), "repr-form", "unexpected text %r" % rest[:100])


REG = {"C18": (c18_bank, c18_gen, c18_check), "C19": (c19_bank, c19_gen, c19_check), "C20": (c20_bank, c20_gen, c20_check)}
