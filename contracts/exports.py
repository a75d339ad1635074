"""Contracts of the exports: C04 (plot data), C05 (files), C10 (sequences), C21 (files of sequences)."""
from pyvc.spec import *
from . import controls as CT

n = CT.n
CO = ("cartesian", "cylindrical")
BADS = "spherical"
DCEXP = "DrivenControl.export"


def named(s):
    return bvar(s)


def sel(name, lit):
    return bvar("%s==%r" % (name, lit))


def max_rate(p):
    """The largest Rabi rate."""
    return N.max_poly(I.Interp(p.ctx, None), n, app("r", K[0]))


# ------------------------------------------------------------------------------- C04
def export(given, dimless, t):
    """coordinates: an unknown string or omitted; dimensionless: unknown or omitted."""
    t.size("n", 3)
    def case(ev):
        d = CT.control_case()(ev)
        d["coordinates"] = ev.string("co", CO, BADS) if given else None
        d["dimensionless"] = ev.bool("dl") if dimless else None
        return d
    t.case = case

    def thunk(it):
        o = CT.make(t, it)
        kw = {}
        if given:
            kw["coordinates"] = OStr("co")
        if dimless:
            kw["dimensionless_rabi_rate"] = SBool(bvar("dl"))
        return it.call(it.getattr(o, "export"), [], kw)
    cart = sel("co", CO[0]) if given else FALSE
    cyl = sel("co", CO[1]) if given else TRUE
    dl = bvar("dl") if dimless else TRUE
    for p in t.paths(DCEXP, thunk):
        if p.outcome[0] == "raise":
            t.ob("unsupported coordinates only", p, bnot(bor(cart, cyl)))
            t.raises_args_error("raises the arguments error", p)
            continue
        t.ob("accepts only supported coordinates", p, bor(cart, cyl))
        CT.pure(t, p)
        v = p.outcome[1]
        if not isinstance(v, PyDict):
            t.ob("is a dictionary", p, False)
            continue
        keys = set(v.state)
        if keys == {"X amplitude", "Y amplitude", "Detuning"}:
            t.ob("amplitudes for cartesian coordinates", p, cart)
        elif keys == {"Rabi rate", "Detuning"}:
            t.ob("complex Rabi rate for cylindrical coordinates", p, cyl)
        else:
            t.ob("keys", p, False)
            continue
        M = max_rate(p)
        norm = ite(band(dl, lt(0, M)), M, ONE)
        want = {"X amplitude": lambda i: (app("r", i) * mk_cos(app("a", i)), ZERO), "Y amplitude": lambda i: (app("r", i) * mk_sin(app("a", i)), ZERO),
                "Rabi rate": lambda i: (app("r", i) * mk_cos(app("a", i)), app("r", i) * mk_sin(app("a", i)))}
        for key in sorted(keys):
            def entry(lab, x, i, facts, key=key):
                if not isinstance(x, PyDict) or set(x.state) != {"value", "duration"}:
                    return t.ob(lab + " holds value and duration", p, False)
                ok = t.num_eq(lab + " duration", p, x.state["duration"], app("d", i), facts)
                if key == "Detuning":
                    return t.num_eq(lab + " value", p, x.state["value"], app("e", i), facts) and ok
                if key == "Rabi rate":
                    c = p.ctx.to_cx(x.state["value"])
                    w = want[key](i)
                    return t.ob(lab + " value", p, band(eq(c.re * norm, w[0]), eq(c.im * norm, w[1])), facts) and ok
                if not isinstance(x.state["value"], Num):
                    return t.ob(lab + " value is real", p, False)
                return t.ob(lab + " value", p, eq(x.state["value"].p * norm, want[key](i)[0]), facts) and ok
            t.each(key, p, v.state[key], n, entry)


# ------------------------------------------------------------------------------- C05
FF = "Q-CTRL expanded"


def opts_case(ev, given):
    o = {}
    if "file_format" in given:
        o["file_format"] = ev.string("ff", (FF,), "Q-CTRL")
    if "file_type" in given:
        o["file_type"] = ev.string("ft", ("CSV", "JSON"), "XML")
    if "coordinates" in given:
        o["coordinates"] = ev.string("co", CO, BADS)
    return o


def opt_terms(given):
    """(format ok, is CSV, is JSON, is cartesian, is cylindrical)"""
    f = sel("ff", FF) if "file_format" in given else TRUE
    csv, js = (sel("ft", "CSV"), sel("ft", "JSON")) if "file_type" in given else (TRUE, FALSE)
    ca, cy = (sel("co", CO[0]), sel("co", CO[1])) if "coordinates" in given else (FALSE, TRUE)
    return f, csv, js, ca, cy


def opt_args(given):
    names = dict(file_format="ff", file_type="ft", coordinates="co")
    return {g: OStr(names[g]) for g in given}


def json_get(e, key):
    for k, v in e[1:]:
        if k == key:
            return v
    return None


def json_list(t, p, name, v, n, fn):
    """v: frozen JSON list of n numbers fn(index, value Poly) -> goal."""
    if v is None or v[0] not in ("list", "slist"):
        return t.ob(name + " is a list", p, False)
    if v[0] == "list":
        ok = t.ob(name + " has one entry per segment", p, eq(len(v) - 1, P(n)))
        for i, x in enumerate(v[1:]):
            ok = t.ob("%s entry %d" % (name, i), p, fn(P(i), frozen_num(x))) and ok
        return ok
    m, x = (v[1], v[2]) if not isinstance(v[1], str) else (v[2], v[3])
    if not t.ob(name + " has one entry per segment", p, eq(P(m), P(n))):
        return False
    k = var("!j", "I")
    q = frozen_num(x)
    if q is None:
        return t.ob(name + " holds numbers", p, False)
    return t.ob(name + " entries", p, fn(k, subst(q, {KID[0]: k})), [le(0, k), lt(k, P(n))])


def frozen_num(x):
    if isinstance(x, tuple) and x and x[0] == "num":
        return x[2]
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return P(x)
    return None


def content(t, p, entries, csv, js, ca, cy, n, R, name):
    """The file holds the documented columns of the control with values R[col](i)."""
    M = R["maximum"]
    norm = ite(lt(0, M), M, ONE)

    def goal(col):
        if col == "maximum_rabi_rate":
            return lambda i, v: eq(v, M)
        if col == "duration":
            return lambda i, v: eq(v, R["d"](i))
        if col == "detuning":
            return lambda i, v: eq(v, R["e"](i))
        if col == "azimuthal_angles":
            return lambda i, v: eq(v, R["a"](i))
        f = {"rabi_rates": lambda i: R["r"](i), "amplitude_x": lambda i: R["r"](i) * mk_cos(R["a"](i)), "amplitude_y": lambda i: R["r"](i) * mk_sin(R["a"](i))}[col]
        # recoverable: value times the maximum stated in the file
        return lambda i, v: eq(v * M, f(i))
    cols_ca = {"amplitude_x", "amplitude_y", "detuning", "duration", "maximum_rabi_rate"}
    cols_cy = {"rabi_rates", "azimuthal_angles", "detuning", "duration", "maximum_rabi_rate"}

    def which(cols):
        if cols == cols_ca:
            return t.ob("cartesian columns when requested", p, ca)
        if cols == cols_cy:
            return t.ob("cylindrical columns when requested", p, cy)
        return t.ob("columns", p, False)
    if entries and entries[0][0] == "json":
        t.ob("JSON when requested", p, js)
        d = entries[0][1]
        if len(entries) != 1 or not isinstance(d, tuple) or d[0] != "dict":
            return t.ob("one dictionary", p, False)
        keys = [k for k, v in d[1:]]
        t.ob("keys are distinct", p, len(set(keys)) == len(keys))
        nm = json_get(d, "name")
        if name is None:
            t.ob("no name without a name", p, nm is None)
        else:
            t.ob("name", p, "name" in keys and nm == freeze(name))
        if not which(set(keys) - {"name"}):
            return False
        ok = True
        for col in sorted(set(keys) - {"name"}):
            v = json_get(d, col)
            if col == "maximum_rabi_rate":
                q = frozen_num(v)
                ok = t.ob("maximum rate", p, FALSE if q is None else eq(q, M)) and ok
            else:
                ok = json_list(t, p, col, v, n, goal(col)) and ok
        return ok
    t.ob("CSV when requested", p, csv)
    if not entries or entries[0][0] != "row":
        return t.ob("title row", p, False)
    head = entries[0][1]
    if not t.ob("titles are distinct", p, len(set(head)) == len(head) and all(isinstance(h, str) for h in head)) or not which(set(head)):
        return False
    rest = entries[1:]
    ok = True
    if len(rest) == 1 and rest[0][0] == "rows":
        _, m, rows = rest[0]
        if len(rows) != 1 or rows[0][0] != "row" or len(rows[0][1]) != len(head):
            return t.ob("rows match the titles", p, False)
        if not t.ob("one row per segment", p, eq(P(m), P(n))):
            return False
        k = var("!j", "I")
        for col, v in zip(head, rows[0][1]):
            if not isinstance(v, Num):
                ok = t.ob(col + " holds numbers", p, False)
                continue
            ok = t.ob(col + " entries", p, goal(col)(k, subst(v.p, {KID[0]: k})), [le(0, k), lt(k, P(n))]) and ok
        return ok
    if any(e[0] != "row" or len(e[1]) != len(head) for e in rest):
        return t.ob("rows match the titles", p, False)
    if not t.ob("one row per segment", p, eq(len(rest), P(n))):
        return False
    for i, e in enumerate(rest):
        for col, v in zip(head, e[1]):
            q = poly_of(v)
            ok = t.ob("%s entry %d" % (col, i), p, goal(col)(P(i), q)) and ok
    return ok


def untouched(t, p):
    """No file was created or changed."""
    t.ob("no file is created or changed", p, all(f.state == [("existing",)] for f in p.ctx.fs.values()))


def to_file(given, name, t):
    t.size("n", 3)

    def case(ev):
        d = CT.control_case(name)(ev)
        d["opts"] = opts_case(ev, given)
        return d
    t.case = case

    def thunk(it):
        o = CT.make(t, it, name)
        return it.call(it.getattr(o, "export_to_file"), [], dict(filename=OStr("fn"), **opt_args(given)))
    f, csv, js, ca, cy = opt_terms(given)
    valid = band(f, bor(csv, js), bor(ca, cy))
    for p in t.paths("DrivenControl.export_to_file", thunk):
        if p.outcome[0] == "raise":
            t.ob("unsupported options only", p, bnot(valid))
            t.raises_args_error("raises the arguments error", p)
            untouched(t, p)
            continue
        t.ob("accepts only supported options", p, valid)
        CT.pure(t, p)
        if set(p.ctx.fs) != {freeze(OStr("fn"))}:
            t.ob("writes the named file only", p, False)
            continue
        R = {k: (lambda i, k=k: app(k, i)) for k in "drae"}
        R["maximum"] = max_rate(p)
        content(t, p, p.ctx.fs[freeze(OStr("fn"))].state, csv, js, ca, cy, n, R, name)


# ------------------------------------------------------------------------------- C10
SEQ = (("rabi_rotations", "r", "rabi"), ("azimuthal_angles", "a", "az"), ("detuning_rotations", "e", "det"))
Tv = var("T")


def seq_init(kinds, name, t):
    no = t.size("n", 2)
    lens = {attr: t.size("n_" + f, 2) for attr, f, key in SEQ}

    def given(it, f, ln):
        it.c.add_fact(le(0, ln))
        t.inputs.add(f)
        if kinds == "list":
            return it.c.alloc(PyList(("sym", ln, Num("f", app(f, K[0])))))
        if kinds == "ints":
            return it.c.arr(ArrData((ln,), "i", "s", app(f, K[0], sort="I")))
        return t.arr(it.c, f, ln)

    def thunk(it):
        kw = dict(duration=Num("f", Tv), offsets=given(it, "o", no))
        for attr, f, key in SEQ:
            kw[attr] = given(it, f, lens[attr])
        if name is not None:
            kw["name"] = name
        it.c.mark = it.c.oid
        return it.call(t.world.get(DDS), [], kw)

    def case(ev):
        d = dict(duration=ev(Tv), offsets=ev.arr("o", no), name=None if name is None else ev.text("name"))
        for attr, f, key in SEQ:
            d[key] = ev.arr(f, lens[attr])
        return d
    t.case = case if kinds != "ints" else None
    R = lambda f, i: app(f, i, sort="I" if kinds == "ints" else "R")
    ok = band(lt(0, Tv), *[eq(lens[a], no) for a in lens], forall(0, no, lambda i: band(le(0, R("o", i)), le(R("o", i), Tv))))
    t.prefer = [ok]
    for p in t.paths("DynamicDecouplingSequence.__init__", thunk):
        if p.outcome[0] == "raise":
            t.ob("malformed data only", p, bnot(ok))
            t.raises_args_error("raises the arguments error", p)
            continue
        t.ob("accepts only well-formed data", p, ok)
        CT.pure(t, p)
        o = p.outcome[1]
        it = I.Interp(p.ctx, None)
        t.num_eq("duration", p, it.getattr(o, "duration"), Tv)
        t.arr_eq("offsets", p, it.getattr(o, "offsets"), no, lambda i: R("o", i), dtype=None)
        for attr, f, key in SEQ:
            t.arr_eq(attr, p, it.getattr(o, attr), no, lambda i: R(f, i), dtype=None)
        t.ob("name", p, it.getattr(o, "name") == name)


def make_seq(t, it, name=OStr("name"), order=False):
    c = it.c
    c.add_fact(le(0, n))
    c.add_fact(lt(0, Tv))
    c.add_fact(forall(0, n, lambda i: band(le(0, app("o", i)), le(app("o", i), Tv))))
    o = it.call(t.world.get(DDS), [], dict(duration=Num("f", Tv), offsets=t.arr(c, "o", n), rabi_rotations=t.arr(c, "r", n), azimuthal_angles=t.arr(c, "a", n),
                                           detuning_rotations=t.arr(c, "e", n), name=name))
    c.mark = c.oid
    return o


def seq_case(name=OStr("name"), **extra):
    def case(ev):
        d = dict(duration=ev(Tv), offsets=ev.arr("o", n), rabi=ev.arr("r", n), az=ev.arr("a", n), det=ev.arr("e", n), name=ev.text("name") if name is not None else None)
        d.update({k: (ev(v) if isinstance(v, Poly) else v) for k, v in extra.items()})
        return d
    return case


def seq_export(t):
    t.size("n", 3)
    t.case = seq_case()
    for p in t.paths("DynamicDecouplingSequence.export", lambda it: it.call(it.getattr(make_seq(t, it), "export"), [], {})):
        if not t.returns("returns", p):
            continue
        CT.pure(t, p)
        v = p.outcome[1]
        if not isinstance(v, PyDict) or set(v.state) != {"Rabi", "Detuning"}:
            t.ob("keys", p, False)
            continue
        for key in ("Rabi", "Detuning"):
            def entry(lab, x, i, facts, key=key):
                if not isinstance(x, PyDict) or set(x.state) != {"rotation", "offset"}:
                    return t.ob(lab + " holds rotation and offset", p, False)
                ok = t.num_eq(lab + " offset", p, x.state["offset"], app("o", i), facts)
                c = p.ctx.to_cx(x.state["rotation"])
                w = (app("r", i) * mk_cos(app("a", i)), app("r", i) * mk_sin(app("a", i))) if key == "Rabi" else (app("e", i), ZERO)
                return t.ob(lab + " rotation", p, band(eq(c.re, w[0]), eq(c.im, w[1])), facts) and ok
            t.each(key, p, v.state[key], n, entry)


# ------------------------------------------------------------------------------- C21
CONVERT = "convert_dds_to_driven_control"
DDSM = DDS.split(":")[0] + ":"


def convert_contract(t, made):
    """The conversion is a function of the sequence, the rates, the minimum segment duration and the name:
    it either raises the arguments error or returns a control with that name (C11 to C13)."""
    def con(it, f, vals):
        c = it.c
        num = lambda v: poly_of(v) if I.is_number(v) else freeze(v)
        key = (freeze(vals["dynamic_decoupling_sequence"]), num(vals["maximum_rabi_rate"]), num(vals["maximum_detuning_rate"]), num(vals["minimum_segment_duration"]), freeze(vals["name"]))
        keys = [k for k, j in made]
        if key not in keys:
            made.append((key, len(made)))
            keys.append(key)
        j = keys.index(key)
        if c.decide(bvar("rejected%d" % j)):
            raise I.PyRaise(it.call(t.world.get(ARGERR), ["rejected", c.alloc(PyDict({}))], {}))
        m = var("m%d" % j, "I")
        c.add_fact(le(1, m))
        c.add_fact(forall(0, m, lambda i: lt(0, app("d%d" % j, i))))
        c.add_fact(forall(0, m, lambda i: le(0, app("r%d" % j, i))))
        g = lambda x: c.arr(ArrData((m,), "f", "s", app(x + str(j), K[0])))
        return it.call(t.world.get(DC), [], dict(durations=g("d"), rabi_rates=g("r"), azimuthal_angles=g("a"), detunings=g("e"), name=vals["name"]))
    return con


def file_content(f):
    def go(x):
        if isinstance(x, (tuple, list)):
            return tuple(go(y) for y in x)
        return x if isinstance(x, (Poly, B)) else freeze(x)
    return go(f.state)


RATES = {"both": ("maximum_rabi_rate", "maximum_detuning_rate"), "none": (), "rabi": ("maximum_rabi_rate",), "detuning": ("maximum_detuning_rate",)}


def seq_to_file(given, rates, name, t):
    t.soft = True
    t.size("n", 2)
    Wr, Wd = var("Wr"), var("Wd")

    def case(ev):
        d = seq_case(name)(ev)
        d.update(opts=opts_case(ev, given), rates=rates, Wr=ev(Wr), Wd=ev(Wd))
        return d
    t.case = case
    made = []

    def attempt(th):
        try:
            return ("val", th())
        except I.PyRaise as e:
            return ("raise", e.exc)

    def thunk(it):
        del made[:]
        o = make_seq(t, it, name)
        t.use(it, CONVERT, convert_contract(t, made))
        kw = {k: Num("f", w) for k, w in (("maximum_rabi_rate", Wr), ("maximum_detuning_rate", Wd)) if k in RATES[rates]}
        two_pi = Num("f", P(2) * T.PI)
        a = attempt(lambda: it.call(it.getattr(o, "export_to_file"), [], dict(filename=OStr("fn"), **opt_args(given), **kw)))
        writes = bool(it.c.writes)

        def reference():
            u = it.call(t.world.get(DDSM + CONVERT), [], dict(dynamic_decoupling_sequence=o, maximum_rabi_rate=kw.get("maximum_rabi_rate", two_pi),
                                                             maximum_detuning_rate=kw.get("maximum_detuning_rate", two_pi), minimum_segment_duration=Num("f", ZERO), name=name))
            return it.call(it.getattr(u, "export_to_file"), [], dict(filename=OStr("fn2"), **opt_args(given)))
        return a, attempt(reference), writes
    for p in t.paths("DynamicDecouplingSequence.export_to_file", thunk):
        if not t.returns("returns", p):
            continue
        a, b, writes = p.outcome[1]
        t.ob("no existing object is written", p, not writes)
        t.ob("one conversion, with the given rates, no minimum segment duration and the name", p, len(made) <= 1)
        t.ob("is accepted exactly when converting and exporting is", p, a[0] == b[0])
        F, G = p.ctx.fs.get(freeze(OStr("fn"))), p.ctx.fs.get(freeze(OStr("fn2")))
        if a[0] == "raise":
            t.ob("raises the arguments error", p, a[1].cls.issub(t.argerr))
            t.ob("no file is created or changed", p, F is None or F.state == [("existing",)])
            continue
        t.ob("writes the named file only", p, set(p.ctx.fs) <= {freeze(OStr("fn")), freeze(OStr("fn2"))} and F is not None)
        if F is not None and G is not None:
            t.ob("same content", p, file_content(F) == file_content(G))


TASKS = {}
for g in (True, False):
    for dl in (True, False):
        TASKS["export, coordinates %s, units %s" % ("given" if g else "default", "given" if dl else "default")] = lambda t, g=g, dl=dl: export(g, dl, t)
C04 = list(TASKS)
ALL = ("file_format", "file_type", "coordinates")
for g in (ALL, (), ("file_type",), ("coordinates",)):
    for nm in (OStr("name"), None):
        TASKS["export_to_file, given %s, %s" % ("+".join(g) or "nothing", "unnamed" if nm is None else "named")] = lambda t, g=g, nm=nm: to_file(g, nm, t)
C05 = [k for k in TASKS if k not in C04]
TASKS["sequence from arrays"] = lambda t: seq_init("array", OStr("name"), t)
TASKS["sequence unnamed"] = lambda t: seq_init("array", None, t)
TASKS["sequence from lists"] = lambda t: seq_init("list", OStr("name"), t)
TASKS["sequence from integer arrays"] = lambda t: seq_init("ints", OStr("name"), t)
TASKS["sequence export"] = seq_export
C10 = [k for k in TASKS if k not in C04 + C05]
for g in (ALL, (), ("file_type",), ("coordinates",), ("file_format",)):
    for r in RATES:
        for nm in (OStr("name"), None):
            TASKS["sequence to file, given %s, rates given: %s, %s" % ("+".join(g) or "nothing", r, "unnamed" if nm is None else "named")] = lambda t, g=g, r=r, nm=nm: seq_to_file(g, r, nm, t)
C21 = [k for k in TASKS if k.startswith("sequence to file")]
