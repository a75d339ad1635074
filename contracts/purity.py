"""Contracts on effects: C18.

Frame condition of every public operation: nothing that existed before the call is written, and no
object that existed before is reachable from a derived result.  What a later call computes from the
same unchanged objects is then the same value, whatever the caller did to earlier results.
"""
from pyvc.spec import *
from pyvc.invariants import frame, loops_of
from . import concatenated as CC, controls as CT, conversion as CV, exports as EX, predef as PC, seqs as SQ

n, Tv = CT.n, EX.Tv
CPROP = ("number_of_segments", "maximum_rabi_rate", "maximum_detuning", "amplitude_x", "amplitude_y", "angles", "directions", "times", "maximum_duration", "minimum_duration", "duration")


def reach(v, out=None):
    """Every mutable object reachable from a value."""
    out = {} if out is None else out
    if isinstance(v, (tuple, list)):
        for x in v:
            reach(x, out)
    elif isinstance(v, I.GenV):
        reach(v.lst, out)
    elif isinstance(v, Heap) and id(v) not in out:
        out[id(v)] = v
        if isinstance(v, ArrObj):
            if v.base is not None:
                reach(v.base, out)
        elif isinstance(v, PyDict) or isinstance(v, PyObj):
            for x in v.state.values():
                reach(x, out)
        elif isinstance(v, PyList):
            if isinstance(v.state, list):
                reach(v.state, out)
            elif v.state[0] == "sym":
                reach(v.state[2], out)
            else:
                for g, x in v.state[1]:
                    reach(x, out)
    return out


def attempt(th):
    try:
        return ("val", th())
    except I.PyRaise as e:
        return ("raise", e.exc)


def shown(r):
    return ("raise", r[1].cls.name) if r[0] == "raise" else ("val", freeze(r[1]))


def globals_written(c, j0):
    return any(r[0] == "e" and r[1].parent is None for r in c.journal[j0:])


def effects(t, label, make, ops, allowed=False):
    """make(it) -> object (and what it was made from); every op is run twice in a row."""
    for name, op in ops:
        def thunk(it):
            o, inputs = make(it)
            c = it.c
            c.mark = c.oid
            j0 = len(c.journal)
            res = []
            for k in range(2):
                r = attempt(lambda: op(it, o))
                files = {k: EX.file_content(f) for k, f in c.fs.items()}
                res.append((r, shown(r), files))
            return res, c.mark, list(c.writes), globals_written(c, j0), inputs
        for p in t.paths("%s %s" % (label, name), thunk):
            if not t.returns("returns", p):
                continue
            res, mark, writes, glob, inputs = p.outcome[1]
            t.ob("no existing object is written", p, not writes)
            t.ob("no module state is written", p, not glob)
            t.ob("repeating gives the same result", p, res[0][1] == res[1][1])
            t.ob("repeating writes the same file", p, res[0][2] == res[1][2])
            if res[0][0][0] == "val":
                old = [x for x in reach(res[0][0][1]).values() if x.oid < mark and not (allowed and any(x is y for y in inputs))]
                t.ob("the result shares nothing with existing objects", p, not old)


def get(a):
    return lambda it, o: it.getattr(o, a)


def method(a, *args, **kw):
    return lambda it, o: it.call(it.getattr(o, a), list(args), {k: (v() if callable(v) else v) for k, v in kw.items()})


CO, FT, FF, DL = (lambda: OStr("co")), (lambda: OStr("ft")), (lambda: OStr("ff")), (lambda: SBool(bvar("dl")))
FN = lambda: OStr("fn")


def control(name, t):
    t.soft = True
    t.size("n", 3)
    t.case = lambda ev: dict(CT.control_case(name)(ev), what="control", kinds=["farr"] * 4, seed=1)
    ops = [(a, get(a)) for a in CPROP]
    ops += [("export", method("export", coordinates=CO, dimensionless_rabi_rate=DL)), ("export with defaults", method("export"))]
    ops += [("export_to_file", method("export_to_file", filename=FN, file_format=FF, file_type=FT, coordinates=CO)), ("export_to_file with defaults", method("export_to_file", filename=FN))]
    ops += [("str", lambda it, o: it.to_str(o)), ("repr", lambda it, o: it.to_repr(o))]
    effects(t, "DrivenControl", lambda it: (CT.make(t, it, name), ()), ops)


def sequence(name, t):
    t.soft = True
    t.size("n", 3)
    t.case = lambda ev: dict(EX.seq_case(name)(ev), what="sequence", kinds=["farr"] * 4, seed=1, Wr=20.0, Wd=20.0)
    made = []

    def make(it):
        del made[:]
        o = EX.make_seq(t, it, name)
        t.use(it, EX.CONVERT, EX.convert_contract(t, made))
        return o, ()
    ops = [("export", method("export")), ("str", lambda it, o: it.to_str(o)), ("repr", lambda it, o: it.to_repr(o))]
    rates = dict(maximum_rabi_rate=lambda: Num("f", var("Wr")), maximum_detuning_rate=lambda: Num("f", var("Wd")))
    ops += [("export_to_file", method("export_to_file", filename=FN, file_format=FF, file_type=FT, coordinates=CO, **rates)), ("export_to_file with defaults", method("export_to_file", filename=FN))]
    effects(t, "DynamicDecouplingSequence", make, ops)


def constructor(cls, kinds, omit, t):
    """The new object may hold the arrays it was given, and nothing else that existed before."""
    t.soft = True
    t.size("n", 2)
    fields = dict(durations="d", rabi_rates="r", azimuthal_angles="a", detunings="e") if cls == DC else dict(offsets="o", rabi_rotations="r", azimuthal_angles="a", detuning_rotations="e")
    case = CT.control_case() if cls == DC else EX.seq_case()

    def as_case(ev):
        d = case(ev)
        if cls == DC:
            d.update(what="control", omit=[dict(rabi_rates="rabi", azimuthal_angles="az", detunings="det")[x] for x in omit])
        else:
            d.update(what="sequence", Wr=20.0, Wd=20.0)
        d.update(kinds=["list" if kinds == "list" else "farr"] * 4, seed=1)
        return d
    t.case = as_case

    def make(it):
        c = it.c
        c.add_fact(le(0, n))
        kw = {}
        for f, s in fields.items():
            if f in omit:
                continue
            t.inputs.add(s)
            kw[f] = c.alloc(PyList(("sym", n, Num("f", app(s, K[0]))))) if kinds == "list" else t.arr(c, s, n)
        ins = list(kw.values())
        kw["name"] = OStr("name")
        if cls == DDS:
            kw["duration"] = Num("f", Tv)
        return kw, ins
    effects(t, cls.split(":")[1], make, [("constructor", lambda it, kw: it.call(t.world.get(cls), [], dict(kw)))], allowed=True)


def built(label, ops, case, t, contract=False):
    """Predefined objects are made of new arrays only."""
    t.soft = True
    t.size("n", 3)
    t.size("m", 3)
    t.case = case

    def make(it):
        if contract:
            # fresh arrays that depend on the arguments only (task "wrapping")
            t.use(it, SQ.WRAP, SQ.wrap_contract([]))
        return None, ()
    effects(t, label, make, ops)


def wrapping(t):
    t.soft = True
    t.size("n", 2)

    def make(it):
        it.c.add_fact(le(0, n))
        return [Num("f", Tv)] + [t.arr(it.c, f, n) for f in "orae"], ()
    effects(t, SQ.WRAP, make, [("", lambda it, a: it.call(t.world.get(SQ.MOD + SQ.WRAP), a, {}))])


def family(fn, counts, t):
    vs = [var(x, "I") for x in ("n", "m")]
    kw = {c: Num("i", v) for c, v in zip(counts, vs)}
    ops = [("with rotations %s" % pp, lambda it, o, pp=pp: SQ.call(t, it, fn, dict(kw, duration=Num("f", Tv)), pp, OStr("name"))) for pp in (None, True, False)]
    built(fn, ops, lambda ev: dict(what="predefined-sequence", fam=fn[4:-9], T=ev(Tv), args=[ev.int(v) for v in vs[:len(counts)]], pp=True, name="p", seed=5), t, contract=len(counts) > 1)


def walsh(w, t):
    order, dom, bits = SQ.digits(w)

    def op(it, o):
        for f in dom:
            it.c.add_fact(f)
        return SQ.call(t, it, "new_walsh_sequence", dict(duration=Num("f", Tv), paley_order=Num("i", order) if w > 1 else 1), None, OStr("name"))
    built("new_walsh_sequence, %d digits" % w, [("", op)], lambda ev: dict(what="predefined-sequence", fam="walsh", T=ev(Tv), args=[ev.int(order)], pp=True, name="p", seed=5), t)


def pulse(fam, t):
    angles = [(a, Num("f", T.PI * x[0])) for a, x in PC.ANG.items()] if fam in ("scrofulous", "corpse_in_scrofulous", "wamf1") else [("any", Num("f", PC.tv))]
    ops = [("angle %s, azimuth %s" % (a, "given" if g else "default"), lambda it, o, r=r, g=g: PC.call(t, it, fam, r, Num("f", PC.fv) if g else None)) for a, r in angles for g in (True, False)]
    built("new_%s_control" % fam, ops, lambda ev: dict(what="predefined-control", fam=fam, t=ev(PC.tv), W=ev(PC.Wv), f=ev(PC.fv), name="p", seed=6), t)


def concatenated(fn, l, t):
    t.bounds.append("%s: order %d" % (fn, l))
    ops = [("with rotations %s" % pp, lambda it, o, pp=pp: SQ.call(t, it, fn, dict(duration=Num("f", Tv), concatenation_order=l), pp, OStr("name"))) for pp in (None, True)]
    built("%s, order %d" % (fn, l), ops, lambda ev: dict(what="predefined-sequence", fam=fn[4:-9], T=ev(Tv), args=[l], pp=True, name="p", seed=5), t)


def once(t, label, run):
    """Run once: nothing that existed is written or shared; what is read are the arguments."""
    def thunk(it):
        c = it.c
        go = run(it)
        c.mark = c.oid
        j0 = len(c.journal)
        r = attempt(go)
        return r, c.mark, list(c.writes), globals_written(c, j0), dict(c.fs)
    for p in t.paths(label, thunk):
        if not t.returns("returns", p):
            continue
        r, mark, writes, glob, fs = p.outcome[1]
        t.ob("no existing object is written", p, not writes)
        t.ob("no module state is written", p, not glob)
        t.ob("no file is written", p, not fs)
        if r[0] == "val":
            t.ob("the result shares nothing with existing objects", p, not [x for x in reach(r[1]).values() if x.oid < mark])


def concatenated_any(fn, rec, word, t):
    """Every order; loops by what they may change."""
    t.soft = True
    f = t.world.get(SQ.MOD + fn)
    for st in loops_of(f.node):
        t.world.loop_contracts[id(st)] = frame
    o = CC.L
    t.case = lambda ev: dict(what="predefined-sequence", fam=fn[4:-9], T=ev(Tv), args=[ev.int(o)], pp=True, name="p", seed=5) if 1 <= ev.int(o) <= 5 else None
    N.MANUAL.append(1)      # what is selected does not matter here
    try:
        concatenated_runs(fn, rec, word, o, t)
    finally:
        N.MANUAL.pop()


def concatenated_runs(fn, rec, word, o, t):
    for pp in (None, True):
        def run(it):
            it.c.add_fact(le(1, o))
            t.use(it, rec, CC.by_contract(word))
            # fresh arrays that depend on the arguments only (task "wrapping")
            t.use(it, SQ.WRAP, SQ.wrap_contract([]))
            return lambda: SQ.call(t, it, fn, dict(duration=Num("f", Tv), concatenation_order=Num("i", o)), pp, OStr("name"))
        once(t, "%s, rotations %s" % (fn, pp), run)


def recursion(rec, word, t):
    t.soft = True

    def run(it):
        it.c.add_fact(le(0, CC.m))
        t.use(it, rec, CC.recursion(t, rec, word, []))
        return lambda: it.call(t.world.get(SQ.MOD + rec), [Num("i", CC.m + 1)], {})
    once(t, rec, run)


def gaussian(t):
    kw = dict(maximum_rabi_rate=PC.Wv, minimum_segment_duration=PC.mv, duration=PC.Dv, modulation_frequency=PC.vv)
    ops = [("", lambda it, o: it.call(t.world.get(PC.MOD + PC.GAUSS), [], {k: Num("f", v) for k, v in kw.items()}))]
    built(PC.GAUSS, ops, lambda ev: dict(what="gaussian", W=ev(PC.Wv), m=ev(PC.mv), D=ev(PC.Dv), v=ev(PC.vv), seed=7), t)


def conversion(shape, t):
    """Run once: no module state is written and nothing but the sequence is read."""
    t.soft = True
    t.size("n", 3)
    t.case = lambda ev: dict(CV.conv_case(ev), what="sequence", kinds=["farr"] * 4, seed=1)
    log, ref = [], CV.SHAPES[shape]

    def run(it):
        del log[:]
        c = it.c
        o = EX.make_seq(t, it, OStr("name"))
        CV.shape_facts(c, ref)
        t.use(it, "DrivenControl.__init__", CV.made(c, log))
        for x in (lt(0, CV.Wr), lt(0, CV.Wd), le(0, CV.m)):
            c.add_fact(x)
        return lambda: it.call(t.world.get(EX.DDSM + EX.CONVERT), [o, Num("f", CV.Wr), Num("f", CV.Wd), Num("f", CV.m), OStr("cn")], {})
    once(t, "%s, %s" % (EX.CONVERT, shape), run)


TASKS = {}
for sh_ in reversed(CV.SHAPES):
    TASKS["conversion, " + sh_] = lambda t, sh=sh_: conversion(sh, t)
for w_ in range(11, 0, -1):
    TASKS["new_walsh_sequence, %d digits" % w_] = lambda t, w=w_: walsh(w, t)
for nm in (OStr("name"), None):
    TASKS["operations of a control, %s" % ("unnamed" if nm is None else "named")] = lambda t, nm=nm: control(nm, t)
    TASKS["operations of a sequence, %s" % ("unnamed" if nm is None else "named")] = lambda t, nm=nm: sequence(nm, t)
for k_ in ("array", "list"):
    for om in CT.SUBSETS:
        TASKS["control from %s without %s" % (k_, "+".join(om) or "nothing")] = lambda t, k=k_, om=om: constructor(DC, k, om, t)
    TASKS["sequence from %s" % k_] = lambda t, k=k_: constructor(DDS, k, (), t)
for fn_, (cs, tm, kd) in SQ.FAM.items():
    TASKS[fn_] = lambda t, fn=fn_, cs=cs: family(fn, cs, t)
TASKS["new_quadratic_sequence"] = lambda t: family("new_quadratic_sequence", ("inner_offset_count", "outer_offset_count"), t)
TASKS["wrapping"] = wrapping
for fn_, rec_, wd_ in (("new_x_concatenated_sequence", "_concatenation_x", CC.x_word), ("new_xy_concatenated_sequence", "_concatenation_xy", CC.xy_word)):
    TASKS[fn_ + ", every order"] = lambda t, a=fn_, b=rec_, w=wd_: concatenated_any(a, b, w, t)
    TASKS[rec_ + ", every order"] = lambda t, b=rec_, w=wd_: recursion(b, w, t)
for fn_, ls in SQ.CONC:
    for l_ in [x for x in ls if x <= 3]:
        TASKS["%s, order %d" % (fn_, l_)] = lambda t, fn=fn_, l=l_: concatenated(fn, l, t)
TASKS["modulated Gaussian"] = gaussian
for f_ in ("primitive", "bb1", "sk1", "corpse", "corpse_in_bb1", "corpse_in_sk1", "scrofulous", "corpse_in_scrofulous", "wamf1"):
    TASKS["new_%s_control" % f_] = lambda t, f=f_: pulse(f, t)
C18 = list(TASKS)
