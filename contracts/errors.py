"""Contracts of the arguments error and the argument check: C19."""
from pyvc.spec import *

ERR = "qctrlopencontrols.exceptions:ArgumentsValueError"
CHK = "qctrlopencontrols.utils:check_arguments"
EXTRAS = ("omitted", "None", "a dictionary")
CONDS = {
    "a bool": (lambda: SBool(bvar("cond")), bvar("cond")),
    "a numpy bool": (lambda: SBool(bvar("cond"), True), bvar("cond")),
    "a number": (lambda: Num("i", var("cond", "I")), ne(var("cond", "I"), 0)),
    "a string": (lambda: OStr("cond"), bvar("nonempty:cond")),
    "None": (lambda: None, FALSE),
}
na, ne_ = var("na", "I"), var("ne", "I")


def line(name):
    return ("\n", ("str", ("okey", name, K[0])), "=", ("repr", ("oval", name, K[0])))


def message(extras):
    parts = [("str", ("ostr", "description")), ("join", "", na, line("a"))]
    if extras == "a dictionary":
        parts.append(("join", "", ne_, line("e")))
    return tuple(parts)


def setup(t, c, extras):
    """An unknown description and dictionaries of unknown sizes, keys and values."""
    t.size("na", 3)
    t.size("ne", 3)
    c.add_fact(le(0, na))
    c.add_fact(le(0, ne_))
    args, kw = c.alloc(SymDict("a", na)), {}
    if extras == "None":
        kw["extras"] = None
    elif extras == "a dictionary":
        kw["extras"] = c.alloc(SymDict("e", ne_))
    return [OStr("description"), args], kw


def text(t, name, p, v, want):
    """The text v consists of the wanted pieces; an iteration without rounds leaves nothing."""
    t.ob(name, p, isinstance(v, (str, SStr, OStr)) and flat(p, I.str_parts(v)) == flat(p, want))


def flat(p, parts):
    out = []
    for x in parts:
        if not isinstance(x, str) and x[0] == "join" and p.ctx.quick(eq(x[2], 0)):
            continue
        out.append(x)
    return SStr(out).parts


def judge(t, p, e, extras):
    it = I.Interp(p.ctx, None)
    base = p.ctx.world.get("qctrlopencontrols.exceptions:QctrlError")
    t.ob("is an error of the package", p, isinstance(e, PyObj) and e.cls.issub(base))
    if not isinstance(e, PyObj):
        return
    t.ob("is the arguments error", p, e.cls.issub(p.ctx.world.get(ERR)))
    want = {"description": ("ostr", "description"), "arguments": ("sdict", "a", na), "extras": ("sdict", "e", ne_) if extras == "a dictionary" else None}
    for k, w in want.items():
        got = freeze(e.state[k]) if k in e.state else UNDEF
        ok = got == w
        if k == "extras" and w is None and isinstance(e.state.get(k, UNDEF), (PyDict, PyList)) and not e.state[k].state:
            ok = True
        t.ob("keeps the " + k, p, ok)
    text(t, "message", p, e.state.get("message", UNDEF), message(extras))
    text(t, "printed text", p, it.to_str(e), message(extras))


def error(extras, t):
    t.soft = True
    t.case = lambda ev: case(ev, "error", extras)

    def thunk(it):
        a, kw = setup(t, it.c, extras)
        cls = t.world.get(ERR)
        it.c.mark = it.c.oid
        return it.call(cls, a, kw)
    for p in t.paths("ArgumentsValueError", thunk):
        if not t.returns("constructs", p):
            continue
        t.ob("the given dictionaries stay as they were", p, not p.ctx.writes)
        judge(t, p, p.outcome[1], extras)


def check(extras, kind, t):
    t.soft = True
    mkc, cond = CONDS[kind]
    t.case = lambda ev: case(ev, "check", extras, kind)

    def thunk(it):
        a, kw = setup(t, it.c, extras)
        f = t.world.get(CHK)
        it.c.mark = it.c.oid
        return it.call(f, [mkc()] + a, kw)
    for p in t.paths("check_arguments", thunk):
        t.ob("the given dictionaries stay as they were", p, not p.ctx.writes)
        if p.outcome[0] == "raise":
            t.ob("raises only when the condition is false", p, bnot(cond))
            judge(t, p, p.outcome[1], extras)
            continue
        t.ob("passes only when the condition is true", p, cond)
        t.ob("returns nothing", p, p.outcome[1] is None)


def case(ev, how, extras, kind=None):
    mk_ = lambda name, n: [["%s%d" % (name, i), 1.5 + i] for i in range(ev.int(n))]
    d = dict(desc="Bad value.", args=mk_("a", na), extras=mk_("e", ne_) if extras == "a dictionary" else None, how=how)
    if how == "check":
        d["cond"] = {"a bool": lambda: ev.bool("cond"), "a numpy bool": lambda: "np.True" if ev.bool("cond") else "np.False", "a number": lambda: ev.int(var("cond", "I")),
                     "a string": lambda: "yes" if ev.bool("nonempty:cond") else "", "None": lambda: None}[kind]()
    return d


TASKS = {}
for x in EXTRAS:
    TASKS["error, extras %s" % x] = lambda t, x=x: error(x, t)
    for k in CONDS:
        TASKS["check, condition %s, extras %s" % (k, x)] = lambda t, x=x, k=k: check(x, k, t)
C19 = list(TASKS)
