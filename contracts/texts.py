"""Contracts of the text representations: C20.

The text is a sequence of literals and conversions of values.  str() of a number is taken to be read
back as that number, repr() of a value as that value.
"""
from pyvc.spec import *
from . import controls as CT, exports as EX

n, Tv = CT.n, EX.Tv
WHAT = {
    "control": (CT.make, CT.control_case, [("Rabi Rates", "r"), ("Azimuthal Angles", "a"), ("Detunings", "e"), ("Durations", "d")],
                dict(rabi_rates="r", azimuthal_angles="a", detunings="e", durations="d"), "DrivenControl"),
    "sequence": (EX.make_seq, EX.seq_case, [("Offsets", "o"), ("Rabi Rotations", "r"), ("Azimuthal Angles", "a"), ("Detuning Rotations", "e")],
                 dict(offsets="o", rabi_rotations="r", azimuthal_angles="a", detuning_rotations="e"), "DynamicDecouplingSequence"),
}


class Shape(Exception):
    """The text does not have the required form."""


def lines(parts):
    out = [[]]
    for x in parts:
        if not isinstance(x, str):
            out[-1].append(x)
            continue
        for i, s in enumerate(x.split("\n")):
            if i:
                out.append([])
            if s:
                out[-1].append(s)
    return out


def number(parts):
    """The number that some pieces of text read as."""
    if len(parts) == 1:
        x = parts[0]
        if isinstance(x, str):
            try:
                return P(Fraction(x.strip()))
            except ValueError:
                raise Shape("%r is not a number" % x)
        if x[0] == "str" and isinstance(x[1], tuple) and x[1][0] == "num":
            return x[1][2]
        if x[0] == "ite":
            return ite(x[1], number(x[2]), number(x[3]))
    if len(parts) > 1 and isinstance(parts[0], str) and not parts[0].strip():
        return number(parts[1:])
    raise Shape("%r is not a number" % (parts,))


def quantity(line, label):
    """-> number of values, value at K[0], scale"""
    if len(line) < 3 or not isinstance(line[0], str) or line[0] != label + " = [":
        raise Shape("line %r" % (line,))
    j = line[1]
    if isinstance(j, str) or j[0] != "join" or j[1].strip() != ",":
        raise Shape("values of %s" % label)
    if not isinstance(line[2], str) or not line[2].startswith("] x "):
        raise Shape("scale of %s" % label)
    rest = [line[2][len("] x "):]] if line[2] != "] x " else []
    rest += line[3:]
    sc = T.PI if rest == ["pi"] else number(rest)
    return j[2], number(j[3]), sc


def printed(what, named, t):
    make, mkcase, quantities, attrs, cls = WHAT[what]
    t.soft = True
    t.size("n", 3)
    name = OStr("name") if named else None
    t.case = mkcase(name, what=what)

    def thunk(it):
        o = make(t, it, name)
        it.c.add_fact(le(1, n))
        it.c.mark = it.c.oid
        return it.to_str(o)
    for p in t.paths(cls + ".__str__", thunk):
        if not t.returns("returns", p):
            continue
        CT.pure(t, p)
        v = p.outcome[1]
        if not isinstance(v, (str, SStr, OStr)):
            t.ob("is text", p, False)
            continue
        L = lines(I.str_parts(v))
        if named:
            t.ob("first line is the name and a colon", p, L[0] == [("str", ("ostr", "name")), ":"])
            L = L[1:]
        if what == "sequence":
            ok = bool(L) and len(L[0]) == 2 and L[0][0] == "Duration = "
            t.ob("duration line", p, ok)
            if ok:
                try:
                    t.ob("duration", p, eq(number(L[0][1:]), Tv))
                except Shape as e:
                    t.ob("duration line", p, False)
            L = L[1:]
        t.ob("one line per quantity", p, len(L) == len(quantities))
        for line, (label, f) in zip(L, quantities):
            try:
                m, val, sc = quantity(line, label)
            except Shape as e:
                t.ob("%s: form of the line" % label, p, False)
                continue
            t.ob("%s: number of values" % label, p, eq(m, n))
            t.ob("%s: values times scale" % label, p, forall(0, n, lambda i: eq(subst(val, {I.KID[0]: i}) * sc, app(f, i))))


def representation(what, named, t):
    make, mkcase, quantities, attrs, cls = WHAT[what]
    t.soft = True
    t.size("n", 3)
    name = OStr("name") if named else None
    t.case = mkcase(name, what=what)

    def thunk(it):
        o = make(t, it, name)
        it.c.add_fact(le(1, n))
        it.c.mark = it.c.oid
        return it.to_repr(o)
    want = {a: (("repr", ("sarr", "f", (n,), app(f, K[0]))),) for a, f in attrs.items()}
    want["name"] = (("repr", ("ostr", "name")),) if named else ("None",)
    if what == "sequence":
        want["duration"] = (("str", ("num", "f", Tv)),)
    for p in t.paths(cls + ".__repr__", thunk):
        if not t.returns("returns", p):
            continue
        CT.pure(t, p)
        v = p.outcome[1]
        parts = list(I.str_parts(v)) if isinstance(v, (str, SStr, OStr)) else []
        ok = len(parts) > 1 and isinstance(parts[0], str) and isinstance(parts[-1], str) and parts[0].startswith(cls + "(") and parts[-1].endswith(")")
        t.ob("class name and parentheses", p, ok)
        if not ok:
            continue
        parts[0] = parts[0][len(cls) + 1:]
        parts[-1] = parts[-1][:-1]
        got = arguments(parts)
        for a, w in want.items():
            t.ob("argument " + a, p, got is not None and got.get(a) == w)
        t.ob("every argument once", p, got is not None and set(got) == set(want))


def arguments(parts):
    """name=value pieces separated by commas; None when a name repeats or has no value."""
    items = [[]]
    for x in parts:
        if not isinstance(x, str):
            items[-1].append(x)
            continue
        for i, s in enumerate(x.split(",")):
            if i:
                items.append([])
            if s.strip():
                items[-1].append(s.strip())
    out = {}
    for it in items:
        if not it or not isinstance(it[0], str) or "=" not in it[0]:
            return None
        k, e, rest = it[0].partition("=")
        if k in out:
            return None
        out[k] = ((rest,) if rest else ()) + tuple(it[1:])
    return out


TASKS = {}
for w in WHAT:
    for nm in (True, False):
        TASKS["text of a %s %s" % (w, "with a name" if nm else "without a name")] = lambda t, w=w, nm=nm: printed(w, nm, t)
        TASKS["representation of a %s %s" % (w, "with a name" if nm else "without a name")] = lambda t, w=w, nm=nm: representation(w, nm, t)
C20 = list(TASKS)
