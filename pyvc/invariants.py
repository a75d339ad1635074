"""Loops with a contract: the state at the start of every iteration is given by a form.

A form says, for iteration g, what the integer variables and the arrays changed by the loop contain and
what else holds.  Obligations: the state on entry has the form, one iteration takes the form at g to the
form at g + 1.  Execution continues after the loop from the form (or from where the loop breaks off)."""
import ast
from .terms import *
from . import terms as T
from .vals import *
from . import interp as I
from .interp import Brk, Cnt, Proved, POISON, arr_data, dimP, mk, poly_of, is_number, kind_of


class At:
    """A place for obligations: what holds there."""

    def __init__(self, label, facts=()):
        self.label, self.facts = label, list(facts)


class Form:
    """vars(g): {name: Poly}; arrays(g): {name: template over K[0]}; facts(g): what is known about g without
    proof here (instances of proved lemmas); step(g): more of them for the end of the iteration; inv(g): list of (name, condition), proved at entry and kept;
    inside(g): list of (name, condition), consequences proved in the iteration and then used;
    cells(g, i): instances of lemmas for the comparison of arrays at cell i;
    after(g), broken(g): consequences proved where the loop ends (breaks off) and used from then on;
    final(g): what the arrays contain where the loop breaks off; ending(g, i): lemmas for that at cell i."""

    base = None         # facts to start an iteration from (all of them hold on entry)
    given = []          # proved facts to go on with after the loop

    def __init__(self, name):
        self.name = name

    def vars(self, g):
        return {}

    def arrays(self, g):
        return {}

    def facts(self, g):
        return []

    def step(self, g):
        return []

    def inv(self, g):
        return []

    def inside(self, g):
        return []

    def cells(self, g, i):
        return []

    def after(self, g):
        return []

    def broken(self, g):
        return []

    def final(self, g):
        return {}

    def ending(self, g, i):
        return []


def loops_of(node):
    """The loops of a function in the order of the source."""
    return sorted((x for x in ast.walk(node) if isinstance(x, (ast.For, ast.While))), key=lambda x: (x.lineno, x.col_offset))


def follow(t, form, same):
    """The contract of a loop for the interpreter.  form(it, env) -> (Form, entry index, fresh index);
    same(a, b): condition that two elements are equal."""
    def run(it, st, env):
        c = it.c
        f, g0, g = form(it, env)
        idx = var("!c", "I")
        if not hasattr(st, "whole"):
            st.whole = ast.Module([st], [])
        assigned = I.assigned_names(st.whole)
        names, arrs = set(f.vars(g)), set(f.arrays(g))
        for n in names | arrs:
            if n not in env.vars:
                raise Unsupported("the loop does not have the variable %s" % n)
        objs = {}
        for n in arrs:
            o = env.vars[n]
            if not isinstance(o, ArrObj) or o.base is not None:
                raise Unsupported("%s is not an array of its own" % n)
            objs[n] = o
        if len({id(o) for o in objs.values()}) != len(objs) or arrs & assigned:
            raise Unsupported("the variables of the loop %s" % f.name)

        def check(where, h, extra):
            at = At("%s, %s" % (f.name, where), list(c.facts) + list(extra))
            for n, p in sorted(f.vars(h).items()):
                v = env.vars[n]
                if not is_number(v) or kind_of(v) != "i":
                    raise Unsupported("%s is not an integer" % n)
                prove(t, at, n, eq(poly_of(v), p))
            for n, cond in f.inv(h):
                prove(t, at, n, cond)
            cells(where, f.arrays(h), list(extra) + f.cells(h, idx))

        def cells(where, want, extra):
            for n, e in sorted(want.items()):
                d = objs[n].state
                if d.mode != "s" or len(d.shape) != 1:
                    raise Unsupported("%s in the loop" % n)
                at = At("%s, %s" % (f.name, where), c.facts + [le(0, idx), lt(idx, dimP(d.shape[0]))] + extra)
                prove(t, at, n, same(I.subst_elem(d.elems, {KID[0]: idx}), I.subst_elem(e, {KID[0]: idx})))

        def leave(where, consequences, lemmas):
            got = []
            for n, cond in consequences:
                if prove(t, At("%s, %s" % (f.name, where), c.facts), n, cond):
                    got.append(cond)
            if FALSE in got:
                raise Proved()
            forget(c, lemmas)
            if where == "break" and f.base is not None:
                c.facts[:] = f.base
            for x in got + f.given:
                c.add_fact(x)
        check("entry", g0, f.facts(g0))
        # the state of an arbitrary iteration; what the path knew before is in the form or not needed
        if f.base is not None:
            c.facts[:] = f.base
        for n, p in f.vars(g).items():
            c.setvar(env, n, mk("i", p))
        for n in assigned - names:
            c.setvar(env, n, POISON)
        for n, e in f.arrays(g).items():
            d = objs[n].state
            c.put(objs[n], ArrData(d.shape, d.dtype, "s", e))
        lemmas = f.facts(g)
        for x in lemmas:
            c.add_fact(x)
        for n, cond in f.inv(g):
            c.add_fact(cond)
        seq = None
        if isinstance(st, ast.For):
            seq = it.iterate(it.ev(st.iter, env))
            if seq[0] == "list":
                raise Unsupported("the loop %s runs over a list" % f.name)
            go = c.decide(lt(g, dimP(seq[1])))
        else:
            go = it.truth(it.ev(st.test, env))
        if not go:
            leave("end", f.after(g), lemmas)
            it.block(st.orelse, env)
            return
        for n, cond in f.inside(g):
            if not prove(t, At("%s, iteration" % f.name, c.facts), n, cond):
                raise Unsupported("%s: %s" % (f.name, n))
            c.add_fact(cond)
        j0, mark = len(c.journal), c.oid
        try:
            if seq is not None:
                it.assign(st.target, seq[2](g), env)
            it.block(st.body, env)
        except Brk:
            cells("break", f.final(g), f.ending(g, idx))
            for n, e in f.final(g).items():
                c.put(objs[n], ArrData(objs[n].state.shape, objs[n].state.dtype, "s", e))
            leave("break", f.broken(g), lemmas)
            return
        except Cnt:
            pass
        finally:
            for r in c.journal[j0:]:
                if r[0] == "h" and r[1].oid < mark and not any(r[1] is o for o in objs.values()):
                    raise Unsupported("the loop %s changes another object" % f.name)
                if r[0] == "e" and r[1] is env and r[2] not in assigned:
                    raise Unsupported("the loop %s assigns %s" % (f.name, r[2]))
        check("iteration", g + 1, f.step(g))
        raise Proved()
    return run


def frame(it, st, env):
    """Contract of a loop about its effects only: whatever the iterations before did to the variables and
    arrays the loop assigns, one more iteration changes nothing else."""
    c = it.c
    if not hasattr(st, "whole"):
        st.whole = ast.Module([st], [])
    assigned = I.assigned_names(st.whole)
    written = set()
    for x in ast.walk(st):
        for y in x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []:
            if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name):
                written.add(y.value.id)
    objs = [env.vars.get(n) for n in sorted(written)]
    for o in objs:
        if not isinstance(o, ArrObj) or o.base is not None or o.state.mode != "s" or len(o.state.shape) != 1 or o.state.dtype != "f":
            raise Unsupported("an array assigned in a loop")
    if written & assigned:
        raise Unsupported("an array is assigned in a loop and changed by it")

    def fresh(sort, *args):
        c.ghost["unknown"] = c.ghost.get("unknown", 0) + 1
        return app("unknown", P(c.ghost["unknown"]), *args, sort=sort)
    for n in sorted(assigned):
        v = env.vars.get(n)
        c.setvar(env, n, mk("i", fresh("I")) if is_number(v) and kind_of(v) == "i" else POISON)
    for o in objs:
        c.put(o, ArrData(o.state.shape, "f", "s", fresh("R", K[0])))
    if isinstance(st, ast.For):
        v = it.ev(st.iter, env)
        seq = it.iterate(v)
        if seq[0] == "list":
            raise Unsupported("loop over a list")
        g = fresh("I")
        c.add_fact(le(0, g))
        go = c.decide(lt(g, dimP(seq[1])))
    else:
        seq = None
        go = it.truth(it.ev(st.test, env))
    if not go:
        it.block(st.orelse, env)
        return
    j0, mark = len(c.journal), c.oid
    try:
        if seq is not None:
            it.assign(st.target, seq[2](g), env)
        it.block(st.body, env)
    except Brk:
        return
    except Cnt:
        pass
    finally:
        for r in c.journal[j0:]:
            if r[0] == "h" and r[1].oid < mark and not any(r[1] is o for o in objs):
                raise Unsupported("a loop changes another object")
            if r[0] == "e" and r[1] is env and r[2] not in assigned:
                raise Unsupported("a loop assigns %s" % r[2])
    raise Proved()


def forget(c, lemmas):
    """Lemma instances used up by a loop only slow down what follows."""
    drop = {y for x in lemmas for y in (x.args if x.op == "and" else (x,))}
    c.facts[:] = [x for x in c.facts if x not in drop]


def prove(t, at, name, goal, extra=()):
    """An obligation stated once, however many paths pass it."""
    key = (at.label, name, goal, frozenset(at.facts), tuple(extra))
    done = t.__dict__.setdefault("_proved", {})
    if key not in done:
        done[key] = t.ob(name, at, goal, extra)
    return done[key]
