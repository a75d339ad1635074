"""Loops over sequences of symbolic length.

The state at the start of a generic iteration l is described by inferred invariants:
  * numbers that grow by an amount independent of the accumulated value (counters, sums),
  * flags combined with `and` / `or`, strings and lists that are appended to,
  * arrays whose cells written in earlier iterations are unknown and whose other cells are unchanged.
The body is executed once from that state; the invariants are checked to be preserved (induction step),
and the state after the loop is read off them.  Anything else is reported as unsupported."""
from .terms import *
from . import terms as T
from .vals import *
from . import npmodel as N
from .interp import (Brk, Cnt, Ret, MergeFail, NativeObj, SENT, POISON, LoopLocal, Dead, mk, mkb, is_number, kind_of, poly_of, bool_of, is_np, dimP, freeze, str_parts, mk_str,
                     arr_data, assigned_names, subst_elem, subst_parts)


def fvs(p):
    return fv_b(p) if isinstance(p, B) else fv_poly(p)


class Spec:
    """Cells written in iteration l: cond(K, l)."""

    def __init__(self, spec, lid, l):
        self.spec = spec
        self.dim = None
        for d, s in enumerate(spec):
            q = s[1]
            if s[0] == "sl" and (s[3] != 1 or lid in fvs(dimP(s[2]))):
                if lid in fvs(q) or lid in fvs(dimP(s[2])) or s[3] < 1:
                    raise Unsupported("loop writes a strided region")
            if lid in fvs(q) and self.dim is None:
                b = subst(q, {lid: ZERO})
                a = q - b
                if len(a.d) != 1 or list(a.d) != [((lid, 1),)] or list(a.d.values())[0].denominator != 1:
                    raise Unsupported("loop writes at a non-linear index")
                a = int(list(a.d.values())[0])
                w = 1 if s[0] == "pt" else s[2]
                if not isinstance(w, int) or w > abs(a) or (a < 0 and w != 1):
                    raise Unsupported("loop writes overlapping regions")
                self.dim, self.a, self.b, self.w = d, a, b, w
        if self.dim is None:
            raise Unsupported("loop rewrites the same cells in every iteration")

    def lstar(self):
        k = K[self.dim]
        return mk_div(k - self.b, self.a) if self.a > 0 else mk_div(self.b - k, -self.a)

    def written(self, upto, lid):
        k = K[self.dim]
        ls = self.lstar()
        d = k - self.b if self.a > 0 else self.b - k
        cond = [le(0, ls), lt(ls, upto)]
        m = abs(self.a)
        if m > 1:
            r = mk_mod(d, m)
            cond.append(eq(r, 0) if self.w == 1 else lt(r, self.w))
        for i, s in enumerate(self.spec):
            if i == self.dim:
                continue
            if s[0] == "pt":
                cond.append(eq(K[i], subst(s[1], {lid: ls})))
            else:
                st = subst(s[1], {lid: ls})
                cond.append(le(st, K[i]))
                cond.append(lt(K[i], st + dimP(s[2]) * s[3]))
                if s[3] > 1:
                    cond.append(eq(mk_mod(K[i] - st, s[3]), 0))
        return band(*cond)

    def value(self, elem, l, lid):
        """elem: template of the array after iteration l -> value of the written cell, as a template"""
        k = K[self.dim]
        if self.w == 1:
            cell = l * self.a + self.b
        else:
            cell = l * self.a + self.b + mk_mod(k - self.b, self.a)
        mp = {KID[self.dim]: cell}
        for i, s in enumerate(self.spec):
            if i != self.dim and s[0] == "pt":
                mp[KID[i]] = s[1]
        v = subst_elem(elem, mp)
        return subst_elem(v, {lid: self.lstar()})


def disjoint(specs):
    """Cells written in different iterations are different."""
    for i, s in enumerate(specs):
        for t in specs[:i]:
            if any(x[0] == "pt" and y[0] == "pt" and x[1].is_const() and y[1].is_const() and x[1] != y[1] for x, y in zip(s.spec, t.spec)):
                continue
            if s.dim != t.dim or s.a != t.a:
                raise Unsupported("loop writes with different strides")
            df = s.b - t.b
            if not df.is_const():
                raise Unsupported("loop writes at unrelated offsets")
            df = df.const()
            lo, hi = (t, s) if df >= 0 else (s, t)
            if s.a < 0:
                if df != 0:
                    raise Unsupported("descending loop writes")
            elif abs(df) + hi.w > s.a:
                raise Unsupported("iterations write overlapping cells")


def sym_loop(it, st, env, n, fn, srcs=()):
    c = it.c
    c.loopsym += 1
    tagn = c.loopsym
    l = var("$l%d" % tagn, "I")
    lid = var_id(l)
    start_oid = c.oid
    names = sorted(set(assigned_names(st)) | target_names(st.target))
    pre = {x: env.vars.get(x, UNDEF) for x in names}
    forms, rec, local = {}, {}, set()
    accs = {}
    for x in names:
        v = pre[x]
        if v is UNDEF or x in target_names(st.target):
            local.add(x)
        elif isinstance(v, (bool, SBool)):
            accs[x] = bvar("$acc%d_%s" % (tagn, x))
        elif is_number(v):
            accs[x] = var("$acc%d_%s" % (tagn, x), "I" if kind_of(v) == "i" else "R")
        elif isinstance(v, (str, SStr, OStr)):
            accs[x] = ("acc", tagn, x)
        else:
            local.add(x)
    objs = {}   # oid -> [object, pre state, specs | None]
    fields = {}   # (oid, attribute) -> object: attributes of older objects, treated as loop variables

    def setvar(x, v):
        if x in fields:
            ob = fields[x]
            c.put(ob, {**ob.state, x[1]: v})
        else:
            c.setvar(env, x, v)

    def getvar(x):
        return fields[x].state[x[1]] if x in fields else env.vars.get(x, UNDEF)

    def body():
        it.assign(st.target, fn(l), env)
        try:
            it.block(st.body, env)
        except Cnt:
            pass

    def hyp_state(ob, old, specs, at):
        if specs is None:
            return [SENT]
        d = old
        if d.mode != "s":
            raise Unsupported("loop of symbolic length writes into an array of fixed size")
        w = bor(*[s.written(at, lid) for s in specs])
        nm = "poison%d_%d" % (tagn, ob.oid)
        ks = list(K[:len(d.shape)])
        if d.dtype == "f":
            e = app(nm, *ks)
        elif d.dtype == "i":
            e = app(nm, *ks, sort="I")
        elif d.dtype == "b":
            e = ne(app(nm, *ks), 0)
        elif d.dtype == "c":
            e = (app(nm + "r", *ks), app(nm + "i", *ks))
        else:
            raise Unsupported("loop writes into an array of type %s" % d.dtype)
        return ArrData(d.shape, d.dtype, "s", N.merge_elem(w, e, d.elems))

    def acc_val(x):
        v = pre[x]
        a = accs[x]
        if isinstance(a, B):
            return SBool(a, is_np(v))
        if isinstance(a, tuple):
            return SStr([a])
        return Num(kind_of(v), a, is_np(v))

    def run():
        j0, nw, nf = len(c.journal), len(c.writes), len(c.facts)
        saved_wlog = c.wlog
        c.wlog = []
        hyp = {}
        try:
            for x in names:
                if x in local:
                    if pre[x] is not UNDEF:
                        setvar(x, POISON)
                elif x in forms:
                    setvar(x, forms[x](l))
                else:
                    setvar(x, acc_val(x))
                hyp[x] = getvar(x)
            hs = {}
            for oid, (ob, old, specs) in objs.items():
                hs[oid] = hyp_state(ob, old, specs, l)
                c.put(ob, hs[oid])
            c.add_fact(le(0, l))
            c.add_fact(lt(l, n))
            res = c.explore(body)
            log = c.wlog
        finally:
            c.wlog = saved_wlog
            c.undo(j0)
            del c.writes[nw:]
            del c.facts[nf:]
        for cond, out, (o, e, other) in res:
            if other:
                raise Unsupported("library effect inside a loop")
            for en, nm, _, _ in e.values():
                if en is env and nm in names or _fresh_env(en, env):
                    continue
                raise Unsupported("loop assigns a variable of another scope")
        return res, hyp, hs, log

    def new_of(ef, x, hyp):
        o, e, other = ef
        if x in fields:
            return o[x[0]][2].get(x[1], UNDEF) if x[0] in o else hyp[x]
        for en, nm, _, new in e.values():
            if en is env and nm == x:
                return new
        return hyp[x]

    def unresolved_in(p):
        f = fvs(p)
        for x, a in accs.items():
            if x in forms or x in local:
                continue
            if isinstance(a, Poly) and var_id(a) in f:
                return True
            if isinstance(a, B) and any(b is a or b == a for b in bvars_of(p)):
                return True
        return False

    def analyse(res, hyp, x):
        """-> ('local',) | ('add', delta, kind) | ('all', B) | ('any', B) | ('str', parts) | None (not yet)"""
        norm = [(cond, new_of(ef, x, hyp)) for cond, out, ef in res if out[0] == "val"]
        a = accs[x]
        vals = [v for _, v in norm]
        h = hyp[x]
        if any(unresolved_in(cond) for cond, _ in norm) and len(norm) > 1 and not isinstance(a, B):
            # the branch may depend on values not known yet, unless all branches agree
            if isinstance(a, tuple) or not all(is_number(v) for v in vals) or any(poly_of(v) != poly_of(vals[0]) for v in vals):
                return None
        if isinstance(a, tuple):
            head = str_parts(h)
            tails = []
            for v in vals:
                if not isinstance(v, (str, SStr, OStr)):
                    return ("local",)
                p = tuple(str_parts(v))
                if p[:len(head)] != tuple(head):
                    # a literal may have been glued to the last literal of the head
                    return ("local",)
                tails.append(p[len(head):])
            t = tails[-1]
            for (cond, _), y in reversed(list(zip(norm, tails))[:-1]):
                if y != t:
                    t = (("ite", cond, tuple(y), tuple(t)),)
            return ("str", tuple(t))
        if isinstance(a, B):
            if not all(isinstance(v, (bool, SBool)) for v in vals):
                return ("local",)
            hb = bool_of(h)
            if x in forms:
                # checked by the caller through equality
                m = bool_of(vals[-1])
                for (cond, v) in reversed(norm[:-1]):
                    m = bor(band(cond, bool_of(v)), band(bnot(cond), m))
                return ("bool", m)
            m = bool_of(vals[-1])
            for (cond, v) in reversed(norm[:-1]):
                m = bor(band(cond, bool_of(v)), band(bnot(cond), m))
            t, f = subst_bool(m, a, TRUE), subst_bool(m, a, FALSE)
            if unresolved_in(t) or unresolved_in(f):
                return None
            if t == f:
                return ("local",)
            if f.op == "const" and not f.args[0]:
                return ("all", t)
            if t.op == "const" and t.args[0]:
                return ("any", f)
            return ("local",)
        if not all(is_number(v) and not isinstance(v, (bool, SBool)) for v in vals):
            return ("local",)
        kind = "f" if any(kind_of(v) == "f" for v in vals) or kind_of(h) == "f" else "i"
        hp = poly_of(h)
        ps = [poly_of(v) - hp for v in vals]
        d = ps[-1]
        for (cond, _), q in reversed(list(zip(norm, ps))[:-1]):
            d = ite(cond, q, d)
        if unresolved_in(d):
            if all(not unresolved_in(q + hp) for q in ps):
                return ("local",)
            return None
        return ("add", d, kind, any(is_np(v) for v in vals))

    def make_form(x, r):
        v = pre[x]
        if r[0] == "add":
            d, kind, np_ = r[1], r[2], r[3] or is_np(v)
            if lid in fvs(d):
                body_t = subst(d, {lid: K[0]})
                return lambda m: mk(kind, poly_of(v) + N.sum_poly(c, m, body_t), np_)
            return lambda m: mk(kind, poly_of(v) + d * m, np_)
        if r[0] in ("all", "any"):
            q = forall if r[0] == "all" else exists
            op = band if r[0] == "all" else bor
            return lambda m: mkb(op(bool_of(v), q(0, m, lambda i: subst_b(r[1], {lid: i}))), is_np(v))
        tail = tuple(subst_parts(r[1], {lid: K[0]}))
        return lambda m: SStr(list(str_parts(v)) + [("join", "", m, tail)])

    # ---- inference of the invariants
    for rnd in range(12):
        res, hyp, hs, log = run()
        progress = False
        for x in list(accs):
            if x in forms or x in local:
                continue
            if x not in fields and not any(any(en is env and nm == x for en, nm, _, _ in e.values()) for _, out, (o, e, other) in res if out[0] == "val"):
                # never changed on a path that continues
                forms[x] = (lambda v: lambda m: v)(pre[x])
                rec[x] = ("const",)
                progress = True
                continue
            r = analyse(res, hyp, x)
            if r is None:
                continue
            if r[0] == "local":
                if x in fields:
                    raise Unsupported("loop modifies attribute %s" % x[1])
                local.add(x)
            else:
                rec[x] = r
                forms[x] = make_form(x, r)
            progress = True
        if any(x not in forms and x not in local for x in accs):
            if not progress:
                raise Unsupported("no invariant found for the loop variable(s) %s" % sorted(x for x in accs if x not in forms and x not in local))
            continue
        if progress:
            continue
        new = False
        for cond, out, (o, e, other) in res:
            if out[0] != "val":
                continue
            for oid, (ob, old, nw_) in o.items():
                if oid >= start_oid:
                    continue
                if isinstance(ob, PyObj):
                    for k in sorted(set(old) | set(nw_)):
                        if (oid, k) in fields or k in old and k in nw_ and old[k] is nw_[k]:
                            continue
                        v = ob.state.get(k)
                        if not isinstance(v, (str, SStr, OStr)) and not is_number(v) or k not in nw_:
                            raise Unsupported("loop modifies attribute %s" % k)
                        x = (oid, k)
                        fields[x] = ob
                        names.append(x)
                        pre[x] = v
                        nm = "%d_%s" % (oid, k)
                        accs[x] = ("acc", tagn, nm) if not is_number(v) else bvar("$acc%d_%s" % (tagn, nm)) if isinstance(v, (bool, SBool)) else var("$acc%d_%s" % (tagn, nm), "I" if kind_of(v) == "i" else "R")
                        new = True
                    continue
                if oid not in objs:
                    if isinstance(ob, ArrObj):
                        specs = [Spec(s, lid, l) for s in uniq(sp for (r, sp) in log if r is ob)]
                        if not specs:
                            raise Unsupported("loop replaces the contents of an array")
                        disjoint(specs)
                        objs[oid] = [ob, ob.state, specs]
                    elif isinstance(ob, PyList) and not isinstance(ob.state, tuple) or isinstance(ob, PyList) and isinstance(ob.state, tuple) or isinstance(ob, NativeObj):
                        objs[oid] = [ob, ob.state, None]
                    else:
                        raise Unsupported("loop modifies %r" % (ob,))
                    new = True
        if not new:
            break
    else:
        raise Unsupported("loop invariants did not stabilise")

    # ---- induction step: the last run started from the final hypotheses
    norm = [r for r in res if r[1][0] == "val"]
    for x in accs:
        if x in local or rec.get(x, ("const",))[0] == "const":
            continue
        r = analyse_final(c, res, hyp, x, new_of, rec[x], accs[x], forms, l, lid)
        if not r:
            raise Unsupported("invariant of the loop variable %s is not preserved" % x)
    for oid, (ob, old, specs) in objs.items():
        if specs is not None:
            have = {s.spec for s in specs}
            for r, sp in log:
                if r is ob and sp not in have:
                    raise Unsupported("loop writes outside the inferred cells")

    for o in srcs:
        if o.oid in objs:
            raise Unsupported("the loop changes the sequence it iterates over")

    # ---- results
    finals = {}
    for oid, (ob, old, specs) in objs.items():
        states = [(cond, o[oid][2] if oid in o else hs[oid]) for cond, out, (o, e, other) in norm]
        if specs is not None:
            new = states[-1][1] if states else hs[oid]
            try:
                for cond, s in reversed(states[:-1]):
                    new = c.merge_arr(cond, s, new)
            except MergeFail as ex:
                raise Unsupported(str(ex))
            vals = []
            for s in specs:
                v = s.value(new.elems, l, lid)
                bad = poisons(v, tagn)
                if bad:
                    nf = len(c.facts)
                    c.add_fact(le(0, l))
                    c.add_fact(lt(l, n))
                    try:
                        v = c.simp_elem(v) if hasattr(c, "simp_elem") else v
                    finally:
                        del c.facts[nf:]
                    if poisons(v, tagn):
                        raise Unsupported("an iteration reads a cell written by an earlier one")
                vals.append((s, v))

            def arr_final(m, old=old, vals=vals):
                e = old.elems
                for s, v in vals:
                    e = N.merge_elem(s.written(m, lid), v, e)
                return ArrData(old.shape, old.dtype, "s", e)
            finals[oid] = (ob, arr_final)
        else:
            finals[oid] = (ob, list_final(it, ob, old, states, l, lid, n))

    locals_new = {}
    for x in local:
        if not norm:
            continue
        vs = [(cond, new_of(ef, x, hyp)) for cond, out, ef in norm]
        v = vs[-1][1]
        try:
            for cond, y in reversed(vs[:-1]):
                if v is UNDEF or y is UNDEF or v is POISON or y is POISON:
                    raise MergeFail("maybe unassigned")
                v = c.merge(cond, y, v)
        except MergeFail:
            v = POISON
        locals_new[x] = v

    def install(m):
        for x in names:
            if x in forms:
                if rec[x][0] != "const":
                    setvar(x, forms[x](m))
            else:
                v = locals_new.get(x, UNDEF)
                if v is not UNDEF or pre[x] is not UNDEF:
                    c.setvar(env, x, LoopLocal(m, v, lid, pre[x]))
        for oid, (ob, f) in finals.items():
            c.put(ob, f(m))

    exits = [cond for cond, out, _ in res if out[0] != "val"]
    if exits:
        E = bor(*exits)
        if poisons(E, tagn):
            raise Unsupported("the loop exit depends on cells written by earlier iterations")

        def at(i):
            return subst_b(E, {lid: i})
        if c.decide(exists(0, n, at)):
            c.sk += 1
            w = var("!first%d" % c.sk, "I")
            c.add_fact(le(0, w))
            c.add_fact(lt(w, n))
            c.add_fact(at(w))
            c.add_fact(forall(0, w, lambda i: bnot(at(i))))
            install(w)
            it.assign(st.target, fn(w), env)
            try:
                it.block(st.body, env)
            except Brk:
                return
            except Cnt:
                pass
            raise Dead("the iteration that leaves the loop completes normally")
    for cond, out, _ in norm:
        if poisons(cond, tagn):
            raise Unsupported("a branch depends on cells written by earlier iterations")
    if norm:
        install(n)
    else:
        # every iteration leaves the loop, so here it has none
        c.add_fact(eq(n, 0))
    if st.orelse:
        it.block(st.orelse, env)


def analyse_final(c, res, hyp, x, new_of, r, acc, forms, l, lid):
    norm = [(cond, new_of(ef, x, hyp)) for cond, out, ef in res if out[0] == "val"]
    h = hyp[x]
    if r[0] == "add":
        hp = poly_of(h)
        for cond, v in norm:
            if not is_number(v):
                return False
            d = poly_of(v) - hp
            if d != r[1]:
                if not c.scoped([le(0, l), cond], lambda: c.quick(eq(d, r[1]))):
                    return False
        return True
    if r[0] in ("all", "any"):
        hb = bool_of(h)
        for cond, v in norm:
            if not isinstance(v, (bool, SBool)):
                return False
            want = band(hb, r[1]) if r[0] == "all" else bor(hb, r[1])
            if bool_of(v) != want and not c.scoped([le(0, l), cond], lambda: c.quick(iff(bool_of(v), want))):
                return False
        return True
    head = tuple(str_parts(h))
    outs = []
    for cond, v in norm:
        p = tuple(str_parts(v))
        if p[:len(head)] != head:
            return False
        outs.append((cond, p[len(head):]))
    t = outs[-1][1]
    for cond, y in reversed(outs[:-1]):
        if y != t:
            t = (("ite", cond, tuple(y), tuple(t)),)
    return tuple(t) == tuple(r[1])


def list_final(it, ob, old, states, l, lid, n):
    c = it.c
    tails = []
    for cond, s in states:
        if not isinstance(s, list) or not s or s[0] is not SENT or any(x is SENT for x in s[1:]):
            raise Unsupported("loop modifies a list other than by appending")
        tails.append((cond, s[1:]))
    qs = {len(t) for _, t in tails}
    if isinstance(ob, NativeObj):
        if len(qs) != 1:
            raise Unsupported("loop writes a varying number of entries to a file")
        t = list(tails[-1][1])
        for cond, y in reversed(tails[:-1]):
            for i in range(len(t)):
                t[i] = merge_entry(c, cond, y[i], t[i])
        t = tuple(subst_entry(it, e, {lid: K[0]}) for e in t)
        return lambda m: list(old) + [("rows", m, t)]
    if qs == {0}:
        return lambda m: old
    if len(qs) == 1:
        q = qs.pop()
        t = list(tails[-1][1])
        try:
            for cond, y in reversed(tails[:-1]):
                for i in range(q):
                    t[i] = c.merge(cond, y[i], t[i])
            t = [it.subst_val(v, {lid: K[0]}) for v in t]
            if q == 1:
                tmpl = t[0]
            else:
                tmpl = it.subst_val(t[-1], {KID[0]: mk_div(K[0], q)})
                for i in range(q - 2, -1, -1):
                    tmpl = c.merge(eq(mk_mod(K[0], q), i), it.subst_val(t[i], {KID[0]: mk_div(K[0], q)}), tmpl)
        except MergeFail as e:
            raise Unsupported(str(e))

        def fin(m):
            new = ("sym", m * q, tmpl)
            if old == []:
                return new
            return it.concat_lists([c.list_(old), c.list_(new)])
        return fin
    if qs == {0, 1}:
        norm = [(cond, t[0] if t else UNDEF) for cond, t in tails]
        new = it.sym_filter(norm, n, l)

        def fin2(m):
            if m != n:
                raise Unsupported("filtering loop with an early exit")
            if old == []:
                return new
            return it.concat_lists([c.list_(old), c.list_(new)])
        return fin2
    raise Unsupported("loop appends a varying number of elements")


def merge_entry(c, cond, a, b):
    if a[0] == "row" and b[0] == "row" and len(a[1]) == len(b[1]):
        return ("row", tuple(c.merge(cond, x, y) for x, y in zip(a[1], b[1])))
    if a == b:
        return a
    raise Unsupported("file entries differ between branches")


def subst_entry(it, e, mp):
    if e[0] == "row":
        return ("row", tuple(it.subst_val(v, mp) for v in e[1]))
    if e[0] == "text":
        return ("text", tuple(subst_parts(e[1], mp)))
    raise Unsupported("file entry written in a loop")


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def target_names(t):
    import ast
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def _fresh_env(en, env):
    """Scopes created while the body runs are of no concern; they are recognised by not being on the
    chain of enclosing scopes."""
    e = env
    while e is not None:
        if e is en:
            return False
        e = e.parent
    return True


def poisons(x, tagn):
    pre = "poison%d_" % tagn
    if isinstance(x, tuple):
        return any(poisons(y, tagn) for y in x)
    if not isinstance(x, (Poly, B)):
        return False
    return any(a.kind == "app" and a.data[0].startswith(pre) for a in atoms_deep(x).values())


def bvars_of(x):
    out = []

    def go(b):
        if not isinstance(b, B):
            return
        if b.op == "bvar":
            out.append(b)
        for y in b.args:
            if isinstance(y, B):
                go(y)
    if isinstance(x, B):
        go(x)
    else:
        for a in atoms_deep(x).values():
            if a.kind == "ite":
                go(a.data[0])
    return out


def subst_bool(m, a, v):
    if m == a:
        return v
    if m.op == "not":
        return bnot(subst_bool(m.args[0], a, v))
    if m.op == "and":
        return band(*[subst_bool(y, a, v) for y in m.args])
    if m.op == "or":
        return bor(*[subst_bool(y, a, v) for y in m.args])
    return m
