"""Contracts: named obligations over the paths of a function body.

A task executes a real function symbolically under a precondition and states, for every path, what
must hold at its end.  Every statement becomes a named obligation that is discharged, refuted or left
undecided.  A failed obligation is re-examined with small concrete sizes, where quantifiers disappear;
a model found there becomes an input for the real code.
"""
import ast, os, random, time, traceback
from fractions import Fraction
import z3
from .terms import *
from . import terms as T
from . import solver as S
from . import interp as I
from . import npmodel as N
from .vals import *
from .interp import World, run_paths, arr_data, NativeObj, freeze, mk, poly_of, Dead

DC = "qctrlopencontrols.driven_controls.driven_control:DrivenControl"
DDS = "qctrlopencontrols.dynamic_decoupling_sequences.dynamic_decoupling_sequence:DynamicDecouplingSequence"
ARGERR = "qctrlopencontrols.exceptions:ArgumentsValueError"
EXACT_OK = {"abs", "div", "floor", "sqrt"}


class Ev:
    """Reads a solver model."""

    def __init__(self, model, tr):
        self.m, self.tr = model, tr

    def __call__(self, p):
        if isinstance(p, Num):
            p = p.p
        v = self.m.eval(self.tr.poly(P(p)), model_completion=True)
        return zval(v)

    def int(self, p):
        return int(round(self(p)))

    def bool(self, name):
        return z3.is_true(self.m.eval(z3.Bool(name), model_completion=False))

    def string(self, name, options, other):
        """The value of an unknown string: one of the literals it was compared with, or another one."""
        for o in options:
            if self.bool("%s==%r" % (name, o)):
                return o
        return other

    def text(self, name, other="nm"):
        """The value of an unknown string: a literal the model equates it with, empty, or some other text."""
        for d in self.m.decls():
            nm = d.name()
            if nm.startswith(name + "==") and z3.is_true(self.m[d]):
                return ast.literal_eval(nm[len(name) + 2:])
        if any(d.name() == "nonempty:" + name and z3.is_false(self.m[d]) for d in self.m.decls()):
            return ""
        return other

    def arr(self, name, n):
        return [self(app(name, P(i))) for i in range(n if isinstance(n, int) else self.int(n))]


def zval(v):
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise ValueError(str(v))


class Task:
    def __init__(self, name, tier="quick", seed=0, repo="/repo", deadline=None):
        self.name, self.tier, self.seed, self.repo = name, tier, seed, repo
        self.world = World(repo)
        self.world.load("qctrlopencontrols")
        self.obls = []
        self.undecided = []
        self.cases = []
        self.paths_seen = self.reached = self.excluded = 0
        self.bounds = []
        self.notes = []
        self.sizes = []
        self.inputs = set()
        self.prefer = []
        self.case = None
        self.timeout = 4000 if tier == "quick" else 15000
        self.deadline = deadline
        self.label = name
        self.argerr = self.world.get(ARGERR)
        self.soft = False         # a failed obligation says nothing about the property (contract of a private helper)
        self.examined = 0
        self.retries = 2
        self.contract_uses = {}

    # ------------------------------------------------------------------ symbolic inputs
    def size(self, name, upto=4):
        n = var(name, "I")
        self.sizes.append((n, upto))
        return n

    def arr(self, c, name, n, dtype="f"):
        self.inputs.add(name)
        return c.arr(ArrData((n,), dtype, "s", app(name, K[0])))

    def real(self, name):
        return Num("f", var(name))

    def use(self, it, qual, con, key=None):
        """Replace the body of a function by its contract at call sites."""
        def wrapped(interp, f, vals):
            r = con(interp, f, vals)
            if r is not NotImplemented:
                self.contract_uses[qual] = self.contract_uses.get(qual, 0) + 1
            return r
        it.c.contracts[qual] = wrapped

    # ------------------------------------------------------------------ paths
    def paths(self, label, thunk, limit=200, depth=60, cover=True):
        self.label = label
        n = 0
        try:
            for p in run_paths(self.world, thunk, limit=limit, depth=depth, deadline=self.deadline):
                n += 1
                self.paths_seen += 1
                p.label = "%s[%d]" % (label, n)
                if p.outcome[0] == "dead":
                    self.ob("path-excluded", p, FALSE)
                    continue
                if p.outcome[0] == "proved":
                    continue
                if not S.feasible(p.facts):
                    self.excluded += 1
                    continue
                if p.outcome[0] == "unsup":
                    # the verifier cannot follow this path to its end: only run-time contracts decide it
                    self.undecide(p.label, "outside the supported subset: %s" % p.outcome[1])
                    for j in range(3):
                        self.cover(p, vary=j + 1)
                    continue
                if cover:
                    self.cover(p)
                yield p
        except Unsupported as e:
            self.undecide(label, "outside the supported subset: %s" % e)
        except RecursionError:
            self.undecide(label, "recursion limit")

    def undecide(self, label, why):
        self.undecided.append(dict(obligation=label, reason=str(why)[:400]))

    def wishes(self, vary):
        """Preferred values of the inputs, so that models are not degenerate."""
        rnd = random.Random("%s/%d/%d" % (self.name, self.seed, vary))
        out = []
        for f in sorted(self.inputs):
            for i in range(3):
                out.append(eq(app(f, P(i)), Fraction(rnd.randint(1, 400), rnd.choice((10, 16, 64, 100))) * rnd.choice((1, 1, 1, 1, 1, -1))))
        rnd.shuffle(out)
        return list(self.prefer) + out

    def cover(self, p, extra=(), vary=0):
        """A concrete input that reaches this path: shows the obligations on it are not vacuous."""
        got = self.model(p.facts, extra, prefer=self.wishes(vary) if vary else ())
        if got is not None:
            self.reached += 1
            if self.case is not None:
                try:
                    c = self.case(got)
                    if c is not None:
                        self.add_case(c)
                except Exception as e:
                    self.notes.append("no case from a path model: %s" % e)
            return True
        return False

    def add_case(self, c, front=False):
        if c not in self.cases:
            if front:
                self.cases.insert(0, c)
            else:
                self.cases.append(c)

    def instances(self):
        """Concrete choices of the sizes, small first."""
        if not self.sizes:
            yield {}
            return
        import itertools
        rngs = [range(0, u + 1) for n, u in self.sizes]
        combos = sorted(itertools.product(*rngs), key=lambda t: (sum(t) == 0, len(set(t)) > 1, abs(sum(t) - 2 * len(t)), t))
        for t in combos[:24]:
            yield {var_id(n): P(v) for (n, u), v in zip(self.sizes, t)}

    def suggested(self, facts, most=3000):
        """Sizes outside the small ones that the facts allow, or None."""
        if not self.sizes:
            return None
        fs = list(facts) + [band(le(0, n), le(n, most)) for n, u in self.sizes] + [bor(*[lt(u, n) for n, u in self.sizes])]
        m = S.find_model(fs, timeout=1500)
        if m is None:
            return None
        ev = Ev(*m)
        return {var_id(n): P(ev.int(n)) for n, u in self.sizes}

    def choices(self, facts):
        """Concrete sizes to try: the small ones, and when all of them contradict the facts the ones a solver finds."""
        some = False
        for mp in self.instances():
            fs = [subst_b(f, mp) for f in facts]
            if any(f.op == "const" and not f.args[0] for f in fs):
                continue
            some = True
            yield mp, fs
        if not some:
            mp = self.suggested(facts)
            if mp:
                yield mp, [subst_b(f, mp) for f in facts]

    def model(self, facts, extra=(), limit=1.5, prefer=()):
        t0 = time.time()
        for mp, fs in self.choices(list(facts) + list(extra)):
            if time.time() - t0 > limit and mp:
                break
            fs += [eq(T.atom_poly(T.get_atom(k)), v) for k, v in mp.items()]
            m = S.find_model(fs, timeout=700, prefer=[subst_b(w, mp) for w in prefer])
            if m is not None:
                return Ev(*m)
        return None

    # ------------------------------------------------------------------ obligations
    def ob(self, name, p, goal, extra=(), timeout=None, witness=True):
        """One obligation: under the facts of path p (and extra), goal holds."""
        full = "%s: %s" % (p.label if hasattr(p, "label") else self.label, name)
        facts = list(p.facts) + list(extra)
        t0 = time.time()
        try:
            if isinstance(goal, bool):
                goal = TRUE if goal else FALSE
            r = S.prove(facts, goal, timeout=timeout or self.timeout, want_model=False)
            if r.status == "unknown" and self.retries > 0:
                # once more, with the facts in another order and more time
                self.retries -= 1
                S.forget(facts, goal)
                r = S.prove(facts[::-1], goal, timeout=2 * (timeout or self.timeout), want_model=False)
        except Unsupported as e:
            self.undecide(full, e)
            return False
        rec = dict(name=full, status="discharged" if r.status == "proved" else "open", backend=r.backend, secs=round(time.time() - t0, 4))
        self.obls.append(rec)
        if r.status == "proved":
            return True
        self.examine(rec, facts, goal)
        return False

    def examine(self, rec, facts, goal):
        """Look for small concrete counterexamples of an obligation that was not discharged."""
        t0 = time.time()
        rec["goal"] = show_b(goal)[:1500]
        self.examined += 1
        if self.examined > 12:
            return
        ng = bnot(goal)
        for mp, fs in self.choices(facts + [ng]):
            if time.time() - t0 > 12:
                break
            fs2 = fs + [eq(T.atom_poly(T.get_atom(k)), v) for k, v in mp.items()]
            ground, univ = S.ground_hyps(fs2)
            nu = len(univ)
            insts = S.instantiate(ground, univ, rounds=2, cap=400)
            r, m, tr = S.z3_check(ground + insts, 1500, want_model=True)
            if r != "sat":
                continue
            exact = nu == 0 and not self.soft and self.exact(fs2)
            rec["status"] = "refuted" if exact else "open"
            rec["counterexample_sizes"] = {T.get_atom(k).data[0]: int(v.const()) for k, v in mp.items()}
            if self.case is not None:
                try:
                    c = self.case(Ev(m, tr))
                    if c is not None:
                        rec["case"] = c
                        self.add_case(c, front=True)
                except Exception as e:
                    rec["case_error"] = str(e)[:200]
            if exact:
                break
            if time.time() - t0 > 6:
                break

    def exact(self, fs):
        """Only interpreted arithmetic and input arrays occur: a model is a real counterexample."""
        for f in fs:
            for at in atoms_deep(f).values():
                if at.kind == "app" and at.data[0] not in EXACT_OK and at.data[0] not in self.inputs:
                    return False
                if at.kind == "var" and (at.data[0].startswith("!") or at.data[0] == "PI"):
                    return False
                if at.kind == "inv":
                    return False
        return True

    # ------------------------------------------------------------------ common statements
    def is_args_error(self, p):
        return p.outcome[0] == "raise" and p.outcome[1].cls.issub(self.argerr)

    def raises_args_error(self, name, p):
        return self.ob(name, p, self.is_args_error(p))

    def returns(self, name, p):
        return self.ob(name, p, p.outcome[0] == "val")

    def num_eq(self, name, p, v, want, extra=()):
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            v = mk("i" if isinstance(v, int) else "f", P(v))
        if not isinstance(v, Num):
            q = None
            try:
                q = poly_of(v)
            except Exception:
                pass
            if q is None:
                return self.ob(name + " (is a number)", p, False)
            v = Num("f", q)
        return self.ob(name, p, eq(p.ctx.resolve(v.p) if not isinstance(v.p, (int,)) else P(v.p), P(want)), extra)

    def elem_eq(self, name, p, e, want, extra=()):
        """e: an array element or value; want: Poly, (Poly, Poly) for complex."""
        if isinstance(want, tuple):
            c = p.ctx.to_cx(e) if not isinstance(e, tuple) else Cx(*e)
            re, im = c.re, c.im
            return self.ob(name, p, band(eq(re, P(want[0])), eq(im, P(want[1]))), extra)
        if isinstance(e, tuple):
            return self.ob(name, p, band(eq(e[0], P(want)), eq(e[1], 0)), extra)
        if isinstance(e, Poly):
            return self.ob(name, p, eq(e, P(want)), extra)
        return self.num_eq(name, p, e, want, extra)

    def arr_eq(self, name, p, a, n, fn, dtype="f", extra=()):
        """a is a one-dimensional float array of n entries fn(i)."""
        if not isinstance(a, ArrObj):
            return self.ob(name + " is an array", p, False)
        d = arr_data(a)
        if len(d.shape) != 1:
            return self.ob(name + " has one dimension", p, False)
        if dtype is not None and d.dtype != dtype:
            return self.ob(name + " has entries of type float", p, False)
        it = I.Interp(p.ctx, None)
        if d.mode == "g":
            raise Unsupported("entries present under conditions")
        if not self.ob(name + " length", p, eq(I.dimP(d.shape[0]), P(n)), extra):
            return False
        if d.mode == "c":
            ok = True
            if len(d.elems) > 8 and all(isinstance(e, Poly) for e in d.elems) and not isinstance(fn(P(0)), tuple):
                return self.ob("%s, all %d entries" % (name, len(d.elems)), p, band(*[eq(e, P(fn(P(i)))) for i, e in enumerate(d.elems)]), extra)
            for i, e in enumerate(d.elems):
                ok = self.elem_eq("%s entry %d" % (name, i), p, e, fn(P(i)), extra) and ok
            return ok
        k = var("!j", "I")
        rng = [le(0, k), lt(k, P(n))]
        e = subst_e(d.elems, {KID[0]: k})
        return self.elem_eq(name + " entries", p, e, fn(k), list(extra) + rng)

    def guarded_eq(self, name, p, elems, want, extra=()):
        """Entries that are present under conditions: elems and want are lists of (condition, value) with
        pairwise different values, in the same order."""
        pos = {v: j for j, (g, v) in enumerate(want)}
        hit, last, ok = set(), -1, True
        goals = {}          # equal goals are one obligation
        for g, v in elems:
            j = pos.get(P(v))
            if j is None:
                goals.setdefault(bnot(g), ["is absent at", v, 0])[2] += 1
                continue
            if j <= last:
                # out of order or repeated: not both may be present
                self.undecide("%s: %s" % (p.label, name), "order of the entries")
                return False
            last = j
            hit.add(j)
            w = want[j][0]
            goals.setdefault(bor(band(g, w), band(bnot(g), bnot(w))), ["is present exactly when it should be at", v, 0])[2] += 1
        for j, (w, v) in enumerate(want):
            if j not in hit:
                goals.setdefault(bnot(w), ["is not missing at", v, 0])[2] += 1
        for goal, (what, v, n) in goals.items():
            ok = self.ob("%s %s %s%s" % (name, what, show(P(v))[:60], " and %d more" % (n - 1) if n > 1 else ""), p, goal, extra) and ok
        return ok

    def sum_rule(self, name, p, n, terms, per, record=True):
        """Sums of the same length are related as their bodies are: terms = [(factor, body over K[0])],
        per = what the weighted bodies add up to at each index.  Returns the fact about the sums."""
        k = var("!s", "I")
        g = eq(sum((P(c) * subst(b, {KID[0]: k}) for c, b in terms), ZERO), subst(P(per), {KID[0]: k}))
        rng = [le(0, k), lt(k, P(n))]
        if not record:
            if S.prove(list(p.facts) + rng, g, timeout=1500, want_model=False).status != "proved":
                return None
        if not self.ob(name, p, g, rng):
            return None
        return eq(sum((P(c) * N.sum_poly(p.ctx, n, b) for c, b in terms), ZERO), N.sum_poly(p.ctx, n, P(per)))

    def sum_match(self, p, n, cands, where=()):
        """Relate every sum over [0, n) that occurs on the path to a weighted sum of the candidate bodies
        (tried are single ones and sums of several); returns the facts."""
        import itertools
        out, seen = [], set()
        for f in list(p.facts) + list(where):
            for at in atoms_deep(f).values():
                if at.kind != "app" or at.id in seen or N.NAMES.get(at.data[0], ("",))[0] != "sum" or at.data[1][0] != P(n):
                    continue
                seen.add(at.id)
                body = N._body(at.data[0], K[0], at.data[1][1:])
                done = False
                for r in range(1, len(cands) + 1):
                    for cs in itertools.combinations(cands, r):
                        fact = self.sum_rule("a count is that of " + " and ".join(c[0] for c in cs), p, n, [(1, body)], sum((c[1] for c in cs), ZERO), record=False)
                        if fact is not None:
                            # stated on the sums themselves
                            out.append(eq(T.atom_poly(at), sum((N.sum_poly(p.ctx, n, c[1]) for c in cs), ZERO)))
                            done = True
                            break
                    if done:
                        break
        return out

    def split_index(self, p, e, extra, targets):
        """Replace integer quotients in e that equal one of the targets under the facts."""
        for _ in range(6):
            done = True
            for at in atoms_deep(e).values():
                if at.kind == "app" and at.data[0] in ("idiv", "div", "floor", "mod", "imod"):
                    for q in targets:
                        if S.prove(list(p.facts) + list(extra), eq(T.atom_poly(at), q), timeout=2000, want_model=False).status == "proved":
                            e = T.replace_atoms(e, {at.id: P(q)})
                            done = False
                            break
                    if not done:
                        break
            if done:
                break
        return e

    def each(self, name, p, v, n, fn, extra=()):
        """v is a list of n entries; fn(label, entry, index, facts) states what each one is."""
        it = I.Interp(p.ctx, None)
        if not isinstance(v, (PyList, GenV, ArrObj, tuple)):
            return self.ob(name + " is a list", p, False)
        try:
            g = it.iterate(v)
        except PyRaise:
            return self.ob(name + " is a list", p, False)
        ln = P(len(g[1])) if g[0] == "list" else P(g[1])
        if not self.ob(name + " has one entry for each", p, eq(ln, P(n)), extra):
            return False
        ok = True
        if g[0] == "list":
            for i, x in enumerate(g[1]):
                ok = fn("%s entry %d" % (name, i), x, P(i), list(extra)) and ok
            return ok
        k = var("!j", "I")
        rng = [le(0, k), lt(k, P(n))]
        x = p.ctx.nosplit(list(extra) + rng, lambda: g[2](k))
        return fn(name + " entry", x, k, list(extra) + rng)


def subst_e(e, mp):
    return I.subst_elem(e, mp)


def run_task(args):
    """Runs one task in its own process; returns plain data."""
    mod, name, tier, seed, repo, budget = args
    import importlib
    t0 = time.time()
    S.STATS.time, S.STATS.calls, S.STATS.by = 0.0, 0, {}
    out = dict(task=name)
    t = None
    try:
        import sys
        sys.setrecursionlimit(20000)
        m = importlib.import_module("contracts." + mod)
        fn = m.TASKS[name]
        t = Task(name, tier, seed, repo, deadline=t0 + budget)
        fn(t)
    except Unsupported as e:
        if t is not None:
            t.undecide(name, e)
    except Exception as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-1500:]
    if t is not None:
        out.update(obls=t.obls, undecided=t.undecided, cases=t.cases[:60], paths=t.paths_seen, reached=t.reached, excluded=t.excluded, bounds=t.bounds,
                   notes=t.notes[:5], functions=sorted(t.world.visited), contract_uses=t.contract_uses)
    out["solver_s"] = round(S.STATS.time, 3)
    out["solver_calls"] = S.STATS.calls
    out["wall"] = round(time.time() - t0, 3)
    return out
