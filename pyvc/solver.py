"""Discharging verification conditions.

A condition is a list of hypotheses and a goal.  Hypotheses may contain bounded universal
quantifiers over integers, which are instantiated here (trigger matching on function symbols);
the ground problem then goes to a portfolio of back ends:
  normal-form   the goal is an identity of the polynomial normal form
  z3            default SMT core with uninterpreted functions
  z3-nlsat      functions purified to constants (with congruence), integers relaxed to reals
  cvc5          the same ground problem through cvc5
'unsat' is the only answer that discharges a condition.
"""
import re, time
from fractions import Fraction
import z3
from .terms import *
from . import terms as T

REALF = {"sin", "cos", "exp", "sqrt", "abs", "arccos", "arcsin", "floor", "ln", "log2", "nonfinite"}


class Result:
    def __init__(self, status, backend, secs, model=None, exact=False):
        self.status, self.backend, self.secs, self.model, self.exact = status, backend, secs, model, exact

    def __repr__(self):
        return "<%s %s %.2fs>" % (self.status, self.backend, self.secs)


# --------------------------------------------------------------------------- rational normal form
def clear_inv(p, limit=6):
    """Multiply p by denominators (inv atoms) until none is left; zero-ness is preserved
    because every denominator is non-zero where the atom was created."""
    for _ in range(limit):
        best = None
        for a in p.atoms():
            at = T.get_atom(a)
            if at.kind == "inv":
                best = a
                break
        if best is None:
            break
        q = T.get_atom(best).data[0]
        e = max((dict(m).get(best, 0) for m in p.d), default=0)
        out = ZERO
        for m, c in p.d.items():
            k = dict(m).get(best, 0)
            rest = tuple((x, y) for x, y in m if x != best)
            out = out + Poly({rest: c}) * (q ** (e - k))
        p = out
    return p


def syntactic(goal):
    if goal.op == "const":
        return goal.args[0]
    if goal.op == "eq":
        q = clear_inv(goal.args[0])
        if not q.d:
            return True
    if goal.op == "and":
        return all(syntactic(g) is True for g in goal.args) or None
    if goal.op == "or":
        return any(syntactic(g) is True for g in goal.args) or None
    return None


# --------------------------------------------------------------------------- normalisation of hypotheses
_sk = [0]


def skolem(prefix="sk"):
    _sk[0] += 1
    return var("!%s%d" % (prefix, _sk[0]), "I")


def ground_hyps(hyps):
    """Split conjunctions, skolemise existentials, separate universals.
    -> (ground list, universal list of (k, lo, hi, body, guard))"""
    ground, univ = [], []
    todo = list(hyps)
    gcount = 0
    while todo:
        h = todo.pop()
        if h.op == "and":
            todo.extend(h.args)
        elif h.op == "exists":
            k, lo, hi, body = h.args
            s = skolem()
            todo.append(le(lo, s))
            todo.append(lt(s, hi))
            todo.append(subst_b(body, {var_id(k): s}))
        elif h.op == "forall":
            univ.append(h.args)
        elif h.op == "or" and has_quant(h):
            alts = []
            for a in h.args:
                if has_quant(a):
                    gcount += 1
                    g = bvar("!g%d_%d" % (_sk[0], gcount))
                    _sk[0] += 1
                    alts.append(g)
                    todo.extend(guarded(g, a))
                else:
                    alts.append(a)
            ground.append(bor(*alts))
        elif h.op == "const":
            if not h.args[0]:
                ground.append(h)
        else:
            ground.append(h)
    return ground, univ


def guarded(g, a):
    """Hypotheses equivalent to g -> a, for quantified a."""
    ng = bnot(g)
    if a.op == "and":
        out = []
        for x in a.args:
            out.extend(guarded(g, x))
        return out
    if a.op == "exists":
        k, lo, hi, body = a.args
        s = skolem()
        body = subst_b(body, {var_id(k): s})
        return guarded(g, band(le(lo, s), lt(s, hi), body))
    if a.op == "forall":
        k, lo, hi, body = a.args
        return [B("forall", (k, lo, hi, bor(ng, body)))]
    return [bor(ng, a)]


def has_quant(x):
    if x.op in ("forall", "exists"):
        return True
    if x.op in ("and", "or", "not"):
        return any(has_quant(a) for a in x.args)
    return False


# --------------------------------------------------------------------------- instantiation
def _linear_in(p, kid):
    """coefficient c and rest with p = c*k + rest, or None."""
    c = Fraction(0)
    rest = {}
    for m, co in p.d.items():
        if m == ((kid, 1),):
            c = co
        elif any(kid in fv_atom(T.get_atom(a)) for a, e in m):
            return None
        else:
            rest[m] = co
    return c, Poly(rest)


def triggers(body, kid):
    out = []
    for at in atoms_deep(body).values():
        if at.kind == "app" and kid in fv_atom(at) and at.data[0] not in ("div", "floor"):
            for pos, x in enumerate(at.data[1]):
                l = _linear_in(x, kid)
                if l and l[0] != 0 and at.data[0] not in REALF:
                    out.append((at.data[0], pos, l[0], l[1]))
    return out


# function symbol -> f(args) giving hypotheses that define it (sums, maxima, filters)
AX = {}
# function symbol -> f(list of argument tuples) giving hypotheses about pairs of applications
AXP = {}


def instantiate(ground, univ, rounds=3, cap=600):
    insts = []
    done = set()
    ax_done = set()
    terms = list(ground)
    frontier = list(ground)
    # bounds of the quantifiers are also interesting terms
    extra_idx = set()
    for k, lo, hi, body in univ:
        extra_idx.add(lo)
        extra_idx.add(hi - 1)
    seen_apps = {}
    int_terms = set()

    def collect(bs):
        new = False
        for b in bs:
            for at in atoms_deep(b).values():
                if at.kind == "app" and at.data[0] not in REALF:
                    key = at.data
                    if key not in seen_apps and not _has_bound(at):
                        seen_apps[key] = at
                        new = True
                        for x in at.data[1]:
                            if is_int_poly(x):
                                int_terms.add(x)
                if at.kind == "var" and at.sort == "I" and at.data[0].startswith("!"):
                    int_terms.add(atom_poly(at))
        return new
    def axioms():
        out = []
        for (fn, args) in list(seen_apps):
            h = AX.get(fn)
            if h is not None:
                for key, mk in h(args):
                    if key not in ax_done:
                        ax_done.add(key)
                        out.extend(mk())
        for fn, h in AXP.items():
            al = [args for (f, args) in seen_apps if f == fn]
            if len(al) > 1:
                for key, mk in h(al):
                    if key not in ax_done:
                        ax_done.add(key)
                        out.extend(mk())
        return out
    collect(ground)
    for r in range(rounds):
        new = []
        ax = axioms()
        if ax:
            g2, u2 = ground_hyps(ax)
            insts.extend(g2)
            collect(g2)
            for u in u2:
                if u not in univ:
                    univ.append(u)
        for qi, (k, lo, hi, body) in enumerate(univ):
            kid = var_id(k)
            trig = triggers(body, kid)
            cands = set()
            if trig:
                for fname, pos, c, rest in trig:
                    for (fn, args) in list(seen_apps):
                        if fn == fname and pos < len(args):
                            t = (args[pos] - rest) * (1 / c)
                            if is_int_poly(t):
                                cands.add(t)
                if r == 0:
                    if not is_neg_const(hi - lo):
                        cands.add(lo)
                        cands.add(hi - 1)
            else:
                cands |= int_terms
                cands |= extra_idx
            for t in cands:
                key = (qi, t)
                if key in done:
                    continue
                done.add(key)
                b = subst_b(body, {kid: t})
                inst = bor(lt(t, lo), le(hi, t), b)
                if inst.op == "const" and inst.args[0]:
                    continue
                new.append(inst)
                if len(insts) + len(new) > cap:
                    break
        if not new and not ax:
            break
        g2, u2 = ground_hyps(new)
        for u in u2:
            if u not in univ:
                univ.append(u)
        insts.extend(g2)
        collect(g2)
        if len(insts) > cap:
            break
    return insts


def is_neg_const(p):
    return p.is_const() and p.const() <= 0


def _has_bound(at):
    return any(T.get_atom(v).data[0][:2] in ("$b", "$t") for v in fv_atom(at))


# --------------------------------------------------------------------------- translation
def _sumsq(p):
    return all(c > 0 and all(e % 2 == 0 for a, e in m) for m, c in p.d.items())


class Z3Tr:
    def __init__(self, purify=False):
        self.purify = purify
        self.memo = {}
        self.ax = []
        self.atoms = {}
        self.pending = []
        self.funcs = {}
        self.bvars = set()

    def rv(self, fr):
        return z3.Q(fr.numerator, fr.denominator)

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        at = T.get_atom(a)
        if at.kind == "var":
            if at.sort == "I" and not self.purify:
                r = z3.Int(at.data[0])
            else:
                r = z3.Real(at.data[0])
            if at.data[0] == "PI":
                self.ax.append(r > z3.Q(314159265358979, 10**14))
                self.ax.append(r < z3.Q(314159265358980, 10**14))
        elif at.kind == "ite":
            c, x, y = at.data
            want_int = at.sort == "I" and not self.purify
            r = z3.If(self.b(c), self.poly(x, want_int), self.poly(y, want_int))
            if self.purify:
                v = z3.Real("ite!%d" % a)
                self.ax.append(v == r)
                r = v
        elif at.kind == "inv":
            r = z3.Real("inv!%d" % a)
            self.memo[a] = r
            q = self.poly(at.data[0])
            self.ax.append(z3.Implies(q != 0, q * r == 1))
        else:
            r = self.app(a, at)
        self.memo[a] = r
        if at.kind == "app":
            self.atoms[a] = (at, r)
        return r

    def app(self, a, at):
        fname, args = at.data
        real = fname in REALF
        if fname == "div":
            k = int(args[1].const())
            p = self.poly(args[0], not self.purify)
            r = z3.Real("div!%d" % a) if self.purify else z3.Int("div!%d" % a)
            self.ax.append(k * r <= p)
            self.ax.append(p <= k * r + (k - 1))
            return r
        if fname == "floor":
            p = self.poly(args[0])
            r = z3.Real("floor!%d" % a) if self.purify else z3.Int("floor!%d" % a)
            rr = r if self.purify else z3.ToReal(r)
            self.ax.append(rr <= p)
            self.ax.append(p < rr + 1)
            return r
        zs = [self.poly(x, not real and not self.purify) for x in args]
        if self.purify:
            r = z3.Real("%s!%d" % (fname, a))
        else:
            ret = z3.IntSort() if at.sort == "I" else z3.RealSort()
            key = (fname, len(zs))
            f = self.funcs.get(key)
            if f is None:
                f = z3.Function(fname, *([z3.RealSort() if real else z3.IntSort()] * len(zs)), ret)
                self.funcs[key] = f
            r = f(*zs)
        x = zs[0] if zs else None
        if fname == "sqrt":
            self.ax += [r >= 0, r * r == x if _sumsq(args[0]) else z3.Implies(x >= 0, r * r == x)]
        elif fname == "abs":
            self.ax.append(r == z3.If(x >= 0, x, -x))
        elif fname == "exp":
            self.ax += [r > 0, z3.Implies(x <= 0, r <= 1), z3.Implies(x >= 0, r >= 1), z3.Implies(x < 0, r < 1)]
        elif fname in ("sin", "cos"):
            self.ax += [r <= 1, r >= -1]
        elif fname == "arccos":
            pi = self.atom(T._pi_atom().id)
            self.ax += [r >= 0, r <= pi, z3.Implies(x > 0, r < pi / 2), z3.Implies(x < 0, r > pi / 2), z3.Implies(x < 1, r > 0), z3.Implies(x > -1, r < pi)]
        elif fname == "arcsin":
            pi = self.atom(T._pi_atom().id)
            self.ax += [r >= -pi / 2, r <= pi / 2, z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0), z3.Implies(x == 0, r == 0),
                        z3.Implies(z3.And(x <= z3.Q(1, 2), x >= z3.Q(-1, 2)), z3.And(r <= pi / 6, r >= -pi / 6)), z3.Implies(x >= 0, r >= x)]
        return r

    def finish(self):
        """Axioms relating several applications."""
        # an unknown string equals at most one literal; an empty string is not non-empty
        lits = {}
        for b in self.bvars:
            m = re.match(r"([^=']*)==('.*)$", b)
            if m:
                lits.setdefault(m.group(1), []).append((m.group(2), b))
        for nm, bs in lits.items():
            for i in range(len(bs)):
                for j in range(i):
                    self.ax.append(z3.Not(z3.And(z3.Bool(bs[i][1]), z3.Bool(bs[j][1]))))
                if "nonempty:" + nm in self.bvars:
                    ne_ = z3.Bool("nonempty:" + nm)
                    self.ax.append(z3.Implies(z3.Bool(bs[i][1]), ne_ if bs[i][0] != "''" else z3.Not(ne_)))
        by = {}
        for a, (at, r) in list(self.atoms.items()):
            by.setdefault(at.data[0], []).append((at, r))
        sins = {at.data[1][0]: r for at, r in by.get("sin", [])}
        coss = {at.data[1][0]: r for at, r in by.get("cos", [])}
        pi = None
        if sins or coss:
            pi = self.atom(T._pi_atom().id)
        for x in list(coss):
            if x not in sins:
                continue
            self.ax.append(sins[x] * sins[x] + coss[x] * coss[x] == 1)
        for x, s in sins.items():
            zx = self.poly(x)
            self.ax.append(z3.Implies(z3.And(zx > 0, zx < pi), s > 0))
            self.ax.append(z3.Implies(z3.And(zx > -pi, zx < 0), s < 0))
            self.ax.append(z3.Implies(zx > 0, s < zx))
            self.ax.append(z3.Implies(zx == 0, s == 0))
        for x, c in coss.items():
            zx = self.poly(x)
            self.ax.append(z3.Implies(z3.And(zx > -pi / 2, zx < pi / 2), c > 0))
        xs = list(sins)
        if len(xs) <= 8:
            for i in range(len(xs)):
                for j in range(len(xs)):
                    if i != j:
                        a, b = self.poly(xs[i]), self.poly(xs[j])
                        self.ax.append(z3.Implies(z3.And(a >= -pi / 2, b <= pi / 2, a < b), sins[xs[i]] < sins[xs[j]]))
        for at, r in by.get("arcsin", []):
            u = self.poly(at.data[1][0])
            for x, sv in list(sins.items())[:8]:
                zx = self.poly(x)
                rng = z3.And(zx >= -pi / 2, zx <= pi / 2)
                self.ax.append(z3.Implies(z3.And(rng, u < sv), r < zx))
                self.ax.append(z3.Implies(z3.And(rng, u > sv), r > zx))
                self.ax.append(z3.Implies(z3.And(rng, u == sv), r == zx))
        ex = by.get("exp", [])
        if 1 < len(ex) <= 6:
            for i in range(len(ex)):
                for j in range(len(ex)):
                    if i != j:
                        a, b = self.poly(ex[i][0].data[1][0]), self.poly(ex[j][0].data[1][0])
                        self.ax.append(z3.Implies(a < b, ex[i][1] < ex[j][1]))
        if self.purify:
            # congruence
            for fname, lst in by.items():
                if fname in ("div", "floor") or len(lst) > 12:
                    continue
                for i in range(len(lst)):
                    for j in range(i):
                        A, Bq = lst[i][0].data[1], lst[j][0].data[1]
                        diff = [p - q for p, q in zip(A, Bq)]
                        if any(d.is_const() and d.const() != 0 for d in diff):
                            continue
                        self.ax.append(z3.Implies(z3.And(*[self.poly(p) == self.poly(q) for p, q in zip(A, Bq)]), lst[i][1] == lst[j][1]))

    def poly(self, p, want_int=False):
        if want_int:
            ts = []
            for m, c in p.d.items():
                t = z3.IntVal(int(c)) if not m or c != 1 else None
                assert c.denominator == 1, p
                for a, e in m:
                    x = self.atom(a)
                    if not z3.is_int(x):
                        x = z3.ToInt(x)
                    for _ in range(e):
                        t = x if t is None else t * x
                ts.append(t)
            return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.IntVal(0)
        ts = []
        for m, c in p.d.items():
            t = self.rv(c) if not m or c != 1 else None
            for a, e in m:
                x = self.atom(a)
                if z3.is_int(x):
                    x = z3.ToReal(x)
                if e < 0:
                    key = ("neg", a)
                    y = self.memo.get(key)
                    if y is None:
                        y = z3.Real("rec!%d" % a)
                        self.memo[key] = y
                        self.ax.append(z3.Implies(x != 0, x * y == 1))
                    x, e = y, -e
                for _ in range(e):
                    t = x if t is None else t * x
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)

    def b(self, x):
        if x.op == "const":
            return z3.BoolVal(x.args[0])
        if x.op == "bvar":
            self.bvars.add(x.args[0])
            return z3.Bool(x.args[0])
        if x.op in ("eq", "lt", "le"):
            p = x.args[0]
            den = 1
            if not self.purify and all(T.get_atom(a).sort == "I" and e > 0 for m in p.d for a, e in m):
                for c in p.d.values():
                    den = den * c.denominator // math.gcd(den, c.denominator)
                q = self.poly(p * den, True)
                zero = z3.IntVal(0)
            else:
                q = self.poly(p)
                zero = z3.RealVal(0)
            return q == zero if x.op == "eq" else q < zero if x.op == "lt" else q <= zero
        if x.op == "not":
            return z3.Not(self.b(x.args[0]))
        if x.op == "and":
            return z3.And(*[self.b(a) for a in x.args])
        if x.op == "or":
            return z3.Or(*[self.b(a) for a in x.args])
        raise ValueError(x.op)


import math


class LinTr(Z3Tr):
    """Products and reciprocals as uninterpreted functions with the rules of signs: what is proved holds for
    multiplication in particular."""

    def __init__(self):
        Z3Tr.__init__(self)
        R = z3.RealSort()
        self.mul = z3.Function("mul", R, R, R)
        self.rec = z3.Function("rec", R, R)
        self.seen = set()

    def atom(self, a):
        r = self.memo.get(a)
        if r is None and T.get_atom(a).kind == "inv":
            r = self.recip(self.poly(T.get_atom(a).data[0]))
            self.memo[a] = r
            return r
        return Z3Tr.atom(self, a)

    def recip(self, x):
        r = self.rec(x)
        if r.get_id() not in self.seen:
            self.seen.add(r.get_id())
            self.keep = getattr(self, "keep", []) + [r]
            self.ax += [z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0)]
        return r

    def times(self, x, y):
        r = self.mul(x, y)
        if r.get_id() not in self.seen:
            self.seen.add(r.get_id())
            self.keep = getattr(self, "keep", []) + [r]
            same, opp = z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)), z3.Or(z3.And(x > 0, y < 0), z3.And(x < 0, y > 0))
            self.ax += [same == (r > 0), opp == (r < 0)]
            for u, v, w in ((x, y, lambda q: self.mul(x, q)), (y, x, lambda q: self.mul(q, y))):
                if z3.is_app(v) and v.decl().name() == "abs" and v.num_args() == 1:
                    self.ax.append(r == z3.If(v.arg(0) >= 0, w(v.arg(0)), -w(v.arg(0))))
        return r

    def poly(self, p, want_int=False):
        if want_int:
            return Z3Tr.poly(self, p, True)
        ts = []
        for m, c in p.d.items():
            fs = []
            for a, e in m:
                x = self.atom(a)
                if z3.is_int(x):
                    x = z3.ToReal(x)
                if e < 0:
                    x, e = self.recip(x), -e
                fs += [x] * e
            if not fs:
                ts.append(self.rv(c))
                continue
            t = fs[0]
            for x in fs[1:]:
                t = self.times(t, x)
            ts.append(t if c == 1 else self.rv(c) * t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)


LINEAR_OK = {"div", "floor", "abs", "nonfinite"}


def linear_check(fs, timeout_ms):
    """unsat when the facts contradict each other whatever multiplication of numbers is."""
    for f in fs:
        for at in atoms_deep(f).values():
            if at.kind == "app" and at.data[0] in REALF and at.data[0] not in LINEAR_OK:
                return "unknown"
    tr = LinTr()
    try:
        zs = [tr.b(f) for f in fs]
        tr.finish()
    except (AssertionError, z3.Z3Exception):
        return "unknown"
    if not tr.seen:
        return "unknown"
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(zs)
    s.add(tr.ax)
    try:
        r = s.check()
    except z3.Z3Exception:
        return "unknown"
    return "unsat" if r == z3.unsat else "unknown"



def z3_check(fs, timeout_ms, purify=False, want_model=False, prefer=()):
    tr = Z3Tr(purify)
    zs = [tr.b(f) for f in fs]
    wish = [tr.b(f) for f in prefer]
    tr.finish()
    if purify:
        s = z3.Then(z3.With("simplify", som=False), "solve-eqs", "qfnra-nlsat").solver() if False else z3.Tactic("qfnra-nlsat").solver()
    else:
        s = z3.SimpleSolver() if False else z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(zs)
    s.add(tr.ax)
    try:
        r = s.check()
    except z3.Z3Exception:
        return "unknown", None, tr
    if r == z3.unsat:
        return "unsat", None, tr
    if r == z3.sat:
        m = None
        if want_model:
            m = s.model()
            t0 = time.time()
            s.set("timeout", 150)
            for w in wish:
                # more general values where the facts leave them open
                if time.time() - t0 > 0.6:
                    break
                if z3.is_true(m.eval(w)):
                    s.add(w)
                    continue
                s.push()
                s.add(w)
                if s.check() == z3.sat:
                    m = s.model()
                else:
                    s.pop()
        return "sat", m, tr
    return "unknown", None, tr


def cvc5_check(fs, timeout_ms):
    import subprocess, tempfile, os
    tr = Z3Tr(False)
    zs = [tr.b(f) for f in fs]
    tr.finish()
    s = z3.Solver()
    s.add(zs)
    s.add(tr.ax)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as fh:
            fh.write(txt)
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, path], capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
        o = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        return o if o in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(path)


class Stats:
    def __init__(self):
        self.time = 0.0
        self.calls = 0
        self.by = {}


STATS = Stats()
_cache = {}


def prove(facts, goal, timeout=4000, portfolio=True, want_model=True):
    """facts: list of B.  Returns Result('proved' | 'sat' | 'unknown', ...)."""
    t0 = time.time()
    if syntactic(goal) is True:
        return Result("proved", "normal-form", time.time() - t0)
    if goal in facts:
        return Result("proved", "hypothesis", time.time() - t0)
    key = (frozenset(facts), goal, portfolio)
    if key in _cache and (_cache[key].status == "proved" or not want_model or _cache[key].model is not None):
        return _cache[key]
    if goal.op == "and":
        worst = None
        for g in goal.args:
            r = prove(facts, g, timeout, portfolio, want_model)
            if r.status != "proved":
                r.secs = time.time() - t0
                return r
            worst = r if worst is None or r.backend not in ("normal-form", "hypothesis") else worst
        r = Result("proved", worst.backend, time.time() - t0)
        _cache[key] = r
        return r
    hyps = list(facts) + [bnot(goal)]
    ground, univ = ground_hyps(hyps)
    nuniv = len(univ)
    insts = instantiate(ground, univ)
    fs = ground + insts
    fs = [f for f in fs if not (f.op == "const" and f.args[0])]
    STATS.calls += 1
    res = None
    if portfolio and linear_check(fs, 1500) == "unsat":
        r, m, tr = "linear", None, None
    else:
        r, m, tr = z3_check(fs, timeout if not portfolio else min(timeout, 2500), want_model=want_model)
    if r == "linear":
        res = Result("proved", "z3-linear", time.time() - t0)
    elif r == "unsat":
        res = Result("proved", "z3", time.time() - t0)
    elif r == "sat":
        res = Result("sat", "z3", time.time() - t0, model=(m, tr), exact=nuniv == 0)
    elif portfolio:
        r2, m2, tr2 = z3_check(fs, timeout, purify=True, want_model=False)
        if r2 == "unsat":
            res = Result("proved", "z3-nlsat", time.time() - t0)
        else:
            r3 = cvc5_check(fs, timeout)
            if r3 == "unsat":
                res = Result("proved", "cvc5", time.time() - t0)
            elif timeout > 2500:
                r, m, tr = z3_check(fs, timeout, want_model=want_model)
                if r == "unsat":
                    res = Result("proved", "z3", time.time() - t0)
                elif r == "sat":
                    res = Result("sat", "z3", time.time() - t0, model=(m, tr), exact=nuniv == 0)
    if res is None:
        res = Result("unknown", "-", time.time() - t0)
    STATS.time += time.time() - t0
    STATS.by[res.backend] = STATS.by.get(res.backend, 0) + 1
    _cache[key] = res
    return res


def forget(facts, goal):
    """Drop what is remembered about a goal, so that it is tried again."""
    for g in goal.args if goal.op == "and" else (goal,):
        _cache.pop((frozenset(facts), g, True), None)
    _cache.pop((frozenset(facts), goal, True), None)


_feas = {}


def feasible(facts, timeout=600):
    """False only when the facts are contradictory."""
    key = frozenset(facts)
    if key in _feas:
        return _feas[key]
    if any(f.op == "const" and not f.args[0] for f in facts):
        _feas[key] = False
        return False
    t0 = time.time()
    ground, univ = ground_hyps(list(facts))
    insts = instantiate(ground, univ, rounds=2, cap=200)
    r, m, tr = z3_check(ground + insts, timeout)
    STATS.time += time.time() - t0
    _feas[key] = r != "unsat"
    return _feas[key]


def find_model(facts, extra=(), timeout=1500, prefer=()):
    ground, univ = ground_hyps(list(facts) + list(extra))
    insts = instantiate(ground, univ, rounds=2, cap=400)
    r, m, tr = z3_check(ground + insts, timeout, want_model=True, prefer=prefer)
    return (m, tr) if r == "sat" else None


def quick(facts, goal, timeout=500):
    """Cheap entailment used during symbolic execution."""
    if goal.op == "const":
        return goal.args[0]
    s = syntactic(goal)
    if s is True:
        return True
    if goal in facts:
        return True
    if int_linear(goal):
        # a comparison of indices: only comparisons of indices matter
        return _lin(frozenset(g for f in facts for g in int_facts(f)), goal)
    key = (frozenset(facts), goal)
    r = _quick.get(key)
    if r is None:
        r = _quick[key] = prove(facts, goal, timeout=timeout, portfolio=False, want_model=False).status == "proved"
    return r


_quick = {}


_ilin, _lin_cache = {}, {}


def int_linear(b):
    r = _ilin.get(b)
    if r is None:
        if b.op in ("lt", "le", "eq"):
            p = b.args[0]
            r = all(sum(e for _, e in m) <= 1 and all(T.get_atom(a).kind == "var" and e == 1 and T.get_atom(a).sort == "I" for a, e in m) for m in p.d)
        elif b.op in ("and", "or", "not"):
            r = all(int_linear(x) for x in b.args)
        else:
            r = b.op == "const"
        _ilin[b] = r
    return r


def int_facts(b):
    if b.op == "and":
        for x in b.args:
            yield from int_facts(x)
    elif int_linear(b):
        yield b


def _lin(fs, goal):
    key = (fs, goal)
    if key not in _lin_cache:
        t0 = time.time()
        STATS.calls += 1
        _lin_cache[key] = z3_check(list(fs) + [bnot(goal)], 500)[0] == "unsat"
        STATS.time += time.time() - t0
    return _lin_cache[key]
