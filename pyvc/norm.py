"""Contexts (hypotheses), normal forms and the proof procedure.

Normal form: indicator polynomials.  A term is a polynomial (rational coefficients) over atoms raised to
rational exponents; an if-then-else is I(c)*a + (1-I(c))*b with idempotent indicator atoms; a sum over a range
is a difference of formal prefix sums S(hi)-S(lo) of a canonical body.  z3 decides conditions and what is left."""
from fractions import Fraction
import functools, itertools, math, time
import z3
from .terms import *
from . import terms as T

F0, F1 = Fraction(0), Fraction(1)


class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.norm_zero = 0
        self.z3_proved = 0
        self.cvc5_proved = 0
        self.struct = 0
        self.undef = {}
        self.queries_max = 0.0


STATS = Stats()


class Give(Exception):
    pass


# ------------------------------------------------------------------ polynomials
def pconst(c):
    return {(): Fraction(c)} if c else {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + c * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mono_mul(m1, m2, note=None):
    if not m1: return m2
    if not m2: return m1
    d = {}
    for a, e in m1: d[a] = e
    for a, e in m2:
        if a in d:
            if a.op == "ind": continue
            s = d[a] + e
            if (d[a] < 0) != (e < 0) and note is not None: note(a)
            if s == 0: del d[a]
            else: d[a] = s
        else: d[a] = e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


MAXMONO = 6000


def pmul(a, b, note=None):
    if len(a) * len(b) > MAXMONO * 20: raise Give("polynomial too large")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2, note)
            v = r.get(m, F0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    if len(r) > MAXMONO: raise Give("polynomial too large")
    return r


def patom(a, e=F1):
    return {((a, Fraction(e)),): F1}


def mono_term(m, c=F1):
    r = None
    sortI = all(a.sort == "I" and e > 0 for a, e in m) and c.denominator == 1
    if c != 1 or not m: r = C(c)
    for a, e in m:
        x = a
        if a.op == "ind": x = ite(a.args[0], ONE, ZERO)
        elif a.op == "P": x = a.args[0]
        if e != 1:
            if e.denominator == 1: x = power(x, int(e))
            elif a.op == "exp": x = mk("exp", (mul(C(e), a.args[0]),), "R")
            else: x = mk("powq", (x, C(e)), "R")
        r = x if r is None else mul(r, x)
    return r


def pterm(p):
    if not p: return ZERO
    ms = sorted(p.items(), key=lambda kv: tuple((a.id, e) for a, e in kv[0]))
    r = None
    for m, c in ms:
        t = mono_term(m, c)
        r = t if r is None else add(r, t)
    return r


def pvars_dep(m, v):
    dep, ind = [], []
    for ae in m:
        (dep if v in ae[0].fv else ind).append(ae)
    return tuple(dep), tuple(ind)


def is_int_poly(p):
    return all(c.denominator == 1 for c in p.values()) and all(a.sort == "I" and e.denominator == 1 and e > 0 for m in p for a, e in m)


def binder_height(ts):
    h = 0
    seen = set()
    for t in ts:
        for x in subterms(t, seen):
            if x.op == "msum":
                for v, u in x.args[0]: h = max(h, _h(v))
            elif x.op in BINDERS: h = max(h, _h(x.args[0]))
            elif x.op == "lam":
                for v in x.args[0]: h = max(h, _h(v))
    return h


def _h(v):
    n = v.args[0]
    return int(n[1:]) if n[0] == "#" else 0


def canon_var(h, sort="I"):
    return var(f"#{h}", sort)


def is_bound_name(v):
    return v.args[0][0] == "#"


_asserting = set()
_depth = 0
_binders = {}


def has_binder(t):
    r = _binders.get(t)
    if r is None: r = _binders[t] = any(x.op in ("exists", "sum", "max", "msum", "prod") for x in subterms(t))
    return r


# ------------------------------------------------------------------ contexts
class Root:
    """facts that hold in every context of one proof"""
    def __init__(self):
        self.app_facts = {}      # name -> f(args) -> [Bool terms]
        self.smooth = {}
        self.derivs = {}         # opaque functions with a given derivative: name -> (argument position, derivative)
        self.defs = {}           # name -> f(args) -> Term
        self.schemas = []        # (vars, guard, body, patterns)
        self.by_name = {}
        self.msum_rules = []     # f(atom, ctx) -> Term|None
        self.atom_fact_cache = {}
        self.z3cache = {}
        self.deadline = None
        self.gen = 0


class Ctx:
    def __init__(self, root, parent=None, facts=(), schemas=()):
        self.root = root
        self.parent = parent
        self.facts = (parent.facts if parent else ()) + tuple(facts)
        self.schemas = (parent.schemas if parent else ()) + tuple(schemas)
        self.memo = {}
        self.bmemo = {}
        self.kids = {}
        self.decided = {}
        self._incons = None
        self.gen = root.gen
        self.subs = parent.subs if parent else {}
        for f in facts:
            if f.op in ("eq0", "req0"): self._orient(f)

    def _orient(self, f):
        """equation fact -> rewrite rule atom := rest"""
        try: p = self.norm(f.args[0])
        finally: self.memo, self.bmemo = {}, {}
        best = None
        for m, c in p.items():
            if len(m) != 1 or m[0][1] != 1: continue
            a = m[0][0]
            if a.op not in ("var", "app") or any(is_bound_name(v) for v in a.fv): continue
            if a.sort == "I" and c not in (1, -1): continue
            rest = {n: -d / c for n, d in p.items() if n != m}
            if any(is_bound_name(v) for n in rest for x, _ in n for v in x.fv): continue
            if any(x.op == "P" for n in rest for x, _ in n): continue
            if any(y is a for n in rest for x, _ in n for y in T.subterms(x)): continue
            if a.sort == "I" and not is_int_poly(rest): continue
            k = (a.op == "app" if not rest or () in rest and len(rest) == 1 else a.op == "var", a.id)
            if best is None or k > best[0]: best = (k, a, pterm(rest))
        if best:
            self.subs = {**self.subs, best[1]: best[2]}

    # -- construction
    def child(self, *conds):
        """context with extra boolean hypotheses"""
        key = tuple(c.id for c in conds)
        k = self.kids.get(key)
        if k is not None and k.gen == self.root.gen: return k
        facts, schemas = [], []
        ctx = self
        for c in conds:
            self._split(c, facts, schemas)
        facts = [f for f in facts if f not in self.facts]
        if FALSE in facts:
            k = Ctx(self.root, self, facts, schemas)
            k._incons = True
        elif not facts and not schemas:
            k = self
        else:
            k = Ctx(self.root, self, facts, schemas)
        self.kids[key] = k
        return k

    def _split(self, c, facts, schemas):
        c = self.nb(c)
        if c is TRUE: return
        if c.op == "and":
            for x in c.args: self._split(x, facts, schemas)
            return
        if c.op == "exists":
            v, lo, hi, body = c.args
            w = fresh("w")
            for x in (le(lo, w), lt(w, hi), subst(body, {v: w})):
                self._split(x, facts, schemas)
            facts.append(c)
            return
        if c.op == "not" and c.args[0].op == "exists":
            v, lo, hi, body = c.args[0].args
            vs, gs = (v,), (le(lo, v), lt(v, hi))
            while body.op == "exists":
                w, l2, h2, body = body.args
                vs, gs = vs + (w,), gs + (le(l2, w), lt(w, h2))
            schemas.append(make_schema(vs, gs, lnot(body)))
            facts.append(c)
            return
        if c.op == "not" and c.args[0].op == "or":
            for x in c.args[0].args: self._split(lnot(x), facts, schemas)
            return
        facts.append(c)

    def assume_forall(self, vs, guards, body):
        """global schema"""
        s = make_schema(tuple(vs), tuple(guards), body)
        self.root.schemas.append(s)
        self.root.gen += 1

    # -- boolean canonical form
    def nb(self, c):
        r = self.bmemo.get(c)
        if r is not None: return r
        r = self._nb(c)
        self.bmemo[c] = r
        return r

    def _nb(self, c):
        op = c.op
        if op == "c": return c
        if op == "and": return land(*[self.nb(x) for x in c.args])
        if op == "or": return lor(*[self.nb(x) for x in c.args])
        if op == "not": return lnot(self.nb(c.args[0]))
        if op == "lt": return self._cmp(padd(self.norm(c.args[1]), self.norm(c.args[0]), -1), True)
        if op == "le": return lnot(self._cmp(padd(self.norm(c.args[0]), self.norm(c.args[1]), -1), True))
        if op == "eq": return self._eq(padd(self.norm(c.args[1]), self.norm(c.args[0]), -1))
        if op in ("ge0",): return lnot(self._cmp(pscale(self.norm(c.args[0]), -1), True))
        if op == "rgt0": return self._cmp(self.norm(c.args[0]), True)
        if op in ("eq0", "req0"): return self._eq(self.norm(c.args[0]))
        if op == "app":
            if c.args[0] in self.root.defs:
                return self.nb(self.root.defs[c.args[0]](c.args[1:]))
            return mk("app", (c.args[0],) + tuple(self.narg(a) for a in c.args[1:]), "B")
        if op == "exists":
            v, lo, hi, body = c.args
            lo, hi = self.nterm(lo), self.nterm(hi)
            ch = self.child(le(lo, v), lt(v, hi))
            b = ch.nb(body)
            if b is FALSE: return FALSE
            if v not in b.fv:
                return land(b, self.nb(lt(lo, hi)))
            if b.op == "or":
                return lor(*[self.nb(mk("exists", (v, lo, hi, x), "B")) for x in b.args])
            # equality conjunct  v == e : instantiate
            conj = b.args if b.op == "and" else (b,)
            for x in conj:
                if x.op == "eq0":
                    e = solve_for(self.norm(x.args[0]), v)
                    if e is not None:
                        e = pterm(e)
                        return self.nb(land(le(lo, e), lt(e, hi), subst(b, {v: e})))
            out = [x for x in conj if v not in x.fv]
            inn = land(*[x for x in conj if v in x.fv])
            h = binder_height([inn]) + 1
            nv = canon_var(h)
            inn = self.child(le(lo, nv), lt(nv, hi)).nb(subst(inn, {v: nv}))
            return land(mk("exists", (nv, lo, hi, inn), "B"), *out)
        if op == "ite":
            return self.nb(lor(land(c.args[0], c.args[1]), land(lnot(c.args[0]), c.args[2])))
        if op == "var": return c
        raise Unsupported("bool op " + op)

    def _strip_ind(self, p, k):
        """boolean of a comparison whose polynomial holds indicators: split on them"""
        for m in p:
            for a, e in m:
                if a.op == "ind":
                    b = a.args[0]
                    p1 = set_ind(p, a, 1)
                    p0 = set_ind(p, a, 0)
                    return lor(land(b, k(p1)), land(lnot(b), k(p0)))
        return None

    def _cmp(self, p, strict):
        """0 < p"""
        r = self._strip_ind(p, lambda q: self._cmp(q, strict))
        if r is not None: return r
        if not p: return FALSE
        if len(p) == 1 and () in p: return C(p[()] > 0)
        den = math.lcm(*[c.denominator for c in p.values()])
        if den != 1: p = pscale(p, den)
        if is_int_poly(p):
            # p >= 1
            const = p.get((), F0) - 1
            rest = {m: c for m, c in p.items() if m != ()}
            g = math.gcd(*[int(c) for c in rest.values()])
            lead = max(rest, key=_mkey)
            if rest[lead] > 0:
                q = {m: c / g for m, c in rest.items()}
                k = Fraction(math.floor(const / g))
                if k: q[()] = k
                return mk("ge0", (pterm(q),), "B")
            # not (-p + 1 - 1 >= 0)  i.e. not(-rest - const - 1 >= 0)
            q = {m: -c / g for m, c in rest.items()}
            k = Fraction(math.floor((-const - 1) / g))
            if k: q[()] = k
            return lnot(mk("ge0", (pterm(q),), "B"))
        p = self._clear_positive(p)
        if len(p) == 1 and () in p: return C(p[()] > 0)
        g = max(p.items(), key=lambda kv: _mkey(kv[0]))[1]
        p = pscale(p, 1 / abs(g))
        return mk("rgt0", (pterm(p),), "B")

    def _clear_positive(self, p):
        """divide by the positive common monomial factor"""
        if len(p) == 0: return p
        common = None
        for m in p:
            d = {a: e for a, e in m if a.op != "ind"}
            if common is None: common = d
            else:
                common = {a: min(common.get(a, F0), d.get(a, F0)) for a in set(common) | set(d)}
        common = {a: e for a, e in common.items() if e != 0 and self.known_positive(a)}
        if common:
            p = pmul(p, {tuple(sorted(((a, -e) for a, e in common.items()), key=lambda x: x[0].id)): F1})
        return p

    def _eq(self, p):
        r = self._strip_ind(p, self._eq)
        if r is not None: return r
        if not p: return TRUE
        if len(p) == 1 and () in p: return FALSE
        den = math.lcm(*[c.denominator for c in p.values()])
        q = pscale(p, den) if den != 1 else p
        if is_int_poly(q):
            rest = {m: c for m, c in q.items() if m != ()}
            g = math.gcd(*[int(c) for c in rest.values()])
            if q.get((), F0) % g: return FALSE
            lead = max(rest, key=_mkey)
            k = Fraction(g if rest[lead] > 0 else -g)
            return mk("eq0", (pterm(pscale(q, 1 / k)),), "B")
        p = self._clear_positive(p)
        if len(p) == 1 and () in p: return FALSE
        lead = max(p, key=_mkey)
        return mk("req0", (pterm(pscale(p, 1 / p[lead])),), "B")

    # -- numeric normal form
    def narg(self, a):
        if not isinstance(a, Term): return a
        if a.sort == "B": return self.nb(a)
        if a.op == "lam":
            vs, body = a.args
            h = binder_height([body])
            nvs = tuple(canon_var(h + 1 + i) for i in range(len(vs)))
            b = subst(body, dict(zip(vs, nvs)))
            return mk("lam", (nvs, self.nb(b) if b.sort == "B" else self.nterm(b)), a.sort)
        return self.nterm(a)

    def nterm(self, t):
        if t.op == "c": return mk("c", t.args, "I") if t.sort == "R" and t.args[0].denominator == 1 else t
        if t.op in ("pinf", "ninf", "nan"): return t
        if t.special:
            return map_fin(t, self.nterm, self)
        r = pterm(self.norm(t))
        if t.sort == "R" and r.sort == "I" and r.op == "c": return r
        return r

    def norm(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        if self.root.deadline and time.time() > self.root.deadline: raise Give("deadline")
        r = self._norm(t)
        self.memo[t] = r
        return r

    def note(self, a):
        key = (a.id, self)
        if a.op in ("exp",): return
        u = STATS.undef
        if a in u: return
        u[a] = None
        ok = self.known_positive(a) or self.prove_nonzero(a)
        u[a] = ok

    def prove_nonzero(self, a):
        t = a.args[0] if a.op == "P" else a
        return self.decide(eq(t, ZERO)) is False

    def _norm(self, t):
        op = t.op
        if op == "c":
            v = t.args[0]
            if isinstance(v, bool): v = int(v)
            return pconst(v)
        if op == "var":
            r = self.subs.get(t)
            return patom(t) if r is None else self.norm(r)
        if op == "add": return padd(self.norm(t.args[0]), self.norm(t.args[1]))
        if op == "mul":
            a = self.norm(t.args[0])
            if not a: return {}
            return pmul(a, self.norm(t.args[1]), self.note)
        if op == "ite":
            c, a, b = t.args
            d = self.decide(c)
            if d is True: return self.norm(a)
            if d is False: return self.norm(b)
            cb = self.nb(c)
            ca, cb_ = self.child(cb), self.child(lnot(cb))
            pa = ca.norm(a) if _nontrivial(a) else self.norm(a)
            pb = cb_.norm(b) if _nontrivial(b) else self.norm(b)
            if pa == pb: return pa
            i = self.indpoly(cb)
            return padd(pmul(i, pa), padd(pb, pmul(i, pb), -1))
        if op == "inv":
            p = self.norm(t.args[0])
            self.learn_pos(t.args[0], p)
            return self.ninv(p)
        if op == "exp": return self.nexp(self.norm(t.args[0]))
        if op == "log":
            p = self.norm(t.args[0])
            self.learn_pos(t.args[0], p)
            return self.nlog(p)
        if op == "sqrt": return self.npowq(self.norm(t.args[0]), Fraction(1, 2))
        if op == "powq":
            q = t.args[1]
            return self.npowq(self.norm(t.args[0]), q.args[0])
        if op == "sum":
            return self.nsum(*t.args)
        if op == "msum":
            r = self.msum_apply(t)
            if r is not None: return r
            bs, body = t.args
            ch = self
            r = body
            # re-normalise (context may decide more): nested formal sums
            return self.renorm_msum(t)
        if op == "max":
            return self.nmax(t)
        if op == "app":
            name = t.args[0]
            d = self.root.defs.get(name)
            if d is not None: return self.norm(d(t.args[1:]))
            a = mk("app", (name,) + tuple(self.narg(x) for x in t.args[1:]), t.sort)
            if self.root.app_rules.get(name) if hasattr(self.root, "app_rules") else None:
                r = self.root.app_rules[name](a, self)
                if r is not None: return self.norm(r)
            r = self.subs.get(a)
            return patom(a) if r is None else self.norm(r)
        if op == "pow":
            b, k = t.args
            bp, kp = self.norm(b), self.norm(k)
            kc = kp.get((), F0)
            if kp == pconst(kc) and kc.denominator == 1 and 0 <= kc <= 12:
                r = pconst(1)
                for _ in range(int(kc)): r = pmul(r, bp, self.note)
                return r
            rest = {m: c for m, c in kp.items() if m != ()}
            r = patom(mk("pow", (pterm(bp), pterm(rest)), t.sort))
            if kc.denominator == 1 and 0 < kc <= 8:
                for _ in range(int(kc)): r = pmul(r, bp, self.note)
            elif kc:
                r = patom(mk("pow", (pterm(bp), pterm(kp)), t.sort))
            return r
        if op == "ind":
            return self.indpoly(self.nb(t.args[0]))
        if op == "P":
            return self.norm(t.args[0])
        if op in ("pinf", "ninf", "nan"):
            raise Unsupported("extended real in a finite position")
        if op == "guard":
            raise Unsupported("guard outside max")
        # uninterpreted unary etc.
        return patom(mk(op, tuple(self.narg(x) if isinstance(x, Term) else x for x in t.args), t.sort))

    def learn_pos(self, t, p):
        """t (raw) is structurally positive: so is the canonical factor P of its normal form"""
        if len(p) < 2 or self.tsign(t) != 2: return
        for q in self.ind_cases(p):
            if len(q) < 2: continue
            z = self.common_den(q)
            if isinstance(z, tuple):
                if not self.pos(z[1]): continue
                q = z[0]
                if len(q) < 2: continue
            c, mono, rest = self.content(q)
            if all(self.known_positive(a) for a, e in mono) and rest != pconst(1):
                a = self.P(rest)
                if c > 0: self.decided[("pos", a)] = True

    def ind_cases(self, p, n=0):
        for m in p:
            for a, e in m:
                if a.op == "ind":
                    if n > 6: return
                    yield from self.ind_cases(set_ind(p, a, 1), n + 1)
                    yield from self.ind_cases(set_ind(p, a, 0), n + 1)
                    return
        yield p

    def tsign(self, t):
        """structural sign of a raw term: 2 positive, 1 nonneg, 0 unknown"""
        if t.special: return 0
        key = ("ts", t)
        r = self.decided.get(key)
        if r is None:
            r = self._tsign(t)
            self.decided[key] = r
        return r

    def _tsign(self, t):
        op = t.op
        if op == "c":
            return 2 if t.args[0] > 0 else 1 if t.args[0] == 0 else 0
        if op == "exp": return 2
        if op == "add":
            a, b = self.tsign(t.args[0]), self.tsign(t.args[1])
            return 0 if 0 in (a, b) else max(a, b)
        if op == "mul":
            if t.args[0] is t.args[1]: return max(1, self.tsign(t.args[0]))
            a, b = self.tsign(t.args[0]), self.tsign(t.args[1])
            return min(a, b)
        if op == "inv": return self.tsign(t.args[0])
        if op == "sqrt": return max(1, self.tsign(t.args[0]))
        if op == "ite":
            d = self.decide(t.args[0])
            if d is not None: return self.tsign(t.args[1 if d else 2])
            cb = self.nb(t.args[0])
            return min(self.child(cb).tsign(t.args[1]), self.child(lnot(cb)).tsign(t.args[2]))
        if op == "sum":
            v, lo, hi, body = t.args
            nv = fresh("t")
            ch = self.child(le(lo, nv), lt(nv, hi))
            b = subst(body, {v: nv})
            s = ch.tsign(b)
            if s == 2: return 2 if self.decide(lt(lo, hi)) is True else 1
            if s == 1:
                # one provably positive entry
                d = self.decide(lt(lo, hi))
                if d is True:
                    for e in (lo, sub(hi, ONE)):
                        if self.tsign(subst(body, {v: e})) == 2: return 2
            return s
        if op in ("app", "var", "msum", "P", "powq", "pow", "max"):
            if self.known_positive(t): return 2
            return 1 if self.known_nonneg(t) else 0
        if op == "log":
            x = t.args[0]
            if x.op == "add" and any(isc(y) and cval(y) >= 1 for y in x.args) and self.tsign(x) == 2:
                o = [y for y in x.args if not (isc(y) and cval(y) >= 1)]
                if len(o) == 1: return self.tsign(o[0])
        return 0

    def indpoly(self, c):
        """indicator polynomial of a canonical boolean"""
        if c is TRUE: return pconst(1)
        if c is FALSE: return {}
        if c.op == "not": return padd(pconst(1), self.indpoly(c.args[0]), -1)
        if c.op == "and":
            r = pconst(1)
            for x in c.args: r = pmul(r, self.indpoly(x))
            return r
        if c.op == "or":
            r = pconst(1)
            for x in c.args:
                q = padd(pconst(1), self.indpoly(x), -1)
                r = pmul(r, q)
            return padd(pconst(1), r, -1)
        d = self.decide(c)
        if d is not None: return pconst(1) if d else {}
        return patom(mk("ind", (c,), "I"))

    def push_ind(self, p, k):
        for m in p:
            for a, e in m:
                if a.op == "ind":
                    b = a.args[0]
                    i = patom(a)
                    r1 = self.push_ind(set_ind(p, a, 1), k)
                    r0 = self.push_ind(set_ind(p, a, 0), k)
                    return padd(pmul(i, r1), padd(r0, pmul(i, r0), -1))
        return k(p)

    def ninv(self, p):
        return self.push_ind(p, self._ninv)

    def content(self, p):
        """p = coef * mono * rest, mono the gcd monomial (min exponents), rest with leading coef 1"""
        common = None
        for m in p:
            d = dict(m)
            if common is None: common = dict(d)
            else:
                for a in list(common):
                    e = min(common[a], d.get(a, F0))
                    if e == 0: del common[a]
                    else: common[a] = e
                for a, e in d.items():
                    if a not in common and e < 0: common[a] = e
        mono = tuple(sorted(common.items(), key=lambda x: x[0].id))
        invm = tuple((a, -e) for a, e in mono)
        rest = {}
        for m, c in p.items(): rest[mono_mul(m, invm)] = c
        lead = () if () in rest else max(rest, key=_mkey) if len(rest) > 1 else next(iter(rest))
        c = rest[lead]
        rest = pscale(rest, 1 / c)
        return c, mono, rest

    def _ninv(self, p):
        if not p: return patom(mk("inv0", (), "R"))
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / c}
        p = self.common_den(p)
        if isinstance(p, tuple):
            num, den = p
            return pmul(den, self._ninv(num), self.note)
        c, mono, rest = self.content(p)
        r = {tuple((a, -e) for a, e in mono): 1 / c}
        if rest == pconst(1): return r
        return pmul(r, patom(self.P(rest), -1))

    def P(self, rest):
        return mk("P", (pterm(rest),), "R")

    def common_den(self, p):
        """if p has polynomial denominators: (numerator, denominator-poly-as-P-monomials)"""
        need = {}
        for m in p:
            for a, e in m:
                if a.op == "P" and e < 0: need[a] = max(need.get(a, F0), -e)
        if not need: return p
        if any(e.denominator != 1 for e in need.values()): return p
        num = {}
        for m, c in p.items():
            d = dict(m)
            q = {(): c}
            rest = []
            mult = []
            for a, e in m:
                if a in need: continue
                rest.append((a, e))
            q = {tuple(rest): c}
            for a, k in need.items():
                e = k + d.get(a, F0)
                if e:
                    base = self.norm(a.args[0])
                    for _ in range(int(e)): q = pmul(q, base, self.note)
            num = padd(num, q)
        den = {tuple(sorted(((a, k) for a, k in need.items()), key=lambda x: x[0].id)): F1}
        den2 = pconst(1)
        for a, k in need.items():
            base = self.norm(a.args[0])
            for _ in range(int(k)): den2 = pmul(den2, base)
        return num, den2

    def nexp(self, p):
        return self.push_ind(p, self._nexp)

    def _nexp(self, p):
        p = self.simp_frac(p)
        out = {}
        for m, c in p.items():
            if m == ():
                a = mk("exp", (ONE,), "R")
                out[a] = out.get(a, F0) + c
            elif len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1 and self.known_positive(m[0][0].args[0]):
                q = self.npowq(self.norm(m[0][0].args[0]), c)
                if len(q) == 1 and q[next(iter(q))] == 1:
                    for a, e in next(iter(q)): out[a] = out.get(a, F0) + e
                else:
                    a = mk("exp", (mono_term(m),), "R")
                    rest = {mm: cc for mm, cc in p.items() if mm != m}
                    return pmul(q, self._nexp(rest), self.note)
            else:
                a = mk("exp", (mono_term(m),), "R")
                out[a] = out.get(a, F0) + c
        mono = tuple(sorted(((a, e) for a, e in out.items() if e), key=lambda x: x[0].id))
        return {mono: F1}

    def simp_frac(self, p):
        """merge polynomial denominators when that makes p simpler"""
        if not any(a.op == "P" and e < 0 for m in p for a, e in m): return p
        q = self.common_den(p)
        if isinstance(q, tuple):
            num, den = q
            if not num: return {}
            # exact division attempt: num = c * den
            r = poly_ratio(num, den)
            if r is not None: return r
            if len(num) == 1:
                return pmul(num, self._ninv(den), None)
        return p

    def npowq(self, p, q):
        if q.denominator == 1:
            k = int(q)
            if k < 0:
                p = self.ninv(p)
                k = -k
            r = pconst(1)
            for _ in range(k): r = pmul(r, p, self.note)
            return r
        return self.push_ind(p, lambda x: self._npowq(x, q))

    def _npowq(self, p, q):
        if not p: return {}
        pz = self.common_den(p)
        if isinstance(pz, tuple):
            num, den = pz
            if self.pos(den): return pmul(self._npowq(num, q), self._npowq(den, -q), self.note)
        c, mono, rest = self.content(p)
        if all(self.known_positive(a) for a, e in mono) and c > 0 and (rest == pconst(1) or self.pos(rest)):
            out = pconst(1)
            if mono: out = {tuple((a, e * q) for a, e in mono): F1}
            if c != 1:
                cq = _root(c, q)
                if cq is not None: out = pscale(out, cq)
                else: out = pmul(out, {((mk("P", (C(c),), "R"), q),): F1})
            if rest != pconst(1):
                out = pmul(out, {((self.P(rest), q),): F1})
            return self.expandP(out)
        return patom(mk("powq", (pterm(p), C(q)), "R"))

    def expandP(self, p):
        """positive integer powers of P atoms are expanded"""
        for m in p:
            for a, e in m:
                if a.op == "P" and e >= 1:
                    r = {}
                    for m2, c2 in p.items():
                        d = dict(m2)
                        q = {(): c2}
                        rest = []
                        for b, f in m2:
                            if b.op == "P" and f >= 1:
                                k = math.floor(f)
                                base = self.norm(b.args[0])
                                for _ in range(k): q = pmul(q, base)
                                f = f - k
                            if f: rest.append((b, f))
                        r = padd(r, pmul({tuple(rest): F1}, q))
                    return r
        return p

    def nlog(self, p):
        return self.push_ind(p, self._nlog)

    def _nlog(self, p):
        if not p: return patom(mk("log0", (), "R"))
        pz = self.common_den(p)
        if isinstance(pz, tuple):
            num, den = pz
            if self.pos(den):
                return padd(self._nlog(num), self._nlog(den), -1)
        c, mono, rest = self.content(p)
        r = {}
        keep = []
        for a, e in mono:
            if a.op == "exp": r = padd(r, pscale(self.norm(a.args[0]), e))
            elif self.known_positive(a):
                if a.op == "P": r = padd(r, pscale(patom(mk("log", (a.args[0],), "R")), e))
                else: r = padd(r, pscale(patom(mk("log", (a,), "R")), e))
            else: keep.append((a, e))
        if c > 0:
            if c != 1 and (rest != pconst(1) or keep):
                if not keep or True:
                    r = padd(r, self._logc(c))
                    c = F1
            elif c != 1:
                return padd(r, self._logc(c))
        q = pmul(pscale(rest, c), {tuple(keep): F1})
        if q != pconst(1):
            r = padd(r, patom(mk("log", (pterm(q),), "R")))
        return r

    def _logc(self, c):
        r = {}
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            k = 2
            while n > 1 and k < 1000:
                while n % k == 0:
                    r = padd(r, patom(mk("log", (C(k),), "R")), s)
                    n //= k
                k += 1
            if n > 1: r = padd(r, patom(mk("log", (C(n),), "R")), s)
        return r

    # -- sums
    def nsum(self, v, lo, hi, body):
        lop, hip = self.norm(lo), self.norm(hi)
        d = padd(hip, lop, -1)
        if not d: return {}
        if set(d) <= {()}:
            n = int(d[()])
            if n <= 0: return {}
            if n <= 9:
                if n > 1 and self.pins(v, body):
                    r = self.nsum_(v, lop, hip, body)
                    if not any(a.op == "msum" and any(T.isc(u) for _, u in a.args[0]) for m in r for a, e in m): return r
                r = {}
                for k in range(n):
                    r = padd(r, self.norm(subst(body, {v: add(pterm(lop), C(k))})))
                return r
        lot, hit = pterm(lop), pterm(hip)
        if self.facts:
            e = self.decide(lt(lot, hit))
            if e is False: return {}
            if e is True and self.decide(lt(add(lot, ONE), hit)) is False: return self.norm(subst(body, {v: lot if set(hip) <= {()} else pterm(padd(hip, {(): -1}))}))
        return self.nsum_(v, lop, hip, body)

    def pins(self, v, body):
        """a comparison of the summation variable inside a sum"""
        return any(x.op == "sum" and v in x.fv and any(y.op in ("eq", "eq0") and v in y.fv for y in T.subterms(x)) for x in T.subterms(body))

    def nsum_(self, v, lop, hip, body):
        lot, hit = pterm(lop), pterm(hip)
        nv = fresh("n")
        body = subst(body, {v: nv})
        v = nv
        ch = self.child(le(lot, v), lt(v, hit))
        p = ch.norm(body)
        r = {}
        for m, c in ch.reduce_inds(ch.apply_inds(p)).items():
            dep, ind = pvars_dep(m, v)
            q = None
            if not lop and any(a.op == "msum" for a, e in dep): q = self.pin_binder(*self.flatten(v, dep, hip))
            r = padd(r, pmul({ind: c}, self.S(v, lop, hip, dep) if q is None else q, self.note))
        return r

    def apply_inds(self, p):
        """use an indicator of a monomial inside the monomial's other factors"""
        out, hit = {}, False
        for m, c in p.items():
            q = None
            for a, _ in m:
                if a.op != "ind" or not _databool(a): continue
                if any(b.op not in ("ind", "msum") and a.args[0] in T.subterms(b) for b, _ in m):
                    ch = self.child(a.args[0])
                    q = pmul({((a, F1),): c}, ch.norm(mono_term(tuple(x for x in m if x[0] is not a))), self.note)
                    break
            if q is None: q = {m: c}
            else: hit = True
            out = padd(out, q)
        return self.apply_inds(out) if hit else out

    def reduce_inds(self, p):
        """drop indicators that another indicator of the monomial implies, drop monomials with exclusive indicators"""
        if not any(sum(1 for a, e in m if a.op == "ind") > 1 for m in p): return p
        out = {}
        for m, c in p.items():
            ids = [a for a, e in m if a.op == "ind"]
            drop, dead = set(), False
            if 1 < len(ids) <= 6 and any(_databool(a) for a in ids):
                for a in ids:
                    for b in ids:
                        if a is b or a in drop or b in drop or not (_databool(a) or _databool(b)): continue
                        d = self.child(a.args[0]).decide(b.args[0])
                        if d is True: drop.add(b)
                        elif d is False: dead = True; break
                    if dead: break
            if dead: continue
            m2 = tuple(x for x in m if x[0] not in drop)
            out = padd(out, {m2: c})
        return out

    def choose(self, a, b, which):
        """max/min of two integer polys decided in this context, or an undecided condition (a <= b)"""
        c = le(pterm(a), pterm(b))
        d = self.decide(c)
        if d is True: return b if which == "max" else a
        if d is False: return a if which == "max" else b
        return c

    def S(self, v, lo, hi, dep):
        """sum_{lo<=v<hi} dep   (polys lo, hi)"""
        for i, (a, e) in enumerate(dep):
            if a.op != "ind": continue
            b = a.args[0]
            rest = dep[:i] + dep[i + 1:]
            if b.op == "eq0":
                s = solve_for(self.norm(b.args[0]), v)
                if s is not None:
                    st = pterm(s)
                    cond = land(le(pterm(lo), st), lt(st, pterm(hi)))
                    body = subst(mono_term(rest), {v: st})
                    return self.norm(ite(cond, body, ZERO))
            if b.op == "ge0":
                L = self.norm(b.args[0])
                kv = lin_coef(L, v)
                if kv in (1, -1):
                    R = {m: c for m, c in L.items() if not (len(m) == 1 and m[0][0] is v)}
                    if kv == 1:   # v >= -R
                        e = pscale(R, -1)
                        n = self.choose(lo, e, "max")
                        if not isinstance(n, Term): return self.S(v, n, hi, rest)
                        alt = (self.S_in(n, v, e, hi, rest), self.S_in(lnot(n), v, lo, hi, rest))
                    else:         # v <= R
                        e = padd(R, pconst(1))
                        n = self.choose(hi, e, "min")
                        if not isinstance(n, Term): return self.S(v, lo, n, rest)
                        alt = (self.S_in(n, v, lo, hi, rest), self.S_in(lnot(n), v, lo, e, rest))
                    ip = self.indpoly(self.nb(n))
                    return padd(pmul(ip, alt[0]), padd(alt[1], pmul(ip, alt[1]), -1))
        lt_, ht = pterm(lo), pterm(hi)
        d = self.decide(le(lt_, ht))
        if d is False: return {}
        if d is None:
            cb = self.nb(le(lt_, ht))
            ch = self.child(cb)
            return pmul(self.indpoly(cb), padd(ch.PS(v, dep, hi), ch.PS(v, dep, lo), -1), self.note)
        return padd(self.PS(v, dep, hi), self.PS(v, dep, lo), -1)

    def S_in(self, cond, v, lo, hi, rest):
        ch = self.child(cond)
        if ch.inconsistent(): return {}
        return ch.S(v, lo, hi, rest)

    def PS(self, v, dep, U):
        """formal prefix sum of dep over v from 0 to U"""
        if not dep: return dict(U)
        if not U: return {}
        if len(dep) == 1 and dep[0][0] is v:
            e = dep[0][1]
            if e == 1:   # sum v = U(U-1)/2
                return pscale(pmul(U, padd(U, pconst(1), -1)), Fraction(1, 2))
        so = sym_offset(mono_term(dep), v)
        if so is not None:
            # every argument is v + so: sum over the arguments themselves
            body = self.norm(subst(mono_term(dep), {v: sub(v, so)}))
            c0 = self.norm(so)
            r = {}
            for m, c in body.items():
                dd, ii = pvars_dep(m, v)
                r = padd(r, pmul({ii: c}, padd(self.PS(v, dd, padd(U, c0)), self.PS(v, dd, c0), -1)))
            return r
        offs = offsets(mono_term(dep), v)
        k0 = min(offs) if offs else 0
        if k0 != 0:
            body = self.norm(subst(mono_term(dep), {v: sub(v, C(k0))}))
            U2 = padd(U, pconst(k0))
            r = {}
            for m, c in body.items():
                dd, ii = pvars_dep(m, v)
                r = padd(r, pmul({ii: c}, padd(self.PS(v, dd, U2), self.PS(v, dd, pconst(k0)), -1)))
            return r
        k = U.get((), F0)
        base = {m: c for m, c in U.items() if m != ()}
        r = {}
        bt = pterm(base)
        if abs(k) <= 9 and k.denominator == 1:
            f = mono_term(dep)
            for i in range(int(abs(k))):
                at = add(bt, C(i)) if k > 0 else add(bt, C(-1 - i))
                r = padd(r, self.norm(subst(f, {v: at})), 1 if k > 0 else -1)
            if not base: return r
            U = base
        return padd(r, self.mk_msum(v, dep, U))

    def flatten(self, v, dep, U):
        binders = [(v, pterm(U))]
        body = []
        for a, e in dep:
            if a.op == "msum" and e.denominator == 1 and e >= 1:
                for _ in range(int(e)):
                    bs, bd = a.args
                    ren = {w: fresh("n") for w, u in bs}
                    for w, u in bs: binders.append((ren[w], subst(u, ren)))
                    body.append(subst(bd, ren))
            else:
                body.append(mono_term(((a, e),)))
        return binders, body

    def mk_msum(self, v, dep, U):
        binders, body = self.flatten(v, dep, U)
        r = self.contract_inverse(binders, body)
        if r is not None: return r
        if len(binders) > 1:
            r = self.pin_binder(binders, body)
            if r is not None: return r
        bt = ONE
        for x in body: bt = mul(bt, x)
        return self.canon_msum(binders, bt)

    def pin_binder(self, binders, body):
        """an indicator of equality fixes one of the summation variables, whichever way the sums are nested"""
        fac = [x for f in body for x in _factors(f)]
        bvs = {w for w, u in binders}
        for k, a in enumerate(fac):
            if not (a.op == "ind" or a.op == "ite" and a.args[1] is ONE and a.args[2] is ZERO) or a.args[0].op != "eq0": continue
            for w, u in binders:
                if w not in a.fv or any(w in x.fv for _, x in binders) or u.fv & bvs: continue
                s = solve_for(self.norm(a.args[0].args[0]), w)
                if s is None or self.decide(le(ZERO, u)) is not True: continue
                st = pterm(s)
                if w in st.fv: continue
                e = ONE
                for x in fac[:k] + fac[k + 1:]: e = mul(e, subst(x, {w: st}))
                e = ite(land(le(ZERO, st), lt(st, u)), e, ZERO)
                for x, n in reversed([z for z in binders if z[0] is not w]): e = mk("sum", (x, ZERO, n, e), "R")
                STATS.pinned = getattr(STATS, "pinned", 0) + 1
                return self.norm(e)
        return None

    def contract_inverse(self, binders, body):
        """sum_d A(x,d) inv(A)(d,y) = [x = y]  (and the other order)"""
        at = []
        for f in body: at.extend(_factors(f))
        for k, a in enumerate(at):
            if a.op != "app" or a.args[0] != "matinv": continue
            L, n1, n2, i, j = a.args[1:]
            for q, (d, U) in enumerate(binders):
                if self.nterm(sub(U, n1)) is not ZERO or any(d in u.fv for _, u in binders): continue
                for k2, b in enumerate(at):
                    if k2 == k or d not in b.fv: continue
                    if any(d in x.fv for k3, x in enumerate(at) if k3 not in (k, k2)): continue
                    (r, c), body_ = L.args
                    pat = None
                    for side in (0, 1):
                        mine, other = (i, j) if side == 0 else (j, i)     # side 0: A(x,d) inv(d,j)
                        if mine is not d or d in other.fv: continue
                        for x in _args(b):
                            inst = subst(body_, {r: x, c: d}) if side == 0 else subst(body_, {r: d, c: x})
                            if self.nterm(inst) is self.nterm(b): pat = eq(x, other)
                    if pat is None: continue
                    rest = [x for k3, x in enumerate(at) if k3 not in (k, k2)]
                    e = ite(pat, ONE, ZERO)
                    for x in rest: e = mul(e, x)
                    for w, u in reversed([z for z in binders if z[0] is not d]): e = mk("sum", (w, ZERO, u, e), "R")
                    STATS.inverse_lemma = getattr(STATS, "inverse_lemma", 0) + 1
                    return self.norm(e)
        return None

    def canon_msum(self, binders, bt):
        """binders: (var, upper) in scope order"""
        bvs = [w for w, u in binders]
        # a binder's upper may mention earlier binders
        h = binder_height([bt] + [u for w, u in binders])
        best = None
        perms = itertools.permutations(range(len(binders))) if len(binders) <= 4 else [tuple(range(len(binders)))]
        for perm in perms:
            seen = set()
            ok = True
            for i in perm:
                w, u = binders[i]
                if any(x in u.fv and x not in seen for x in bvs): ok = False; break
                seen.add(w)
            if not ok: continue
            ren = {binders[i][0]: canon_var(h + 1 + k) for k, i in enumerate(perm)}
            ctx = self
            bs = []
            for i in perm:
                w, u = binders[i]
                u2 = ctx.nterm(subst(u, ren))
                bs.append((ren[w], u2))
                ctx = ctx.child(le(ZERO, ren[w]), lt(ren[w], u2))
            try:
                b2 = ctx.norm(subst(bt, ren))
            except Unsupported:
                raise
            if len(b2) == 1:
                (m, c), = b2.items()
                ind = tuple(x for x in m if not (x[0].fv & frozenset(ren.values())))
                dep = tuple(x for x in m if x[0].fv & frozenset(ren.values()))
                t = mk("msum", (tuple(bs), mono_term(dep)), "I" if bt.sort == "I" else "R")
                cand = (t, c, ind)
            else:
                t = mk("msum", (tuple(bs), subst(bt, ren)), "I" if bt.sort == "I" else "R")
                cand = (t, F1, ())
            if best is None or cand[0].id < best[0].id: best = cand
        t, c, ind = best
        r = self.msum_apply(t)
        if r is None: r = patom(t)
        return pmul({ind: c}, r)

    def renorm_msum(self, t):
        # a fact that mentions t is looked at while t itself is being normalised: t is canonical already
        act = self.root.__dict__.setdefault("active_msum", set())
        if t in act: return patom(t)
        act.add(t)
        try: return self._renorm_msum(t)
        finally: act.discard(t)

    def _renorm_msum(self, t):
        bs, body = t.args
        ren = {w: fresh("n") for w, u in bs}
        r = subst(body, ren)
        for w, u in reversed(bs):
            r = mk("sum", (ren[w], ZERO, subst(u, ren), r), r.sort) if ren[w] in r.fv else mul(subst(u, ren), r)
        if r.op == "sum":
            v, lo, hi, b = r.args
            # formal prefix sums: no emptiness indicator
            hip = self.norm(hi)
            ch = self.child(le(ZERO, v), lt(v, hi))
            p = ch.norm(b)
            out = {}
            for m, c in p.items():
                dep, ind = pvars_dep(m, v)
                if any(a.op == "ind" for a, e in dep):
                    q = self.S(v, {}, hip, dep)
                else:
                    q = self.PS(v, dep, hip)
                out = padd(out, pmul({ind: c}, q))
            return out
        return self.norm(r)

    def msum_apply(self, t):
        for f in self.root.msum_rules:
            r = f(t, self)
            if r is not None: return self.norm(r)
        return None

    def nmax(self, t):
        v, lo, hi, body = t.args
        lo, hi = self.nterm(lo), self.nterm(hi)
        nv = fresh("n")
        body = subst(body, {v: nv})
        ch = self.child(le(lo, nv), lt(nv, hi))
        if body.op == "guard":
            g = ch.nb(body.args[0])
            p = ch.child(g).norm(body.args[1])
            p = self.simp_guard(p, g)
        else:
            g = TRUE
            p = ch.norm(body)
        out = {m: c for m, c in p.items() if not any(nv in a.fv for a, e in m)}
        dep = {m: c for m, c in p.items() if m not in out}
        if not dep: return out
        # interval guards move into the range
        conj = g.args if g.op == "and" else ((g,) if g is not TRUE else ())
        left = []
        for x in conj:
            neg_, y = (True, x.args[0]) if x.op == "not" else (False, x)
            if y.op == "ge0":
                L = self.norm(y.args[0])
                kv = lin_coef(L, nv)
                if kv in (1, -1):
                    R = {m: c for m, c in L.items() if not (len(m) == 1 and m[0][0] is nv)}
                    # v*kv + R >= 0 ; negated: v*kv + R < 0
                    if (kv == 1) != neg_:
                        e = pscale(R, -1) if not neg_ else padd(R, pconst(1))
                        n = self.choose(self.norm(lo), e, "max")
                        if not isinstance(n, Term): lo = pterm(n); continue
                    else:
                        e = padd(R, pconst(1)) if not neg_ else pscale(R, -1)
                        n = self.choose(self.norm(hi), e, "min")
                        if not isinstance(n, Term): hi = pterm(n); continue
            left.append(x)
        g = land(*left)
        bt = pterm(dep)
        tops = getattr(self.root, "tops", None)
        if tops and g is TRUE and bt.op == "app" and bt.args[0] in tops and bt.args[1] is nv and lo is ZERO:
            n, top = tops[bt.args[0]]
            if self.nterm(n) is hi: return padd(out, self.norm(top))
        h = binder_height([bt, g]) + 1
        cv = canon_var(h)
        bt, g = subst(bt, {nv: cv}), subst(g, {nv: cv})
        b = bt if g is TRUE else mk("guard", (g, bt), bt.sort)
        return padd(out, patom(mk("max", (cv, lo, hi, b), t.sort)))

    def simp_guard(self, p, g):
        return p

    # -- signs
    def known_positive(self, a):
        """cheap positivity of an atom/term"""
        if a.op == "exp" or a.op == "app" and a.args[0] == "pi": return True
        if a.op == "c": return a.args[0] > 0
        if a.op == "ind": return False
        key = ("pos", a)
        r = self.decided.get(key)
        if not r:
            c = self.parent
            while c is not None:
                if c.decided.get(key): return True
                c = c.parent
        if r is None:
            self.decided[key] = False
            if a.op == "msum":
                r = self.msum_sign(a)[1]
                if not r: r = False
            elif a.op == "P": r = self.pos(self.norm(a.args[0])) or self.tsign(a.args[0]) == 2
            elif a.op == "powq":
                r = self.known_positive(a.args[0])
            elif a.op in ("app", "var", "pow", "max", "log"):
                r = self.decide(lt(ZERO, a)) is True
            elif a.op in ("add", "mul", "inv", "sum", "ite"):
                r = self.pos(self.norm(a))
            else: r = False
            self.decided[key] = r
        return r

    def known_nonneg(self, a):
        if a.op == "ind": return True
        if self.known_positive(a): return True
        if a.op == "msum": return self.msum_sign(a)[0]
        if a.op in ("app", "var"):
            key = ("nn", a)
            r = self.decided.get(key)
            if r is None:
                self.decided[key] = False
                r = self.decide(le(ZERO, a)) is True
                self.decided[key] = r
            return r
        if a.op == "powq": return True
        return False

    def msum_sign(self, a):
        """(nonneg, positive)"""
        key = ("ms", a)
        r = self.decided.get(key)
        if r is not None: return r
        self.decided[key] = (False, False)
        act = self.root.__dict__.setdefault("active_sign", set())
        if a in act:
            del self.decided[key]
            return (False, False)
        act.add(a)
        try: r = self._msum_sign(a)
        finally: act.discard(a)
        self.decided[key] = r
        return r

    def _msum_sign(self, a):
        bs, body = a.args
        ctx = self
        ren = {}
        nonneg, pos = True, True
        for w, u in bs:
            nw = fresh("n")
            u2 = subst(u, ren)
            ren[w] = nw
            if ctx.decide(le(ZERO, u2)) is not True: nonneg = pos = False; break
            if pos and ctx.decide(lt(ZERO, u2)) is not True: pos = False
            ctx = ctx.child(le(ZERO, nw), lt(nw, u2))
        if nonneg:
            p = ctx.norm(subst(body, ren))
            if not ctx.nonneg(p): nonneg = pos = False
            elif pos: pos = ctx.pos(p)
        return (nonneg, pos)

    def pos(self, p):
        if self._pos(p): return True
        if len(p) < 2 or not any(c < 0 for c in p.values()) or len(p) > 12: return False
        if len(p) == 2:
            # difference of two exponentials: the larger exponent
            (m1, c1), (m2, c2) = sorted(p.items(), key=lambda x: -x[1])
            if c1 > 0 and c1 >= -c2 and all(a.op == "exp" for m in (m1, m2) for a, e in m):
                tot = lambda m: functools.reduce(add, [mul(C(e), a.args[0]) for a, e in m], ZERO)
                if self.decide(lt(tot(m2), tot(m1))) is True: return True
        # a sum whose first term is subtracted elsewhere: p - S + body(0) positive and the other terms of S nonneg
        for m, c in p.items():
            if c <= 0: continue
            for a, e in m:
                if a.op != "msum" or e != 1 or len(a.args[0]) != 1: continue
                f = {tuple(x for x in m if x[0] is not a): c}
                if not self._nn_only(f): continue
                (w, u), = a.args[0]
                if not self.msum_sign(a)[0] or self.decide(le(ONE, u)) is not True: continue
                for end in (ZERO, sub(u, ONE)):
                    q = padd({k: v for k, v in p.items() if k != m}, pmul(f, self.norm(subst(a.args[1], {w: end}))))
                    if self._pos(q): return True
        return False

    def _nn_only(self, p):
        return self.nonneg(p)

    def _pos(self, p):
        """cheap: all monomials positive / nonneg with one positive"""
        if not p: return False
        if all(a.op == "exp" and a.args[0] is ONE for m in p for a, e in m):
            # a constant: powers of e with rational coefficients, evaluated with a margin far above rounding
            t = [float(c) * math.exp(sum(float(e) for a, e in m)) for m, c in p.items() if all(abs(e) < 20 for a, e in m)]
            return len(t) == len(p) and sum(t) > 1e-9 * sum(abs(x) for x in t)
        anyp = False
        for m, c in p.items():
            if c < 0: return False
            good = True
            for a, e in m:
                if self.known_positive(a): continue
                good = False
                if e % 2 == 0 and e > 0: continue
                if not self.known_nonneg(a): return False
            if good: anyp = True
        return anyp

    def nonneg(self, p):
        for m, c in p.items():
            s = 1 if c > 0 else -1
            for a, e in m:
                if e.denominator == 1 and e % 2 == 0: continue
                if self.known_positive(a) or self.known_nonneg(a): continue
                return False
            if s < 0: return False
        return True

    # -- deciding conditions
    def decide(self, c):
        """True / False / None"""
        if c is TRUE: return True
        if c is FALSE: return False
        if c in self.decided: return self.decided[c]
        cb = self.nb(c)
        if cb is TRUE: r = True
        elif cb is FALSE: r = False
        elif cb in self.facts: r = True
        elif lnot(cb) in self.facts: r = False
        elif cb in self.decided: r = self.decided[cb]
        else:
            self.decided[c] = None
            self.decided[cb] = None
            r = self._decide(cb)
            self.decided[cb] = r
        self.decided[c] = r
        return r

    def _decide(self, cb):
        if cb.op == "and":
            rs = [self.decide(x) for x in cb.args]
            if False in rs: return False
            if all(r is True for r in rs): return True
        elif cb.op == "or":
            rs = [self.decide(x) for x in cb.args]
            if True in rs: return True
            if all(r is False for r in rs): return False
        elif cb.op == "not":
            r = self.decide(cb.args[0])
            return None if r is None else (not r)
        elif cb.op == "rgt0":
            p = self.norm(cb.args[0])
            if self.pos(p): return True
            if self.nonneg(pscale(p, -1)): return False
        if self.entails(cb): return True
        if self.entails(lnot(cb)): return False
        return None

    def inconsistent(self):
        if self._incons is None:
            self._incons = self.z3unsat([])
        return self._incons

    def entails(self, cb, timeout=1500):
        extra = []
        if cb.op == "not" and cb.args[0].op == "exists":
            v, lo, hi, body = cb.args[0].args
            w = fresh("w")
            ch = self.child(le(lo, w), lt(w, hi), subst(body, {v: w}))
            return ch.inconsistent()
        if cb.op == "exists":
            ch = self.child(lnot(cb))
            return ch.inconsistent()
        return self.z3unsat([lnot(cb)], timeout)

    def z3unsat(self, extra, timeout=1500):
        global _depth
        q = Query(self)
        _depth += 1
        try:
            # queries made while preparing a query: deep down they do without the facts that need queries themselves
            for f in self.facts:
                if _depth <= 3 or not has_binder(f): q.assert_(f)
            for f in extra: q.assert_(f)
            return q.unsat(timeout)
        finally: _depth -= 1

    # -- proving
    def prove(self, goal, depth=0):
        """goal: Bool term. True iff proved"""
        op = goal.op
        if goal is TRUE: return True
        if op == "and": return all(self.prove(g, depth) for g in goal.args)
        if op == "not" and goal.args[0].op == "exists":
            n = self.nb(goal)
            if n is TRUE: return True
            if not has_binder(n): return self.decide(n) is True
            v, lo, hi, body = goal.args[0].args
            w = fresh("q")
            ch = self.child(le(lo, w), lt(w, hi))
            return ch.prove(lnot(subst(body, {v: w})), depth)
        if op == "not" and goal.args[0].op == "or":
            return all(self.prove(lnot(g), depth) for g in goal.args[0].args)
        if op == "or":
            # assume negation of all but the last hard one
            gs = sorted(goal.args, key=lambda g: 0 if _easy(g) else 1)
            ctx = self.child(*[lnot(g) for g in gs[:-1]])
            if ctx.inconsistent(): return True
            return ctx.prove(gs[-1], depth)
        if op == "eq" and goal.args[0].sort != "B": return self.prove_eq(goal.args[0], goal.args[1])
        if op == "lt": return self.prove_sign(sub(goal.args[1], goal.args[0]), True)
        if op == "le": return self.prove_sign(sub(goal.args[1], goal.args[0]), False)
        if op == "not" and goal.args[0].op == "le": return self.prove_sign(sub(goal.args[0].args[0], goal.args[0].args[1]), True)
        if op == "not" and goal.args[0].op == "lt": return self.prove_sign(sub(goal.args[0].args[0], goal.args[0].args[1]), False)
        return self.decide(goal) is True

    def prove_eq(self, a, b):
        if a.special or b.special:
            for f in (isnan, lambda x: isinf(x, ("pinf",)), lambda x: isinf(x, ("ninf",))):
                ca, cb = f(a), f(b)
                if ca is cb: continue
                if not (self.child(ca).prove_cond(cb) and self.child(cb).prove_cond(ca)): return False
            sp = lor(isnan(a), isinf(a))
            return self.child(lnot(sp)).prove_eq(finite_part(a), finite_part(b))
        return self.prove_zero(sub(a, b))

    def prove_cond(self, c):
        if self.inconsistent(): return True
        return self.prove(c)

    def prove_zero(self, t, depth=0, orig=None):
        if self.prove_zero_(t, depth, orig): return True
        # the normal form found before this case distinction may hide what the cases say: start again from the original term
        return orig is not None and self.prove_zero(orig, depth)

    def prove_zero_(self, t, depth, orig):
        if self.inconsistent(): return True
        p = self.norm(t)
        p = self.zero_form(p)
        if not p:
            STATS.norm_zero += 1
            return True
        ind = self.pick_ind(p)
        if ind is not None and depth < 12:
            b = ind.args[0]
            return all(self.child(c).prove_zero(pterm(set_ind(p, ind, k)), depth + 1, t if orig is None else orig) for c, k in ((b, 1), (lnot(b), 0)))
        if p is not None:
            cb = self._eq(p)
            if cb is TRUE: return True
            if cb is FALSE: return self.inconsistent()
            if self.z3unsat([lnot(cb)], 4000):
                STATS.z3_proved += 1
                return True
        return False

    def zero_form(self, p):
        for _ in range(8):
            p = self.expandP(p)
            q = self.common_den(p)
            if isinstance(q, tuple): p = self.expandP(q[0])
            else:
                p = q
                break
        return p

    def pick_ind(self, p):
        best = None
        for m in p:
            for a, e in m:
                if a.op == "ind":
                    if any(is_bound_name(v) for v in a.fv): continue
                    if best is None or a.id < best.id: best = a
        return best

    def prove_sign(self, t, strict, depth=0, orig=None):
        return self.prove_sign_(t, strict, depth, orig) or orig is not None and self.prove_sign(orig, strict, depth)

    def prove_sign_(self, t, strict, depth, orig):
        """t > 0 (strict) or t >= 0"""
        if self.inconsistent(): return True
        if t.special:
            # value must not be nan/-inf ; +inf is fine
            if self.decide(lor(isnan(t), isinf(t, ("ninf",)))) is not False: return False
            sp = isinf(t, ("pinf",))
            return self.child(lnot(sp)).prove_sign(finite_part(t), strict, depth)
        s = self.tsign(t)
        if s == 2 or (s == 1 and not strict):
            STATS.struct += 1
            return True
        p = self.norm(t)
        ind = self.pick_ind(p)
        if ind is not None and depth < 10:
            b = ind.args[0]
            return all(self.child(c).prove_sign(pterm(set_ind(p, ind, k)), strict, depth + 1, t if orig is None else orig) for c, k in ((b, 1), (lnot(b), 0)))
        q = p
        for _ in range(4):
            z = self.common_den(q)
            if isinstance(z, tuple):
                num, den = z
                if self.pos(den): q = num
                elif self.pos(pscale(den, -1)): q = pscale(num, -1)
                else: break
            else: break
        q = self.expandP(q)
        q = self._clear_positive(q) if q else q
        if not q: return not strict
        if strict and self.pos(q): STATS.struct += 1; return True
        if not strict and self.nonneg(q): STATS.struct += 1; return True
        if set(q) == {()}: return q[()] > 0 or (not strict and q[()] >= 0)
        goal = self._cmp(q, True) if strict else lnot(self._cmp(pscale(q, -1), True))
        if goal is TRUE: return True
        if goal is FALSE: return False
        if self.z3unsat([lnot(goal)], 4000):
            STATS.z3_proved += 1
            return True
        r = self.sum_compare(q, strict)
        if r: STATS.struct += 1
        return r

    def sum_compare(self, q, strict):
        """linear combination of formal sums over the same range: compare bodies"""
        groups = {}
        rest = {}
        for m, c in q.items():
            ms = [(a, e) for a, e in m if a.op == "msum" and e == 1 and len(a.args[0]) >= 1]
            if len(ms) == 1 :
                a = ms[0][0]
                others = tuple(x for x in m if x[0] is not a)
                (w, u) = a.args[0][0]
                groups.setdefault(u, []).append((a, others, c))
            else: rest[m] = c
        if len(groups) != 1: return False
        u, items = next(iter(groups.items()))
        if self.decide(le(ZERO, u)) is not True: return False
        nw = fresh("n")
        body = ZERO
        for a, others, c in items:
            bs, bd = a.args
            ren = {bs[0][0]: nw}
            if len(bs) > 1:
                inner = mk("msum", (tuple((w, subst(x, ren)) for w, x in bs[1:]), subst(bd, ren)), a.sort)
            else: inner = subst(bd, ren)
            body = add(body, mul(mono_term(others, c), inner))
        for m, c in rest.items():
            # k*u absorbed as the constant k in every term of the sum
            hit = [(a, e) for a, e in m if a is u]
            if len(hit) != 1 or hit[0][1] != 1: return False
            body = add(body, mono_term(tuple(x for x in m if x[0] is not u), c))
        ch = self.child(le(ZERO, nw), lt(nw, u))
        if strict and self.decide(lt(ZERO, u)) is not True: return False
        return ch.prove_sign(body, strict)


Root.app_rules = {}


def _factors(t):
    if t.op == "mul": return _factors(t.args[0]) + _factors(t.args[1])
    return [t]


def _args(b):
    out = []
    for x in T.subterms(b):
        if x.op == "app": out += [y for y in x.args[1:] if isinstance(y, Term) and y.sort == "I"]
    return list(dict.fromkeys(out))


def _easy(g):
    return not any(x.op in ("exp", "log", "sum", "inv") for x in subterms(g))


def _nontrivial(t):
    return t.op not in ("c", "var")


def _databool(a):
    """indicator of a condition on data (not just on index variables)"""
    c = a.args[0]
    return any(x.op == "app" for x in T.subterms(c))


def map_fin(t, f, ctx):
    if not t.special: return f(t)
    if t.op == "ite":
        c = ctx.nb(t.args[0])
        return ite(c, map_fin(t.args[1], f, ctx), map_fin(t.args[2], f, ctx))
    return t


def _mkey(m):
    """order of monomials for leading terms: bound/fresh variables dominate"""
    k = 0
    for a, e in m:
        if a.op == "var":
            n = a.args[0]
            if n[0] == "#": k = max(k, 2)
            elif "!" in n: k = max(k, 3)
    return (len(m) > 0, k, tuple((a.id, e) for a, e in m))


def _root(c, q):
    if q.denominator != 2: return None
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd) ** q.numerator
    return None


def set_ind(p, a, val):
    r = {}
    for m, c in p.items():
        if any(x is a for x, e in m):
            if not val: continue
            m = tuple(z for z in m if z[0] is not a)
        v = r.get(m, F0) + c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def lin_coef(p, v):
    """coefficient of v if p is linear in v (v in no other monomial / atom)"""
    k = None
    for m, c in p.items():
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1: k = c
        elif any(v in a.fv for a, e in m): return None
    return k


def solve_for(p, v):
    k = lin_coef(p, v)
    if k not in (1, -1): return None
    R = {m: c for m, c in p.items() if not (len(m) == 1 and m[0][0] is v)}
    return pscale(R, -k)


def offsets(t, v):
    """constant offsets k of arguments v+k in atoms of t"""
    out = set()
    for x in subterms(t):
        if x.op == "app":
            for a in x.args[1:]:
                if isinstance(a, Term) and v in a.fv and a.op != "lam":
                    o = _offset(a, v)
                    if o is not None: out.add(o)
        elif x.op == "msum":
            for w, u in x.args[0]:
                if v in u.fv:
                    o = _offset(u, v)
                    if o is not None: out.add(o)
    return out


def sym_offset(t, v):
    """the symbolic offset c when v occurs only in arguments v + c of functions (None otherwise)"""
    res = set()
    def walk(x):
        if v not in x.fv: return True
        if x is v: return False
        if x.op == "app":
            for a in x.args[1:]:
                if not isinstance(a, Term) or v not in a.fv: continue
                if a.op == "lam": return False
                o = _sym_residual(a, v)
                if o is None:
                    return False
                res.add(o)
            return True
        if x.op == "msum" and any(v in u.fv for _, u in x.args[0]): return False
        if x.op == "msum": return walk(x.args[1])
        if x.op in ("exists", "max", "prod", "sum"): return False
        return all(walk(a) for a in x.args if isinstance(a, Term))
    if not walk(t) or len(res) != 1: return None
    o, = res
    return None if o.op == "c" else o


def _sym_residual(a, v):
    """c with a = v + c, without the constant part"""
    if a is v: return T.C(0)
    if a.op != "add": return None
    parts, has, st = [], 0, [a]
    while st:
        x = st.pop()
        if x.op == "add": st.extend(x.args)
        elif x is v: has += 1
        elif v in x.fv: return None
        elif x.op != "c": parts.append(x)
    if has != 1: return None
    if any(x.sort != "I" for x in parts): return None
    parts.sort(key=lambda x: x.id)
    r = T.C(0)
    for x in parts: r = add(r, x)
    return r


def _offset(a, v):
    if a is v: return 0
    if a.op == "add":
        k = 0
        has = False
        st = [a]
        while st:
            x = st.pop()
            if x.op == "add": st.extend(x.args)
            elif x.op == "c": k += x.args[0]
            elif x is v: has = True
            elif v in x.fv: return None
        if has and Fraction(k).denominator == 1: return int(k)
    return None


def poly_ratio(num, den):
    """num = r * den for a single-monomial r, else None"""
    if len(num) != len(den): return None
    (m0, c0) = max(num.items(), key=lambda kv: _mkey(kv[0]))
    for md, cd in den.items():
        r = mono_mul(m0, tuple((a, -e) for a, e in md))
        k = c0 / cd
        if padd(num, pmul({r: k}, den), -1) == {}:
            return {r: k}
    return None


def make_schema(vs, guards, body):
    pats = []
    inner = set()
    ts = list(subterms(land(body, *guards)))
    for x in ts:
        if x.op in ("exists", "sum", "max"): inner.add(x.args[0])
    for x in ts:
        if x.op == "app" and any(isinstance(a, Term) and (a.fv & set(vs)) for a in x.args[1:]):
            if any(isinstance(a, Term) and a.op != "var" and a.fv & inner for a in x.args[1:]): continue
            if any(a in inner for a in x.args[1:]): pats.append(Pat(tuple(ANY if a in inner else a for a in x.args)))
            else: pats.append(x)
    return (vs, guards, body, pats)


ANY = object()


class Pat:
    """trigger whose positions bound inside the schema match anything"""
    def __init__(self, args): self.args = args


# ------------------------------------------------------------------ z3 back end
class Query:
    def __init__(self, ctx):
        self.ctx = ctx
        self.root = ctx.root
        self.s = []
        self.consts = {}
        self.pending = []
        self.done = set()
        self.levels = {}
        self.level = 0
        self.triggers, self.extra = [], []

    def assert_(self, b):
        self.s.append(self.B(b))

    def B(self, b):
        op = b.op
        if b is TRUE: return z3.BoolVal(True)
        if b is FALSE: return z3.BoolVal(False)
        if op == "and": return z3.And(*[self.B(x) for x in b.args])
        if op == "or": return z3.Or(*[self.B(x) for x in b.args])
        if op == "not": return z3.Not(self.B(b.args[0]))
        if op == "ge0": return self.N(b.args[0]) >= 0
        if op == "rgt0": return self.N(b.args[0]) > 0
        if op in ("eq0", "req0"): return self.N(b.args[0]) == 0
        if op in ("app", "exists", "var"):
            k = self.consts.get(b)
            if k is None:
                k = z3.Bool(f"b{b.id}")
                self.consts[b] = k
                self.levels[b] = self.level
                self.pending.append(b)
            return k
        return self.B(self.ctx.nb(b))

    def N(self, t):
        p = self.ctx.norm(t)
        r = None
        isint = is_int_poly(p)
        for m, c in p.items():
            x = None
            for a, e in m:
                z = self.atom(a)
                if e.denominator == 1:
                    n = int(abs(e))
                    y = z
                    for _ in range(n - 1): y = y * z
                    if e < 0:
                        y = 1 / (z3.ToReal(y) if y.sort() == z3.IntSort() else y)
                else:
                    # rational power: fresh name keyed by (atom, e)
                    key = (a, e)
                    y = self.consts.get(key)
                    if y is None:
                        y = z3.Real(f"p{a.id}_{e.numerator}_{e.denominator}")
                        self.consts[key] = y
                        self.s.append(y > 0 if self.ctx.known_positive(a) else y >= 0)
                        if e == Fraction(1, 2): self.s.append(y * y == z)
                        if e == Fraction(-1, 2): self.s.append(y * y * z == 1)
                x = y if x is None else x * y
            k = z3.IntVal(int(c)) if isint else z3.RealVal(c)
            if not isint and x is not None and x.sort() == z3.IntSort(): x = z3.ToReal(x)
            y = k if x is None else (x if c == 1 else k * x)
            r = y if r is None else r + y
        if r is None: return z3.IntVal(0)
        return r

    def atom(self, a):
        k = self.consts.get(a)
        if k is not None: return k
        if a.op == "ind":
            k = z3.If(self.B(a.args[0]), z3.IntVal(1), z3.IntVal(0))
            self.consts[a] = k
            return k
        k = z3.Int(f"a{a.id}") if a.sort == "I" else z3.Real(f"a{a.id}")
        self.consts[a] = k
        self.levels[a] = self.level
        self.pending.append(a)
        return k

    def facts(self):
        while self.pending and len(self.done) < 400:
            a = self.pending.pop()
            if a in self.done: continue
            self.done.add(a)
            self.level = self.levels.get(a, 0)
            ctx, root = self.ctx, self.root
            k = self.consts[a]
            if a.op == "exp":
                self.s.append(k > 0)
                # exp(x) vs x :  e^x >= 1 + x
                if not self.light:
                    x = self.N(a.args[0])
                    self.s.append(k >= 1 + x)
                    self.s.append(z3.Implies(x >= 0, k >= 1))
                    self.s.append(z3.Implies(x <= 0, k <= 1))
                self.monotone(a)
            elif a.op == "P":
                self.s.append(k == self.N(a.args[0]))
            elif a.op == "log":
                self.monotone(a)
                if not self.light:
                    x = self.N(a.args[0])
                    self.s.append(z3.Implies(x > 0, k <= x - 1))
                    self.s.append(z3.Implies(x > 1, k > 0))
                    self.s.append(z3.Implies(z3.And(x < 1, x > 0), k < 0))
            elif a.op == "powq":
                self.s.append(k >= 0)
                if a.args[1].args[0] == Fraction(1, 2):
                    x = self.N(a.args[0])
                    self.s.append(z3.Implies(x >= 0, k * k == x))
            elif a.op == "app":
                if a.args[0] == "trunc" and a.args[1].sort == "R":
                    x = self.N(a.args[1])
                    if x.sort() == z3.IntSort(): x = z3.ToReal(x)
                    kr = z3.ToReal(k)
                    self.s.append(z3.Implies(x >= 0, z3.And(kr <= x, x < kr + 1, k >= 0)))
                    self.s.append(z3.Implies(x <= 0, z3.And(kr >= x, x > kr - 1, k <= 0)))
                f = root.app_facts.get(a.args[0])
                if f and a not in _asserting:
                    # normalising a fact may need queries of its own, which do without it
                    _asserting.add(a)
                    try:
                        for fact in f(a.args[1:]): self.s.append(self.B(ctx.nb(fact)))
                    finally: _asserting.discard(a)
                if a.args[0] in ("argmax", "argmin") and a not in _asserting:
                    # the element at the position of the extremum compared with those at the indices of the query
                    _asserting.add(a)
                    try:
                        (v,), body = a.args[1].args
                        at = subst(body, {v: a})
                        for u in sorted({u for b in list(self.consts) if isinstance(b, Term) for u in b.fv if u.sort == "I"}, key=lambda u: u.id)[:6]:
                            bu = subst(body, {v: u})
                            self.s.append(self.B(ctx.nb(implies(land(le(ZERO, u), lt(u, a.args[2])), le(bu, at) if a.args[0] == "argmax" else le(at, bu)))))
                    finally: _asserting.discard(a)
                # instances mention new terms: only terms of the query and of two generations of instances trigger
                self.triggers.append(a)
                if self.level < 2:
                    for sc in list(root.schemas) + list(ctx.schemas) + self.extra: self.instance(sc, a)
            elif a.op == "msum":
                for t in closed_apps(a, ("argmax", "argmin")): self.N(t)
                self.sum_bound(a, k)
                nn, ps = ctx.msum_sign(a)
                if ps: self.s.append(k > 0)
                elif nn: self.s.append(k >= 0)
                for b in list(self.consts):
                    if isinstance(b, Term) and b is not a and b.op == "msum" and len(b.args[0]) == len(a.args[0]) == 1 and b.args[1] is a.args[1]:
                        self._mono_pair(a, b)
            elif a.op == "max":
                self.extremum(a, k)
            elif a.op == "pow":
                pass
            elif a.op == "exists":
                self.existential(a, k)
        return

    def instance(self, schema, a):
        vs, guards, body, pats = schema
        for p in pats:
            if p.args[0] == a.args[0] and len(p.args) == len(a.args):
                ms = [match(p.args[1:], a.args[1:], vs, self.ctx)]
                if ms[0] is None and len(pats) == 2 and len(self.triggers) < 12 and isinstance(p, Term):
                    # two triggers together bind all variables
                    q, m = next(x for x in pats if x is not p), match(p.args[1:], a.args[1:], vs, self.ctx, partial=True)
                    if m is not None and isinstance(q, Term):
                        ms = [match(q.args[1:], b.args[1:], vs, self.ctx, pre=m) for b in self.triggers if b.args[0] == q.args[0] and len(b.args) == len(q.args)]
                for m in ms:
                    if m is None: continue
                    inst = implies(land(*[subst(g, m) for g in guards]), subst(body, m))
                    key = ("inst", inst)
                    if key not in self.done:
                        self.done.add(key)
                        self.level += 1
                        self.s.append(self.B(self.ctx.nb(inst)))
                        self.level -= 1

    def existential(self, a, k):
        """an existential holds exactly when some index satisfies it"""
        v, lo, hi, body = a.args
        if a in _asserting or len(self.extra) > 6 or self.light: return
        ctx = self.ctx
        _asserting.add(a)
        try:
            w = app("wit", (mk("lam", ((v,), body), "L"), lo, hi), "I")
            x = self.B(a) if isinstance(k, z3.ArithRef) else k
            self.s.append(z3.Implies(x, self.B(ctx.nb(land(le(lo, w), lt(w, hi), subst(body, {v: w}))))))
            u = fresh("u")
            sc = make_schema((u,), (le(lo, u), lt(u, hi)), implies(subst(body, {v: u}), a))
            self.extra.append(sc)
            for t in list(self.triggers): self.instance(sc, t)
        finally: _asserting.discard(a)

    def extremum(self, a, k):
        """a maximum bounds every selected element and is attained by one of them"""
        v, lo, hi, body = a.args
        g, x = body.args if body.op == "guard" else (TRUE, body)
        if a in _asserting or len(self.extra) > 6: return
        ctx = self.ctx
        _asserting.add(a)
        try:
            w = app("argext", (mk("lam", ((v,), x), "L"), mk("lam", ((v,), g), "L"), lo, hi), "I")
            some = lt(lo, hi) if g is TRUE else mk("exists", (v, lo, hi, g), "B")
            at = lambda t, i: subst(t, {v: i})
            for f in (implies(some, land(le(lo, w), lt(w, hi), at(g, w))), implies(some, eq(a, at(x, w)))): self.s.append(self.B(ctx.nb(f)))
            u = fresh("u")
            sc = make_schema((u,), (le(lo, u), lt(u, hi), at(g, u)), le(at(x, u), a))
            self.extra.append(sc)
            for t in list(self.triggers): self.instance(sc, t)
        finally: _asserting.discard(a)

    def monotone(self, a):
        """exp / log are strictly increasing: related to the other atoms of the same kind"""
        if self.light: return
        prev = self.mono.setdefault(a.op, [])
        if len(prev) < 8:
            x, ka = self.N(a.args[0]), self.consts[a]
            for b in prev:
                y, kb = self.N(b.args[0]), self.consts[b]
                if a.op == "exp":
                    self.s.append((x <= y) == (ka <= kb))
                    self.s.append((x < y) == (ka < kb))
                else:
                    self.s.append(z3.Implies(z3.And(x > 0, y > 0), z3.And((x <= y) == (ka <= kb), (x < y) == (ka < kb))))
            prev.append(a)

    def sum_least(self, a):
        """largest c of 2, 1 such that every term of an integer sum is at least c"""
        if a.sort != "I" or self.light or len(a.args[0]) != 1 or a in _asserting: return None
        memo = self.root.__dict__.setdefault("sum_least", {})
        (w, u), = a.args[0]
        key = (a.args[1], u)
        if key not in memo:
            memo[key] = None
            _asserting.add(a)
            try:
                nw = fresh("n")
                ch = self.ctx.child(le(ZERO, nw), lt(nw, u))
                x = subst(a.args[1], {w: nw})
                memo[key] = next((c for c in (2, 1) if ch.prove(le(C(c), x))), None)
            finally: _asserting.discard(a)
        return memo[key]

    def sum_bound(self, a, k):
        """a sum of n integers each at least c is at least c n, its first element more precisely"""
        c = self.sum_least(a)
        if c is None: return
        (w, u), = a.args[0]
        n = self.N(u)
        self.s.append(z3.Implies(n >= 0, k >= c * n))
        self.s.append(z3.Implies(n >= 1, k >= c * (n - 1) + self.N(subst(a.args[1], {w: ZERO}))))

    def _mono_pair(self, a, b):
        """same body, different upper bound: comparable when the body is nonneg"""
        ctx = self.ctx
        c, c2 = self.sum_least(a), self.sum_least(b)
        if c is not None and c2 is not None:
            c = min(c, c2)
            (w, u1), = a.args[0]
            (w2, u2), = b.args[0]
            x, y, m, n = self.consts[a], self.consts[b], self.N(u1), self.N(u2)
            for d, t, lo, hi in ((y - x, u1, m, n), (x - y, u2, n, m)):
                body = a.args[1]
                v0 = a.args[0][0][0]
                first = self.N(subst(body, {v0: t}))
                second = self.N(subst(body, {v0: add(t, ONE)}))
                self.s.append(z3.Implies(z3.And(0 <= lo, lo <= hi), d >= c * (hi - lo)))
                self.s.append(z3.Implies(z3.And(0 <= lo, lo + 1 <= hi), d >= first + c * (hi - lo - 1)))
                self.s.append(z3.Implies(z3.And(0 <= lo, lo + 2 <= hi), d >= first + second + c * (hi - lo - 2)))
            return
        (w, u1), = a.args[0]
        (w2, u2), = b.args[0]
        if u1 is u2: return
        key = ("mp", a, b)
        if key in self.done: return
        self.done.add(key)
        for x, y, ux, uy in ((a, b, u1, u2), (b, a, u2, u1)):
            if ctx.decide(le(ux, uy)) is True and ctx.decide(le(ZERO, ux)) is True:
                nw = fresh("n")
                ch = ctx.child(le(ux, nw), lt(nw, uy))
                p = ch.norm(subst(a.args[1], {w: nw}))
                if ch.nonneg(p): self.s.append(self.consts[x] <= self.consts[y])
                return

    light = False
    mono = property(lambda self: self.__dict__.setdefault("_mono", {}))

    def unsat(self, timeout=1500):
        t0 = time.time()
        self.facts()
        key = tuple(sorted(hash(x.get_id()) if False else x.sexpr() for x in self.s))
        c = self.root.z3cache.get(key)
        if c is not None: return c
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*self.s)
        r = s.check()
        STATS.z3_calls += 1
        dt = time.time() - t0
        STATS.z3_time += dt
        STATS.queries_max = max(STATS.queries_max, dt)
        res = (r == z3.unsat)
        self.root.z3cache[key] = res
        return res


def closed_apps(a, names):
    """applications inside a bound term that do not depend on its bound variables"""
    out, seen = [], set()
    def walk(t):
        if isinstance(t, tuple):
            for x in t: walk(x)
        elif isinstance(t, Term) and t not in seen:
            seen.add(t)
            if t.op == "app" and t.args[0] in names and t.fv <= a.fv: out.append(t)
            else: walk(t.args)
    walk(a.args)
    return out


def match(pargs, args, vs, ctx, pre=None, partial=False):
    m = dict(pre or {})
    later = []
    for p, a in zip(pargs, args):
        if p is ANY: continue
        if not isinstance(p, Term):
            if p != a: return None
            continue
        if not (p.fv & set(vs)):
            if p is not a and ctx.nterm(p) is not a: return None
            continue
        if p.op == "var":
            if p in m:
                if m[p] is not a: return None
            else: m[p] = a
        else: later.append((p, a))
    for p, a in later:
        free = [v for v in vs if v in p.fv and v not in m]
        if len(free) == 1 and p.sort == "I":
            s = solve_for(padd(ctx.norm(subst(p, m)), ctx.norm(a), -1), free[0])
            if s is None: return None
            m[free[0]] = pterm(s)
        elif free: return None
        else:
            if ctx.nterm(subst(p, m)) is not ctx.nterm(a): return None
    if not partial and any(v not in m for v in vs): return None
    return m
