"""Term language of the verifier: hash-consed Int/Real/Bool terms, bounded binders, extended-real leaves.

Real-valued tensor elements are mathematical extended reals: +inf / -inf / nan only occur as leaves below
if-then-else (every operation is lifted through the if-then-elses that hold them)."""
from fractions import Fraction
import functools
import itertools, math

_table = {}
_ids = itertools.count(1)
EMPTY = frozenset()


class Unsupported(Exception):
    """construct outside the verifier's reach (falls back to the bounded check)"""
    where = ""
    def __init__(self, *a):
        super().__init__(*a)
        from .tensor import cur
        if cur.eng is not None: self.where = cur.eng.where()


class Term:
    __slots__ = ("op", "args", "sort", "id", "special", "fv", "_eqh")

    def __repr__(self):
        return show(self)

    # DSL sugar (contracts)
    def __add__(a, b): return add(a, lift(b))
    def __radd__(a, b): return add(lift(b), a)
    def __sub__(a, b): return sub(a, lift(b))
    def __rsub__(a, b): return sub(lift(b), a)
    def __mul__(a, b): return mul(a, lift(b))
    def __rmul__(a, b): return mul(lift(b), a)
    def __truediv__(a, b): return div(a, lift(b))
    def __rtruediv__(a, b): return div(lift(b), a)
    def __neg__(a): return neg(a)
    def __pow__(a, k): return power(a, k)
    def __lt__(a, b): return lt(a, lift(b))
    def __le__(a, b): return le(a, lift(b))
    def __gt__(a, b): return lt(lift(b), a)
    def __ge__(a, b): return le(lift(b), a)
    def __bool__(a):
        if a.op == "c":
            return bool(a.args[0])
        raise Unsupported("truth value of symbolic term " + show(a)[:80])


def mk(op, args, sort, special=None):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        fv = EMPTY
        sp = False
        if op == "var":
            fv = frozenset((t,))
        elif op in ("sum", "max", "min", "forall", "exists", "prod"):
            v, lo, hi, body = args
            fv = (body.fv - {v}) | lo.fv | hi.fv
        elif op == "lam":
            fv = args[1].fv - frozenset(args[0])
        elif op == "msum":
            bs, body = args
            f = body.fv
            for v, u in bs:
                f = f | u.fv
            fv = f - frozenset(v for v, u in bs)
        else:
            for a in args:
                if isinstance(a, Term):
                    if a.fv:
                        fv = fv | a.fv
                    if a.special:
                        sp = True
        if op in ("pinf", "ninf", "nan"):
            sp = True
        if op in ("app", "lt", "le", "eq", "and", "or", "not"):
            sp = False
        t.fv = fv
        t.special = sp
        _table[key] = t
    return t


def C(x, sort=None):
    if isinstance(x, bool):
        return mk("c", (x,), "B")
    if isinstance(x, int):
        return mk("c", (Fraction(x),), sort or "I")
    if isinstance(x, float):
        if x != x: return NAN
        if x == math.inf: return PINF
        if x == -math.inf: return NINF
        # decimal literals are read as the exact decimal written
        return mk("c", (Fraction(repr(x)),), sort or "R")
    if isinstance(x, Fraction):
        return mk("c", (x,), sort or ("I" if x.denominator == 1 else "R"))
    raise Unsupported(f"constant {x!r}")


PINF = mk("pinf", (), "R")
NINF = mk("ninf", (), "R")
NAN = mk("nan", (), "R")
TRUE = mk("c", (True,), "B")
FALSE = mk("c", (False,), "B")
ZERO = C(0)
ONE = C(1)
_fresh = itertools.count(1)


def var(name, sort="I"):
    return mk("var", (name,), sort)


def fresh(name="i", sort="I"):
    return mk("var", (f"{name}!{next(_fresh)}",), sort)


def lift(x):
    if isinstance(x, Term): return x
    if isinstance(x, (bool, int, float, Fraction)): return C(x)
    if hasattr(x, "as_term"): return x.as_term()
    raise Unsupported(f"cannot lift {type(x).__name__} to a term")


def isc(t): return t.op == "c"
def cval(t): return t.args[0]


def app(name, args, sort="R"):
    return mk("app", (name,) + tuple(args), sort)


# ---------- booleans
def land(*xs):
    out = []
    for x in xs:
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.op == "and":
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    for x in out:
        if lnot(x) in out: return FALSE
    return mk("and", tuple(out), "B")


def lor(*xs):
    out = []
    for x in xs:
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x.op == "or":
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    for x in out:
        if lnot(x) in out: return TRUE
    return mk("or", tuple(out), "B")


def lnot(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.op == "not": return x.args[0]
    return mk("not", (x,), "B")


def implies(a, b): return lor(lnot(a), b)


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not": return ite(c.args[0], b, a)
    if a.sort == "B":
        if a is TRUE: return lor(c, b)
        if a is FALSE: return land(lnot(c), b)
        if b is TRUE: return lor(lnot(c), a)
        if b is FALSE: return land(c, a)
        return lor(land(c, a), land(lnot(c), b))
    # collapse nested same condition
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk("ite", (c, a, b), "I" if a.sort == b.sort == "I" else "R")


def _lift_special(f, args):
    """f applied under the if-then-elses of the first special argument"""
    for i, a in enumerate(args):
        if a.special and a.op == "ite":
            c, x, y = a.args
            return ite(c, f(*args[:i], x, *args[i + 1:]), f(*args[:i], y, *args[i + 1:]))
    return None


def is_special_leaf(t): return t.op in ("pinf", "ninf", "nan")


def b2n(t):
    """boolean -> 0/1"""
    if t.sort == "B":
        return ite(t, ONE, ZERO)
    return t


# ---------- arithmetic
def add(*xs):
    xs = [b2n(x) for x in xs]
    if len(xs) > 2:
        r = xs[0]
        for x in xs[1:]: r = add(r, x)
        return r
    if len(xs) == 1: return xs[0]
    a, b = xs
    if a.special or b.special:
        r = _lift_special(add, (a, b))
        if r is not None: return r
        if a is NAN or b is NAN: return NAN
        if a is PINF: return NAN if b is NINF else PINF
        if a is NINF: return NAN if b is PINF else NINF
        return b
    sort = "I" if a.sort == b.sort == "I" else "R"
    if isc(a) and isc(b): return C(cval(a) + cval(b), sort if (cval(a) + cval(b)).denominator == 1 else "R")
    if isc(a) and cval(a) == 0 and (sort == b.sort): return b
    if isc(b) and cval(b) == 0 and (sort == a.sort): return a
    return mk("add", (a, b), sort)


def neg(a): return mul(C(-1), a)
def sub(a, b): return add(a, neg(b))


def mul(*xs):
    xs = [b2n(x) for x in xs]
    if len(xs) > 2:
        r = xs[0]
        for x in xs[1:]: r = mul(r, x)
        return r
    if len(xs) == 1: return xs[0]
    a, b = xs
    if a.special or b.special:
        r = _lift_special(mul, (a, b))
        if r is not None: return r
        if a is NAN or b is NAN: return NAN
        if is_special_leaf(b) and not is_special_leaf(a): a, b = b, a
        if is_special_leaf(b): return PINF if a is b else NINF
        # a = +-inf, b finite
        o = NINF if a is PINF else PINF
        if b.op == "ite": return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
        if isc(b): return NAN if cval(b) == 0 else (a if cval(b) > 0 else o)
        if known_pos(b): return a
        return ite(lt(ZERO, b), a, ite(lt(b, ZERO), o, NAN))
    sort = "I" if a.sort == b.sort == "I" else "R"
    if isc(a) and isc(b):
        v = cval(a) * cval(b)
        return C(v, sort if v.denominator == 1 else "R")
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if cval(x) == 0: return C(0, sort)
            if cval(x) == 1 and y.sort == sort: return y
    if isc(b) and not isc(a): a, b = b, a
    if isc(a) and b.op == "mul" and isc(b.args[0]):
        return mul(C(cval(a) * cval(b.args[0])), b.args[1])
    return mk("mul", (a, b), sort)


def inv(a):
    a = b2n(a)
    if a.special:
        r = _lift_special(inv, (a,))
        if r is not None: return r
        return NAN if a is NAN else C(0, "R")
    if isc(a):
        if cval(a) == 0: return PINF      # sign of zero is not modelled: 1/0 = +inf
        return C(1 / cval(a), "R")
    if a.op == "ite" and any(isc(x) and cval(x) == 0 for x in a.args[1:]):
        return ite(a.args[0], inv(a.args[1]), inv(a.args[2]))
    if a.op == "inv": return a.args[0]
    return mk("inv", (a,), "R")


def div(a, b):
    a, b = b2n(a), b2n(b)
    if isc(a) and cval(a) == 0 and not b.special:
        if isc(b): return NAN if cval(b) == 0 else C(0, "R")
    if isc(b) and cval(b) == 0 and isc(a):
        return PINF if cval(a) > 0 else NINF
    if b.op == "ite" and any(isc(x) and cval(x) == 0 for x in b.args[1:]):
        return ite(b.args[0], div(a, b.args[1]), div(a, b.args[2]))
    if a.op == "ite" and inv(b).special:
        return ite(a.args[0], div(a.args[1], b), div(a.args[2], b))
    return mul(a, inv(b))


def power(a, k):
    a = b2n(a)
    if isinstance(k, Term) and isc(k): k = cval(k)
    if isinstance(k, float): k = Fraction(repr(k))
    if isinstance(k, (int, Fraction)):
        k = Fraction(k)
        if k.denominator == 1:
            k = int(k)
            if k < 0: return inv(power(a, -k))
            if k == 0: return C(1, a.sort)
            r = a
            for _ in range(k - 1): r = mul(r, a)
            return r
        if k == Fraction(1, 2): return sqrt(a)
        if k == Fraction(-1, 2): return inv(sqrt(a))
        return fn1("powq", a, k)
    k = lift(k)
    if isc(a) and cval(a) == 1: return C(1)
    if k.op == "ite": return ite(k.args[0], power(a, k.args[1]), power(a, k.args[2]))
    return mk("pow", (a, k), "I" if a.sort == "I" and k.sort == "I" else "R")


def known_pos(t):
    if isc(t): return cval(t) > 0
    if t.op == "exp": return True
    if t.op in ("mul", "add"): return all(known_pos(x) for x in t.args)
    if t.op == "inv": return known_pos(t.args[0])
    if t.op == "ite": return known_pos(t.args[1]) and known_pos(t.args[2])
    return False


_SPECIAL1 = {
    "exp": {"pinf": PINF, "ninf": C(0, "R")},
    "log": {"pinf": PINF, "ninf": NAN},
    "sqrt": {"pinf": PINF, "ninf": NAN},
    "erf": {"pinf": C(1, "R"), "ninf": C(-1, "R")},
}


def fn1(name, a, *extra):
    a = b2n(a)
    if a.special:
        r = _lift_special(lambda x: fn1(name, x, *extra), (a,))
        if r is not None: return r
        if a is NAN: return NAN
        r = _SPECIAL1.get(name, {}).get(a.op)
        if r is None: raise Unsupported(f"{name}({a.op})")
        return r
    if name == "exp" and isc(a) and cval(a) == 0: return C(1, "R")
    if name == "log" and isc(a):
        if cval(a) == 1: return C(0, "R")
        if cval(a) == 0: return NINF
        if cval(a) < 0: return NAN
    if name == "exp" and a.op == "log" and known_pos(a.args[0]): return a.args[0]
    if name == "sqrt" and isc(a):
        v = cval(a)
        n, d = math.isqrt(max(0, v.numerator)), math.isqrt(v.denominator)
        if v >= 0 and n * n == v.numerator and d * d == v.denominator: return C(Fraction(n, d), "R")
    if name in ("log", "inv") and a.op == "ite":
        return ite(a.args[0], fn1(name, a.args[1]), fn1(name, a.args[2]))
    return mk(name, (a,) + tuple(C(e) for e in extra), "R")


def exp(a): return fn1("exp", lift(a))
def log(a): return fn1("log", lift(a))
def sqrt(a): return fn1("sqrt", lift(a))


def sigmoid(a):
    a = lift(a)
    if a.special:
        r = _lift_special(sigmoid, (a,))
        if r is not None: return r
        return NAN if a is NAN else (C(1, "R") if a is PINF else C(0, "R"))
    return inv(add(ONE, exp(neg(a))))


def softplus(a):
    a = lift(a)
    return log(add(ONE, exp(a)))


def absf(a):
    a = b2n(a)
    if a.special:
        r = _lift_special(absf, (a,))
        if r is not None: return r
        return NAN if a is NAN else PINF
    if isc(a): return C(abs(cval(a)), a.sort)
    return ite(le(ZERO, a), a, neg(a))


def sign(a):
    a = b2n(a)
    return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), C(-1), ZERO))


def minimum(a, b):
    if a.special or b.special:
        r = _lift_special(minimum, (a, b))
        if r is not None: return r
        if a is NAN or b is NAN: return NAN
        if a is PINF: return b
        if b is PINF: return a
        return NINF
    return ite(le(a, b), a, b)


def maximum(a, b):
    if a.special or b.special:
        r = _lift_special(maximum, (a, b))
        if r is not None: return r
        if a is NAN or b is NAN: return NAN
        if a is NINF: return b
        if b is NINF: return a
        return PINF
    return ite(le(b, a), a, b)


# ---------- comparisons
def lt(a, b):
    a, b = b2n(a), b2n(b)
    if a.special or b.special:
        r = _lift_special(lt, (a, b))
        if r is not None: return r
        if a is NAN or b is NAN: return FALSE
        if a is NINF: return FALSE if b is NINF else TRUE
        if b is PINF: return FALSE if a is PINF else TRUE
        return FALSE
    if isc(a) and isc(b): return C(cval(a) < cval(b))
    if a is b: return FALSE
    r = _lift_const_ite(lt, a, b)
    if r is not None: return r
    return mk("lt", (a, b), "B")


def le(a, b):
    a, b = b2n(a), b2n(b)
    if a.special or b.special:
        r = _lift_special(le, (a, b))
        if r is not None: return r
        if a is NAN or b is NAN: return FALSE
        if a is NINF or b is PINF: return TRUE
        return FALSE
    if isc(a) and isc(b): return C(cval(a) <= cval(b))
    if a is b: return TRUE
    r = _lift_const_ite(le, a, b)
    if r is not None: return r
    return mk("le", (a, b), "B")


def _constish(t):
    if isc(t): return True
    return t.op == "ite" and (_constish(t.args[1]) or _constish(t.args[2]))


def _lift_const_ite(f, a, b):
    if a.op == "ite" and isc(b) and _constish(a):
        return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.op == "ite" and isc(a) and _constish(b):
        return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None


def eq(a, b):
    a, b = lift(a), lift(b)
    if a.sort == "B" and b.sort == "B":
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return lnot(b)
        if b is FALSE: return lnot(a)
        if a is b: return TRUE
        return lor(land(a, b), land(lnot(a), lnot(b)))
    a, b = b2n(a), b2n(b)
    if a.special or b.special:
        r = _lift_special(eq, (a, b))
        if r is not None: return r
        if a is NAN or b is NAN: return FALSE
        return TRUE if a is b else FALSE
    if isc(a) and isc(b): return C(cval(a) == cval(b))
    if a is b: return TRUE
    r = _lift_const_ite(eq, a, b)
    if r is not None: return r
    if a.id > b.id: a, b = b, a
    return mk("eq", (a, b), "B")


def isnan(a):
    if a.sort == "B": return FALSE
    if not a.special: return FALSE
    if a.op == "ite": return ite(a.args[0], isnan(a.args[1]), isnan(a.args[2]))
    return TRUE if a is NAN else FALSE


def isinf(a, which=("pinf", "ninf")):
    if not a.special: return FALSE
    if a.op == "ite": return ite(a.args[0], isinf(a.args[1], which), isinf(a.args[2], which))
    return TRUE if a.op in which else FALSE


def finite_part(a, default=None):
    """special leaves replaced by 0 (or default)"""
    d = ZERO if default is None else default
    if not a.special: return a
    if a.op == "ite": return ite(a.args[0], finite_part(a.args[1], d), finite_part(a.args[2], d))
    return d


def map_special(a, f):
    """apply f to special leaves, keep the rest"""
    if not a.special: return a
    if a.op == "ite": return ite(a.args[0], map_special(a.args[1], f), map_special(a.args[2], f))
    return f(a)


# ---------- binders   (range lo <= v < hi)
def bsum(lo, hi, f):
    lo, hi = lift(lo), lift(hi)
    v = fresh("s")
    return mksum(v, lo, hi, f(v))


def mksum(v, lo, hi, body):
    body = b2n(body)
    if body.special:
        n, p, m = isnan(body), isinf(body, ("pinf",)), isinf(body, ("ninf",))
        en, ep, em = (exists_(v, lo, hi, x) for x in (n, p, m))
        fin = mksum(v, lo, hi, finite_part(body))
        return ite(lor(en, land(ep, em)), NAN, ite(ep, PINF, ite(em, NINF, fin)))
    if isc(body) and cval(body) == 0: return C(0, body.sort)
    if isc(lo) and isc(hi):
        n = int(cval(hi) - cval(lo))
        if n <= 0: return C(0, body.sort)
        if n <= 3 and v not in body.fv: return mul(C(n), body)
        if n <= 1: return subst(body, {v: lo})
    return mk("sum", (v, lo, hi, body), body.sort)


def exists_(v, lo, hi, body):
    if body is FALSE: return FALSE
    if isc(lo) and isc(hi):
        k0, k1 = int(cval(lo)), int(cval(hi))
        if k1 - k0 <= 6:
            return lor(*[subst(body, {v: C(k)}) for k in range(k0, k1)])
    if v not in body.fv:
        return land(lt(lo, hi), body)
    if body is TRUE: return lt(lo, hi)
    return mk("exists", (v, lo, hi, body), "B")


def forall_(v, lo, hi, body):
    return lnot(exists_(v, lo, hi, lnot(body)))


def bexists(lo, hi, f):
    v = fresh("e")
    return exists_(v, lift(lo), lift(hi), f(v))


def bforall(lo, hi, f):
    v = fresh("a")
    return forall_(v, lift(lo), lift(hi), f(v))


def bmax(lo, hi, f, which="max"):
    v = fresh("x")
    return mkmax(v, lift(lo), lift(hi), f(v), which)


def mkmax(v, lo, hi, body, which="max"):
    body = b2n(body)
    if isc(lo) and isc(hi) and 0 < cval(hi) - cval(lo) <= 4:
        op = maximum if which == "max" else minimum
        r = None
        for k in range(int(cval(lo)), int(cval(hi))):
            e = subst(body, {v: C(k)})
            r = e if r is None else op(r, e)
        return r
    if body.special:
        # nan absorbs; -inf (max) / +inf (min) entries are dropped: guarded extremum
        en = exists_(v, lo, hi, isnan(body))
        top, bot = (("pinf", "ninf") if which == "max" else ("ninf", "pinf"))
        et = exists_(v, lo, hi, isinf(body, (top,)))
        eb = isinf(body, (bot,))
        allbot = forall_(v, lo, hi, eb)
        g = finite_part(body)
        TOP = PINF if which == "max" else NINF
        BOT = NINF if which == "max" else PINF
        core = mk("max", (v, lo, hi, mk("guard", (lnot(eb), g if which == "max" else neg(g)), g.sort)), g.sort)
        if which != "max": core = neg(core)
        return ite(en, NAN, ite(et, TOP, ite(allbot, BOT, core)))
    if v not in body.fv:
        return body
    if which == "min":
        return neg(mk("max", (v, lo, hi, neg(body)), body.sort))
    return mk("max", (v, lo, hi, body), body.sort)


# ---------- substitution
BINDERS = ("sum", "max", "exists", "prod")


def rebuild(t, args):
    op = t.op
    if op == "add": return add(*args)
    if op == "mul": return mul(*args)
    if op == "inv": return inv(args[0])
    if op == "ite": return ite(*args)
    if op == "and": return land(*args)
    if op == "or": return lor(*args)
    if op == "not": return lnot(args[0])
    if op == "lt": return lt(*args)
    if op == "le": return le(*args)
    if op == "eq": return eq(*args)
    if op in ("exp", "log", "sqrt"): return fn1(op, args[0])
    if op == "pow": return power(args[0], args[1])
    return mk(op, tuple(args), t.sort)


def subst_term(t, old, new):
    """t with the arithmetic occurrences of the term old replaced"""
    if t is old: return new
    if t.op == "add": return add(subst_term(t.args[0], old, new), subst_term(t.args[1], old, new)) if len(t.args) == 2 else functools.reduce(add, [subst_term(a, old, new) for a in t.args])
    if t.op == "mul": return functools.reduce(mul, [subst_term(a, old, new) for a in t.args])
    return t


def subst(t, m, memo=None):
    """simultaneous substitution of variables (capture avoiding)"""
    if not m: return t
    keys = frozenset(m)
    if not (t.fv & keys): return t
    if memo is None: memo = {}
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    if not (t.fv & keys): return t
    r = memo.get(t)
    if r is not None: return r
    op = t.op
    if op == "var":
        r = m[t]
    elif op in BINDERS:
        v, lo, hi, body = t.args
        lo2, hi2 = _subst(lo, m, keys, memo), _subst(hi, m, keys, memo)
        m2 = {k: x for k, x in m.items() if k is not v and k in body.fv}
        if m2:
            if any(v in x.fv for x in m2.values()):
                nv = fresh("r")
                body = subst(body, {v: nv})
                v = nv
            b2 = subst(body, m2) if (len(m2) != len(m)) else _subst(body, m, keys, memo)
        else:
            b2 = body
        r = mksum(v, lo2, hi2, b2) if op == "sum" else exists_(v, lo2, hi2, b2) if op == "exists" else \
            mkmax(v, lo2, hi2, b2) if op == "max" else mk(op, (v, lo2, hi2, b2), t.sort)
    elif op == "lam":
        vs, body = t.args
        m2 = {k: x for k, x in m.items() if k not in vs and k in body.fv}
        if m2 and any(v in x.fv for x in m2.values() for v in vs):
            ren = {v: fresh("r") for v in vs}
            body = subst(body, ren)
            vs = tuple(ren[v] for v in vs)
        r = mk("lam", (vs, subst(body, m2)), t.sort)
    elif op == "msum":
        bs, body = t.args
        bv = [v for v, u in bs]
        m2 = {k: x for k, x in m.items() if k not in bv}
        ren = {v: fresh("r") for v in bv} if any(v in x.fv for x in m2.values() for v in bv) else {}
        if ren:
            bs = tuple((ren[v], subst(u, ren)) for v, u in bs)
            body = subst(body, ren)
        r = mk("msum", (tuple((v, subst(u, m2)) for v, u in bs), subst(body, m2)), t.sort)
    else:
        r = rebuild(t, [(_subst(a, m, keys, memo) if isinstance(a, Term) else a) for a in t.args])
    memo[t] = r
    return r


def rewrite(t, f, memo=None):
    """bottom-up rewriting: f(term with rewritten children) -> term or None"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    op = t.op
    if op in ("var", "c", "pinf", "ninf", "nan"):
        r = t
    elif op in BINDERS:
        v, lo, hi, body = t.args
        lo2, hi2, b2 = rewrite(lo, f, memo), rewrite(hi, f, memo), rewrite(body, f, memo)
        if (lo2, hi2, b2) == (lo, hi, body): r = t
        else:
            r = mksum(v, lo2, hi2, b2) if op == "sum" else exists_(v, lo2, hi2, b2) if op == "exists" else \
                mkmax(v, lo2, hi2, b2) if op == "max" else mk(op, (v, lo2, hi2, b2), t.sort)
    elif op == "lam":
        r = mk("lam", (t.args[0], rewrite(t.args[1], f, memo)), t.sort)
    elif op == "msum":
        r = mk("msum", (tuple((v, rewrite(u, f, memo)) for v, u in t.args[0]), rewrite(t.args[1], f, memo)), t.sort)
    else:
        a2 = [(rewrite(a, f, memo) if isinstance(a, Term) else a) for a in t.args]
        r = t if all(x is y for x, y in zip(a2, t.args)) else rebuild(t, a2)
    g = f(r)
    if g is not None: r = g
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, Term): st.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Term): st.append(b)
                    elif isinstance(b, tuple): st.extend(c for c in b if isinstance(c, Term))


def apps_in(t):
    return [x for x in subterms(t) if x.op == "app"]


def show(t, depth=12):
    if not isinstance(t, Term): return str(t)
    if depth <= 0: return "…"
    s = lambda x: show(x, depth - 1)
    op, a = t.op, t.args
    if op == "var": return str(a[0])
    if op == "c": return str(a[0])
    if op == "app": return f"{a[0]}({', '.join(map(s, a[1:]))})"
    if op == "add": return f"({s(a[0])} + {s(a[1])})"
    if op == "mul": return f"{s(a[0])}*{s(a[1])}"
    if op == "inv": return f"1/({s(a[0])})"
    if op == "ite": return f"if({s(a[0])}; {s(a[1])}; {s(a[2])})"
    if op in BINDERS: return f"{op}[{s(a[0])}:{s(a[1])}..{s(a[2])}]({s(a[3])})"
    if op == "msum": return f"msum[{', '.join(f'{s(v)}<{s(u)}' for v, u in a[0])}]({s(a[1])})"
    if op == "lam": return f"lam {','.join(map(s, a[0]))}. {s(a[1])}"
    if op in ("lt", "le", "eq"): return f"({s(a[0])} {dict(lt='<', le='<=', eq='==')[op]} {s(a[1])})"
    if op in ("and", "or"): return "(" + f" {op} ".join(map(s, a)) + ")"
    if op == "not": return f"!{s(a[0])}"
    return f"{op}({', '.join(s(x) if isinstance(x, Term) else str(x) for x in a)})"
