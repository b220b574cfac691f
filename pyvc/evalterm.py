"""Numeric evaluation of verifier terms (used to cross-check the extraction against the running code)."""
import statistics
import math
from fractions import Fraction
from .terms import *
from . import terms as T


class NoValue(Exception): pass


class Evaluator:
    def __init__(self, interp, vars_=None):
        self.interp = interp          # f(name, args) -> number   (args are numbers or lam closures)
        self.env = dict(vars_ or {})  # var name -> number
        self.memo = {}
        self.budget = 400000

    def ev(self, t, env=None):
        env = env or {}
        key = (t.id, tuple((v, env[v]) for v in env if v in t.fv)) if t.fv else (t.id, ())
        r = self.memo.get(key)
        if r is None:
            self.budget -= 1
            if self.budget < 0: raise NoValue("budget")
            r = self._ev(t, env)
            self.memo[key] = r
        return r

    def _ev(self, t, env):
        op, a = t.op, t.args
        E = lambda x: self.ev(x, env)
        if op == "c":
            v = a[0]
            if isinstance(v, bool): return v
            return int(v) if v.denominator == 1 and t.sort == "I" else float(v)
        if op == "var":
            if t in env: return env[t]
            if a[0] in self.env: return self.env[a[0]]
            raise NoValue("variable " + a[0])
        if op == "pinf": return math.inf
        if op == "ninf": return -math.inf
        if op == "nan": return math.nan
        if op == "add":
            r = E(a[0])
            for x in a[1:]: r = r + E(x)
            return r
        if op == "mul":
            r = E(a[0])
            for x in a[1:]:
                if r == 0: return 0
                r = r * E(x)
            return r
        if op == "inv":
            x = E(a[0])
            if x == 0: return math.nan
            return 1 / x
        if op == "ite": return E(a[1]) if E(a[0]) else E(a[2])
        if op == "and": return all(E(x) for x in a)
        if op == "or": return any(E(x) for x in a)
        if op == "not": return not E(a[0])
        if op in ("lt", "le", "eq"):
            x, y = E(a[0]), E(a[1])
            if op == "lt": return x < y
            if op == "le": return x <= y
            return x == y
        if op == "ge0": return E(a[0]) >= 0
        if op == "eq0": return E(a[0]) == 0
        if op in ("gt0", "rgt0"): return E(a[0]) > 0
        if op == "exp":
            try: return math.exp(E(a[0]))
            except OverflowError: return math.inf
        if op == "log":
            x = E(a[0])
            return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if op == "sqrt":
            x = E(a[0])
            return math.sqrt(x) if x >= 0 else math.nan
        if op in ("erf", "cos", "sin", "tan", "tanh", "acos", "asin", "atan"): return getattr(math, op)(E(a[0]))
        if op == "powq":
            return float(E(a[0])) ** float(a[1].args[0] if isinstance(a[1], Term) else a[1])
        if op == "pow":
            x, k = E(a[0]), E(a[1])
            return x ** k
        if op == "guard": return E(a[1]) if E(a[0]) else -math.inf
        if op in ("sum", "max", "exists", "prod"):
            v, lo, hi, body = a
            lo, hi = int(E(lo)), int(E(hi))
            if hi - lo > 3000: raise NoValue("range")
            it = (self.ev(body, {**env, v: k}) for k in range(lo, hi))
            if op == "sum": return sum(it)
            if op == "max": return max(it, default=-math.inf)
            if op == "exists": return any(it)
            r = 1
            for x in it: r *= x
            return r
        if op == "app": return self.app(a[0], a[1:], env)
        raise NoValue("op " + op)

    def closure(self, lam, env):
        vs, body = lam.args
        return lambda *xs: self.ev(body, {**env, **dict(zip(vs, xs))})

    def app(self, name, args, env):
        vals = [self.closure(x, env) if isinstance(x, Term) and x.op == "lam" else self.ev(x, env) if isinstance(x, Term) else x for x in args]
        b = BUILTIN.get(name)
        if b is not None: return b(*vals)
        return self.interp(name, vals)


def _rank(f, *rest):
    n = len(rest) // 2
    sizes, idx = rest[:n], rest[n:]
    import itertools
    tgt = tuple(int(i) for i in idx)
    r = 0
    for p in itertools.product(*[range(int(s)) for s in sizes]):
        if p >= tgt: break
        if f(*p): r += 1
    return r


BUILTIN = {"rank": _rank, "pi": lambda: math.pi, "trunc": lambda x: math.trunc(x), "floor": lambda x: math.floor(x),
           "ceil": lambda x: math.ceil(x), "round": lambda x: round(x), "idiv": lambda a, b: a // b,
           "ncdf": lambda x: statistics.NormalDist().cdf(x), "nicdf": lambda p: statistics.NormalDist().inv_cdf(p)}
