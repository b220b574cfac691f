"""Concrete interpretation of the contracts on the real code (real torch, float64)."""
import sys, os, json, math, time, itertools, importlib, traceback, warnings
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")
import torch
torch.set_num_threads(1)
torch.set_default_dtype(torch.float64)
from pyvc.api import *
# the code is run in float64: its explicit float32 casts are widened
torch.Tensor.float = lambda self, *a, **k: self.to(torch.get_default_dtype())
torch.float = torch.float64

_randperm, _randn, _randn_like = torch.randperm, torch.randn, torch.randn_like
_multinomial, _bernoulli = torch.multinomial, torch.bernoulli
import torch.distributions.normal as DN
_std_normal = DN._standard_normal
TOL = 1e-6


def mixed(i, sizes):
    p = 0
    for v, n in zip(i, sizes): p = p * n + int(v)
    return p


class Failure(Exception):
    def __init__(self, name, detail): self.name, self.detail = name, detail


class Num(float):
    pass


class ConcE:
    symbolic = False
    inf, nan = math.inf, math.nan

    def __init__(self, seed, contract=None, big=False):
        self.seed = seed
        self.inputs = {}
        self.observed = []
        self.checked = {}
        self.failures = []
        self.tol = TOL
        # some later trials draw unrestricted reals from a wider range (never among the observations of the cross-check)
        k = str(seed).rsplit(":", 1)[-1]
        self.wide = 4.0 if k.isdigit() and int(k) >= 14 and int(k) % 5 == 4 else 1.0

    # ---- inputs
    def u(self, name, lin=0): return unit(self.seed, name, lin)

    def dim(self, name, lo=1, hi=None, cmax=None):
        hi = hi if hi is not None else (cmax if cmax is not None else lo + 3)
        v = lo + int(self.u(name) * (hi - lo + 1))
        self.inputs[name] = v
        return v

    def integer(self, name, lo, hi, cmax=None):
        """lo <= v < hi"""
        hi = hi if hi is not None else (cmax if cmax is not None else lo + 4)
        if hi <= lo: raise Skip(name)
        v = lo + int(self.u(name) * (hi - lo))
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, gen=None, open_=False):
        a, b = (-2.0 if lo is None else lo), (2.0 if hi is None else hi)
        if lo is not None and hi is None: b = lo + 3.0
        g = gen or gen_real(a, b, special=() if open_ else (0.0, 1.0, -1.0))
        v = g(self.seed, name, 0)
        self.inputs[name] = v
        return v

    def boolean(self, name):
        v = self.u(name) < 0.5
        self.inputs[name] = v
        return v

    def int_list(self, name, n, lo, hi, top=True):
        """list of n integers in lo..hi (inclusive); with top, hi is attained"""
        lo_, hi_ = [(x if callable(x) else (lambda j, x=x: x)) for x in (lo, hi)]
        out = [lo_(k) + int(self.u(name, k) * (hi_(k) - lo_(k) + 1)) for k in range(n)]
        if top and n: out[int(self.u(name + "^") * n)] = hi
        self.inputs[name] = out
        return out

    def real_list(self, name, n, lo, hi):
        self.inputs[name] = [gen_real(lo, hi)(self.seed, name, k) for k in range(n)]
        return list(self.inputs[name])

    def bool_list(self, name, n):
        self.inputs[name] = [self.u(name, k) < 0.5 for k in range(n)]
        return list(self.inputs[name])

    def tensor(self, name, *dims, lo=None, hi=None, gen=None, integer=False, boolean=False, dtype=None, special=None):
        n = 1
        for d in dims: n *= int(d)
        if boolean: vals = [self.u(name, k) < 0.5 for k in range(n)]
        elif gen: vals = [gen(self.seed, name, k) for k in range(n)]
        elif integer: vals = [gen_int(lo, hi)(self.seed, name, k) for k in range(n)]
        else:
            w = self.wide
            a, b = (-2.0 * w if lo is None else lo), (2.0 * w if hi is None else hi)
            if lo is not None and hi is None: b = lo + 3.0 * w
            sp = special if special is not None else ((0.0, 1.0, -1.0) if lo is None and hi is None else ())
            vals = [gen_real(a, b, sp)(self.seed, name, k) for k in range(n)]
        t = torch.tensor(vals, dtype=torch.bool if boolean else torch.int64 if integer and dtype is None else torch.get_default_dtype())
        t = t.reshape([int(d) for d in dims])
        self.inputs[name] = t.tolist()
        return t

    def data(self, name, n, items, cats, missing=None):
        """response matrix; missing None / 'nan' / '-1' / 'both'"""
        rows = []
        for i in range(n):
            row = []
            for j in range(items):
                k = i * items + j
                c = cats[j] if not isinstance(cats, int) else cats
                x = float(int(self.u(name, k) * c))
                if missing and self.u(name + "~", k) < 0.25:
                    x = math.nan if missing == "nan" or (missing == "both" and self.u(name + "~~", k) < 0.5) else -1.0
                row.append(x)
            rows.append(row)
        t = torch.tensor(rows).reshape(n, items)
        self.inputs[name] = t.tolist()
        return t

    def missing(self, name, x): return x != x or x == -1

    def assume(self, c):
        if not bool(c): raise Skip()

    def assume_all(self, dims, f):
        for idx in self.ranges(dims):
            if not f(*idx): raise Skip()

    def inject(self, obj, **kw):
        for k, v in kw.items(): setattr(obj, k, v)

    # ---- code under contract
    def cls(self, path):
        mod, _, n = path.rpartition(".")
        return getattr(importlib.import_module(mod), n)

    def new(self, path, *a, **k):
        return self.cls(path)(*a, **k)

    def fn(self, path, *a, **k):
        parts = path.split(".")
        for cut in range(len(parts) - 1, 0, -1):
            try: o = importlib.import_module(".".join(parts[:cut]))
            except ModuleNotFoundError: continue
            for p in parts[cut:]: o = getattr(o, p)
            return o(*a, **k)
        raise AttributeError(path)

    def call(self, obj, meth, *a, **k):
        f = getattr(obj, meth) if meth else obj
        return f(*a, **k)

    def get(self, obj, name):
        for p in name.split("."): obj = getattr(obj, p)
        return obj

    def set(self, obj, name, v): setattr(obj, name, v)
    def swap(self, obj, cls, new):
        for k, v in [*vars(obj).items(), *vars(obj).get("_modules", {}).items()]:
            if type(v).__name__ == cls: return setattr(obj, k, new)
        raise Skip(f"no attribute holding a {cls}")

    def value(self, t): return t.item() if isinstance(t, torch.Tensor) else t
    def item(self, seq, k): return seq[k]

    def havoc(self, model, prefix="par", lo=-1.5, hi=1.5, special=(0.0,), only=None, sort_rows=None):
        with torch.no_grad():
            for n, p in model.named_parameters():
                if only is not None and n not in only: continue
                g = gen_real(lo * self.wide, hi * self.wide, special, 0.05)
                vals = [g(self.seed, f"{prefix}.{n}", k) for k in range(p.numel())]
                p.copy_(torch.tensor(vals, dtype=p.dtype).reshape(p.shape))
                self.inputs[f"{prefix}.{n}"] = p.tolist()
            for n, p in model.named_buffers():
                pass

    def param(self, model, name):
        return dict(model.named_parameters())[name]

    def no_grad(self, f):
        with torch.no_grad(): return f()

    def raises(self, f, kind=None):
        try: f()
        except Skip: raise
        except Exception as e:
            return kind is None or type(e).__name__ in ((kind,) if isinstance(kind, str) else kind)
        return False

    def at(self, t, *idx):
        if isinstance(t, torch.Tensor):
            if any(isinstance(i, tuple) for i in idx): idx = [self.flat(i, t.shape[k]) if isinstance(i, tuple) else i for k, i in enumerate(idx)]
            v = t[tuple(int(i) for i in idx)] if idx else t
            return v.item()
        if hasattr(t, "iloc"):
            v = t.iloc[tuple(int(i) for i in idx)]
            return v.item() if hasattr(v, "item") else v
        for i in idx: t = t[int(i)]
        return t.item() if hasattr(t, "item") else t

    def label_is(self, df, k, *parts): return str(df.columns[int(k)]) == "".join(str(p) for p in parts)
    def ragged(self, n, size, bound, j, k): return sum(size(q) for q in range(int(j))) + k
    def shape(self, t): return tuple(t.shape)
    def copy(self, t): return t.clone() if isinstance(t, torch.Tensor) else t

    def grad(self, f, x):
        """central differences"""
        h = 1e-5
        x = x.detach()
        memo = {}
        def get(oi, xi):
            xi = tuple(int(i) for i in xi)
            if xi not in memo:
                d = torch.zeros_like(x)
                d[xi] = h
                memo[xi] = ((f(x + d) - f(x - d)) / (2 * h)).detach()
            return self.at(memo[xi], *oi)
        return get

    def solve(self, n, A, b):
        x = torch.linalg.solve(torch.tensor([[A(i, j) for j in range(n)] for i in range(n)]), torch.tensor([b(i) for i in range(n)]))
        return lambda k: x[k].item()

    # ---- terms
    def sum(self, n, f): return sum((f(k) for k in range(int(n))), 0.0)
    def sumr(self, lo, hi, f): return sum((f(k) for k in range(int(lo), int(hi))), 0.0)
    def prod(self, n, f):
        r = 1.0
        for k in range(int(n)): r *= f(k)
        return r
    def max(self, n, f): return max((f(k) for k in range(int(n))), default=-math.inf)
    def min(self, n, f): return min((f(k) for k in range(int(n))), default=math.inf)
    def argsort(self, n, f):
        v = [float(f(j)) for j in range(int(n))]
        if len(set(v)) < len(v): raise Skip()     # torch.sort does not say how it orders equal elements
        order = sorted(range(int(n)), key=lambda j: v[j])
        return lambda r: order[int(r)]
    def median(self, n, f): return sorted(f(j) for j in range(int(n)))[(int(n) - 1) // 2]
    def argmax(self, n, f): return max(range(int(n)), key=lambda k: (f(k), -k))
    def exp(self, x):
        try: return math.exp(x)
        except OverflowError: return math.inf
    def log(self, x): return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else math.nan
    def sigmoid(self, x): return 1 / (1 + self.exp(-x))
    def tanh(self, x): return math.tanh(x)
    def softplus(self, x): return x + math.log1p(math.exp(-x)) if x > 0 else math.log1p(math.exp(x))
    def cos(self, x): return math.cos(x)
    def ncdf(self, x): return 0.5 * (1 + math.erf(x / math.sqrt(2)))
    def nicdf(self, p): return torch.distributions.Normal(torch.zeros((), dtype=torch.float64), 1.0).icdf(torch.tensor(float(p), dtype=torch.float64)).item()
    pi = math.pi
    def abs(self, x): return abs(x)
    def div(self, a, b): return a / b if b != 0 else math.nan
    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r
    def land(self, *x): return all(x)
    def lor(self, *x): return any(x)
    def lnot(self, x): return not x
    def implies(self, a, b):
        if not a: return True
        return b() if callable(b) else b
    def forall(self, n, f): return all(f(k) for k in range(int(n)))
    def exists(self, n, f): return any(f(k) for k in range(int(n)))
    def isnan(self, x): return x != x
    def finite(self, x): return math.isfinite(x)
    def neginf(self, x): return x == -math.inf
    def eq(self, a, b):
        if a is None or b is None: return a is b
        if a != a or b != b: return a != a and b != b
        if isinstance(a, int) and isinstance(b, int): return a == b
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= self.tol * (1 + abs(a) + abs(b))
    def ieq(self, a, b): return a == b
    def le(self, a, b): return a <= b + self.tol * (1 + abs(a) + abs(b)) if not (math.isinf(a) or math.isinf(b)) else a <= b
    def lt(self, a, b):
        """strict order (concretely up to rounding)"""
        return self.le(a, b)
    def ilt(self, a, b): return a < b
    def ile(self, a, b): return a <= b

    def as_int(self, x): return int(x)
    def idiv(self, a, b): return int(a) // int(b)
    def imod(self, a, b): return int(a) % int(b)
    def is_int(self, x): return x == int(x)
    def round(self, x): return float(round(x))
    def beq(self, a, b): return bool(a) == bool(b)
    def zeros(self, *dims): return torch.zeros([int(d) for d in dims])
    def build(self, dims, f, dtype=None):
        import itertools, math
        dims = [tuple(int(x) for x in d) if isinstance(d, tuple) else int(d) for d in dims]
        t = torch.zeros([math.prod(d) if isinstance(d, tuple) else d for d in dims], dtype=dtype or torch.get_default_dtype())
        for ix in itertools.product(*[list(itertools.product(*map(range, d))) if isinstance(d, tuple) else range(d) for d in dims]):
            t[tuple(mixed(i, dims[k]) if isinstance(i, tuple) else i for k, i in enumerate(ix))] = float(f(*ix))
        return t
    def flat(self, i, n):
        """row-major position of a combined index with equally long parts"""
        g = round(n ** (1 / len(i)))
        p = 0
        for v in i: p = p * g + int(v)
        return p
    def mvn(self, x, mu, S):
        """log density of the multivariate normal distribution at every row of x"""
        return torch.distributions.MultivariateNormal(mu.double(), S.double()).log_prob(x.double()) if len(x) else torch.zeros(0)
    def quantile(self, n, f, p): return torch.quantile(torch.tensor([float(f(k)) for k in range(int(n))]), p).item()

    def spread(self, x):
        """some columns get extreme values"""
        for i in range(x.shape[0]):
            for j in range(x.shape[1]):
                if self.u("spread", i * x.shape[1] + j) < 0.15: x[i, j] *= 20
        self.inputs["spread"] = x.tolist()

    def permutation(self, name, n):
        """an arbitrary permutation, the one torch.randperm returns"""
        order = sorted(range(int(n)), key=lambda k: self.u(name, k))
        p = torch.tensor(order, dtype=torch.int64)
        self.inputs[name] = order
        self._perm = p
        torch.randperm = lambda m, *a, **k: p.clone() if m == int(n) else _randperm(m, *a, **k)
        return p

    def path(self, name):
        """a file in a scratch directory that is removed after the run"""
        import tempfile
        if not hasattr(self, "_dir"): self._dir = tempfile.TemporaryDirectory(prefix="pyvc_")
        return os.path.join(self._dir.name, name)

    def noise(self, name, *dims):
        """arbitrary standard normal draws: what the random generators return for that shape"""
        t = self.tensor(name, *dims, lo=-3, hi=3)
        shape = tuple(t.shape)
        def like(x, *a, **k): return t.clone() if tuple(x.shape) == shape else _randn_like(x, *a, **k)
        def rn(*size, **k):
            sz = tuple(size[0]) if len(size) == 1 and isinstance(size[0], (tuple, list, torch.Size)) else tuple(size)
            return t.clone() if sz == shape else _randn(*size, **k)
        torch.randn_like, torch.randn = like, rn
        DN._standard_normal = lambda sz, dtype, device: t.clone() if tuple(sz) == shape else _std_normal(sz, dtype, device)
        return t

    def uniform(self, name):
        """any uniform draw: every categorical or Bernoulli sample is the inverse of its distribution function at this number"""
        u = 0.001 + 0.998 * float(self.u(name))
        self.inputs[name] = u
        def multinomial(p, num_samples, replacement=False, **k):
            c = p.double().cumsum(-1)
            out = (c[..., :-1] <= u * c[..., -1:]).sum(-1, keepdim=True)
            return out.expand(*out.shape[:-1], num_samples).clone()
        torch.multinomial = multinomial
        torch.bernoulli = lambda p, *a, **k: (1 - p.double() <= u).to(p.dtype)
        return u

    def ranges(self, dims):
        def rec(pre, ds):
            if not ds: yield tuple(pre); return
            d = ds[0]
            d = d(*pre) if callable(d) else d
            lo, hi = d if isinstance(d, tuple) else (0, d)
            for k in range(int(lo), int(hi)): yield from rec(pre + [k], ds[1:])
        yield from rec([], list(dims))

    # ---- obligations
    def ensure(self, name, dims, f):
        n = 0
        for idx in self.ranges(dims):
            n += 1
            try: ok = f(*idx)
            except Skip: raise
            except Exception as e: raise Failure(name, f"at {idx}: {type(e).__name__}: {e}")
            if not ok:
                self.failures.append((name, f"fails at index {idx}"))
                break
        self.checked[name] = self.checked.get(name, 0) + n

    def ensure_shape(self, name, t, *dims):
        ok = tuple(int(s) for s in t.shape) == tuple(int(d) for d in dims)
        self.checked[name] = self.checked.get(name, 0) + 1
        if not ok: self.failures.append((name, f"shape {tuple(t.shape)} expected {dims}"))

    def have(self, name, dims, f): self.ensure(name, dims, f)
    def ensure_true(self, name, c): self.ensure(name, [], lambda: c)

    def ensure_unchanged(self, name, t, snap):
        a, b = t.detach(), snap.detach()
        ok = a.shape == b.shape and bool(((a == b) | (a.isnan() & b.isnan())).all()) if a.dtype.is_floating_point else bool((a == b).all())
        self.checked[name] = self.checked.get(name, 0) + 1
        if not ok: self.failures.append((name, "the caller's tensor was modified"))

    def observe(self, name, t):
        """values compared with the extraction"""
        if isinstance(t, torch.Tensor):
            v = t.detach().to(torch.float64)
            self.observed.append((name, list(v.shape), v.reshape(-1).tolist()[:64]))
        else: self.observed.append((name, [], [float(t)]))

    def note(self, *a): pass
    def stub(self, *a, **k): pass
    def lemma(self, *a, **k): pass
    def capture(self, *a): pass
    def ensure_sum(self, name, dims, n, g, value, F):
        self.ensure(name + ": telescoping ends", dims, lambda *i: self.eq(self.sum(n, lambda k: g(*i, k)), value(*i) if callable(value) else value))
    def recurrence(self, name, sizes, init, step, qualname=None, var=None):
        import itertools
        memo = {}
        def table(k):
            if k not in memo:
                prev = (lambda *j: memo[k - 1][tuple(int(x) for x in j)]) if k else None
                if k: table(k - 1)
                memo[k] = {i: (step(k - 1, prev, *i) if k else init(*i)) for i in itertools.product(*[range(int(n)) for n in sizes])}
            return memo[k]
        return lambda k, *idx: table(int(k))[tuple(int(i) for i in idx)]
    def only_concrete(self, f): f()
    def only_symbolic(self, f): pass


def run_one(c, seed):
    torch.manual_seed(abs(hash_int(seed)) % (2 ** 31))
    torch.randperm, torch.randn, torch.randn_like = _randperm, _randn, _randn_like
    torch.multinomial, torch.bernoulli = _multinomial, _bernoulli
    DN._standard_normal = _std_normal
    E = ConcE(seed)
    E.tol = c.opt.get("tol", TOL)
    if not c.opt.get("wide", True): E.wide = 1.0
    status, detail = "ok", None
    torch.float = torch.float32 if c.opt.get("f32") else torch.float64
    torch.set_default_dtype(torch.float)
    if c.opt.get("tol"): E.tol = c.opt["tol"]
    try:
        c.fn(E)
    except Skip:
        status = "skip"
    except Failure as f:
        E.failures.append((f.name, f.detail))
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        E.failures.append(("no unexpected exception", f"{type(e).__name__}: {e} | " + " / ".join(x.strip() for x in tb[-5:])))
    if hasattr(E, "_dir"): E._dir.cleanup()
    if E.failures and status != "skip": status = "fail"
    return E, status


def hash_int(s):
    import hashlib
    return int.from_bytes(hashlib.blake2b(str(s).encode(), digest_size=6).digest(), "big")


def jsonable(x):
    try:
        json.dumps(x); return x
    except TypeError: return repr(x)


def run_contract(c, seed, trials, tmax, want_obs=0):
    t0 = time.time()
    res = dict(id=c.id, runs=0, skipped=0, checks=0, fails=[], obs=[], samples=[], per={})
    seen = set()
    for k in range(trials):
        if time.time() - t0 > tmax and k >= 1: break
        s = f"{seed}:{k}"
        E, st = run_one(c, s)
        if st == "skip": res["skipped"] += 1; continue
        res["runs"] += 1
        res["checks"] += sum(E.checked.values())
        for n, v in E.checked.items(): res["per"][n] = res["per"].get(n, 0) + v
        if len(res["obs"]) < want_obs and E.observed and E.wide == 1.0: res["obs"].append(dict(seed=s, observed=E.observed, inputs={k2: v for k2, v in E.inputs.items() if jsonable(v) is v}))
        if len(res["samples"]) < 2: res["samples"].append({k2: jsonable(v) for k2, v in E.inputs.items()})
        if st == "fail":
            for n, d in E.failures:
                if n not in seen:
                    seen.add(n)
                    res["fails"].append(dict(obligation=n, detail=d, seed=s, inputs={k2: jsonable(v) for k2, v in E.inputs.items()}))
            if len(seen) >= 4: break
    res["wall"] = time.time() - t0
    return res


def load_contracts():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py": importlib.import_module("contracts." + f[:-3])


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--ids", default="")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--trials", type=int, default=20)
    ap.add_argument("--tmax", type=float, default=20)
    ap.add_argument("--obs", type=int, default=2)
    ap.add_argument("--out")
    ap.add_argument("--prefix", action="store_true")
    ap.add_argument("--one", help="run one exact input seed and print the outcome")
    a = ap.parse_args()
    import logging
    logging.disable(logging.CRITICAL)
    load_contracts()
    ids = [i for i in CONTRACTS if any(i == x or (a.prefix and i.startswith(x)) for x in a.ids.split(";") if x)]
    if a.one:
        for i in ids:
            E, st = run_one(CONTRACTS[i], a.one)
            print(i, st, E.failures)
            if st == "fail": sys.exit(1)
        return
    out = [run_contract(CONTRACTS[i], a.seed, a.trials, a.tmax, a.obs) for i in ids]
    if a.out:
        with open(a.out, "w") as f: json.dump(out, f)
    else:
        for r in out:
            print(r["id"], "runs", r["runs"], "skipped", r["skipped"], "checks", r["checks"], "%.1fs" % r["wall"])
            for f in r["fails"]: print("   FAIL", f["obligation"], "|", f["detail"], "| seed", f["seed"])


if __name__ == "__main__": main()
