"""Symbolic interpretation of the contracts: the verifier proper (one process per contract)."""
import sys, os, json, time, signal, itertools, traceback, importlib, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pyvc.interp import *
from pyvc import norm as NM, tensor as TS, torchmodel as TM, terms as T, nnmodel as NNM
from pyvc.terms import *
from pyvc.tensor import Tensor, Storage, PyRaise, CAxis, cur
from pyvc.api import *
from pyvc.loops import LoopSpec, PathDone, Trainer, IntervalTrainer, ANY
from pyvc.evalterm import Evaluator, NoValue


class TimeUp(BaseException): pass


def flat(x):
    if isinstance(x, list):
        out = []
        for y in x: out.extend(flat(y))
        return out
    return [x]


class Recurrence:
    def __init__(self, E, name, init, step): self.E, self.name, self.init, self.step = E, name, init, step
    def __call__(self, k, *idx): return self.state(lift(k), [lift(i) for i in idx])
    def state(self, k, idx):
        if isc(k) and T.cval(k) == 0: return lift(self.init(*idx))
        return app(self.name, (k,) + tuple(idx))
    def next(self, k, idx): return lift(self.step(k, lambda *j: self.state(k, [lift(x) for x in j]), *idx))
    def check(self, eng, ctx, what, a, b):
        t0 = time.time()
        base = cur.ctx
        cur.ctx = ctx
        try: ok = ctx.inconsistent() or ctx.prove(self.E.eq(a, b))
        finally: cur.ctx = base
        self.E.record(f"loop invariant {self.name} {what}", ok, time.time() - t0, "" if ok else "not proved: " + show(a)[:300] + " == " + show(b)[:300])


class SymE:
    symbolic = True
    inf, nan = PINF, NAN

    def __init__(self, contract, deadline):
        self.c = contract
        self.e = Engine()
        self.e.spec = self
        self.results = {}           # obligation name -> dict
        self.syms = {}              # app name -> f(inputs, args)
        self.vars = {}
        self.observed = []
        self.assumed = set()
        self.paths = 0
        self.path_obs = []
        self.deadline = deadline
        self.events = []

    # ---- inputs
    @property
    def ctx(self): return cur.ctx

    def assume_term(self, *cs):
        cur.ctx = cur.ctx.child(*cs)
        if self.e.frames: self.e.frames[0].conds.extend(())

    def dim(self, name, lo=1, hi=None, cmax=None):
        v = var(name)
        self.vars[name] = True
        cs = [le(lift(lo), v)]
        if hi is not None: cs.append(le(v, lift(hi)))
        self.assume_term(*cs)
        return v

    def integer(self, name, lo, hi, cmax=None):
        v = var(name)
        self.vars[name] = True
        cs = [] if lo is None else [le(lift(lo), v)]
        if hi is not None: cs.append(lt(v, lift(hi)))
        self.assume_term(*cs)
        return v

    def real(self, name, lo=None, hi=None, gen=None, open_=False):
        v = var(name, "R")
        self.vars[name] = True
        f = lt if open_ else le
        cs = []
        if lo is not None: cs.append(f(lift(lo), v))
        if hi is not None: cs.append(f(v, lift(hi)))
        self.assume_term(*cs)
        return v

    def boolean(self, name):
        self.vars[name] = True
        return var(name, "B")

    def int_list(self, name, n, lo, hi, top=True):
        lo_, hi_ = [(x if callable(x) else (lambda j, x=lift(x): x)) for x in (lo, hi)]
        self.syms[name] = lambda inp, a: inp[name][int(a[0])]
        self.e.root.app_facts[name] = lambda a: [le(lift(lo_(a[0])), app(name, a, "I")), le(app(name, a, "I"), lift(hi_(a[0])))]
        l = SymList(lift(n), lambda j: app(name, (j,), "I"))
        if top:
            l.max_ = lift(hi)
            # the largest entry is hi
            if not hasattr(self.e.root, "tops"): self.e.root.tops = {}
            self.e.root.tops[name] = (lift(n), lift(hi))
        return l

    def real_list(self, name, n, lo, hi):
        self.syms[name] = lambda inp, a: inp[name][int(a[0])]
        self.e.root.app_facts[name] = lambda a: [le(lift(lo), app(name, a, "R")), le(app(name, a, "R"), lift(hi))]
        return SymList(lift(n), lambda j: app(name, (j,), "R"))

    def bool_list(self, name, n):
        self.syms[name] = lambda inp, a: inp[name][int(a[0])]
        return SymList(lift(n), lambda j: app(name, (j,), "B"))

    def tensor(self, name, *dims, lo=None, hi=None, gen=None, integer=False, boolean=False, dtype=None, special=None):
        sort = "B" if boolean else "I" if integer else "R"
        dt = dtype or ("bool" if boolean else "int64" if integer else "float32")
        dims = [lift(d) for d in dims]
        fs = []
        if lo is not None or hi is not None:
            lo_, hi_ = None if lo is None else lift(lo), None if hi is None else lift(hi)
            def facts(a):
                x = app(name, a, sort)
                out = []
                if lo_ is not None: out.append(le(lo_, x))
                if hi_ is not None: out.append(lt(x, hi_) if integer else le(x, hi_))
                return out
            self.e.root.app_facts[name] = facts
        groups = [TS.split_size(d) for d in dims]
        self.reg(name, groups)
        t = Tensor.build(groups, lambda i: app(name, tuple(TS.flat_idx(i)), sort), dt)
        t.st.input_name = name
        return t

    def reg(self, name, groups):
        """numeric reading of the symbol: row-major position in the concrete nested list"""
        sizes = [s for g in groups for s in g]
        def get(inp, a, self=self):
            ev = self.evaluator
            vals = flat(inp[name])
            lin, k = 0, 0
            for s in sizes:
                if isinstance(s, CAxis):
                    idx = a[k:k + len(s.sizes)]; k += len(s.sizes)
                    from pyvc.evalterm import _rank
                    f = ev.closure(s.lam(), {})
                    szs = [ev.ev(z) for z in s.sizes]
                    r = _rank(f, *szs, *idx)
                    n = ev.ev(s.count())
                else:
                    r, n = a[k], ev.ev(s); k += 1
                lin = lin * int(n) + int(r)
            if lin < 0 or lin >= len(vals): raise NoValue("index")
            return vals[lin]
        self.syms[name] = get

    def data(self, name, n, items, cats, missing=None):
        n, items = lift(n), lift(items)
        cat = (lambda j: cats.get(j)) if isinstance(cats, SymList) else (lambda j: lift(cats[int(T.cval(j))])) if isinstance(cats, list) else (lambda j: lift(cats))
        self.e.root.app_facts[name] = lambda a: [le(ZERO, app(name, a, "I")), lt(app(name, a, "I"), cat(a[1]))]
        def read(inp, a): 
            v = inp[name][int(a[0])][int(a[1])]
            return 0 if v != v or v == -1 else int(v)
        self.syms[name] = read
        self.syms[name + "~"] = lambda inp, a: (lambda v: v != v or v == -1)(inp[name][int(a[0])][int(a[1])])
        self.syms[name + "~~"] = lambda inp, a: (lambda v: v != v)(inp[name][int(a[0])][int(a[1])])
        def body(i):
            x = app(name, tuple(i), "I")
            if missing:
                m = app(name + "~", tuple(i), "B")
                mv = NAN if missing == "nan" else C(-1) if missing == "-1" else ite(app(name + "~~", tuple(i), "B"), NAN, C(-1))
                x = ite(m, mv, x)
            return x
        t = Tensor.build([TS.split_size(n), TS.split_size(items)], body, "float32")
        t.st.input_name = name
        return t

    def missing(self, name, x):
        x = lift(x)
        return lor(isnan(x), eq(x, C(-1)))

    def assume(self, c):
        if c is True: return
        if c is False: c = FALSE
        self.assume_term(c)

    def assume_all(self, dims, f):
        vs, guards = self.index_vars(dims)
        base = cur.ctx
        cur.ctx = base.child(*guards)
        body = f(*vs)
        if body is not True: body = cur.ctx.nb(self.b(body))
        cur.ctx = base
        if body is True: return
        self.e.root.schemas.append(NM.make_schema(tuple(vs), tuple(guards), body))
        self.e.root.gen += 1
        cur.ctx = self.refresh(cur.ctx)

    def refresh(self, ctx):
        c = NM.Ctx(self.e.root, None, (), ctx.schemas)
        c.facts = ctx.facts
        return c

    def index_vars(self, dims):
        vs, guards = [], []
        base = cur.ctx
        try:
            for d in dims:
                d = d(*vs) if callable(d) else d
                lo, hi = d if isinstance(d, tuple) else (ZERO, d)
                if not isinstance(d, tuple) and isc(lift(d)) and T.cval(lift(d)) == 1:
                    vs.append(ZERO)
                    continue
                v = fresh("i")
                g = [le(lift(lo), v), lt(v, lift(hi))]
                guards += g
                cur.ctx = cur.ctx.child(*g)
                vs.append(v)
        finally: cur.ctx = base
        return vs, guards

    def inject(self, obj, **kw):
        for k, v in kw.items(): self.e.setattr(obj, k, v)

    # ---- code under contract
    def cls(self, path):
        mod, _, n = path.rpartition(".")
        return self.e.getattr(self.e.import_module(mod), n)

    def new(self, path, *a, **k): return self.e.call(self.cls(path), list(a), k)

    def fn(self, path, *a, **k):
        parts = path.split(".")
        for cut in range(len(parts) - 1, 0, -1):
            try: o = self.e.import_module(".".join(parts[:cut]))
            except PyRaise: continue
            if isinstance(o, NativeModule) and cut > 1 and parts[0] == "irtorch": continue
            for p in parts[cut:]: o = self.e.getattr(o, p)
            return self.e.call(o, list(a), k)
        raise Unsupported("no function " + path)

    def call(self, obj, meth, *a, **k):
        f = self.e.getattr(obj, meth) if meth else obj
        return self.e.call(f, list(a), k)

    def get(self, obj, name):
        for p in name.split("."): obj = self.e.getattr(obj, p)
        return obj

    def set(self, obj, name, v): self.e.setattr(obj, name, v)
    def swap(self, obj, cls, new):
        """replace the attribute that holds an instance of class cls"""
        at = obj.attrs
        for d in [at] + [v for k, v in at.items() if k in ("_modules",) and isinstance(v, dict)]:
            for k, v in list(d.items()):
                if isinstance(v, Obj) and v.cls.name == cls:
                    self.e.setattr(obj, k, new)
                    return
        raise Unsupported(f"no attribute holding a {cls}")

    def value(self, t): return t.item_term() if isinstance(t, Tensor) else t
    def item(self, seq, k): return seq.get(lift(k)) if isinstance(seq, SymList) else self.e.getitem(seq, k)

    def havoc(self, model, prefix="par", lo=-1.5, hi=1.5, special=None, only=None, sort_rows=None):
        for n, p in NNM.named_params(model):
            if only is not None and n not in only: continue
            nm = f"{prefix}.{n}"
            st = p.st
            st.write(app(nm, st.phs))
            self.reg(nm, [st.sizes])

    def param(self, model, name):
        return dict(NNM.named_params(model))[name]

    def no_grad(self, f): return f()

    def raises(self, f, kind=None):
        try: f()
        except PyRaise as e:
            return kind is None or e.kind in ((kind,) if isinstance(kind, str) else kind)
        return False

    def at(self, t, *idx):
        if isinstance(t, Tensor) and any(isinstance(i, tuple) for i in idx):
            if len(idx) != t.ndim: raise PyRaise("IndexError", f"{len(idx)} indices for a tensor of dimension {t.ndim}")
            return t.at_dims([[lift(k) for k in i] if isinstance(i, tuple) else decode(lift(i), [t.axes[a] for a in g]) for i, g in zip(idx, t.groups)])
        idx = [lift(i) for i in idx]
        if isinstance(t, Tensor):
            if len(idx) != t.ndim: raise PyRaise("IndexError", f"{len(idx)} indices for a tensor of dimension {t.ndim}")
            return t.at_dims([decode(i, [t.axes[a] for a in g]) for i, g in zip(idx, t.groups)])
        if hasattr(t, "iloc_at"): return t.iloc_at(self.e, *idx)
        for i in idx: t = self.e.getitem(t, TS.py(i))
        return t.item_term() if isinstance(t, Tensor) else t

    def label(self, df, k):
        l = df.label(k)
        return l
    def label_is(self, df, k, *parts):
        """column label k is the concatenation of parts (strings and integers)"""
        l = df.label(k)
        ps = list(l.parts) if isinstance(l, SymStr) else [l]
        ps = [p for p in ps if p != ""]
        if all(isinstance(p, str) for p in ps):
            if all(isinstance(q, (str, int)) or isc(q) for q in parts):
                return C("".join(ps) == "".join(str(q) if not isinstance(q, Term) else str(int(T.cval(q))) for q in parts))
        if len(ps) != len(parts): return FALSE
        return land(*[C(p == q) if isinstance(p, str) or isinstance(q, str) else T.eq(lift(p), lift(q)) for p, q in zip(ps, parts)])
    def ragged(self, n, size, bound, j, k):
        """position of element k of piece j when pieces of length size(j) are laid out one after the other"""
        a, b = fresh("c"), fresh("c")
        n, bound, j, k = (lift(x) for x in (n, bound, j, k))
        ax = CAxis([n, bound], (a, b), lt(b, lift(size(a))))
        return app("rank", (ax.lam(), n, bound, j, k), "I")
    def shape(self, t): return t.shape()
    def copy(self, t): return t.contiguous_copy() if isinstance(t, Tensor) else t

    def grad(self, f, x):
        """(out index, x index) -> true derivative of the forward expression of f(x)"""
        from pyvc import autodiff as AD
        e = self.e
        xs = x.contiguous_copy()
        ng, e.nograd = e.nograd, False
        AD.make_leaf(e, xs)
        name = xs.leafname
        try: out = f(xs)
        finally:
            e.nograd = ng
            del e.leaves[name]
        def get(oi, xi):
            cf, e.cfuns = e.cfuns, {}
            try: return AD.expand(e, AD.deriv(e, lift(self.at(out, *oi)), name, tuple(lift(i) for i in xi)))
            finally: e.cfuns = cf
        return get

    def solve(self, n, A, b):
        """solution x of A x = b (assumed: the one torch.linalg.solve returns)"""
        n = lift(n)
        An = Tensor.build([[n], [n]], lambda i: lift(A(i[0], i[1])), "float32") if not TS.is_one(n) else Tensor.build([[], []], lambda i: lift(A(ZERO, ZERO)), "float32")
        bn = Tensor.build([[n]] if not TS.is_one(n) else [[]], lambda i: lift(b(i[0] if i else ZERO)), "float32")
        x = TM.f_solve(self.e, An, bn)
        return lambda k: self.at(x, k)

    # ---- terms
    def binder(self, lo, hi, f):
        v = fresh("s")
        base = cur.ctx
        cur.ctx = base.child(le(lift(lo), v), lt(v, lift(hi)))
        try: b = f(v)
        finally: cur.ctx = base
        return v, b
    def sum(self, n, f): return self.sumr(0, n, f)
    def sumr(self, lo, hi, f):
        v, b = self.binder(lo, hi, f)
        return mksum(v, lift(lo), lift(hi), lift(b))
    def prod(self, n, f):
        v, b = self.binder(0, n, f)
        return T.mk("prod", (v, ZERO, lift(n), lift(b)), "R")
    def max(self, n, f):
        v, b = self.binder(0, n, f)
        return mkmax(v, ZERO, lift(n), lift(b))
    def min(self, n, f):
        v, b = self.binder(0, n, f)
        return mkmax(v, ZERO, lift(n), lift(b), "min")
    def argmax(self, n, f):
        """position of the first largest element"""
        from . import torchmodel as TM
        TM.install_arg(self.e, "argmax", "max")
        return app("argmax", (TM.lam1(lambda j: lift(f(j)), lift(n)), TS.simp_int(lift(n))), "I")
    def argsort(self, n, f):
        """r -> position of the r-th smallest element"""
        n = TS.simp_int(lift(n))
        TM.install_sort(self.e, "sortperm", False)
        row = TM.lam1(lambda j: lift(f(j)), n)
        return lambda r: app("sortperm", (row, n, lift(r)), "I")
    def median(self, n, f):
        n = TS.simp_int(lift(n))
        return app("median", (TM.lam1(lambda j: lift(f(j)), n), n))
    def exp(self, x): return T.exp(lift(x))
    def log(self, x): return T.log(lift(x))
    def sqrt(self, x): return T.sqrt(lift(x))
    def sigmoid(self, x): return T.sigmoid(lift(x))
    def tanh(self, x): return T.fn1("tanh", lift(x))
    def softplus(self, x): return T.softplus(lift(x))
    def cos(self, x): return T.fn1("cos", lift(x))
    def ncdf(self, x): return app("ncdf", (lift(x),))
    def nicdf(self, p): return app("nicdf", (lift(p),))
    pi = TM.PI
    def abs(self, x): return absf(lift(x))
    def div(self, a, b): return T.div(lift(a), lift(b))
    def ite(self, c, a, b):
        if c is True or c is TRUE: return lift(a() if callable(a) else a)
        if c is False or c is FALSE: return lift(b() if callable(b) else b)
        base = cur.ctx
        try:
            cur.ctx = base.child(c)
            a = a() if callable(a) else a
            cur.ctx = base.child(lnot(c))
            b = b() if callable(b) else b
        finally: cur.ctx = base
        return T.ite(c, lift(a), lift(b))
    def b(self, x): return C(x) if isinstance(x, bool) else x
    def land(self, *x): return land(*[self.b(y) for y in x])
    def lor(self, *x): return lor(*[self.b(y) for y in x])
    def lnot(self, x): return lnot(self.b(x))
    def implies(self, a, b):
        a = self.b(a)
        if a is FALSE: return TRUE
        if callable(b):
            base = cur.ctx
            cur.ctx = base.child(a)
            try: b = b()
            finally: cur.ctx = base
        return implies(a, self.b(b))
    def forall(self, n, f):
        v, b = self.binder(0, n, f)
        return forall_(v, ZERO, lift(n), self.b(b))
    def exists(self, n, f):
        v, b = self.binder(0, n, f)
        return exists_(v, ZERO, lift(n), self.b(b))
    def isnan(self, x): return isnan(lift(x))
    def sub(self, a, b): return sub(lift(a), lift(b))
    def finite(self, x):
        x = lift(x)
        return TRUE if not x.special else lnot(lor(isnan(x), isinf(x, ("pinf",)), isinf(x, ("ninf",))))
    def neginf(self, x):
        x = lift(x)
        return FALSE if not x.special else isinf(x, ("ninf",))
    def eq(self, a, b):
        if a is None or b is None: return C(a is b)
        a, b = lift(a), lift(b)
        if a.special or b.special:
            def iff(p, q): return land(implies(p, q), implies(q, p))
            fs = [iff(f(a), f(b)) for f in (isnan, lambda x: isinf(x, ("pinf",)), lambda x: isinf(x, ("ninf",)))]
            sp = lor(isnan(a), isinf(a))
            return land(*fs, lor(sp, T.eq(finite_part(a), finite_part(b))))
        return T.eq(a, b)
    def ieq(self, a, b): return self.eq(a, b)
    def le(self, a, b): return self.cmp("le", le, a, b)
    def lt(self, a, b): return self.cmp("lt", lt, a, b)
    def cmp(self, op, f, a, b):
        a, b = T.b2n(lift(a)), T.b2n(lift(b))
        if a.special or b.special or (isc(a) and isc(b)) or a is b: return f(a, b)
        return T.mk(op, (a, b), "B")
    ilt, ile = lt, le

    def as_int(self, x):
        x = lift(x)
        return TS.to_int(finite_part(x) if x.special else x)

    def is_int(self, x):
        x = lift(x)
        x = finite_part(x) if x.special else x
        return TRUE if x.sort == "I" else eq(x, app("floor", (x,), "I"))
    def idiv(self, a, b): return floordiv(lift(a), lift(b))
    def imod(self, a, b): return modulo(lift(a), lift(b))
    def round(self, x): return TS.rounded("round", lift(x))
    def beq(self, a, b):
        a, b = self.b(a), self.b(b)
        return land(implies(a, b), implies(b, a))
    def zeros(self, *dims): return TM.f_zeros(self.e, *[lift(d) for d in dims])
    def build(self, dims, f, dtype=None):
        """tensor with the given elements; a tuple among the dims is one dimension of row-major combined indices (f gets the tuple)"""
        gs = [[lift(x) for x in d] if isinstance(d, tuple) else [lift(d)] for d in dims]
        def fn(i):
            i, out = list(i), []
            for d in dims:
                if isinstance(d, tuple):
                    out.append(tuple(i[:len(d)]))
                    i = i[len(d):]
                else: out.append(i.pop(0))
            return lift(f(*out))
        return Tensor.build(gs, fn, "float32")
    def mvn(self, x, mu, S):
        from . import nnmodel
        return nnmodel.mvn_logprob(self.e, x, mu, S)
    def quantile(self, n, f, p):
        n = TS.simp_int(lift(n))
        return app("quantile", (TM.lam1(lambda j: lift(f(j)), n), n, lift(p)))
    def spread(self, x): pass

    def permutation(self, name, n):
        n = lift(n)
        inv = name + "^-1"
        self.e.root.app_facts[name] = lambda a: [le(ZERO, app(name, a, "I")), lt(app(name, a, "I"), n), eq(app(inv, (app(name, a, "I"),), "I"), a[0])]
        p = Tensor.build([TS.split_size(n)], lambda i: app(name, tuple(TS.flat_idx(i)), "I"), "int64")
        self.syms[name] = lambda inp, a: inp[name][int(a[0])]
        def randperm(eng, m, *a, **k):
            if not (TS.same(lift(m), n) or cur.ctx.prove(eq(lift(m), n))): raise Unsupported("randperm of another size")
            return p.contiguous_copy()
        self.e.native_stubs["randperm"] = randperm
        return p

    def path(self, name): return name

    def noise(self, name, *dims):
        t = self.tensor(name, *dims)
        def draw(eng, want):
            g = t.dims()
            if len(want) != len(g) or not all(TS.same(TS.simp_int(TS.group_size(a)), TS.simp_int(TS.group_size(b))) or cur.ctx.prove(eq(TS.group_size(a), TS.group_size(b))) for a, b in zip(want, g)):
                return None
            if [len(a) for a in want] != [len(a) for a in g]: raise Unsupported("noise of another layout")
            return TS.Tensor.build(want, lambda i: t.at_flatgroups(TS.flat_idx(i)), "float32")
        self.e.native_stubs["randn"] = draw
        return t

    def uniform(self, name):
        """any uniform draw: every categorical or Bernoulli sample is the inverse of its distribution function at this number"""
        u = self.real(name, 0, 1)
        self.assume(self.land(self.lt(0, u), self.lt(u, 1)))
        self.e.native_stubs["uniform"] = lift(u)
        return u

    # ---- obligations
    def record(self, name, ok, t, why=""):
        r = self.results.setdefault(name, dict(name=name, checked=0, proved=0, wall=0.0, why=None))
        r["checked"] += 1
        r["wall"] += t
        if ok: r["proved"] += 1
        elif r["why"] is None: r["why"] = why

    def ensure(self, name, dims, f):
        t0 = time.time()
        vs, guards = self.index_vars(dims)
        base = cur.ctx
        nf = len(self.e.frames[-1].conds) if self.e.frames else 0
        try:
            cur.ctx = base.child(*guards)
            if cur.ctx.inconsistent():
                self.record(name, True, time.time() - t0)
                return
            goal = self.b(f(*vs))
            ok = cur.ctx.prove(goal)
            why = ""
            if not ok:
                why = "not proved: " + show(goal)[:600]
                if os.environ.get("PYVC_DEBUG"): self.debug(goal)
        finally:
            cur.ctx = base if len(self.e.frames[-1].conds) == nf else self.rebase(base, self.e.frames[-1].conds[nf:])
        self.record(name, ok, time.time() - t0, why)
        return ok

    def rebase(self, base, conds): return base.child(*conds)

    def debug(self, goal):
        print("UNPROVED", show(goal, 40)[:3000])
        print("  facts", [show(f, 30)[:200] for f in cur.ctx.facts])
        def walk(g):
            if g.op == "and":
                for x in g.args: walk(x)
            elif g.op == "or":
                c0 = cur.ctx
                gs = sorted(g.args, key=lambda g: 0 if NM._easy(g) else 1)
                cur.ctx = c0.child(*[lnot(x) for x in gs[:-1]])
                print("  -- assuming", [show(lnot(x), 30)[:800] for x in gs[:-1]])
                walk(gs[-1])
                cur.ctx = c0
            else:
                ok = cur.ctx.prove(g)
                if not ok:
                    print("  -- part", show(g, 30)[:800])
                    if g.op in ("eq", "lt", "le") and g.args[0].sort != "B" and not g.args[0].special and not g.args[1].special:
                        p = cur.ctx.norm(sub(g.args[0], g.args[1]))
                        print("     norm:", show(NM.pterm(p), 40)[:3000])
        walk(goal)

    def have(self, name, dims, f):
        """lemma: proved, then available as a fact"""
        if self.ensure(name, dims, f): self.assume_all(dims, f)

    def ensure_shape(self, name, t, *dims):
        if t.ndim != len(dims):
            self.record(name, False, 0, f"rank {t.ndim}")
            return
        ok = all(TS.same(t.size(k), lift(d)) or cur.ctx.prove(eq(t.size(k), lift(d))) for k, d in enumerate(dims))
        self.record(name, ok, 0, "shape " + str([show(lift(x)) for x in t.shape()]))

    def ensure_true(self, name, c): self.ensure(name, [], lambda: c)

    def ensure_unchanged(self, name, t, snap):
        t0 = time.time()
        phs = fresh_idx(t, True)
        base = cur.ctx
        try:
            cur.ctx = base.child(*phs[1])
            a, b = t.at_flatgroups(phs[0]), snap.at_flatgroups(phs[0])
            ok = a is b or cur.ctx.prove(self.eq(a, b))
        finally: cur.ctx = base
        self.record(name, ok, time.time() - t0, "the caller's tensor may be modified: " + (show(a)[:150] + " is not " + show(b)[:150] if not ok else ""))

    def observe(self, name, t):
        if isinstance(t, Tensor):
            idx, cs = fresh_idx(t)
            base = cur.ctx
            cur.ctx = base.child(*cs)
            try:
                from pyvc import autodiff as AD
                body = AD.expand(self.e, t.at_flatgroups(list(idx)))
            finally: cur.ctx = base
            self.path_obs.append((name, idx, [t.size(k) for k in range(t.ndim)], body, list(t.axes), [list(g) for g in t.groups]))
        else: self.path_obs.append((name, [], [], lift(t), [], []))

    def note(self, s): self.assumed.add(s)
    def stub(self, name, f, why, proved_by=None):
        self.need_function(name)
        self.e.stubs[name] = f
        self.assumed.add(f"callee used through its contract, discharged as {proved_by}: {why}" if proved_by else "assumed contract: " + why)
    def need_function(self, name):
        """a contract on a function of the code only means something while the code has that function: otherwise the contract is out of reach, not violated"""
        parts = name.split(".")
        if parts[0] != "irtorch": return
        for cut in range(len(parts) - 1, 0, -1):
            p = os.path.join(REPO, *parts[:cut])
            if os.path.exists(p + ".py") or os.path.isdir(p): break
        if not (os.path.exists(p + ".py") or os.path.exists(os.path.join(p, "__init__.py"))): raise Unsupported(f"the code has no module of {name}")
        path = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
        body = ast.parse(open(path).read()).body
        for n in parts[cut:]:
            d = next((x for x in body if isinstance(x, (ast.ClassDef, ast.FunctionDef)) and x.name == n), None)
            if d is None: raise Unsupported(f"the code has no function {name}")
            body = d.body
    def capture(self, name):
        """record the local variables of a function of the code when it returns (ghost access for lemmas)"""
        self.e.captures[name] = None
    def recurrence(self, name, sizes, init, step, qualname=None, var=None):
        """ghost sequence of tables S_0, S_1, ... defined by S_0 = init and S_{k+1} = step(k, S_k); with qualname and var also the invariant of the
        loop of that function whose k-th iteration starts with the local variable equal to S_k"""
        def rule(a, ctx):
            if isc(a.args[1]) and T.cval(a.args[1]) == 0 or ctx.decide(eq(a.args[1], ZERO)) is True: return lift(init(*a.args[2:]))
            return None
        if "app_rules" not in self.e.root.__dict__: self.e.root.app_rules = {}
        self.e.root.app_rules[name] = rule
        r = Recurrence(self, name, init, step)
        if qualname: self.e.invariants[(qualname, var)] = r
        return r
    any_value = ANY
    def training(self, every=None):
        """ghost state of a training run (optimiser and scheduler steps are arbitrary functions of the step)"""
        return Trainer(self) if every is None else IntervalTrainer(self, every)
    def loop(self, n, state, name="loop invariant"):
        """the loop over n (symbolic) iterations entered next, outermost first, is decided by an invariant"""
        self.e.loop_specs.append(LoopSpec(self, lift(n), state, name))
    def ensure_equal(self, name, a, b):
        """same shape and same elements"""
        self.ensure_shape(name, a, *b.shape())
        if a.ndim == b.ndim: self.ensure_unchanged(name, a, b)
    def local(self, name, var):
        c = self.e.captures.get(name)
        if not c or var not in c: raise Unsupported(f"no local variable {var} in {name}")
        return c[var]
    def ensure_sum(self, name, dims, n, g, value, F):
        """sum of g over k < n equals value, by telescoping: g(.., k) = F(.., k+1) - F(.., k) and F(.., n) - F(.., 0) = value"""
        n = lift(n)
        a = self.ensure(name + ": telescoping step", list(dims) + [(0, n)], lambda *i: self.eq(g(*i), self.sub(F(*i[:-1], add(i[-1], ONE)), F(*i))))
        b = self.ensure(name + ": telescoping ends", list(dims), lambda *i: self.eq(self.sub(F(*i, n), F(*i, ZERO)), value(*i) if callable(value) else value))
    def lemma(self, why, f):
        """assumed mathematical fact (listed in the evidence)"""
        self.assumed.add("assumed lemma: " + why)
        f(self)
    def only_concrete(self, f): pass
    def only_symbolic(self, f): f()


def decode(i, g):
    if len(g) == 1 and not isinstance(g[0], CAxis): return [i]
    if len(g) == 1: return TS.decode_index(i, g)
    r = TS.decode_flat(i, g)
    if r is None: raise Unsupported(f"position {show(i)} in dimension {[show(x) if isinstance(x, Term) else x for x in g]}")
    return r if isinstance(r, list) else list(r)


def fresh_idx(t, single=False):
    out, cs = [], []
    for g in t.groups:
        for a in g:
            s = t.axes[a]
            if isinstance(s, CAxis):
                q = tuple(fresh("u") for _ in s.sizes)
                for x, z in zip(q, s.sizes): cs += [le(ZERO, x), lt(x, z)]
                cs.append(s.at(q))
                out.append(q)
            else:
                if single and isc(s) and T.cval(s) == 1:
                    out.append(ZERO)
                    continue
                v = fresh("u")
                cs += [le(ZERO, v), lt(v, s)]
                out.append(v)
    return out, cs


def run(cid, obs_file=None, tmax=150, z3ms=None):
    c = CONTRACTS[cid]
    E = SymE(c, time.time() + tmax)
    e = E.e
    res = dict(id=cid, status="proved", reason=None, obligations=[], side_ok=0, functions={}, paths=0, cross=None)
    t0 = time.time()
    def alarm(*a): raise TimeUp()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, tmax, 0.3)
    pathobs = []
    reachable = 0
    raises = []
    try:
        cur.ctx = NM.Ctx(e.root)
        # preload modules outside the paths
        for m in c.opt.get("modules", ()): e.import_module(m)
        def body():
            E.path_obs = []
            e.files = {}
            e.leaves, e.cfuns, e.nograd, e.backward_log, e.vmap_vars = {}, {}, False, [], []
            e.loop_specs, e.trainer = [], None
            try:
                c.fn(E)
            except PathDone: return True
            except PyRaise as ex:
                if not cur.ctx.inconsistent():
                    if ex.kind in ("AttributeError", "TypeError", "NameError", "KeyError") and ex.value is None:
                        raise Unsupported(f"{ex.kind} raised by the model of the language or of a library: {ex.msg}")
                    E.record("no unexpected exception", False, 0, f"{ex.kind}: {ex.msg} at {ex.where} under {[show(x)[:120] for x in e.frames[-1].conds]}")
                raise
            inc = cur.ctx.inconsistent()
            pathobs.append((land(*e.frames[-1].conds), list(E.path_obs), inc))
            return inc
        try: outs = e.explore(body)
        except BaseException:
            signal.setitimer(signal.ITIMER_REAL, 0)
            raise
        res["paths"] = len(outs)
        reachable = sum(1 for o in outs if o[1] == "ok" and o[2] is False)
        for s in e.side:
            E.record("side condition: " + s.name, False, 0, show(s.cond)[:300] + " at " + s.where)
        E.record("no unexpected exception", True, 0)
        if not any(r["checked"] for n, r in E.results.items() if n != "no unexpected exception"):
            E.record("vacuity: contract generates obligations", False, 0, "no obligations")
        if not reachable: E.record("vacuity: precondition reachable", False, 0, "every path is inconsistent")
    except Unsupported as u:
        res["status"], res["reason"] = "unsupported", f"{u} at {u.where or e.where()}"
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
    except TimeUp:
        res["status"], res["reason"] = "timeout", f"time limit {tmax}s at {e.where()}"
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
    except RecursionError:
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc(limit=60)
        res["status"], res["reason"] = "unsupported", f"recursion depth at {e.where()}"
    except Exception as ex:
        if "TimeUp" in str(ex):
            res["status"], res["reason"] = "timeout", f"time limit {tmax}s at {e.where()}"
        tb = traceback.format_exc().strip().splitlines()
        if res["status"] != "timeout": res["status"], res["reason"] = "unsupported", f"verifier limitation {type(ex).__name__}: {ex} | " + " / ".join(x.strip() for x in tb[-6:]) + " at " + e.where()
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res["obligations"] = list(E.results.values())
    if res["status"] == "proved" and any(r["proved"] < r["checked"] for r in E.results.values()): res["status"] = "failed"
    res["side_ok"] = e.side_ok
    res["functions"] = dict(e.functions)
    res["assumed"] = sorted(E.assumed | set(e.assumed))
    S = NM.STATS
    res["stats"] = {k: v for k, v in vars(S).items() if isinstance(v, (int, float))}
    res["undef"] = sorted(show(x)[:200] for x in getattr(S, "undef", ()))[:10]
    res["wall"] = time.time() - t0
    if obs_file and res["status"] in ("proved", "failed"):
        try:
            signal.setitimer(signal.ITIMER_REAL, 60, 0.3)
            res["cross"] = cross(E, pathobs, obs_file)
        except TimeUp: res["cross"] = dict(compared=0, mismatches=[], skipped="time")
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    return res


def points(ev, vs, axes, groups):
    """assignments of the axis variables in row-major order of the tensor"""
    order = [a for g in groups for a in g]
    def rec(k, env):
        if k == len(order): yield env; return
        a = order[k]
        s, v = axes[a], vs[k]
        if isinstance(s, CAxis):
            f = ev.closure(s.lam(), {})
            for p in itertools.product(*[range(int(ev.ev(z))) for z in s.sizes]):
                if f(*p): yield from rec(k + 1, {**env, **dict(zip(v, p))})
        else:
            for q in range(int(ev.ev(s))): yield from rec(k + 1, {**env, v: q})
    return rec(0, {})


def cross(E, pathobs, obs_file):
    """evaluate the extracted terms on the inputs of real runs and compare with the real outputs"""
    with open(obs_file) as f: recs = [r for r in json.load(f) if r["id"] == E.c.id]
    out = dict(compared=0, mismatches=[], novalue=0)
    for r in recs:
        for o in r["obs"]:
            inp = o["inputs"]
            def interp(name, args):
                g = E.syms.get(name)
                if g is None: raise NoValue(name)
                return g(inp, args)
            ev = Evaluator(interp, {n: inp[n] for n in E.vars if n in inp})
            E.evaluator = ev
            real = {}
            for n, shape, vals in o["observed"]: real.setdefault(n, (shape, vals))
            for cond, obs, inc in pathobs:
                if inc: continue
                try:
                    if not ev.ev(cond): continue
                except (NoValue, KeyError, IndexError, TypeError): 
                    out["novalue"] += 1; continue
                for n, vs, sizes, body, axes, groups in obs:
                    if n not in real: continue
                    shape, vals = real[n]
                    try: sh = [int(ev.ev(s)) for s in sizes]
                    except (NoValue, KeyError, IndexError): out["novalue"] += 1; continue
                    if sh != list(shape):
                        out["mismatches"].append(f"{n}: shape {sh} vs real {shape}"); continue
                    try: pts = points(ev, vs, axes, groups)
                    except (NoValue, KeyError, IndexError): out["novalue"] += 1; continue
                    for lin, idx in enumerate(pts):
                        if lin >= len(vals): break
                        try: v = ev.ev(body, idx)
                        except (NoValue, KeyError, IndexError, ZeroDivisionError, OverflowError) as ex:
                            out["novalue"] += 1; out["why"] = repr(ex)[:100]; continue
                        w = vals[lin]
                        v = float(v)
                        out["compared"] += 1
                        same = (v != v and w != w) or v == w or abs(v - w) <= 1e-5 * (1 + abs(v) + abs(w))
                        if not same and len(out["mismatches"]) < 5: out["mismatches"].append(f"{n}[{lin}]: extracted {v} real {w}")
    return out


def load_contracts():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py": importlib.import_module("contracts." + f[:-3])


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--id")
    ap.add_argument("--list")
    ap.add_argument("--obs")
    ap.add_argument("--tmax", type=float, default=150)
    ap.add_argument("--out")
    a = ap.parse_args()
    load_contracts()
    if a.list:
        print(json.dumps({i: {k: v for k, v in c.opt.items() if isinstance(v, (str, int, float, bool))} for i, c in CONTRACTS.items() if c.prop == a.list}))
        return
    ids = [i for i in CONTRACTS if i == a.id or i.startswith(a.id + "/") or i.startswith(a.id + "[")]
    if not a.out and len(ids) > 1:
        import subprocess
        for i in ids: subprocess.run([sys.executable, "-m", "pyvc.symrun", "--id", i, "--tmax", str(a.tmax)] + (["--obs", a.obs] if a.obs else []))
        return
    res = [run(i, a.obs, a.tmax) for i in ids]
    if a.out:
        with open(a.out, "w") as f: json.dump(res, f)
    else:
        for r in res:
            print(r["id"], r["status"], r["reason"] or "", "paths", r["paths"], "side_ok", r["side_ok"], "functions", len(r["functions"]), "%.1fs" % r["wall"], "undef", r["undef"], "cross", r["cross"])
            for o in r["obligations"]:
                print("   ", "ok  " if o["proved"] == o["checked"] else "FAIL", o["name"], o["checked"], "%.1fs" % o["wall"], o["why"] or "")


if __name__ == "__main__":
    main()
