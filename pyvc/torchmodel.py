"""Model (trusted contracts) of the torch operations used by irtorch, on symbolic tensors over the reals.

Every function here is an *assumed* contract of a dependency; each is cross-checked numerically against the real
torch by the extraction cross-check (see DESIGN.md)."""
import itertools, math
from fractions import Fraction
from .terms import *
from . import terms as T
from . import norm as NM
from . import tensor as TS
from .tensor import Tensor, Storage, PyRaise, CAxis, cur, py, elementwise as ew, as_tensor, reduce_dims, group_size
from .interp import *
from .interp import _ABSENT
from . import autodiff as AD
from .pylib import NullCtx, TypeName, Noop, NativeModule

FLOATS = ("float32", "float64")
DTYPES = {"float": "float32", "float32": "float32", "float64": "float64", "double": "float64", "float16": "float32", "half": "float32",
          "int": "int32", "int32": "int32", "int64": "int64", "long": "int64", "bool": "bool", "int16": "int32", "int8": "int32", "uint8": "int32"}
_rand = itertools.count(1)
PI = T.app("pi", (), "R")


class DType(str): pass


def dt(x, default="float32"):
    if x is None: return default
    if isinstance(x, str) and x in DTYPES: return DTYPES[x]
    if isinstance(x, TypeName): return {"int": "int64", "float": "float32", "bool": "bool"}[x.name]
    raise Unsupported(f"dtype {x!r}")


def tn(eng, x):
    if isinstance(x, Tensor): return x
    if isinstance(x, (Term, int, float, bool)): return Tensor.scalar(lift(x))
    if isinstance(x, (list, tuple, SymList)): return tensor_from_data(eng, x)
    if hasattr(x, "to_tensor"): return x.to_tensor()
    raise Unsupported(f"tensor expected, got {type(x).__name__}")


def num(x):
    """python/Term number"""
    if isinstance(x, Tensor): return x.item_term()
    return lift(x)


def flo(t): return "float32" if t.dtype not in FLOATS else t.dtype


# ------------------------------------------------------------------ arithmetic dispatch
def scalar_promote(a, b):
    if isinstance(a, Tensor) and isinstance(b, Tensor):
        ra, rb = TS.RANK[a.dtype], TS.RANK[b.dtype]
        cat = lambda d: 0 if d == "bool" else 1 if d.startswith("int") else 2
        if a.ndim == 0 and b.ndim > 0 and cat(a.dtype) <= cat(b.dtype): return b.dtype
        if b.ndim == 0 and a.ndim > 0 and cat(b.dtype) <= cat(a.dtype): return a.dtype
        return TS.promote(a, b)
    t, s = (a, b) if isinstance(a, Tensor) else (b, a)
    s = lift(s)
    if s.sort == "R" and not t.dtype.startswith("float"): return "float32"
    if s.sort == "I" and t.dtype == "bool": return "int64"
    return t.dtype


def binop(eng, op, a, b):
    if hasattr(a, "to_tensor"): a = a.to_tensor()
    if hasattr(b, "to_tensor"): b = b.to_tensor()
    if op == "MatMult": return matmul(eng, a, b)
    for x in (a, b):
        if not isinstance(x, (Tensor, Term, int, float, bool)): raise Unsupported(f"tensor {op} {type(x).__name__}")
    d = scalar_promote(a, b)
    if op == "Div" and not d.startswith("float"): d = "float32"
    if op in ("BitAnd", "BitOr", "BitXor"):
        f = {"BitAnd": land, "BitOr": lor, "BitXor": lambda x, y: lnot(eq(x, y))}[op]
        ta, tb = as_tensor(a), as_tensor(b)
        if ta.dtype.startswith("int") and tb.dtype in (ta.dtype, "bool") or tb.dtype.startswith("int") and ta.dtype == "bool":
            return ew(lambda x, y: T.b2n(f(bit01(x), bit01(y))), ta, tb, dtype=ta.dtype if ta.dtype != "bool" else tb.dtype)
        if ta.dtype != "bool" or tb.dtype != "bool": raise Unsupported("bitwise op on integers")
        return ew(f, ta, tb, dtype="bool")
    def f(x, y):
        x, y = T.b2n(x), T.b2n(y)
        if op == "Add": return add(x, y)
        if op == "Sub": return sub(x, y)
        if op == "Mult": return mul(x, y)
        if op == "Div": return T.div(x, y)
        if op == "Pow": return tpow(x, y)
        if op == "FloorDiv":
            if x.sort == "I" and y.sort == "I": return floordiv(x, y)
            return app("floor", (T.div(x, y),), "I")
        if op == "Mod": return modulo(x, y)
        raise Unsupported("tensor op " + op)
    return ew(f, as_tensor(a), as_tensor(b), dtype=d)


def _uns(m): raise Unsupported(m)


def bit01(x, depth=4):
    """truth value of an integer term whose every value is 0 or 1"""
    if x.sort == "B": return x
    if isc(x):
        if T.cval(x) in (0, 1): return C(T.cval(x) == 1)
        raise Unsupported("bitwise op on integers other than 0 and 1")
    def find(t):
        if t.op == "ite": return t
        if t.op in ("add", "mul"):
            for y in t.args:
                r = find(y)
                if r is not None: return r
        return None
    if x.op == "ite": return T.ite(x.args[0], bit01(x.args[1], depth - 1), bit01(x.args[2], depth - 1)) if depth else _uns("bitwise op on integers")
    n = find(x)
    if n is None or depth == 0:
        if cur.ctx.decide(lor(eq(x, ZERO), eq(x, ONE))) is True or cur.ctx.prove(lor(eq(x, ZERO), eq(x, ONE))): return eq(x, ONE)
        raise Unsupported("bitwise op on integers")
    c = n.args[0]
    return T.ite(c, bit01(T.subst_term(x, n, n.args[1]), depth - 1), bit01(T.subst_term(x, n, n.args[2]), depth - 1))


def tpow(x, y):
    return power(x, y)


def unop(eng, op, t):
    if op == "USub": return t.map(lambda e: neg(T.b2n(e)))
    if op == "UAdd": return t
    if op in ("Invert", "Not"):
        if t.dtype == "bool" or op == "Not":
            if op == "Not":
                return py(lnot(TS.cast_term(t.item_term(), "bool")))
            return t.map(lnot, "bool")
        return t.map(lambda e: sub(C(-1), e))
    raise Unsupported(op)


def compare(eng, op, a, b):
    if hasattr(a, "to_tensor"): a = a.to_tensor()
    if hasattr(b, "to_tensor"): b = b.to_tensor()
    f = {"Eq": eq, "NotEq": lambda x, y: lnot(eq(x, y)), "Lt": lt, "LtE": le, "Gt": lambda x, y: lt(y, x), "GtE": lambda x, y: le(y, x)}[op]
    if op == "NotEq":
        def f(x, y):
            return lnot(eq(x, y))
    if isinstance(a, (list, tuple)): a = tensor_from_data(eng, a)
    if isinstance(b, (list, tuple)): b = tensor_from_data(eng, b)
    return ew(lambda x, y: f(T.b2n(x) if x.sort != y.sort else x, T.b2n(y) if x.sort != y.sort else y), as_tensor(a), as_tensor(b), dtype="bool")


def conv_key(eng, k):
    if isinstance(k, list) and len(k) == 1 and isinstance(k[0], SymTail): k = eng.untail(k)
    if isinstance(k, (list,)) and not any(isinstance(x, (slice, type(None))) for x in k): return tensor_from_data(eng, k) if k else Tensor.build([[ZERO]], lambda i: ZERO, "int64")
    if isinstance(k, (SymList,)): return tensor_from_data(eng, k)
    if isinstance(k, range):
        if k.step == 1 and k.stop >= k.start >= 0: return tensor_from_data(eng, list(k))
        return tensor_from_data(eng, list(k))
    if isinstance(k, SymRange): return k
    if isinstance(k, (bool,)): raise Unsupported("bool scalar index")
    if hasattr(k, "to_tensor"): return k.to_tensor()
    return k


def getitem(eng, t, key):
    if not isinstance(key, tuple): key = (key,)
    return TS.index(t, tuple(conv_key(eng, k) for k in key))


def setitem(eng, t, key, v):
    if not isinstance(key, tuple): key = (key,)
    if isinstance(v, (list, tuple, SymList)) or hasattr(v, "to_tensor"): v = tn(eng, v)
    TS.setitem(t, tuple(conv_key(eng, k) for k in key), v)


# ------------------------------------------------------------------ construction
def tensor_from_data(eng, x, dtype=None):
    def kind(v):
        if isinstance(v, Tensor): return v.dtype
        v = lift(v)
        return "bool" if v.sort == "B" else "int64" if v.sort == "I" else "float32"
    def rec(x):
        """-> (dims, fn(idx list)->Term, dtype)"""
        if isinstance(x, list) and len(x) == 1 and isinstance(x[0], SymTail): x = eng.untail(x)
        if isinstance(x, Tensor): return x.dims(), x.at_flatgroups, x.dtype
        if hasattr(x, "to_tensor"):
            x = x.to_tensor()
            return x.dims(), x.at_flatgroups, x.dtype
        if isinstance(x, (range, SymRange)): x = eng.iterable(x)
        if isinstance(x, SymList):
            k = fresh("k")
            base = cur.ctx
            cur.ctx = base.child(le(ZERO, k), lt(k, x.n))
            try: d, f, ty = rec(x.fn(k))
            finally: cur.ctx = base
            if any(k in TS_fv(s) for g in d for s in g): raise Unsupported("ragged tensor data")
            def fn(idx):
                base = cur.ctx
                d2, f2, _ = rec(x.fn(idx[0]))
                return f2(idx[1:])
            return [TS.split_size(x.n)] + d if not is_mulsize(x.n) else [[x.n]] + d, fn, ty
        if isinstance(x, (list, tuple)):
            if not x: return [[ZERO]], (lambda idx: C(0, "R")), "float32"
            rs = [rec(v) for v in x]
            d0 = rs[0][0]
            for d, _, _ in rs[1:]:
                if len(d) != len(d0) or not all(TS.same(group_size(a), group_size(b)) for a, b in zip(d, d0)):
                    raise PyRaise("ValueError", "ragged tensor data")
            tys = [r[2] for r in rs]
            ty = max(tys, key=lambda z: TS.RANK[z])
            n = len(rs)
            def fn(idx):
                i = idx[0]
                if isc(i): return rs[int(T.cval(i))][1](idx[1:])
                vals = [r[1](idx[1:]) for r in rs]
                return select(i, vals)
            return [[C(n)]] + d0, fn, ty
        v = lift(x)
        return [], (lambda idx: v), kind(x)
    d, f, ty = rec(x)
    dtype = dtype or ty
    return Tensor.build(d, lambda idx: TS.cast_term(f(idx), dtype), dtype)


def is_mulsize(n): return n.op == "mul"


def TS_fv(s):
    if isinstance(s, CAxis):
        fv = set(s.mask.fv) - set(s.phs)
        for z in s.sizes: fv |= z.fv
        return fv
    return s.fv


def select(i, vals):
    r = vals[-1]
    srt = {v.sort for v in vals}
    if len(srt) > 1 and "B" in srt: vals = [T.b2n(v) for v in vals]; r = vals[-1]
    for q in range(len(vals) - 2, -1, -1): r = ite(eq(i, C(q)), vals[q], r)
    return r


def size_args(eng, a):
    """sizes given as varargs / tuple / list"""
    if len(a) == 1 and isinstance(a[0], (tuple, list)) : a = a[0]
    if len(a) == 1 and isinstance(a[0], SymList): raise Unsupported("symbolic rank")
    out = []
    for x in a:
        if isinstance(x, Tensor): x = x.item_term()
        if isinstance(x, float): raise PyRaise("TypeError", "float size")
        if isinstance(x, Term) and x.sort == "R": raise PyRaise("TypeError", "float size")
        out.append(x)
    return out


def mkdims(sizes): return [TS.split_size(s) for s in sizes]


def check_size(eng, sizes):
    for s in sizes:
        s = lift(s)
        if isc(s):
            if T.cval(s) < 0: raise PyRaise("RuntimeError", "negative dimension")
        elif s.op != "var":
            if cur.ctx.decide(le(ZERO, s)) is None: eng.side_condition("dimension is non-negative", le(ZERO, s))


def const(eng, sizes, v, dtype):
    check_size(eng, sizes)
    v = TS.cast_term(lift(v), dtype)
    return Tensor.build(mkdims(sizes), lambda i: v, dtype)


def f_zeros(eng, *a, size=None, dtype=None, device=None, requires_grad=False, **k):
    return const(eng, size_args(eng, a if size is None else [size]), C(0, "R"), dt(dtype))


def f_ones(eng, *a, size=None, dtype=None, device=None, requires_grad=False, **k):
    return const(eng, size_args(eng, a if size is None else [size]), C(1, "R"), dt(dtype))


def f_empty(eng, *a, dtype=None, device=None, **k):
    return unspecified(eng, mkdims(size_args(eng, a)), dt(dtype), "empty")


def f_full(eng, size, fill_value, dtype=None, device=None, **k):
    v = num(fill_value)
    d = dt(dtype, "bool" if v.sort == "B" else "int64" if v.sort == "I" else "float32")
    return const(eng, size_args(eng, [size]), v, d)


def f_zeros_like(eng, t, dtype=None, **k): return t.map(lambda e: TS.cast_term(C(0, "R"), dt(dtype, t.dtype)), dt(dtype, t.dtype))
def f_ones_like(eng, t, dtype=None, **k): return t.map(lambda e: TS.cast_term(C(1, "R"), dt(dtype, t.dtype)), dt(dtype, t.dtype))
def f_empty_like(eng, t, dtype=None, **k): return unspecified(eng, t.dims(), dt(dtype, t.dtype), "empty")


def f_full_like(eng, t, fill_value, dtype=None, **k):
    d = dt(dtype, t.dtype)
    v = TS.cast_term(num(fill_value), d)
    return t.map(lambda e: v, d)


def unspecified(eng, dims, dtype, why="unspecified"):
    n = f"{why}!{next(_rand)}"
    sort = "B" if dtype == "bool" else "I" if dtype.startswith("int") else "R"
    pre = enclosing_vars()
    def fn(idx):
        flat = TS.flat_idx(idx)
        return app(n, pre + tuple(flat), sort)
    t = Tensor.build(dims, fn, dtype)
    t.symname = n
    t.sympre = pre
    return t


def enclosing_vars():
    """indices of the enclosing symbolic iterations: an unspecified value may differ from one iteration to the next"""
    vs = {v for f in cur.ctx.facts for v in f.fv if ("!" in v.args[0] or NM.is_bound_name(v)) and v.sort == "I"}
    return tuple(sorted(vs, key=lambda v: v.id))


def local_fact(eng, t, f):
    """facts about the values of an unspecified tensor; f(value) may mention the enclosing indices"""
    nm, pre = t.symname, t.sympre
    def facts(args):
        a = app(nm, args, "B" if t.dtype == "bool" else "I" if t.dtype.startswith("int") else "R")
        sub = dict(zip(pre, args))
        x = T.fresh("u", a.sort)
        return [subst(subst(c, sub), {x: a}) for c in f(x)]
    eng.root.app_facts[nm] = facts


def f_rand(eng, *a, dtype=None, device=None, size=None, **k):
    t = unspecified(eng, mkdims(size_args(eng, a if size is None else [size])), "float32", "rand")
    local_fact(eng, t, lambda u: [le(ZERO, u), lt(u, ONE)])
    return t


def draw_normal(eng, dims):
    """standard normal draws: the ones the contract names for that shape, otherwise any"""
    f = eng.native_stubs.get("randn")
    r = f(eng, dims) if f else None
    return unspecified(eng, dims, "float32", "randn") if r is None else r


def f_randn(eng, *a, dtype=None, device=None, size=None, **k):
    return draw_normal(eng, mkdims(size_args(eng, a if size is None else [size])))


def f_randint(eng, *a, size=None, dtype=None, device=None, **k):
    a = list(a)
    if "low" in k: a.insert(0, k["low"])
    if "high" in k: a.insert(1, k["high"])
    if size is None: size = a.pop()
    lo, hi = (ZERO, num(a[0])) if len(a) == 1 else (num(a[0]), num(a[1]))
    t = unspecified(eng, mkdims(size_args(eng, [size])), "int64", "randint")
    local_fact(eng, t, lambda u: [le(lo, u), lt(u, hi)])
    return t


def f_tensor(eng, data, dtype=None, device=None, requires_grad=False):
    if isinstance(data, Tensor): r = data.contiguous_copy()
    else: r = tensor_from_data(eng, data)
    return TS.cast(r, dt(dtype)) if dtype is not None else r


def f_arange(eng, *a, start=None, end=None, step=1, dtype=None, device=None, **k):
    a = [num(x) for x in a]
    if end is not None: a = [num(start or 0), num(end)]
    lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
    st = a[2] if len(a) > 2 else lift(step)
    isint = lo.sort == hi.sort == st.sort == "I"
    d = dt(dtype, "int64" if isint else "float32")
    if isint and isc(st) and T.cval(st) == 1:
        n = cur.ctx.nterm(sub(hi, lo))
    elif isint and isc(st) and T.cval(st) == -1: n = cur.ctx.nterm(sub(lo, hi))
    elif isc(lo) and isc(hi) and isc(st):
        n = C(max(0, math.ceil((T.cval(hi) - T.cval(lo)) / T.cval(st))))
    elif isint and lo is ZERO and (cur.ctx.decide(lt(ZERO, st)) is True or cur.ctx.prove(lt(ZERO, st))):
        from .interp import floordiv
        q = floordiv(hi, st)
        n = q if TS.same(mul(q, st), hi) else floordiv(sub(add(hi, st), ONE), st)
    else: raise Unsupported("arange with symbolic step")
    size = [n]
    check_size(eng, [n])
    return Tensor.build([size], lambda i: TS.cast_term(add(lo, mul(st, i[0])), d), d)


def f_linspace(eng, start, end, steps=None, dtype=None, device=None, **k):
    lo, hi, n = num(start), num(end), num(steps)
    d = dt(dtype)
    if isc(n) and T.cval(n) == 1: return Tensor.build([[ONE]], lambda i: lo, d)
    def fn(i):
        return add(lo, mul(sub(hi, lo), T.div(i[0], sub(n, ONE))))
    return Tensor.build([[n]], fn, d)


def f_eye(eng, n, m=None, dtype=None, device=None, **k):
    n = num(n)
    m = n if m is None else num(m)
    return Tensor.build([[n], [m]], lambda i: TS.cast_term(ite(eq(i[0], i[1]), ONE, ZERO), dt(dtype)), dt(dtype))


# ------------------------------------------------------------------ shape
def f_reshape(eng, t, *s):
    return TS.reshape(t, size_args(eng, s))


def f_flatten(eng, t, start_dim=0, end_dim=-1):
    n = t.ndim
    if n == 0: return TS.reshape(t, [1])
    a, b = start_dim % n, end_dim % n
    groups = t.groups[:a] + [[i for g in t.groups[a:b + 1] for i in g]] + t.groups[b + 1:]
    r = t.regroup(groups)
    return r


def f_unflatten(eng, t, dim, sizes):
    s = list(t.shape())
    dim %= t.ndim
    return TS.reshape(t, s[:dim] + list(sizes) + s[dim + 1:])


def f_unsqueeze(eng, t, dim):
    return t.unsqueeze(dim)


def f_squeeze(eng, t, dim=None):
    if dim is None: return t.squeeze()
    return t.squeeze(dim)


def f_transpose(eng, t, a, b):
    p = list(range(t.ndim))
    a, b = a % t.ndim, b % t.ndim
    p[a], p[b] = p[b], p[a]
    return t.permute(p)


def f_t(eng, t): return t if t.ndim < 2 else f_transpose(eng, t, 0, 1)


def f_permute(eng, t, *p):
    p = size_args(eng, p)
    return t.permute([x % t.ndim for x in p])


def f_expand(eng, t, *s):
    s = size_args(eng, s)
    k = len(s) - t.ndim
    if k < 0: raise PyRaise("RuntimeError", "expand rank")
    sizes = []
    for j, x in enumerate(s):
        if (isinstance(x, int) and x == -1): sizes.append(None); continue
        if j >= k:
            g = t.dims()[j - k]
            if TS.dim_is_one(g):
                sizes.append(TS.split_size(x) if not (isinstance(x, int) and x == 1) else None)
                continue
            if not TS.same(group_size(g), lift(x)): raise PyRaise("RuntimeError", "expand size mismatch")
            sizes.append(None)
        else: sizes.append(TS.split_size(x))
    return t.expand(sizes)


def f_expand_as(eng, t, o): return f_expand(eng, t, *o.shape())


def f_broadcast_to(eng, t, *s): return f_expand(eng, t, *s)


def f_repeat(eng, t, *r):
    r = size_args(eng, r)
    k = len(r) - t.ndim
    if k < 0: raise PyRaise("RuntimeError", "repeat rank")
    td = [[] for _ in range(k)] + t.dims()
    dims, ns = [], []
    for x, g in zip(r, td):
        x = lift(x)
        one = isc(x) and T.cval(x) == 1
        ns.append(0 if one else len(TS.split_size(x)))
        dims.append((list(g)) if one else TS.split_size(x) + list(g))
    def fn(idx):
        didx, p = [], 0
        for q, g in enumerate(td):
            p += ns[q]
            didx.append(idx[p:p + len(g)]); p += len(g)
        return t.at_dims(didx[k:])
    return Tensor.build(dims, fn, t.dtype)


def f_tile(eng, t, *r):
    r = size_args(eng, r)
    if len(r) < t.ndim: r = [1] * (t.ndim - len(r)) + r
    return f_repeat(eng, t, *r)


def f_repeat_interleave(eng, t, repeats, dim=None, output_size=None):
    if dim is None:
        t = f_flatten(eng, t); dim = 0
    dim %= t.ndim
    if isinstance(repeats, Tensor) and repeats.ndim > 0 and not all(TS.is_one(s) for s in repeats.axes): raise Unsupported("repeat_interleave with a tensor of repeats")
    r = num(repeats)
    td = t.dims()
    one = isc(r) and T.cval(r) == 1
    if one: return t.contiguous_copy()
    rs = TS.split_size(r)
    dims = td[:dim] + [list(td[dim]) + rs] + td[dim + 1:]
    p0 = sum(len(g) for g in td[:dim]) + len(td[dim])
    return Tensor.build(dims, lambda idx: t.at_flatgroups(idx[:p0] + idx[p0 + len(rs):]), t.dtype)


def f_flip(eng, t, *ds, dims=None):
    dims = ds if dims is None else ((dims,) if isinstance(dims, int) else dims)
    dims = [d % t.ndim for d in size_args(eng, dims)]
    td = t.dims()
    def fn(idx):
        out, p = [], 0
        for k, g in enumerate(td):
            part = list(idx[p:p + len(g)]); p += len(g)
            if k in dims:
                if any(isinstance(s, CAxis) for s in g): raise Unsupported("flip of compact axis")
                part = [cur.ctx.nterm(sub(sub(s, ONE), x)) for x, s in zip(part, g)]
            out += part
        return t.at_flatgroups(out)
    return Tensor.build(td, fn, t.dtype)


def f_roll(eng, t, shifts, dims=None):
    if dims is None:
        if t.ndim != 1: raise Unsupported("roll of flattened tensor")
        dims = 0
    if isinstance(dims, (tuple, list)): dims, shifts = dims[0], shifts[0] if isinstance(shifts, (tuple, list)) else shifts
    d = dims % t.ndim
    n = t.size(d)
    s = lift(shifts)
    td = t.dims()
    if len(td[d]) != 1: raise Unsupported("roll of factored dim")
    p = sum(len(g) for g in td[:d])
    def fn(idx):
        i = sub(idx[p], s)
        j = ite(lt(i, ZERO), add(i, n), ite(le(n, i), sub(i, n), i))
        return t.at_flatgroups(idx[:p] + [j] + idx[p + 1:])
    return Tensor.build(td, fn, t.dtype)


def seq_tensors(eng, ts):
    l = eng.iterable(ts)
    return l


def upper_bound(eng, x, k):
    """an upper bound of the integer term x that does not mention k"""
    if k not in x.fv: return x
    if x.op == "app":
        for f in eng.root.app_facts.get(x.args[0], lambda a: [])(x.args[1:]):
            if f.op == "le" and f.args[0] is x and k not in f.args[1].fv: return f.args[1]
    return None


def f_cat(eng, ts, dim=0, **k):
    if "axis" in k: dim = k["axis"]
    l = seq_tensors(eng, ts)
    if isinstance(l, SymList):
        kk = fresh("k")
        base = cur.ctx
        cur.ctx = base.child(le(ZERO, kk), lt(kk, l.n))
        try: v = l.fn(kk)
        finally: cur.ctx = base
        d = dim % v.ndim
        td = v.dims()
        if any(kk in TS_fv(s) for g in td for s in g):
            # pieces of different length: the positions (kk, x) with x below the length of piece kk, in row-major order
            if any(kk in TS_fv(s) for q, g in enumerate(td) if q != d for s in g) or len(td[d]) != 1 or isinstance(td[d][0], CAxis): raise Unsupported("cat of ragged symbolic sequence")
            ln = td[d][0]
            bound = upper_bound(eng, ln, kk)
            if bound is None: raise Unsupported("cat of a ragged symbolic sequence without a bound on the piece length")
            a, b = fresh("c"), fresh("c")
            ax = CAxis([l.n, bound], (a, b), lt(b, subst(ln, {kk: a})))
            p = sum(len(g) for g in td[:d])
            return Tensor.build(td[:d] + [[ax]] + td[d + 1:], lambda idx: deep_subst(v, {kk: idx[p][0]}).at_flatgroups(idx[:p] + [idx[p][1]] + idx[p + 1:]), v.dtype)
        dims = td[:d] + [[l.n] + list(td[d])] + td[d + 1:]
        p = sum(len(g) for g in td[:d])
        return Tensor.build(dims, lambda idx: deep_subst(v, {kk: idx[p]}).at_flatgroups(idx[:p] + idx[p + 1:]), v.dtype)
    l = [tn(eng, x) for x in l]
    if not l: raise PyRaise("RuntimeError", "expected a non-empty list of Tensors")
    l2 = [t for t in l if not (t.ndim == 1 and isc(t.size(0)) and T.cval(t.size(0)) == 0)]
    if not l2: return l[0]
    l = l2
    if len(l) == 1: return l[0].contiguous_copy()
    nd = l[0].ndim
    if any(t.ndim != nd for t in l): raise PyRaise("RuntimeError", "cat: rank mismatch")
    d = dim % nd
    # common factorisation of the other dims
    other = [t.permute([d] + [q for q in range(nd) if q != d]) for t in l]
    rest = [Tensor(t.st, t.axes, t.groups[1:], t.rd, t.wr, t.dtype) for t in other]
    dims = []
    readers = []
    for q in range(nd):
        if q == d: dims.append(None); continue
        gs = [t.dims()[q] for t in l]
        ref = max(gs, key=lambda g: (len([s for s in g if not TS.is_one(s)])))
        fs = []
        for g in gs:
            if TS.dim_is_one(ref) and TS.dim_is_one(g):
                fs.append(lambda x, n=len(g): [ZERO] * n); continue
            f = TS.match_groups(ref, g)
            if f is None: raise PyRaise("RuntimeError", "cat: size mismatch")
            fs.append(f)
        dims.append(ref); readers.append((q, fs))
    sizes = [t.size(d) for t in l]
    # equal single structure [n copies] stays flat
    tot = ZERO
    offs = []
    for s in sizes:
        offs.append(tot); tot = add(tot, s)
    tot = TS.simp_int(tot) if not isc(tot) else tot
    offs = [TS.simp_int(o) if not isc(o) else o for o in offs]
    dims[d] = [tot]
    rd = dict(readers)
    def fn(idx):
        parts, p = [], 0
        for g in dims:
            parts.append(idx[p:p + len(g)]); p += len(g)
        i = parts[d][0]
        vals = []
        for q, t in enumerate(l):
            if isc(sizes[q]) and T.cval(sizes[q]) == 0: vals.append(None); continue
            cond = land(le(offs[q], i), lt(i, add(offs[q], sizes[q])))
            base = cur.ctx
            if base.decide(cond) is False: vals.append(None); continue
            cur.ctx = base.child(cond)
            try:
                loc = cur.ctx.nterm(sub(i, offs[q]))
                g = t.dims()[d]
                x = TS.decode_flat(loc, g)
                if x is None: x = divmod_index(loc, g)
                didx = [x if r == d else rd[r][q](parts[r]) for r in range(nd)]
                vals.append(t.at_dims(didx))
            finally: cur.ctx = base
        r = None
        for q in range(len(l) - 1, -1, -1):
            if vals[q] is None: continue
            if r is None: r = vals[q]
            else:
                a, b = vals[q], r
                if (a.sort == "B") != (b.sort == "B"): a, b = T.b2n(a), T.b2n(b)
                r = ite(lt(i, add(offs[q], sizes[q])), a, b)
        if r is None: raise Unsupported("cat: empty")
        return r
    parts = [t.frozen() for t in l]
    r = Tensor.build(dims, fn, TS.promote(*l))
    r.cat_parts = (d, sizes, parts, r.st.version)
    return r


def divmod_index(f, g):
    """index per axis of the flat position f in group g, by division and remainder"""
    if any(isinstance(s, TS.CAxis) for s in g): raise Unsupported("cat along a compact dimension")
    out = [ZERO] * len(g)
    live = [(q, s) for q, s in enumerate(g) if not TS.is_one(s)]
    for q, s in reversed(live[1:]):
        out[q] = modulo(f, s)
        f = floordiv(f, s)
    out[live[0][0]] = f
    return out


def f_stack(eng, ts, dim=0):
    l = seq_tensors(eng, ts)
    if isinstance(l, SymList):
        kk = fresh("k")
        base = cur.ctx
        cur.ctx = base.child(le(ZERO, kk), lt(kk, l.n))
        try: v = tn(eng, l.fn(kk))
        finally: cur.ctx = base
        td = v.dims()
        if any(kk in TS_fv(s) for g in td for s in g): raise PyRaise("RuntimeError", "stack expects equal sizes")
        d = dim % (v.ndim + 1)
        dims = td[:d] + [[l.n]] + td[d:]
        p = sum(len(g) for g in td[:d])
        return Tensor.build(dims, lambda idx: deep_subst(v, {kk: idx[p]}).at_flatgroups(idx[:p] + idx[p + 1:]), v.dtype)
    l = [tn(eng, x) for x in l]
    if not l: raise PyRaise("RuntimeError", "stack expects a non-empty TensorList")
    nd = l[0].ndim
    if any(t.ndim != nd for t in l): raise PyRaise("RuntimeError", "stack: rank mismatch")
    for t in l[1:]:
        for a, b in zip(t.dims(), l[0].dims()):
            if not TS.same(group_size(a), group_size(b)):
                if cur.ctx.decide(eq(group_size(a), group_size(b))) is False: raise PyRaise("RuntimeError", "stack expects equal sizes")
                raise Unsupported("stack sizes")
    d = dim % (nd + 1)
    dims, rds = TS.broadcast(l)
    # broadcast may hide a size-one mismatch, sizes are equal here
    out = dims[:d] + [[C(len(l))]] + dims[d:]
    p = sum(len(g) for g in dims[:d])
    def fn(idx):
        i = idx[p]
        rest = idx[:p] + idx[p + 1:]
        if isc(i): return rds[int(T.cval(i))](rest)
        return select(i, [r(rest) for r in rds])
    return Tensor.build(out, fn, TS.promote(*l))


def f_split(eng, t, sizes, dim=0):
    dim %= t.ndim
    n = t.size(dim)
    if isinstance(sizes, (int, Term)):
        s = lift(sizes)
        if isc(n) and isc(s): sizes = [int(min(T.cval(s), T.cval(n) - k)) for k in range(0, int(T.cval(n)), int(T.cval(s)))]
        else:
            # uniform blocks of a factored dim
            live = [(a, t.axes[a]) for a in t.groups[dim] if not TS.is_one(t.axes[a])]
            if len(live) >= 2 and TS.same(group_size([x for _, x in live[1:]]), s):
                a = live[0][0]
                return SymList(live[0][1], lambda i: t.drop_axis(a, i), "tuple")
            if TS.same(s, n): return (t,)
            c = cur.ctx.nterm(floordiv(n, s))
            if TS.same(mul(c, s), n): return SymList(c, lambda i: TS.slice_dim(t, dim, slice(mul(i, s), add(mul(i, s), s), None)), "tuple")
            raise Unsupported("split")
    ss = eng.iterable(sizes)
    if isinstance(ss, SymList):
        raise Unsupported("split with a symbolic list of sizes")
    cp = getattr(t, "cat_parts", None)
    if cp and cp[0] == dim and cp[3] == t.st.version and len(cp[1]) == len(ss) and all(TS.same(a, num(b)) for a, b in zip(cp[1], ss)):
        return tuple(p.frozen() for p in cp[2])
    out, off = [], ZERO
    for s in ss:
        s = num(s)
        out.append(TS.slice_dim(t, dim, slice(off, cur.ctx.nterm(add(off, s)), None)))
        off = cur.ctx.nterm(add(off, s))
    if cur.ctx.decide(eq(off, n)) is False: raise PyRaise("RuntimeError", "split_with_sizes expects the sizes to sum")
    if cur.ctx.decide(eq(off, n)) is None: eng.side_condition("split sizes sum to the dimension", eq(off, n))
    return tuple(out)


def f_chunk(eng, t, chunks, dim=0):
    dim %= t.ndim
    n = t.size(dim)
    c = py(lift(chunks))
    if isinstance(c, int) and c == 1: return (t,)
    if isinstance(c, int):
        if isc(n):
            s = -(-int(T.cval(n)) // c)
            return f_split(eng, t, s, dim)
        q = cur.ctx.nterm(floordiv(n, C(c)))
        if TS.same(mul(C(c), q), n):
            # reshape the dim as (c, q)
            out = []
            for k in range(c):
                lo = cur.ctx.nterm(mul(C(k), q))
                out.append(TS.slice_dim(t, dim, slice(lo, cur.ctx.nterm(add(lo, q)), None)))
            return tuple(out)
        # pieces of ceil(n / c) elements, as many as it takes (the last one may be shorter)
        q = cur.ctx.nterm(neg(floordiv(neg(n), C(c))))
        out = []
        for k in range(c):
            lo, hi = cur.ctx.nterm(mul(C(k), q)), cur.ctx.nterm(mul(C(k + 1), q))
            if k and not eng.fork(lt(lo, n)): break
            if not eng.fork(lt(hi, n)): hi = n
            out.append(TS.slice_dim(t, dim, slice(lo, hi, None)))
        return tuple(out)
    else:
        live = [(a, t.axes[a]) for a in t.groups[dim] if not TS.is_one(t.axes[a])]
        if live and TS.same(live[0][1], c):
            a = live[0][0]
            if len(live) == 1:
                return SymList(c, lambda i: t.slice_axis(a, i, ONE), "tuple")
            return SymList(c, lambda i: t.drop_axis(a, i), "tuple")
    raise Unsupported("chunk")


def f_unbind(eng, t, dim=0):
    dim %= t.ndim
    n = py(t.size(dim))
    if isinstance(n, int): return tuple(TS.select_dim(t, dim, C(i)) for i in range(n))
    return SymList(n, lambda i: TS.select_dim(t, dim, i), "tuple")


# ------------------------------------------------------------------ elementwise
def e1(f, fl=True):
    def g(eng, t, *a, **k):
        t = tn(eng, t)
        return t.map(lambda e: f(T.b2n(e)), flo(t) if fl else t.dtype)
    return g


def e1b(f):
    def g(eng, t, *a, **k):
        t = tn(eng, t)
        return t.map(f, "bool")
    return g


def f_softplus(eng, t, beta=1, threshold=20):
    if lift(beta) is not ONE and not (isc(lift(beta)) and T.cval(lift(beta)) == 1):
        b = lift(beta)
        return t.map(lambda e: T.div(T.softplus(mul(b, e)), b))
    return t.map(lambda e: T.softplus(e))


def elu_t(x, alpha=ONE):
    return ite(lt(ZERO, x), x, mul(alpha, sub(exp(x), ONE)))


def f_elu(eng, t, alpha=1.0, inplace=False): return t.map(lambda e: elu_t(e, lift(alpha)))
def f_relu(eng, t, inplace=False): return t.map(lambda e: T.maximum(C(0, "R"), e))
def f_tanh(eng, t): return t.map(lambda e: T.fn1("tanh", e))
def f_leaky_relu(eng, t, negative_slope=0.01, inplace=False): return t.map(lambda e: ite(le(ZERO, e), e, mul(lift(negative_slope), e)))


def f_clamp(eng, t, min=None, max=None):
    def lim(x): return None if x is None else as_tensor(x)
    r = t
    d = t.dtype
    if max is not None or min is not None:
        lo, hi = lim(min), lim(max)
        xs = [t] + [x for x in (lo, hi) if x is not None]
        def f(*v):
            e, v = v[0], list(v[1:])
            if lo is not None: e = T.maximum(e, v.pop(0))
            if hi is not None: e = T.minimum(e, v.pop(0))
            return e
        r = ew(f, *xs, dtype=d)
    return r


def f_where(eng, c, a=None, b=None):
    if a is None: raise Unsupported("where with one argument")
    if isinstance(c, (bool, Term)): c = as_tensor(c)
    ta, tb = as_tensor(a), as_tensor(b)
    d = scalar_promote(ta if isinstance(a, Tensor) else a, tb if isinstance(b, Tensor) else b) if isinstance(a, Tensor) or isinstance(b, Tensor) else TS.promote(ta, tb)
    def f(q, x, y):
        if (x.sort == "B") != (y.sort == "B"): x, y = T.b2n(x), T.b2n(y)
        return ite(q, x, y)
    return ew(f, c, ta, tb, dtype=d)


def f_nan_to_num(eng, t, nan=0.0, posinf=None, neginf=None):
    def g(leaf):
        if leaf is NAN: return lift(nan)
        if leaf is PINF: return lift(posinf) if posinf is not None else app("float_max", (), "R")
        return lift(neginf) if neginf is not None else neg(app("float_max", (), "R"))
    return t.map(lambda e: T.map_special(e, g))


def f_lerp(eng, a, b, w):
    w = w if isinstance(w, Tensor) else as_tensor(w)
    return ew(lambda x, y, z: add(x, mul(z, sub(y, x))), a, b, w)


def f_pow(eng, a, b):
    return binop(eng, "Pow", a, b)


def f_maximum(eng, a, b): return ew(T.maximum, tn(eng, a), tn(eng, b))
def f_minimum(eng, a, b): return ew(T.minimum, tn(eng, a), tn(eng, b))


def arith(op):
    def f(eng, a, b, alpha=None, **k):
        if alpha is not None: b = binop(eng, "Mult", b, alpha)
        return binop(eng, op, a, b)
    return f


def cmp(op): return lambda eng, a, b: compare(eng, op, a, b)


def f_bitwise_or(eng, a, b): return binop(eng, "BitOr", a, b)
def f_bitwise_and(eng, a, b): return binop(eng, "BitAnd", a, b)


def f_isclose(eng, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    raise Unsupported("isclose")


# ------------------------------------------------------------------ reductions
def dims_arg(dim, k):
    if "axis" in k: dim = k["axis"]
    return dim


def f_sum(eng, t, *a, dim=None, keepdim=False, dtype=None, **k):
    if a: dim = a if len(a) > 1 and all(isinstance(x, int) for x in a) else a[0]
    if len(a) == 2 and isinstance(a[1], bool): dim, keepdim = a
    dim = dims_arg(dim, k)
    if dtype is not None: t = TS.cast(t, dt(dtype))
    r = TS.tsum(t, dim, keepdim)
    return r


def f_nansum(eng, t, dim=None, keepdim=False, dtype=None, **k):
    z = t.map(lambda e: T.map_special(e, lambda l: C(0, "R") if l is NAN else l))
    return TS.tsum(z, dims_arg(dim, k), keepdim)


def f_mean(eng, t, dim=None, keepdim=False, dtype=None, **k):
    dim = dims_arg(dim, k)
    if not t.dtype.startswith("float") and dtype is None: raise PyRaise("RuntimeError", "mean(): could not infer output dtype")
    n = TS.tcount(t, dim)
    s = TS.tsum(TS.cast(t, "float32") if not t.dtype.startswith("float") else t, dim, keepdim)
    return s.map(lambda e: T.div(e, n))


def f_nanmean(eng, t, dim=None, keepdim=False, dtype=None, **k):
    dim = dims_arg(dim, k)
    s = f_nansum(eng, t, dim, keepdim)
    c = TS.tsum(t.map(lambda e: lnot(T.isnan(e)), "bool"), dim, keepdim)
    r = ew(lambda x, n: ite(eq(n, ZERO), NAN, T.div(x, n)), s, c)
    r.dtype = "float32"
    return r


def f_var(eng, t, dim=None, unbiased=True, keepdim=False, correction=None, **k):
    dim = dims_arg(dim, k)
    if correction is None: correction = 1 if unbiased else 0
    m = f_mean(eng, t, dim, True)
    d = ew(lambda x, y: mul(sub(x, y), sub(x, y)), t, m)
    n = TS.tcount(t, dim)
    s = TS.tsum(d, dim, keepdim)
    return s.map(lambda e: T.div(e, sub(n, lift(correction))))


def f_std(eng, t, dim=None, unbiased=True, keepdim=False, correction=None, **k):
    return f_var(eng, t, dim, unbiased, keepdim, correction, **k).map(T.sqrt)


def f_any(eng, t, dim=None, keepdim=False, **k):
    b = TS.cast(t, "bool")
    return reduce_dims(b, TS.all_dims(t, dims_arg(dim, k)), TS.fold_any, keepdim, "bool")


def f_all(eng, t, dim=None, keepdim=False, **k):
    b = TS.cast(t, "bool").map(lnot, "bool")
    return reduce_dims(b, TS.all_dims(t, dims_arg(dim, k)), TS.fold_any, keepdim, "bool").map(lnot, "bool")


class NT(tuple):
    """namedtuple result (values, indices)"""
    def attr_(self, n):
        return self[{"values": 0, "indices": 1}[n]]


def minmax(which):
    def f(eng, t, dim=None, keepdim=False, other=None, **k):
        if isinstance(dim, Tensor): return (f_maximum if which == "max" else f_minimum)(eng, t, dim)
        if other is not None: return (f_maximum if which == "max" else f_minimum)(eng, t, other)
        dim = dims_arg(dim, k)
        v = reduce_dims(t, TS.all_dims(t, dim), TS.fold_max(which), keepdim, t.dtype)
        if dim is None: return v
        return NT((v, f_arg(which)(eng, t, dim, keepdim)))
    return f


def f_amax(eng, t, dim=None, keepdim=False): return reduce_dims(t, TS.all_dims(t, dim), TS.fold_max("max"), keepdim, t.dtype)
def f_amin(eng, t, dim=None, keepdim=False): return reduce_dims(t, TS.all_dims(t, dim), TS.fold_max("min"), keepdim, t.dtype)


def divided(eng, j, g):
    """the components of flat position j of a dimension factored over the axes g, by division with remainder"""
    out = []
    for k in range(len(g) - 1, -1, -1):
        if k == 0: out.append(j)
        else:
            from .interp import floordiv
            q = floordiv(j, g[k])
            out.append(sub(j, mul(q, g[k])))
            j = q
    return out[::-1]


def f_arg(which):
    def f(eng, t, dim=None, keepdim=False, **k):
        """index of an extremal element: an unspecified index in range attaining the extremum"""
        dim = dims_arg(dim, k)
        if dim is None:
            t = f_flatten(eng, t); dim = 0
            if len(t.dims()[0]) != 1: t = t  # factored
        d = dim % t.ndim
        td = t.dims()
        g = td[d]
        n = group_size(g)
        rest = td[:d] + ([[]] if keepdim else []) + td[d + 1:]
        p = sum(len(x) for x in td[:d])
        if len(g) == 0: return Tensor.build(rest, lambda idx: ZERO, "int64")
        if any(isinstance(x, CAxis) for x in g): raise Unsupported("argmax over a compact dimension")
        part = (lambda j: [j]) if len(g) == 1 else (lambda j: divided(eng, j, g))
        nm = f"arg{which}"
        def fn(idx):
            row = lam1(lambda j: t.at_flatgroups(list(idx[:p]) + list(part(j)) + list(idx[p:])), n)
            install_arg(eng, nm, which)
            return app(nm, (row, TS.simp_int(n)), "I")
        return Tensor.build(rest, fn, "int64")
    return f


def install_arg(eng, nm, which):
    if nm in eng.root.app_facts: return
    def facts(args):
        row, n = args
        a = app(nm, args, "I")
        (v,), body = row.args
        at = subst(body, {v: a})
        j = fresh("j")
        bj = subst(body, {v: j})
        b = le(bj, at) if which == "max" else le(at, bj)
        return [lor(le(n, ZERO), land(le(ZERO, a), lt(a, n))), lor(le(n, ZERO), T.forall_(j, ZERO, n, b))]  # ties: the first one (not needed so far)
    eng.root.app_facts[nm] = facts


def rowargs(f, n, raw=False):
    """a row of n numbers as arguments of an application: the numbers themselves when n is a small literal"""
    if isc(n) and T.cval(n) <= 4: return tuple(f(C(k)) for k in range(int(T.cval(n))))
    return (lam1(f, n, raw),)


def lam1(f, n, raw=False):
    """canonical lambda over one index"""
    j = fresh("l")
    base = cur.ctx
    cur.ctx = base.child(le(ZERO, j), lt(j, n))
    try:
        b = f(j)
        if not raw: b = canon(b, cur.ctx)
    finally: cur.ctx = base
    h = NM.binder_height([b])
    v = NM.canon_var(h + 1)
    return T.mk("lam", ((v,), subst(b, {j: v})), "L")


def canon(b, ctx):
    if b.sort == "B": return ctx.nb(b)
    if b.special: return b
    return ctx.nterm(b)


def lam_of(t):
    """canonical lambda of a tensor's elements (by dims order)"""
    dims = t.dims()
    phs, sizes = [], []
    for g in dims:
        for s in g:
            if isinstance(s, CAxis): raise Unsupported("opaque function of a compact tensor")
            phs.append(fresh("l")); sizes.append(s)
    base = cur.ctx
    cur.ctx = base.child(*[c for p, s in zip(phs, sizes) for c in (le(ZERO, p), lt(p, s))])
    try: b = canon(t.at_flatgroups(list(phs)), cur.ctx)
    finally: cur.ctx = base
    h = NM.binder_height([b])
    vs = tuple(NM.canon_var(h + 1 + i) for i in range(len(phs)))
    return T.mk("lam", (vs, subst(b, dict(zip(phs, vs)))), "L")


def sizes_of(t): return tuple(TS.simp_int(TS.axis_count(s)) for g in t.dims() for s in g)


def opaque(eng, name, ts, dims, dtype="float32", extra=(), sort=None):
    """tensor whose elements are an uninterpreted function of whole tensors"""
    args = tuple(lam_of(t) for t in ts) + tuple(x for t in ts for x in sizes_of(t)) + tuple(lift(x) for x in extra)
    sort = sort or ("R" if dtype.startswith("float") else "I")
    return Tensor.build(dims, lambda idx: app(name, args + tuple(TS.flat_idx(idx)), sort), dtype)


def f_prod(eng, t, dim=None, keepdim=False, **k):
    ks = TS.all_dims(t, dim)
    def fold(binders, e):
        for v, s in reversed(binders):
            if not isinstance(s, CAxis) and isc(s) and T.cval(s) <= 8:
                r = ONE
                for q in range(int(T.cval(s))): r = mul(r, subst(e, {v: C(q)}))
                e = r
            else: raise Unsupported("product over a symbolic axis")
        return e
    return reduce_dims(t, ks, fold, keepdim, t.dtype)


def scan_axis(t, dim):
    d = dim % t.ndim
    td = t.dims()
    live = [a for a in td[d] if not TS.is_one(a)]
    if len(live) > 1: raise Unsupported("cumulative op over a factored dimension")
    p = sum(len(g) for g in td[:d])
    if not live: return td, None, None
    q = p + [i for i, a in enumerate(td[d]) if not TS.is_one(a)][0]
    return td, q, live[0]


def f_cumsum(eng, t, dim=None, dtype=None, **k):
    dim = dims_arg(dim, k)
    td, q, ax = scan_axis(t, dim)
    if q is None: return t.contiguous_copy()
    if isinstance(ax, CAxis): raise Unsupported("cumsum over compact axis")
    r = t if t.dtype != "bool" else TS.cast(t, "int64")
    def fn(idx):
        v = fresh("s")
        return mksum(v, ZERO, add(idx[q], ONE), T.b2n(t.at_flatgroups(idx[:q] + [v] + idx[q + 1:])))
    return Tensor.build(td, fn, r.dtype)


def f_softmax(eng, t, dim=None, dtype=None, **k):
    d = dims_arg(dim, k)
    ex = t.map(lambda e: T.exp(T.b2n(e)), flo(t))
    s = TS.tsum(ex, d, True)
    return ew(T.div, ex, s)


def f_logsumexp(eng, t, dim, keepdim=False):
    ex = t.map(lambda e: T.exp(e))
    return TS.tsum(ex, dim, keepdim).map(T.log)


def f_log_softmax(eng, t, dim=None, **k):
    s = f_logsumexp(eng, t, dims_arg(dim, k), True)
    return ew(sub, t, s)


def f_cross_entropy(eng, x, y, weight=None, ignore_index=-100, reduction="mean", label_smoothing=0.0):
    if weight is not None: raise Unsupported("weighted cross entropy")
    if y.dtype.startswith("float"): raise Unsupported("soft-label cross entropy") if x.ndim == y.ndim else PyRaise("RuntimeError", "expected scalar type Long")
    cdim = 1 if x.ndim > 1 else 0
    ls = f_log_softmax(eng, x, cdim)
    idx = y.unsqueeze(cdim)
    g = f_gather(eng, ls, cdim, idx)
    r = TS_squeeze(g, cdim).map(neg)
    if reduction == "none": return r
    if reduction == "sum": return TS.tsum(r)
    if reduction == "mean": return f_mean(eng, r)
    raise PyRaise("ValueError", f"{reduction} is not a valid value for reduction")


def TS_squeeze(t, d):
    r = t
    while r.groups[d]: r = r.drop_axis(r.groups[d][0], ZERO)
    g = list(r.groups)
    del g[d]
    return r.regroup(g)


def f_mse_loss(eng, a, b, reduction="mean"):
    d = ew(lambda x, y: mul(sub(x, y), sub(x, y)), a, b)
    return d if reduction == "none" else TS.tsum(d) if reduction == "sum" else f_mean(eng, d)


# ------------------------------------------------------------------ gather / scatter
def f_gather(eng, t, dim, index, **k):
    d = dim % t.ndim
    if index.ndim != t.ndim: raise PyRaise("RuntimeError", "Index tensor must have the same number of dimensions as input tensor")
    td, xd = t.dims(), index.dims()
    maps = []
    for q in range(t.ndim):
        if q == d: maps.append(None); continue
        if TS.dim_is_one(xd[q]): maps.append(lambda x, g=td[q]: [ZERO] * len(g)); continue
        f = TS.match_groups(xd[q], td[q])
        if f is None:
            if cur.ctx.decide(le(group_size(xd[q]), group_size(td[q]))) is True and len(xd[q]) == len(td[q]) == 1: f = lambda x: list(x)
            else: raise PyRaise("RuntimeError", "gather: size mismatch")
        maps.append(f)
    size = t.size(d)
    def fn(idx):
        parts, p = [], 0
        for g in xd:
            parts.append(idx[p:p + len(g)]); p += len(g)
        v = index.at_dims(parts)
        if v.special: raise Unsupported("special index value")
        eng.index_value(v, size)
        x = TS.decode_index(v, td[d])
        return t.at_dims([x if q == d else maps[q](parts[q]) for q in range(t.ndim)])
    return Tensor.build(xd, fn, t.dtype)


def scatter(eng, t, dim, index, src, mode):
    """out[.., index[p], ..] (=|+=) src[p]"""
    d = dim % t.ndim
    td, xd = t.dims(), index.dims()
    maps = []
    for q in range(t.ndim):
        if q == d: maps.append(None); continue
        f = TS.match_groups(td[q], xd[q]) if not (TS.dim_is_one(xd[q]) and not TS.dim_is_one(td[q])) else None
        if f is None: raise Unsupported("scatter with a smaller index")
        maps.append(f)
    if isinstance(src, Tensor) and src.ndim:
        sd = src.dims()
        smaps = []
        for q in range(t.ndim):
            f = TS.match_groups(xd[q], sd[q])
            if f is None:
                if len(xd[q]) == 1 and len(sd[q]) == 1 and cur.ctx.decide(le(group_size(xd[q]), group_size(sd[q]))) is True: f = lambda x: list(x)
                else: raise Unsupported("scatter source shape")
            smaps.append(f)
        rd = lambda parts: src.at_dims([smaps[q](parts[q]) for q in range(t.ndim)])
    else:
        sv = num(src)
        rd = lambda parts: sv
    size = t.size(d)
    def fn(idx):
        parts, p = [], 0
        for g in td:
            parts.append(idx[p:p + len(g)]); p += len(g)
        pos = TS.flat_of(parts[d], td[d]) if parts[d] else ZERO
        xg = xd[d]
        if any(isinstance(s, CAxis) for s in xg): raise Unsupported("scatter over compact axis")
        vs = [fresh("s") for _ in xg]
        base = cur.ctx
        cur.ctx = base.child(*[c for v, s in zip(vs, xg) for c in (le(ZERO, v), lt(v, s))])
        try:
            ip = [vs if q == d else maps[q](parts[q]) for q in range(t.ndim)]
            iv = index.at_dims(ip)
            eng.index_value(iv, size)
            sval = TS.cast_term(rd(ip), t.dtype)
        finally: cur.ctx = base
        old = t.at_dims(parts)
        if mode == "add":
            e = ite(eq(iv, pos), sval, C(0, sval.sort if sval.sort != "B" else "I"))
            for v, s in zip(reversed(vs), reversed(xg)): e = mksum(v, ZERO, s, e)
            return add(old, e)
        # assignment: deterministic only when the index is injective along dim (or the source constant)
        hit = eq(iv, pos)
        ex = hit
        for v, s in zip(reversed(vs), reversed(xg)): ex = exists_(v, ZERO, s, ex)
        if not any(v in sval.fv for v in vs): return ite(ex, sval, old)
        if all(TS.is_one(s) for s in xg): return ite(subst(hit, {v: ZERO for v in vs}), subst(sval, {v: ZERO for v in vs}), old)
        eng.injective(iv, vs, xg)
        e = ite(hit, sval, C(0, sval.sort))
        for v, s in zip(reversed(vs), reversed(xg)): e = mksum(v, ZERO, s, e)
        return ite(ex, e, old)
    return Tensor.build(td, fn, t.dtype)


def _injective(self, iv, vs, sizes):
    """scatter index must not repeat along the dim (otherwise torch leaves the result unspecified)"""
    ws = [fresh("w") for _ in vs]
    c = cur.ctx.child(*[q for v, s in zip(list(vs) + ws, list(sizes) * 2) for q in (le(ZERO, v), lt(v, s))])
    jv = subst(iv, dict(zip(vs, ws)))
    base = cur.ctx
    cur.ctx = c
    try: self.side_condition("scatter index has no duplicates", lor(lnot(eq(iv, jv)), *( [land(*[eq(a, b) for a, b in zip(vs, ws)])] )))
    finally: cur.ctx = base


Engine.injective = _injective


def f_scatter(eng, t, dim, index, src=None, value=None, reduce=None, **k):
    if reduce is not None: raise Unsupported("scatter reduce")
    return scatter(eng, t, dim, index, src if src is not None else value, "set")


def f_scatter_add(eng, t, dim, index, src): return scatter(eng, t, dim, index, src, "add")


def f_index_select(eng, t, dim, index):
    key = [slice(None)] * (dim % t.ndim) + [index]
    return TS.index(t, tuple(key))


def f_masked_fill(eng, t, mask, value):
    v = num(value)
    return ew(lambda m, e: ite(m, TS.cast_term(v, t.dtype), e), mask, t, dtype=t.dtype)


def f_masked_select(eng, t, mask):
    return TS.index(t, (mask,))


def f_index_fill(eng, t, dim, index, value):
    r = t.contiguous_copy()
    setitem(eng, r, tuple([slice(None)] * (dim % t.ndim) + [index]), value)
    return r


def f_take_along_dim(eng, t, idx, dim): return f_gather(eng, t, dim, idx)


def f_one_hot(eng, t, num_classes=-1):
    n = num(num_classes)
    if isc(n) and T.cval(n) < 0: raise Unsupported("one_hot without num_classes")
    td = t.dims()
    L = sum(len(g) for g in td)
    return Tensor.build(td + [[n]], lambda idx: ite(eq(t.at_flatgroups(idx[:L]), idx[L]), ONE, ZERO), "int64")


def f_tril(eng, t, diagonal=0):
    d = t.dims()
    L = sum(len(g) for g in d[:-2])
    return Tensor.build(d, lambda i: ite(le(i[-1], add(i[-2], C(diagonal))), t.at_flatgroups(i), C(0, "R")), t.dtype)


def f_triu(eng, t, diagonal=0):
    d = t.dims()
    return Tensor.build(d, lambda i: ite(le(add(i[-2], C(diagonal)), i[-1]), t.at_flatgroups(i), C(0, "R")), t.dtype)


def f_diag(eng, t, k=0):
    d = t.dims()
    if t.ndim == 1:
        if len(d[0]) != 1: raise Unsupported("diag of factored")
        return Tensor.build([d[0], d[0]], lambda i: ite(eq(i[0], i[1]), t.at_flatgroups([i[0]]), C(0, "R")), t.dtype)
    return f_diagonal(eng, t)


def f_diagonal(eng, t, offset=0, dim1=0, dim2=1):
    if t.ndim == 2:
        return Tensor.build([t.dims()[0]], lambda i: t.at_flatgroups([i[0], i[0]]), t.dtype)
    dim1, dim2 = dim1 % t.ndim, dim2 % t.ndim
    keep = [q for q in range(t.ndim) if q not in (dim1, dim2)]
    td = t.dims()
    def fn(idx):
        d = [None] * t.ndim
        p = 0
        for q in keep:
            d[q] = idx[p:p + len(td[q])]; p += len(td[q])
        d[dim1] = d[dim2] = idx[p:]
        return t.at_dims(d)
    return Tensor.build([td[q] for q in keep] + [td[dim1]], fn, t.dtype)


def f_diag_embed(eng, t, *a, **k):
    d = t.dims()
    g = d[-1]
    n = len(g)
    L = sum(len(x) for x in d[:-1])
    def fn(idx):
        i, j = idx[L:L + n], idx[L + n:]
        return ite(land(*[eq(a, b) for a, b in zip(i, j)]), t.at_flatgroups(idx[:L] + i), C(0, "R"))
    return Tensor.build(d[:-1] + [g, g], fn, t.dtype)


# ------------------------------------------------------------------ linear algebra
def matmul(eng, a, b):
    a, b = tn(eng, a), tn(eng, b)
    if a.ndim == 0 or b.ndim == 0: raise PyRaise("RuntimeError", "matmul of scalars")
    if a.ndim == 1 and b.ndim == 1: return einsum(eng, "i,i->", a, b)
    if a.ndim == 1: return f_squeeze(eng, matmul(eng, a.unsqueeze(0), b), -2) if False else matmul_core(eng, a.unsqueeze(0), b, "row")
    if b.ndim == 1: return matmul_core(eng, a, b.unsqueeze(1), "col")
    return matmul_core(eng, a, b, None)


def matmul_core(eng, a, b, drop):
    ga, gb = a.dims()[-1], b.dims()[-2]
    if not TS.same(group_size(ga), group_size(gb)):
        raise PyRaise("RuntimeError", f"mat1 and mat2 shapes cannot be multiplied ({show(group_size(ga))} vs {show(group_size(gb))})")
    A = a.unsqueeze(a.ndim)              # ..., n, k, 1
    Bt = b.unsqueeze(b.ndim - 2)         # ..., 1, k, m
    prod = ew(mul, A, Bt)
    r = TS.tsum(prod, -2)
    if drop == "row": r = TS_squeeze(r, r.ndim - 2)
    if drop == "col": r = TS_squeeze(r, r.ndim - 1)
    return r


def einsum(eng, eqn, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)): ops = ops[0]
    ops = [tn(eng, o) for o in ops]
    eqn = eqn.replace(" ", "")
    if "->" in eqn: lhs, out = eqn.split("->")
    else:
        lhs = eqn
        ls = lhs.replace(",", "")
        out = "".join(sorted(c for c in set(ls) if ls.count(c) == 1))
    ins = lhs.split(",")
    if len(ins) != len(ops): raise PyRaise("RuntimeError", "einsum operands")
    if "." in eqn:
        # name the ellipsis dimensions (aligned at the right)
        caps = [c for c in "ZYXWVUTSRQ" if c not in eqn]
        n = max([o.ndim - len(s.replace("...", "")) for s, o in zip(ins, ops) if "..." in s], default=0)
        if n < 0: raise PyRaise("RuntimeError", "einsum: the number of subscripts does not match the number of dimensions")
        names = "".join(reversed(caps[:n]))
        ins2 = []
        for s, o in zip(ins, ops):
            if "..." in s:
                m = o.ndim - len(s.replace("...", ""))
                if m < 0: raise PyRaise("RuntimeError", "einsum: the number of subscripts does not match the number of dimensions")
                s = s.replace("...", names[n - m:])
            ins2.append(s)
        if "..." in out: out = out.replace("...", names)
        elif "->" not in eqn: out = names + "".join(c for c in out if c != ".")
        ins = ins2
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim: raise PyRaise("RuntimeError", "einsum: the number of subscripts does not match the number of dimensions")
        for c, g in zip(s, o.dims()):
            if c not in size or TS.dim_is_one(size[c]): size[c] = g if c not in size or not TS.dim_is_one(g) else size[c]
            elif len(g) > len(size[c]) and not TS.dim_is_one(g): size[c] = g
    maps = []
    for s, o in zip(ins, ops):
        ms = []
        for c, g in zip(s, o.dims()):
            if TS.dim_is_one(g) and not TS.dim_is_one(size[c]): ms.append(lambda x, n=len(g): [ZERO] * n); continue
            f = TS.match_groups(size[c], g)
            if f is None: raise PyRaise("RuntimeError", f"einsum: operands do not broadcast for {c}")
            ms.append(f)
        maps.append(ms)
    red = [c for c in dict.fromkeys("".join(ins)) if c not in out]
    dims = [size[c] for c in out]
    def fn(idx):
        env, p = {}, 0
        for c in out:
            env[c] = idx[p:p + len(size[c])]; p += len(size[c])
        binders = []
        for c in red:
            xs = []
            for s in size[c]:
                v = tuple(fresh("r") for _ in s.sizes) if isinstance(s, CAxis) else fresh("r")
                binders.append((v, s)); xs.append(v)
            env[c] = xs
        e = None
        for s, o, ms in zip(ins, ops, maps):
            v = T.b2n(o.at_dims([f(env[c]) for c, f in zip(s, ms)]))
            e = v if e is None else mul(e, v)
        return TS.fold_sum(binders, e)
    return Tensor.build(dims, fn, TS.promote(*ops))


def f_outer(eng, a, b): return einsum(eng, "i,j->ij", a, b)


def f_dot(eng, a, b): return einsum(eng, "i,i->", a, b)


def f_addmm(eng, m, a, b): return binop(eng, "Add", m, matmul(eng, a, b))


def f_linear(eng, x, w, b=None):
    if x.ndim == 1: r = matmul(eng, x, f_t(eng, w))
    else: r = matmul(eng, x, f_t(eng, w))
    return r if b is None else binop(eng, "Add", r, b)


def f_solve(eng, A, B, left=True):
    """linalg.solve: the (unspecified) X with A X = B"""
    vec = B.ndim == A.ndim - 1 or B.ndim == 1
    bd = B.dims()
    ad = A.dims()
    batch = ad[:-2]
    nb = sum(len(g) for g in batch)
    if vec and B.ndim == 1 and A.ndim > 2: raise Unsupported("solve broadcast")
    n = ad[-1]
    if len(n) > 1 or any(isinstance(s, CAxis) for s in n): raise Unsupported("solve factored")
    if not vec and B.ndim != A.ndim: raise Unsupported("solve broadcast")
    for q in range(len(batch)):
        if TS.match_groups(batch[q], bd[q]) is None: raise Unsupported("solve batch broadcast")
    bm = [TS.match_groups(batch[q], bd[q]) for q in range(len(batch))]
    nn = group_size(n)
    def fn(idx):
        bi, i, rest = idx[:nb], idx[nb:nb + len(n)], idx[nb + len(n):]
        def parts():
            o, p = [], 0
            for g in batch:
                o.append(bi[p:p + len(g)]); p += len(g)
            return o
        bp = parts()
        if not n: 
            # 1x1
            return T.div(B.at_dims([f(x) for f, x in zip(bm, bp)] + [[]] + ([rest] if not vec else [])), A.at_dims(bp + [[], []]))
        L1 = lam2(lambda r, c: A.at_dims(bp + [[r], [c]]), nn, nn)
        L2 = lam1(lambda r: B.at_dims([f(x) for f, x in zip(bm, bp)] + [[r] if bd[len(batch)] else []] + ([rest] if not vec else [])), nn)
        install_solve(eng)
        return app("solve", (L1, L2, TS.simp_int(nn), i[0]))
    dims = batch + [n] + ([bd[-1]] if not vec else [])
    return Tensor.build(dims, fn, A.dtype)


def lam2(f, n, m):
    r, c = fresh("l"), fresh("l")
    base = cur.ctx
    cur.ctx = base.child(le(ZERO, r), lt(r, n), le(ZERO, c), lt(c, m))
    try: b = canon(f(r, c), cur.ctx)
    finally: cur.ctx = base
    h = NM.binder_height([b])
    v, w = NM.canon_var(h + 1), NM.canon_var(h + 2)
    return T.mk("lam", ((v, w), subst(b, {r: v, c: w})), "L")


def install_solve(eng):
    pass


def f_inverse(eng, A):
    n = A.dims()[-1]
    d = A.dims()
    if A.ndim != 2: raise Unsupported("batched inverse")
    if not n: return A.map(T.inv)
    eng.assumed.add("torch.inverse(A) is the two-sided inverse of A (A invertible)")
    return opaque(eng, "matinv", [A], d)


def f_cholesky(eng, A, **k):
    if A.ndim != 2: raise Unsupported("batched cholesky")
    return opaque(eng, "cholesky", [A], A.dims())


# ------------------------------------------------------------------ order statistics: unspecified values with facts
def rows(t, dim):
    d = dim % t.ndim
    td = t.dims()
    g = td[d]
    live = [s for s in g if not TS.is_one(s)]
    if len(live) > 1 or any(isinstance(s, CAxis) for s in live): raise Unsupported("order statistic over a factored dimension")
    p = sum(len(x) for x in td[:d])
    q = p + [i for i, s in enumerate(g) if not TS.is_one(s)][0] if live else None
    return d, td, p, q, (live[0] if live else ONE)


def f_sort(eng, t, dim=-1, descending=False, stable=False):
    d, td, p, q, n = rows(t, dim)
    if q is None: return NT((t.contiguous_copy(), f_zeros_like(eng, t, "int64")))
    nm = "sortperm_desc" if descending else "sortperm"
    install_sort(eng, nm, descending)
    def perm(idx):
        r = rank_of(t.at_flatgroups(idx[:q] + [idx[q]] + idx[q + 1:]), idx[q], n) if not descending else None
        if r is not None: return r
        row = lam1(lambda j: t.at_flatgroups(idx[:q] + [j] + idx[q + 1:]), n)
        return app(nm, (row, TS.simp_int(n), idx[q]), "I")
    ind = Tensor.build(td, perm, "int64")
    val = Tensor.build(td, lambda idx: t.at_flatgroups(idx[:q] + [perm(idx)] + idx[q + 1:]), t.dtype)
    return NT((val, ind))


def rank_of(e, i, n):
    """argsort of an ascending argsort is the inverse permutation: the number of values sorted before (ties in an unspecified order)"""
    if not (e.op == "app" and e.args[0] == "sortperm" and len(e.args) == 4 and e.args[3] is i and e.args[1].op == "lam" and TS.same(e.args[2], n)): return None
    row = e.args[1]
    v, = row.args[0]
    val = lambda k: subst(row.args[1], {v: k})
    if i in row.fv: return None
    j = fresh("r")
    ch = cur.ctx.child(le(ZERO, j), lt(j, n), le(ZERO, i), lt(i, n), lnot(eq(j, i)))
    if ch.decide(eq(val(j), val(i))) is False: before = ite(lt(val(j), val(i)), ONE, ZERO)
    else: before = ite(lt(val(j), val(i)), ONE, ite(land(eq(val(j), val(i)), lnot(eq(j, i))), app("tie", (row, i, j), "I"), ZERO))
    return T.mksum(j, ZERO, n, before)


def install_sort(eng, nm, desc):
    if nm in eng.root.app_facts: return
    def facts(args):
        row, n, i = args
        a = app(nm, args, "I")
        return [lor(lt(i, ZERO), le(n, i), land(le(ZERO, a), lt(a, n)))]
    eng.root.app_facts[nm] = facts


def f_argsort(eng, t, dim=-1, descending=False, stable=False): return f_sort(eng, t, dim, descending)[1]


def f_quantile(eng, t, q, dim=None, keepdim=False, **k):
    if dim is None: raise Unsupported("quantile of flattened tensor") if t.ndim != 1 else None
    return order_stat(eng, "quantile", t, dim if dim is not None else 0, keepdim, q)


def order_stat(eng, name, t, dim, keepdim, q=None):
    d, td, p, qx, n = rows(t, dim)
    rest = td[:d] + ([[]] if keepdim else []) + td[d + 1:]
    qt = tn(eng, q) if q is not None else None
    qd = qt.dims() if qt is not None else []
    L = sum(len(g) for g in qd)
    if qx is None:
        return Tensor.build(qd + rest, lambda idx: t.at_flatgroups(idx[L:L + p] + [ZERO] * len(td[d]) + idx[L + p:]), t.dtype)
    def fn(idx):
        qi, ri = idx[:L], idx[L:]
        row = lam1(lambda j: t.at_flatgroups(ri[:p] + [ZERO] * 0 + [j] + ri[p:]), n)
        return app(name, (row, TS.simp_int(n)) + ((qt.at_flatgroups(qi),) if qt is not None else ()))
    return Tensor.build(qd + rest, fn, "float32")


def f_median(eng, t, dim=None, keepdim=False):
    if dim is None:
        if t.ndim != 1: raise Unsupported("median of flattened")
        return order_stat(eng, "median", t, 0, False)
    v = order_stat(eng, "median", t, dim, keepdim)
    return NT((v, Missing("median indices")))


def f_searchsorted(eng, a, v, right=False, side=None, **k):
    """number of elements < v (or <= v if right)"""
    if side == "right": right = True
    d, td, p, q, n = rows(a, -1)
    if a.ndim == 1:
        v = tn(eng, v)
        def fn(idx):
            x = v.at_flatgroups(idx)
            s = fresh("s")
            e = a.at_flatgroups([s] if q is not None else [ZERO] * len(td[-1]))
            return mksum(s, ZERO, n, ite(le(e, x) if right else lt(e, x), ONE, ZERO))
        return Tensor.build(v.dims(), fn, "int64")
    raise Unsupported("batched searchsorted")


def f_unique(eng, *a, **k): raise Unsupported("unique")
def f_bincount(eng, t, weights=None, minlength=0):
    if weights is not None: raise Unsupported("weighted bincount")
    n = lift(minlength)
    holds = lambda op, b: cur.ctx.prove(f_all(eng, compare(eng, op, t, b)).item_term())
    if not holds("GtE", 0): raise Unsupported("bincount of numbers not known to be non-negative")
    if not holds("Lt", py(n)): raise Unsupported("bincount of numbers not known to be below minlength")
    return Tensor.build([TS.split_size(n)], lambda i: TS.tsum(t.map(lambda e: ite(eq(e, TS.flat_idx(i)[0]), ONE, ZERO), "int64")).item_term(), "int64")


def f_histogram(eng, *a, **k): raise Unsupported("histogram")


def f_cartesian_prod(eng, *ts):
    if len(ts) == 1 and isinstance(ts[0], SymList): raise Unsupported("cartesian product of a symbolic number of grids")
    ts = [tn(eng, t) for t in ts]
    if len(ts) == 1: return ts[0]
    axes = [t.dims()[0] for t in ts]
    lens = [len(g) for g in axes]
    def fn(idx):
        j = idx[-1]
        parts, p = [], 0
        for n in lens:
            parts.append(idx[p:p + n]); p += n
        vals = [t.at_flatgroups(x) for t, x in zip(ts, parts)]
        return vals[int(T.cval(j))] if isc(j) else select(j, vals)
    return Tensor.build([[s for g in axes for s in g], [C(len(ts))]], fn, TS.promote(*ts))


def f_meshgrid(eng, *ts, indexing="ij"):
    ts = list(eng.as_list(ts[0])) if len(ts) == 1 and isinstance(ts[0], (list, tuple)) else list(ts)
    if indexing != "ij": raise Unsupported("meshgrid indexing")
    axes = [t.dims()[0] for t in ts]
    out = []
    for q, t in enumerate(ts):
        off = sum(len(g) for g in axes[:q])
        out.append(Tensor.build(axes, lambda idx, t=t, off=off, n=len(axes[q]): t.at_flatgroups(idx[off:off + n]), t.dtype))
    return tuple(out)


def f_pad(eng, t, pad, mode="constant", value=0.0):
    pad = [x for x in eng.as_list(pad)]
    if mode != "constant": raise Unsupported("pad mode")
    r = t
    v = lift(0.0 if value is None else value)
    for q in range(len(pad) // 2):
        d = t.ndim - 1 - q
        a, b = lift(pad[2 * q]), lift(pad[2 * q + 1])
        if isc(a) and isc(b) and T.cval(a) == 0 and T.cval(b) == 0: continue
        r = pad_dim(r, d, a, b, v)
    return r


def pad_dim(t, d, a, b, v):
    td = t.dims()
    g = td[d]
    n = group_size(g)
    p = sum(len(x) for x in td[:d])
    tot = TS.simp_int(add(add(a, n), b))
    dims = td[:d] + [[tot]] + td[d + 1:]
    def fn(idx):
        i = idx[p]
        c = land(le(a, i), lt(i, add(a, n)))
        base = cur.ctx
        dc = base.decide(c)
        if dc is False: return v
        cur.ctx = base.child(c)
        try:
            x = TS.decode_flat(cur.ctx.nterm(sub(i, a)), g)
            if x is None: raise Unsupported("pad of a factored dimension")
            e = t.at_flatgroups(idx[:p] + list(x) + idx[p + 1:])
        finally: cur.ctx = base
        return ite(c, e, TS.cast_term(v, t.dtype))
    return Tensor.build(dims, fn, t.dtype)


def f_allclose(eng, *a, **k): raise Unsupported("allclose")


def f_equal(eng, a, b):
    if a.ndim != b.ndim: return False
    for x, y in zip(a.dims(), b.dims()):
        if not TS.same(group_size(x), group_size(y)): return False
    return py(f_all(eng, compare(eng, "Eq", a, b)).item_term())


def f_numel(eng, t): return py(cur.ctx.nterm(t.numel()))


def f_multinomial(eng, p, num_samples, replacement=False, **k):
    td = p.dims()
    n = group_size(td[-1])
    ns = num(num_samples)
    dims = td[:-1] + [TS.split_size(ns)]
    u = eng.native_stubs.get("uniform")
    if u is not None:
        # inverse distribution function at the draw u: the number of categories whose cumulative probability does not exceed it
        def cum(idx, hi):
            v = fresh("s")
            return mksum(v, ZERO, hi, T.b2n(p.at_flatgroups(list(idx[:len(td) - 1]) + [v])))
        def fn(idx):
            w = fresh("s")
            return mksum(w, ZERO, sub(n, ONE), T.ite(T.le(cum(idx, add(w, ONE)), mul(u, cum(idx, n))), ONE, ZERO))
        return Tensor.build(dims, lambda idx: fn(idx), "int64")
    t = unspecified(eng, dims, "int64", "multinomial")
    local_fact(eng, t, lambda u: [le(ZERO, u), lt(u, n)])
    return t


def f_bernoulli(eng, p, **k):
    u = eng.native_stubs.get("uniform")
    if u is not None: return p.map(lambda e: T.ite(T.le(sub(ONE, e), u), ONE, ZERO), "float32")
    t = unspecified(eng, p.dims(), "float32", "bernoulli")
    local_fact(eng, t, lambda u: [lor(eq(u, ZERO), eq(u, ONE))])
    return t


def f_randperm(eng, n, **k):
    if "randperm" in eng.native_stubs: return eng.native_stubs["randperm"](eng, n, **k)
    n = num(n)
    t = unspecified(eng, [[n]], "int64", "randperm")
    local_fact(eng, t, lambda u: [le(ZERO, u), lt(u, n)])
    return t


def f_item(eng, t): return py(t.item_term())


def f_tolist(eng, t):
    if t.ndim == 0: return py(t.item_term())
    n = py(cur.ctx.nterm(t.size(0)))
    if isinstance(n, int): return [f_tolist(eng, TS.select_dim(t, 0, C(i))) for i in range(n)]
    return SymList(n, lambda i: f_tolist(eng, TS.select_dim(t, 0, i)))


def f_to(eng, t, *a, **k):
    d = k.get("dtype")
    for x in a:
        if isinstance(x, DType) or (isinstance(x, str) and x in DTYPES): d = x
        if isinstance(x, Tensor): d = x.dtype
    if d is None: return t
    d = dt(d)
    if d == t.dtype: return t
    return TS.cast(t, d)


def castm(d):
    def f(eng, t, *a, **k): return TS.cast(t, d)
    return f


def f_view(eng, t, *s):
    if len(s) == 1 and isinstance(s[0], (DType,)): raise Unsupported("view dtype")
    r = f_reshape(eng, t, *s)
    return r


def ident(eng, t, *a, **k): return t


def f_clone(eng, t, *a, **k):
    r = t.contiguous_copy()
    r.requires_grad = False
    return r


def inplace(name):
    def f(eng, t, *a, **k):
        v = FN[name](eng, t, *a, **k)
        TS.assign(t, v)
        return t
    return f


def f_fill_(eng, t, v):
    TS.assign(t, as_tensor(num(v)))
    return t


def f_copy_(eng, t, o, *a, **k):
    TS.assign(t, o)
    return t


def havoc_(why):
    def f(eng, t, *a, **k):
        TS.assign(t, unspecified(eng, t.dims(), t.dtype, why))
        return t
    return f


def f_fill_diagonal_(eng, t, v, wrap=False):
    if t.ndim != 2: raise Unsupported("fill_diagonal_")
    v = lift(v)
    def cond(idx):
        i, j = [[idx[a] for a in g] for g in t.groups]
        fi = TS.flat_of(i, t.dims()[0]) if i else ZERO
        fj = TS.flat_of(j, t.dims()[1]) if j else ZERO
        return eq(fi, fj)
    t.set_where(cond, lambda idx: TS.cast_term(v, t.dtype))
    return t


def f_size(eng, t, dim=None):
    if dim is None: return Size(t.shape())
    return py(cur.ctx.nterm(t.size(dim))) if not is_mulsize(t.size(dim)) else t.size(dim)


class Size(tuple):
    pass


def f_nonzero(eng, t, as_tuple=False): raise Unsupported("nonzero")
def f_topk(eng, *a, **k): raise Unsupported("topk")


def f_kl(eng, *a, **k): raise Unsupported("kl_div")


FN = {}
FN.update(zeros=f_zeros, ones=f_ones, empty=f_empty, full=f_full, zeros_like=f_zeros_like, ones_like=f_ones_like, empty_like=f_empty_like,
    full_like=f_full_like, rand=f_rand, randn=f_randn, randint=f_randint, tensor=f_tensor, as_tensor=f_tensor, arange=f_arange, linspace=f_linspace,
    eye=f_eye, reshape=f_reshape, flatten=f_flatten, unsqueeze=f_unsqueeze, squeeze=f_squeeze, transpose=f_transpose, t=f_t, permute=f_permute,
    tile=f_tile, repeat_interleave=f_repeat_interleave, flip=f_flip, roll=f_roll, cat=f_cat, concat=f_cat, concatenate=f_cat, stack=f_stack,
    split=f_split, chunk=f_chunk, unbind=f_unbind, where=f_where, clamp=f_clamp, clip=f_clamp, softplus=f_softplus, elu=f_elu, relu=f_relu, tanh=f_tanh,
    nan_to_num=f_nan_to_num, lerp=f_lerp, pow=f_pow, maximum=f_maximum, minimum=f_minimum, bitwise_or=f_bitwise_or, logical_or=f_bitwise_or,
    bitwise_and=f_bitwise_and, logical_and=f_bitwise_and, sum=f_sum, nansum=f_nansum, mean=f_mean, nanmean=f_nanmean, var=f_var, std=f_std,
    any=f_any, all=f_all, max=minmax("max"), min=minmax("min"), amax=f_amax, amin=f_amin, argmax=f_arg("max"), argmin=f_arg("min"), prod=f_prod,
    cumsum=f_cumsum, softmax=f_softmax, logsumexp=f_logsumexp, log_softmax=f_log_softmax, cross_entropy=f_cross_entropy, mse_loss=f_mse_loss,
    gather=f_gather, scatter=f_scatter, scatter_add=f_scatter_add, index_select=f_index_select, masked_fill=f_masked_fill, masked_select=f_masked_select,
    index_fill=f_index_fill, take_along_dim=f_take_along_dim, one_hot=f_one_hot, tril=f_tril, triu=f_triu, diag=f_diag, diagonal=f_diagonal,
    diag_embed=f_diag_embed, matmul=matmul, mm=matmul, bmm=matmul, mv=matmul, einsum=einsum, outer=f_outer, dot=f_dot, linear=f_linear, addmm=f_addmm,
    inverse=f_inverse, sort=f_sort, argsort=f_argsort, quantile=f_quantile, median=f_median, searchsorted=f_searchsorted, unique=f_unique,
    bincount=f_bincount, cartesian_prod=f_cartesian_prod, meshgrid=f_meshgrid, pad=f_pad, allclose=f_allclose, equal=f_equal, numel=f_numel,
    multinomial=f_multinomial, bernoulli=f_bernoulli, randperm=f_randperm, clone=f_clone, detach=lambda eng, t: AD.detach(eng, t), broadcast_to=f_broadcast_to, isclose=f_isclose,
    leaky_relu=f_leaky_relu, unflatten=f_unflatten, nonzero=f_nonzero, topk=f_topk)
FN.update(exp=e1(T.exp), log=e1(T.log), sqrt=e1(T.sqrt), sigmoid=e1(T.sigmoid), abs=e1(T.absf, False), sign=e1(T.sign, False), neg=e1(neg, False),
    square=e1(lambda e: mul(e, e), False), reciprocal=e1(T.inv), log1p=e1(lambda e: T.log(add(ONE, e))), expm1=e1(lambda e: sub(T.exp(e), ONE)),
    cos=e1(lambda e: T.fn1("cos", e)), sin=e1(lambda e: T.fn1("sin", e)), erf=e1(lambda e: T.fn1("erf", e)),
    round=e1(lambda e: TS.rounded("round", e), False), floor=e1(lambda e: TS.rounded("floor", e), False),
    ceil=e1(lambda e: TS.rounded("ceil", e), False), log2=e1(lambda e: T.div(T.log(e), T.log(C(2)))),
    isnan=e1b(T.isnan), isinf=e1b(T.isinf), isfinite=e1b(lambda e: lnot(lor(T.isnan(e), T.isinf(e)))), logical_not=e1b(lnot), bitwise_not=e1b(lnot),
    deg2rad=e1(lambda e: mul(e, T.div(PI, C(180)))), rsqrt=e1(lambda e: T.inv(T.sqrt(e))), softplus_=None)
del FN["softplus_"]
FN.update(add=arith("Add"), sub=arith("Sub"), subtract=arith("Sub"), mul=arith("Mult"), multiply=arith("Mult"), div=arith("Div"), divide=arith("Div"),
    true_divide=arith("Div"), remainder=arith("Mod"), eq=cmp("Eq"), ne=cmp("NotEq"), lt=cmp("Lt"), le=cmp("LtE"), gt=cmp("Gt"), ge=cmp("GtE"),
    floor_divide=arith("FloorDiv"))

METH = dict(FN)
for _n in ("zeros", "ones", "full", "tensor", "as_tensor", "arange", "linspace", "eye", "cat", "stack", "rand", "randn"): METH.pop(_n, None)
METH.update(view=f_view, size=f_size, dim=lambda eng, t: t.ndim, ndimension=lambda eng, t: t.ndim, item=f_item, tolist=f_tolist, to=f_to, expand=f_expand,
    expand_as=f_expand_as, repeat=f_repeat, contiguous=ident, cpu=ident, cuda=ident, detach=lambda eng, t: AD.detach(eng, t), detach_=lambda eng, t: f_detach_(eng, t), numpy=ident, float=castm("float32"),
    double=castm("float64"), int=castm("int32"), long=castm("int64"), bool=castm("bool"), half=ident, nelement=f_numel, view_as=lambda eng, t, o: f_reshape(eng, t, *o.shape()),
    requires_grad_=lambda eng, t, v=True: set_rg(eng, t, v), fill_=f_fill_, zero_=lambda eng, t: f_fill_(eng, t, 0), copy_=f_copy_, fill_diagonal_=f_fill_diagonal_,
    normal_=havoc_("normal"), uniform_=havoc_("uniform"), type=lambda eng, t, d=None: f_to(eng, t, d), is_floating_point=lambda eng, t: t.dtype.startswith("float"),
    new_zeros=lambda eng, t, *s, **k: f_zeros(eng, *s, **k), new_ones=lambda eng, t, *s, **k: f_ones(eng, *s, **k), type_as=lambda eng, t, o: TS.cast(t, o.dtype),
    retain_grad=ident, share_memory_=ident, pin_memory=ident, new_tensor=lambda eng, t, d, **k: f_tensor(eng, d), copy=f_clone, astype=lambda eng, t, d, **k: f_to(eng, t, d),
    backward=lambda eng, t, *a, **k: backward(eng, t, *a, **k), squeeze_=None)
METH.pop("squeeze_")
for _n in ("add", "sub", "mul", "multiply", "div", "exp", "log", "sqrt", "sigmoid", "abs", "clamp", "pow", "neg", "scatter", "scatter_add", "masked_fill",
           "index_fill", "cumsum", "relu", "tanh", "cos", "sin", "round", "eq", "lerp", "floor", "deg2rad", "rsqrt", "reciprocal", "square", "log1p", "log2", "ceil", "sign", "sub", "true_divide", "maximum", "minimum", "clip"):
    if _n in FN: METH[_n + "_"] = inplace(_n)


def set_rg(eng, t, v=True):
    if v and not t.is_param: AD.make_leaf(eng, t)
    t.requires_grad = v
    return t


def f_detach_(eng, t):
    if AD.has_leaf(eng, t.st.body):
        t.st.write(AD.expand(eng, t.st.body))
        t.leafname = None
    t.requires_grad = False
    return t


def method(eng, t, name):
    f = METH[name]
    return f(eng, t)


def backward(eng, t, *a, **k):
    if eng.trainer is not None and not a and not k: return eng.trainer.backward(t)
    return AD.backward(eng, t, *a, **k)


def tensor_attr(eng, t, n):
    if n == "shape": return Size(t.shape())
    if n == "T": return t.permute(list(reversed(range(t.ndim))))
    if n == "mT": return f_transpose(eng, t, -1, -2)
    if n == "ndim": return t.ndim
    if n == "dtype": return DType(t.dtype)
    if n == "device": return "cpu"
    if n == "data": return t
    if n == "grad": return AD.grad_attr(eng, t)
    if n == "requires_grad": return AD.requires_grad(eng, t)
    if n == "is_leaf": return True
    if n == "is_cuda": return False
    if n == "grad_fn": return None
    if n == "values" or n == "loc" or n == "iloc": raise PyRaise("AttributeError", n)
    if n == "__class__": raise Unsupported("tensor class")
    if n in METH:
        f = METH[n]
        return lambda *a, **k: f(eng, t, *a, **k)
    if n == "at" : raise Unsupported("tensor.at")
    raise PyRaise("AttributeError", f"'Tensor' object has no attribute '{n}'") if n.startswith("__") or n in ("columns", "values", "loc", "iloc", "index", "is_fitted", "keys", "items") else Unsupported("tensor method " + n)


def tensor_setattr(eng, t, n, v):
    if n == "requires_grad": set_rg(eng, t, v); return
    if n == "grad": AD.set_grad_attr(eng, t, v); return
    if n == "data":
        TS.assign(t, v)
        return
    raise Unsupported("tensor attribute " + n)


# ------------------------------------------------------------------ nn
def modules(eng):
    M = {}
    E = eng
    wrap = lambda f: (lambda *a, **k: f(E, *a, **k))
    def tensor_check(x): return isinstance(x, Tensor)
    ns = {n: wrap(f) for n, f in FN.items()}
    ns.update({n: DType(n) for n in DTYPES})
    def legacy(*a, **k):
        # torch.Tensor(2, 3) is an uninitialised tensor of that size, torch.Tensor([..]) has those values
        if a and all(isinstance(x, int) or isinstance(x, Term) and x.sort == "I" for x in a): return unspecified(eng, mkdims(list(a)), "float32", "uninit")
        return wrap(f_tensor)(*a)
    ns["Tensor"] = TypeName("Tensor", tensor_check, legacy)
    for n in ("Tensor", "FloatTensor", "LongTensor", "BoolTensor"):
        ns.setdefault(n, ns["Tensor"])
    ns.update(nan=math.nan, inf=math.inf, pi=PI, no_grad=grad_mode(E, True), enable_grad=grad_mode(E, False), inference_mode=grad_mode(E, True),
              set_grad_enabled=lambda v: GradMode(E, not v),
              Size=TypeName("Size", lambda x: isinstance(x, tuple), lambda x: Size(E.as_list(x))),
              set_num_threads=lambda *a: None, get_num_threads=lambda: 1, manual_seed=lambda *a: None, from_numpy=lambda x: x if isinstance(x, Tensor) else tn(E, x),
              is_tensor=lambda x: isinstance(x, Tensor), device=lambda *a: "cpu", set_default_dtype=lambda *a: None,
              get_default_dtype=lambda: DType("float32"), set_default_device=lambda *a: None)
    def save(obj, path, **k): E.files[path] = deepcopy_of(E, obj)
    def load(path, **k):
        if path not in E.files: raise PyRaise("FileNotFoundError", "no such file")
        return deepcopy_of(E, E.files[path])
    ns["save"], ns["load"] = save, load
    ns["normal"] = lambda *a, **k: normal_fn(E, *a, **k)
    ns["randn_like"] = lambda t, **k: draw_normal(E, t.dims())
    ns["vmap"] = lambda f, *a, **k: AD.Vmap(E, f, *a, **k)
    M["torch"] = NativeModule("torch", ns)
    ns["__version__"] = "2.0"
    # linalg
    M["torch.linalg"] = NativeModule("torch.linalg", dict(solve=wrap(f_solve), inv=wrap(f_inverse), cholesky=wrap(f_cholesky), LinAlgError=RuntimeError))
    M["torch.cuda"] = NativeModule("torch.cuda", dict(is_available=lambda: False, empty_cache=lambda: None, synchronize=lambda: None, manual_seed_all=lambda *a: None,
        reset_peak_memory_stats=lambda: None, max_memory_allocated=lambda: 0))
    M["torch.backends"] = NativeModule("torch.backends")
    M["torch.multiprocessing"] = NativeModule("torch.multiprocessing", dict(set_start_method=lambda *a, **k: None, cpu_count=lambda: 4))
    F = {n: wrap(FN[n]) for n in ("softmax", "softplus", "elu", "relu", "sigmoid", "tanh", "cross_entropy", "pad", "linear", "log_softmax", "one_hot", "mse_loss", "leaky_relu")}
    F["logsigmoid"] = lambda t: t.map(lambda e: T.log(T.sigmoid(e)))
    M["torch.nn.functional"] = NativeModule("torch.nn.functional", F)
    M["torch.distributions"] = NativeModule("torch.distributions", {})
    M["torch.distributions.multivariate_normal"] = NativeModule("torch.distributions.multivariate_normal", {})
    ns["distributions"] = M["torch.distributions"]
    from . import nnmodel
    nnmodel.install(E, M, ns)
    return M


def deepcopy_of(eng, v):
    """what survives a round trip through a file"""
    from .pylib import deepcopy
    return deepcopy(eng, v)


def normal_fn(eng, mean=0.0, std=1.0, size=None, **k):
    if isinstance(mean, Tensor): return unspecified(eng, mean.dims(), "float32", "normal")
    if isinstance(std, Tensor): return unspecified(eng, std.dims(), "float32", "normal")
    return unspecified(eng, mkdims(size_args(eng, [size])), "float32", "normal")


class GradMode:
    """torch.no_grad / enable_grad / inference_mode as context manager and decorator"""
    def __init__(self, eng, off): self.eng, self.off, self.prev = eng, off, []
    def ctx_enter(self):
        self.prev.append(self.eng.nograd)
        self.eng.nograd = self.off
        return self
    def ctx_exit(self): self.eng.nograd = self.prev.pop()
    def __call__(self, f):
        f.nograd = self.off
        return f


def grad_mode(eng, off):
    def f(*a):
        if a and not isinstance(a[0], bool):
            a[0].nograd = off
            return a[0]
        return GradMode(eng, off if not a or a[0] else not off)
    return f
