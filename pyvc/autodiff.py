"""Differentiation of extracted terms: the model of torch autograd (requires_grad_, backward, jacrev, vmap, autograd.Function).

A differentiable leaf is a tensor whose elements are atoms leaf#n(index) with a definition (its value); an output is differentiated
symbolically with respect to leaf#n(index).  Conditions are treated as locally constant (the branch taken is differentiated), as autograd does."""
import itertools
from .terms import *
from . import terms as T
from . import tensor as TS
from .tensor import Tensor, Storage, PyRaise, CAxis, cur, lt, le

_n = itertools.count(1)


def flat_axes(t):
    return [a for g in t.dims() for a in g]


def make_leaf(eng, t):
    """t becomes a leaf: its elements are fresh atoms defined by the current values"""
    if getattr(t, "leafname", None) and t.leafname in eng.leaves: return t
    if t.st.body.special: raise Unsupported("requires_grad on a tensor with non-finite entries")
    if t.wr is not None or t.base_view(): raise Unsupported("requires_grad on a view")
    st = t.st
    name = f"leaf#{next(_n)}"
    phs, body = st.phs, st.body
    eng.root.defs[name] = lambda args: subst(body, dict(zip(phs, args)))
    st.write(app(name, phs, "R"))
    t.leafname = name
    t.requires_grad = True
    g = Storage(st.sizes, phs, C(0, "R"))
    h = Storage([], (), FALSE)
    eng.leaves[name] = (t, g, h)
    return t


def expand(eng, t, names=None):
    """replace leaf atoms (and custom-function atoms) by their definitions"""
    def f(x):
        if x.op == "app" and (x.args[0] in names if names is not None else x.args[0].startswith(("leaf#", "cfn#"))):
            d = eng.root.defs.get(x.args[0])
            if d is not None: return expand(eng, d(x.args[1:]), names)
        return None
    return T.rewrite(t, f)


def has_leaf(eng, t, names=None):
    for x in T.subterms(t):
        if x.op == "app":
            n = x.args[0]
            if n.startswith("leaf#") and (names is None or n in names): return True
            if n.startswith("cfn#") and any(has_leaf(eng, i.st.body, names) for i in eng.cfuns[n][2]): return True
    return False


def deriv(eng, t, name, idx, memo=None):
    """d t / d name(idx)"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is None:
        r = memo[t] = _deriv(eng, t, name, idx, memo)
    return r


Z = C(0, "R")


def _deriv(eng, t, name, idx, memo):
    op = t.op
    if op in ("c", "var", "pinf", "ninf", "nan"): return Z
    d = lambda x: deriv(eng, x, name, idx, memo)
    if op == "app":
        n = t.args[0]
        if n == name:
            c = land(*[eq(a, b) for a, b in zip(t.args[1:], idx)])
            return ite(c, C(1, "R"), Z)
        if n in eng.cfuns: return custom(eng, t, name, idx)
        if n in eng.root.defs: return d(eng.root.defs[n](t.args[1:]))
        if any(isinstance(a, Term) and has_leaf(eng, a, {name}) for a in t.args[1:]):
            if n in eng.root.smooth:
                # opaque differentiable function of a row of numbers: chain rule with opaque partial derivatives
                rows, size = eng.root.smooth[n]
                a = t.args[1:]
                if a[0].op == "lam":
                    (v,), body = a[0].args
                    q = T.fresh("q")
                    b = deriv(eng, subst(body, {v: q}), name, idx, {})
                    return Z if b is Z else T.mksum(q, ZERO, size, mul(app("d:" + n, a + (q,)), b))
                r = Z
                for e in range(rows):
                    b = d(a[e])
                    if b is not Z: r = add(r, mul(app("d:" + n, a + (C(e),)), b))
                return r
            if n in eng.root.derivs:
                # opaque function with a given derivative in one argument
                pos, dn = eng.root.derivs[n]
                if any(isinstance(a, Term) and has_leaf(eng, a, {name}) for k, a in enumerate(t.args[1:]) if k != pos): raise Unsupported("derivative of " + n)
                return mul(d(t.args[1 + pos]), dn(t.args[1:]))
            if n == "ncdf": return mul(d(t.args[1]), mul(T.inv(T.sqrt(mul(C(2), eng.tm.PI))), T.exp(mul(C(Fraction(-1, 2)), mul(t.args[1], t.args[1])))))
            raise Unsupported("derivative of " + n)
        return Z
    if t.sort == "B": raise Unsupported("derivative of a boolean")
    if op == "add": return add(*[d(x) for x in t.args])
    if op == "mul":
        a, b = t.args
        return add(mul(d(a), b), mul(a, d(b)))
    if op == "inv":
        a, = t.args
        da = d(a)
        return Z if da is Z else T.neg(mul(da, mul(t, t)))
    if op == "exp":
        da = d(t.args[0])
        return Z if da is Z else mul(da, t)
    if op == "log":
        da = d(t.args[0])
        return Z if da is Z else mul(da, T.inv(t.args[0]))
    if op == "sqrt":
        da = d(t.args[0])
        return Z if da is Z else mul(da, mul(C(Fraction(1, 2)), T.inv(t)))
    if op == "powq":
        q = t.args[1].args[0]
        da = d(t.args[0])
        return Z if da is Z else mul(da, mul(C(q), mul(t, T.inv(t.args[0]))))
    if op == "pow":
        b, k = t.args
        if has_leaf(eng, k, {name}): raise Unsupported("derivative of a power in its exponent")
        db = d(b)
        return Z if db is Z else mul(db, mul(k, T.power(b, T.sub(k, ONE))))
    if op == "cos":
        da = d(t.args[0])
        return Z if da is Z else T.neg(mul(da, T.fn1("sin", t.args[0])))
    if op == "sin":
        da = d(t.args[0])
        return Z if da is Z else mul(da, T.fn1("cos", t.args[0]))
    if op == "erf":
        da = d(t.args[0])
        return Z if da is Z else mul(da, mul(mul(C(2), T.inv(T.sqrt(eng.tm.PI))), T.exp(T.neg(mul(t.args[0], t.args[0])))))
    if op == "ite":
        c, a, b = t.args
        return ite(c, d(a), d(b))
    if op == "sum":
        v, lo, hi, body = t.args
        b = deriv(eng, body, name, idx, {})
        return Z if b is Z else T.mksum(v, lo, hi, b)
    if not has_leaf(eng, t, {name}): return Z
    raise Unsupported("derivative of " + op)


def custom(eng, t, name, idx):
    """autograd.Function: the derivative is what its backward method returns for a one-hot output gradient"""
    cls, ctx, inputs, shape_t = eng.cfuns[t.args[0]]
    args = t.args[1:]
    live = [k for k, x in enumerate(inputs) if isinstance(x, Tensor) and has_leaf(eng, x.st.body, {name})]
    if not live: return Z
    bw, _ = cls.lookup("backward")
    bw = getattr(bw, "f", bw)
    g = Tensor.build(shape_t.dims(), lambda i: ite(land(*[eq(a, b) for a, b in zip(TS.flat_idx(i), args)]), C(1, "R"), Z), "float32")
    grads = eng.call(bw, [ctx, g], {})
    if not isinstance(grads, tuple): grads = (grads,)
    if len(grads) != len(inputs): raise PyRaise("RuntimeError", "function returned an incorrect number of gradients")
    out = Z
    for k in live:
        gk = grads[k]
        if gk is None: continue
        x = inputs[k]
        if len(gk.groups) != len(x.groups): raise PyRaise("RuntimeError", "gradient of the wrong shape")
        axes = flat_axes(x)
        vs = [fresh("g") for _ in axes]
        if any(isinstance(a, CAxis) for a in axes): raise Unsupported("custom gradient over a masked axis")
        e = mul(gk.at_flatgroups(list(vs)), deriv(eng, x.at_flatgroups(list(vs)), name, idx))
        for v, a in zip(reversed(vs), reversed(axes)): e = T.mksum(v, ZERO, a, e)
        out = add(out, e)
    return out


def apply_function(eng, cls, args):
    """autograd.Function.apply"""
    from .interp import Obj
    c = Obj(eng.FunctionCtx)
    c.attrs["needs_input_grad"] = tuple(isinstance(a, Tensor) for a in args)
    f, _ = cls.lookup("forward")
    f = getattr(f, "f", f)
    su, _ = cls.lookup("setup_context")
    if su is not None and not getattr(su, "native_", False):
        out = eng.call(f, list(args), {})
        eng.call(getattr(su, "f", su), [c, tuple(args), out], {})
    else:
        out = eng.call(f, [c] + list(args), {})
    ts = [a for a in args if isinstance(a, Tensor)]
    if isinstance(out, Tensor) and any(has_leaf(eng, a.st.body) for a in ts):
        name = f"cfn#{next(_n)}"
        axes = flat_axes(out)
        phs = TS.fresh_phs(axes)
        body = out.at_flatgroups(list(TS.group_idx(phs, axes)))
        if body.special: raise Unsupported("autograd.Function with non-finite output")
        eng.root.defs[name] = lambda a: subst(body, dict(zip(phs, a)))
        eng.cfuns[name] = (cls, c, list(args), out)
        return Tensor.build(out.dims(), lambda i: app(name, tuple(TS.flat_idx(i)), "R"), out.dtype)
    return out


def scalar_of(eng, t, gradient=None):
    """the scalar that is differentiated: t, or the inner product of t and the given output gradient"""
    if gradient is not None: return ops(eng)["sum"](eng, ops(eng)["mul"](eng, t, detach(eng, gradient))).item_term()
    for s in t.axes:
        if not TS.is_one(s): raise PyRaise("RuntimeError", "grad can be implicitly created only for scalar outputs")
    return t.item_term()


def ops(eng):
    from . import torchmodel as TM
    return dict(sum=TM.FN["sum"], mul=lambda e, a, b: TM.binop(e, "Mult", a, b))


def autograd_grad(eng, outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, allow_unused=None, is_grads_batched=False, materialize_grads=False, only_inputs=True):
    if is_grads_batched or eng.nograd: raise Unsupported("autograd.grad: batched gradients or under no_grad")
    outs = [outputs] if isinstance(outputs, Tensor) else list(outputs)
    gos = [None] * len(outs) if grad_outputs is None else [grad_outputs] if isinstance(grad_outputs, Tensor) else list(grad_outputs)
    ins = [inputs] if isinstance(inputs, Tensor) else list(inputs)
    e = ZERO
    for o, g in zip(outs, gos): e = add(e, scalar_of(eng, o, g))
    res = []
    for x in ins:
        name = getattr(x, "leafname", None)
        if name is None or name not in eng.leaves or eng.leaves[name][0] is not x or not x.requires_grad: raise Unsupported("autograd.grad with respect to a tensor that is not a leaf")
        if not has_leaf(eng, e, {name}):
            if not allow_unused and not materialize_grads: raise PyRaise("RuntimeError", "One of the differentiated Tensors appears to not have been used in the graph")
            if not materialize_grads: res.append(None); continue
        def fn(idx, name=name):
            d = deriv(eng, e, name, TS.flat_idx(idx))
            return d if create_graph else expand(eng, d)
        r = Tensor.build(x.dims(), fn, x.dtype)
        r.requires_grad = bool(create_graph)
        res.append(r)
    return tuple(res)


def backward(eng, t, gradient=None, retain_graph=None, **k):
    if eng.nograd: raise Unsupported("backward under no_grad")
    e = scalar_of(eng, t, gradient)
    eng.backward_log.append(e)
    n = 0
    for name, (leaf, g, h) in list(eng.leaves.items()):
        if not leaf.requires_grad or not has_leaf(eng, e, {name}): continue
        n += 1
        base = cur.ctx
        conds = []
        for p, s in zip(TS.group_idx(g.phs, g.sizes), g.sizes): conds += [le(ZERO, p), lt(p, s)]
        cur.ctx = base.child(*conds)
        try: d = expand(eng, deriv(eng, e, name, g.phs))
        finally: cur.ctx = base
        old = g.body
        known = cur.ctx.decide(h.body)
        g.write(add(old, d) if known is True else d if known is False else ite(h.body, add(old, d), d))
        h.write(TRUE)
    return None


def grad_attr(eng, t):
    name = getattr(t, "leafname", None)
    if name is None or name not in eng.leaves or eng.leaves[name][0] is not t: return t.grad
    _, g, h = eng.leaves[name]
    if not eng.fork(h.body): return None
    return Tensor(g, t.axes, t.groups, None, None, t.dtype)


def set_grad_attr(eng, t, v):
    name = getattr(t, "leafname", None)
    if name is None or name not in eng.leaves: t.grad = v; return
    _, g, h = eng.leaves[name]
    if v is None: h.write(FALSE); return
    g.write(v.at_flatgroups(list(TS.group_idx(g.phs, g.sizes)))); h.write(TRUE)


def detach(eng, t):
    """values without history; shares memory unless history has to be removed"""
    if not has_leaf(eng, t.st.body): return t
    r = Tensor.build(t.dims(), lambda i: expand(eng, t.at_flatgroups(i)), t.dtype)
    r.wr = False
    return r


def requires_grad(eng, t):
    return t.requires_grad or has_leaf(eng, t.st.body)


class Jacrev:
    def __init__(self, eng, f, argnums=0, **k):
        if argnums != 0: raise Unsupported("jacrev argnums")
        self.eng, self.f, self.fw = eng, f, k
    def __call__(self, x, *rest):
        eng = self.eng
        xs = x.contiguous_copy()
        make_leaf(eng, xs)
        name = xs.leafname
        out = eng.call(self.f, [xs] + list(rest), {})
        if not isinstance(out, Tensor): raise Unsupported("jacrev of a function that does not return a tensor")
        del eng.leaves[name]
        L = len(flat_axes(out))
        sizes = out.dims() + xs.dims()
        def fn(idx):
            o, xi = idx[:L], idx[L:]
            return expand(eng, deriv(eng, out.at_flatgroups(list(o)), name, TS.flat_idx(xi)), {name})
        return Tensor.build(sizes, fn, out.dtype)


class Vmap:
    def __init__(self, eng, f, in_dims=0, out_dims=0, **k):
        self.eng, self.f, self.in_dims, self.out_dims = eng, f, in_dims, out_dims
        if out_dims != 0: raise Unsupported("vmap out_dims")
    def __call__(self, *args):
        eng = self.eng
        ind = self.in_dims if isinstance(self.in_dims, tuple) else (self.in_dims,) * len(args)
        n, v = None, []
        out_args = []
        for a, d in zip(args, ind):
            if d is None: out_args.append(a); continue
            if d != 0: raise Unsupported("vmap in_dims")
            g = a.dims()[0]
            if any(isinstance(s, CAxis) for s in g): raise Unsupported("vmap over a masked axis")
            if n is None:
                n = list(g)
                v = [fresh("b") for _ in n]
            elif len(g) != len(n) or not all(TS.same(p, q) for p, q in zip(g, n)): raise Unsupported("vmap over different factorisations")
            x = Tensor.build(a.dims()[1:], (lambda a: lambda i: a.at_flatgroups(list(v) + list(i)))(a), a.dtype)
            out_args.append(x)
        base = cur.ctx
        cur.ctx = base.child(*[c for p, s in zip(v, n) for c in (le(ZERO, p), lt(p, s))])
        eng.vmap_vars.extend(v)
        try: r = eng.call(self.f, out_args, {})
        finally:
            cur.ctx = base
            del eng.vmap_vars[len(eng.vmap_vars) - len(v):]
        def lift_out(r):
            if isinstance(r, (tuple, list)): return type(r)(lift_out(x) for x in r)
            if not isinstance(r, Tensor): raise Unsupported("vmap output")
            for s in flat_axes(r):
                if isinstance(s, Term) and (s.fv & set(v)): raise Unsupported("vmap with data dependent shapes")
            L = len(v)
            return Tensor.build([n] + r.dims(), lambda i: subst(r.at_flatgroups(list(i[L:])), dict(zip(v, i[:L]))), r.dtype)
        return lift_out(r)


from fractions import Fraction
