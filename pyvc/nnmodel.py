"""Model of torch.nn modules, parameters, distributions, data loading."""
import math
from .terms import *
from . import terms as T
from . import norm as NM
from . import tensor as TS
from .tensor import Tensor, Storage, PyRaise, CAxis, cur, py, elementwise as ew, as_tensor, group_size
from .interp import *
from .interp import _ABSENT
from .pylib import NullCtx, TypeName, NativeModule, deepcopy
from . import torchmodel as TM
from . import autodiff as AD


def children(o):
    for k, v in o.attrs.items():
        if isinstance(v, Obj) and is_module(v): yield k, v


def is_module(o): return isinstance(o, Obj) and any(c.name == "Module" and c.module is None for c in o.cls.mro)


def named_params(o, prefix="", seen=None):
    seen = set() if seen is None else seen
    for k, v in o.attrs.items():
        if isinstance(v, Tensor) and v.is_param and id(v) not in seen:
            seen.add(id(v))
            yield prefix + k, v
    for k, v in children(o): yield from named_params(v, prefix + k + ".", seen)


def named_buffers(o, prefix=""):
    for k in o.attrs.get("_buffers_", {}):
        v = o.attrs.get(k)
        if isinstance(v, Tensor): yield prefix + k, v
    for k, v in children(o): yield from named_buffers(v, prefix + k + ".")


def modules_of(o):
    yield o
    for _, v in children(o): yield from modules_of(v)


def install(eng, M, torch_ns):
    E = eng
    NN = {}
    Module = PyClass("Module", [], {})
    def m_init(self, *a, **k):
        E.rawset(self, "training", True)
        E.rawset(self, "_buffers_", {})
    def call(self, *a, **k): return E.call(E.getattr(self, "forward"), list(a), k)
    def parameters(self, recurse=True): return [p for _, p in named_params(self)]
    def register_buffer(self, name, t, persistent=True):
        b = dict(self.attrs.get("_buffers_", {}))
        b[name] = persistent
        E.rawset(self, "_buffers_", b)
        E.rawset(self, name, t)
    def register_parameter(self, name, t): E.rawset(self, name, t)
    def add_module(self, name, m): 
        if isinstance(name, SymStr): raise Unsupported("module with a symbolic name")
        E.rawset(self, name, m)
    def train(self, mode=True):
        for m in modules_of(self): E.rawset(m, "training", mode)
        return self
    def ev(self): return train(self, False)
    def state_dict(self, *a, **k):
        # references to the live tensors, as in torch
        d = {n: p for n, p in named_params(self)}
        d.update({n: b for n, b in named_buffers(self)})
        return d
    def load_state_dict(self, sd, strict=True):
        mine = state_dict(self)
        for n, t in mine.items():
            if n not in sd:
                if strict: raise PyRaise("RuntimeError", "missing key " + n)
                continue
            TS.assign(t, sd[n])
        for n in sd:
            if n not in mine and strict: raise PyRaise("RuntimeError", "unexpected key " + n)
    def apply(self, f):
        for m in modules_of(self): E.call(f, [m], {})
        return self
    def requires_grad_(self, v=True):
        for p in parameters(self): p.requires_grad = v
        return self
    Module.ns.update(__init__=m_init, __call__=call, parameters=parameters, named_parameters=lambda self, **k: list(named_params(self)),
        register_buffer=register_buffer, register_parameter=register_parameter, add_module=add_module, train=train, eval=ev,
        to=lambda self, *a, **k: self, cuda=lambda self, *a: self, cpu=lambda self: self, float=lambda self: self, double=lambda self: self, state_dict=state_dict, load_state_dict=load_state_dict,
        apply=apply, zero_grad=lambda self, *a, **k: None if E.trainer is None else unsupported("gradients of some of the parameters set to zero"), modules=lambda self: list(modules_of(self)), children=lambda self: [v for _, v in children(self)],
        named_modules=lambda self: [("", self)] + list(children(self)), requires_grad_=requires_grad_, buffers=lambda self: [b for _, b in named_buffers(self)],
        named_buffers=lambda self: list(named_buffers(self)), named_children=lambda self: list(children(self)))
    NN["Module"] = Module

    def parameter(data=None, requires_grad=True):
        t = data if isinstance(data, Tensor) else TM.tn(E, data)
        if t.wr is not None or t.is_param: t = t.contiguous_copy()
        r = Tensor(t.st, t.axes, t.groups, t.rd, t.wr, t.dtype)
        r.is_param, r.requires_grad = True, requires_grad
        return r
    NN["Parameter"] = TypeName("Parameter", lambda x: isinstance(x, Tensor) and x.is_param, parameter)

    def unspec_param(*sizes):
        t = TM.unspecified(E, TM.mkdims(sizes), "float32", "init")
        t.is_param = t.requires_grad = True
        return t

    def simple(name, init, forward):
        c = PyClass(name, [Module], {})
        def __init__(self, *a, **k):
            m_init(self)
            init(self, *a, **k)
        c.ns.update(__init__=__init__, forward=forward)
        NN[name] = c
        return c

    def lin_init(self, in_features, out_features, bias=True, device=None, dtype=None):
        E.rawset(self, "in_features", in_features)
        E.rawset(self, "out_features", out_features)
        E.rawset(self, "weight", unspec_param(out_features, in_features))
        E.rawset(self, "bias", unspec_param(out_features) if bias else None)
    Linear = simple("Linear", lin_init, lambda self, x: TM.f_linear(E, x, self.attrs["weight"], self.attrs["bias"]))
    Linear.ns["reset_parameters"] = lambda self: None

    simple("ELU", lambda self, alpha=1.0, inplace=False: E.rawset(self, "alpha", alpha), lambda self, x: TM.f_elu(E, x, self.attrs["alpha"]))
    simple("ReLU", lambda self, inplace=False: None, lambda self, x: TM.f_relu(E, x))
    simple("Sigmoid", lambda self: None, lambda self, x: TM.FN["sigmoid"](E, x))
    simple("Tanh", lambda self: None, lambda self, x: TM.f_tanh(E, x))
    simple("Softplus", lambda self, beta=1, threshold=20: E.rawset(self, "beta", beta), lambda self, x: TM.f_softplus(E, x, self.attrs["beta"]))
    simple("Softmax", lambda self, dim=None: E.rawset(self, "dim", dim), lambda self, x: TM.f_softmax(E, x, self.attrs["dim"]))
    simple("Identity", lambda self, *a, **k: None, lambda self, x: x)
    simple("Dropout", lambda self, p=0.5: E.rawset(self, "p", p), lambda self, x: x if not self.attrs["training"] else unsupported("dropout in training mode"))
    def bn_init(self, n, eps=1e-5, **k):
        E.rawset(self, "num_features", n); E.rawset(self, "eps", eps)
        E.rawset(self, "weight", unspec_param(n)); E.rawset(self, "bias", unspec_param(n))
        register_buffer(self, "running_mean", TM.unspecified(E, TM.mkdims([n]), "float32", "rm"))
        register_buffer(self, "running_var", TM.unspecified(E, TM.mkdims([n]), "float32", "rv"))
    def bn_fwd(self, x):
        a = self.attrs
        if a["training"]:
            n = lift(x.size(0))
            if x.ndim != 2 or not cur.ctx.prove(T.le(T.C(2), n)): raise Unsupported("batch norm of a batch that may be a single row")
            m, v = TM.f_mean(E, x, 0), TM.f_var(E, x, 0, unbiased=False)
            for name, new, f in (("running_mean", m, ONE), ("running_var", v, T.div(n, sub(n, ONE)))):
                TS.assign(a[name], ew(lambda o, w: add(mul(T.div(C(9), C(10)), o), mul(T.div(ONE, C(10)), mul(f, w))), a[name].contiguous_copy(), new))
            return ew(lambda y, u, s, w, b: add(mul(w, T.div(sub(y, u), T.sqrt(add(s, lift(a["eps"]))))), b), x, m, v, a["weight"], a["bias"])
        return ew(lambda v, m, s, w, b: add(mul(w, T.div(sub(v, m), T.sqrt(add(s, lift(a["eps"]))))), b), x, a["running_mean"], a["running_var"], a["weight"], a["bias"])
    simple("BatchNorm1d", bn_init, bn_fwd)
    def kl_init(self, reduction="mean", log_target=False, **k):
        E.rawset(self, "reduction", reduction); E.rawset(self, "log_target", log_target)
    def kl_fwd(self, inp, target):
        lt_ = self.attrs["log_target"]
        red = self.attrs["reduction"]
        def f(x, y):
            if lt_: return mul(exp(y), sub(y, x))
            return ite(eq(y, ZERO), C(0, "R"), mul(y, sub(T.log(y), x)))
        r = ew(f, inp, target)
        if red == "none": return r
        if red == "sum": return TS.tsum(r)
        if red == "batchmean": return TS.tsum(r).map(lambda e: T.div(e, inp.size(0)))
        return TM.f_mean(E, r)
    simple("KLDivLoss", kl_init, kl_fwd)
    def mse(self, a, b): return TM.f_mse_loss(E, a, b, self.attrs["reduction"])
    simple("MSELoss", lambda self, reduction="mean": E.rawset(self, "reduction", reduction), mse)

    Seq = PyClass("Sequential", [Module], {})
    def seq_init(self, *ms):
        m_init(self)
        for i, m in enumerate(ms): E.rawset(self, str(i), m)
        E.rawset(self, "_items_", list(ms))
    def seq_fwd(self, x):
        for m in self.attrs["_items_"]: x = E.call(m, [x], {})
        return x
    def seq_add(self, name, m):
        old = self.attrs.get(name)
        items = self.attrs["_items_"]
        add_module(self, name, m)
        E.rawset(self, "_items_", [m if x is old else x for x in items] if old is not None else items + [m])
    Seq.ns.update(__init__=seq_init, add_module=seq_add, forward=seq_fwd, __getitem__=lambda self, i: E.getitem(self.attrs["_items_"], i), __len__=lambda self: len(self.attrs["_items_"]))
    NN["Sequential"] = Seq
    ML = PyClass("ModuleList", [Module], {})
    def ml_init(self, ms=()):
        m_init(self)
        l = E.as_list(ms)
        for i, m in enumerate(l): E.rawset(self, str(i), m)
        E.rawset(self, "_items_", list(l))
    def ml_append(self, m):
        l = self.attrs["_items_"]
        E.rawset(self, str(len(l)), m)
        E.rawset(self, "_items_", l + [m])
    ML.ns.update(__init__=ml_init, append=ml_append, __getitem__=lambda self, i: E.getitem(self.attrs["_items_"], i), __len__=lambda self: len(self.attrs["_items_"]))
    NN["ModuleList"] = ML

    M["torch.nn"] = NativeModule("torch.nn", NN)
    NN["functional"] = M["torch.nn.functional"]
    INIT = {}
    for n in ("normal_", "uniform_", "xavier_uniform_", "xavier_normal_", "kaiming_uniform_", "kaiming_normal_"):
        INIT[n] = lambda t, *a, **k: TM.havoc_("init")(E, t)
    INIT["zeros_"] = lambda t: TM.f_fill_(E, t, 0)
    INIT["ones_"] = lambda t: TM.f_fill_(E, t, 1)
    INIT["constant_"] = lambda t, v: TM.f_fill_(E, t, v)
    M["torch.nn.init"] = NativeModule("torch.nn.init", INIT)
    NN["init"] = M["torch.nn.init"]
    NN["utils"] = NativeModule("torch.nn.utils")
    torch_ns["nn"] = M["torch.nn"]

    # autograd.Function
    Function = PyClass("Function", [], {})
    CtxCls = PyClass("FunctionCtx", [], {"save_for_backward": lambda self, *ts: E.rawset(self, "saved_tensors", tuple(ts)),
                                          "mark_non_differentiable": lambda self, *a: None, "set_materialize_grads": lambda self, *a: None})
    def fn_apply(cls, *args): return AD.apply_function(E, cls, list(args))
    Function.ns["apply"] = ClassM(fn_apply)
    E.FunctionCtx = CtxCls
    M["torch.autograd"] = NativeModule("torch.autograd", {"Function": Function, "grad": lambda *a, **k: AD.autograd_grad(E, *a, **k)})
    M["torch.func"] = NativeModule("torch.func", {"jacrev": lambda f, *a, **k: AD.Jacrev(E, f, *a, **k), "jacfwd": lambda f, *a, **k: AD.Jacrev(E, f, *a, **k), "vmap": torch_ns["vmap"]})

    # data
    Dataset = PyClass("Dataset", [], {"__init__": lambda self, *a, **k: None})
    M["torch.utils"] = NativeModule("torch.utils")
    M["torch.utils.data"] = NativeModule("torch.utils.data", {"Dataset": Dataset, "DataLoader": data_loader(E)})

    # distributions
    D = {}
    Dist = PyClass("Distribution", [], {})
    D["Distribution"] = Dist
    Normal = PyClass("Normal", [Dist], {})
    def n_init(self, loc, scale, **k):
        loc, scale = TM.tn(E, loc), TM.tn(E, scale)
        E.rawset(self, "loc", loc); E.rawset(self, "scale", scale); E.rawset(self, "mean", loc); E.rawset(self, "stddev", scale)
    def n_logprob(self, x):
        return ew(lambda v, m, s: sub(neg(T.div(mul(sub(v, m), sub(v, m)), mul(C(2), mul(s, s)))), add(T.log(s), mul(C(Fraction(1, 2)), T.log(mul(C(2), TM.PI))))),
                  TM.tn(E, x), self.attrs["loc"], self.attrs["scale"])
    def cdf01(z): return app("ncdf", (z,))
    def n_cdf(self, x):
        install_ncdf(E)
        return ew(lambda v, m, s: cdf_t(T.div(sub(v, m), s)), TM.tn(E, x), self.attrs["loc"], self.attrs["scale"])
    def n_icdf(self, p):
        install_ncdf(E)
        return ew(lambda v, m, s: add(m, mul(s, app("nicdf", (v,)))), TM.tn(E, p), self.attrs["loc"], self.attrs["scale"])
    def n_sample(self, shape=()):
        dims, _ = TS.broadcast([self.attrs["loc"], self.attrs["scale"]])
        full = TM.mkdims(TM.size_args(E, [shape])) + dims
        return ew(lambda m, s, z: add(m, mul(s, z)), self.attrs["loc"], self.attrs["scale"], TM.draw_normal(E, full))
    Normal.ns.update(__init__=n_init, log_prob=n_logprob, cdf=n_cdf, icdf=n_icdf, sample=n_sample, rsample=n_sample)
    D["Normal"] = Normal
    MVN = PyClass("MultivariateNormal", [Dist], {})
    def mv_init(self, loc=None, covariance_matrix=None, precision_matrix=None, scale_tril=None, validate_args=None):
        E.rawset(self, "loc", loc); E.rawset(self, "mean", loc)
        if covariance_matrix is None: raise Unsupported("MultivariateNormal without covariance")
        E.rawset(self, "covariance_matrix", covariance_matrix)
    def mv_logprob(self, x):
        S, mu = self.attrs["covariance_matrix"], self.attrs["loc"]
        return mvn_logprob(E, x, mu, S)
    def mv_sample(self, shape=()):
        return TM.unspecified(E, TM.mkdims(TM.size_args(E, [shape])) + self.attrs["loc"].dims(), "float32", "mvnsample")
    MVN.ns.update(__init__=mv_init, log_prob=mv_logprob, sample=mv_sample, rsample=mv_sample)
    D["MultivariateNormal"] = MVN
    Cat = PyClass("Categorical", [Dist], {})
    def cat_init(self, probs=None, logits=None, **k):
        if probs is None: probs = TM.f_softmax(E, logits, -1)
        E.rawset(self, "probs", ew(T.div, probs, TS.tsum(probs, -1, True)))
    def cat_sample(self, shape=()):
        if E.as_list(shape): raise Unsupported("Categorical.sample of a shape")
        p = self.attrs["probs"]
        return TM.f_squeeze(E, TM.f_multinomial(E, p, 1), -1)
    def cat_logprob(self, x):
        return TM.f_squeeze(E, TM.f_gather(E, self.attrs["probs"], -1, TM.f_unsqueeze(E, x, -1)), -1).map(T.log)
    Cat.ns.update(__init__=cat_init, sample=cat_sample, log_prob=cat_logprob)
    D["Categorical"] = Cat
    M["torch.distributions"].ns.update(D)
    M["torch.distributions.multivariate_normal"].ns.update(D)
    Opt = NativeModule("torch.optim")
    M["torch.optim"] = Opt
    torch_ns["optim"] = Opt
    install_optim(E, M, Opt)
    torch_ns["linalg"] = M["torch.linalg"]
    torch_ns["cuda"] = M["torch.cuda"]
    torch_ns["autograd"] = M["torch.autograd"]
    torch_ns["func"] = M["torch.func"]
    torch_ns["utils"] = M["torch.utils"]
    M["torch.utils"].ns["data"] = M["torch.utils.data"]


def install_optim(E, M, Opt):
    """optimisers and schedulers by a weak contract: a step gives every registered parameter some new values; a scheduler may or may not lower the learning rate"""
    Base = PyClass("Optimizer", [], {})
    def o_init(self, params, lr=0.001, **k):
        ps = list(params)
        groups = ps if ps and isinstance(ps[0], dict) else [{"params": ps}]
        E.rawset(self, "param_groups", [dict(g, lr=g.get("lr", lr)) for g in groups])
        E.rawset(self, "state", {})
        E.rawset(self, "nsteps", 0)
    def step(self, closure=None):
        if closure is not None: E.call(closure, [], {})
        if E.trainer is not None: return E.trainer.step(self)
        E.rawset(self, "nsteps", self.attrs["nsteps"] + 1)
        for g in self.attrs["param_groups"]:
            for p in g["params"]: TS.assign(p, TM.unspecified(E, p.dims(), p.dtype, "stepped"))
    def o_state(self): return {"nsteps": self.attrs["nsteps"], "lr": [g["lr"] for g in self.attrs["param_groups"]]}
    def o_load(self, d):
        E.rawset(self, "nsteps", d["nsteps"])
        for g, l in zip(self.attrs["param_groups"], d["lr"]): g["lr"] = l
    Base.ns.update(__init__=o_init, step=step, zero_grad=lambda self, *a, **k: None if E.trainer is None else E.trainer.zero_grad(), state_dict=o_state, load_state_dict=o_load)
    for n in ("Adam", "AdamW", "SGD", "NAdam", "RAdam", "Adamax", "RMSprop"): Opt.ns[n] = PyClass(n, [Base], {})
    Opt.ns["Optimizer"] = Base
    S = NativeModule("torch.optim.lr_scheduler")
    M["torch.optim.lr_scheduler"] = S
    Opt.ns["lr_scheduler"] = S
    def s_init(self, optimizer, *a, **k): E.rawset(self, "optimizer", optimizer)
    def s_step(self, *a):
        if E.trainer is not None: return E.trainer.schedule(self.attrs["optimizer"], *a)
        c = app(f"lower!{next(TM._rand)}", TM.enclosing_vars(), "B")
        for g in self.attrs["optimizer"].attrs["param_groups"]:
            if E.fork(c): g["lr"] = g["lr"] * 0.5
    for n in ("ReduceLROnPlateau", "StepLR", "ExponentialLR", "CosineAnnealingLR"): S.ns[n] = PyClass(n, [], dict(__init__=s_init, step=s_step, get_last_lr=lambda self: [g["lr"] for g in self.attrs["optimizer"].attrs["param_groups"]]))


def data_loader(E):
    """one batch with every respondent, in the stored order or in an arbitrary one"""
    DL = PyClass("DataLoader", [], {})
    def init(self, dataset, batch_size=1, shuffle=False, **k):
        n = E.call(E.builtins["len"], [dataset], {})
        b = T.lift(batch_size)
        if not (E.trainer is not None and E.trainer.batches is not None) and not (TS.same(b, T.lift(n)) or cur.ctx.prove(T.le(T.lift(n), b))): raise Unsupported("several mini-batches")
        E.rawset(self, "dataset", dataset); E.rawset(self, "batch_size", batch_size); E.rawset(self, "shuffle", shuffle); E.rawset(self, "n", n)
    def batches(self):
        n = self.attrs["n"]
        if E.trainer is not None and E.trainer.batches is not None: return E.trainer.loader(self.attrs["dataset"])
        idx = TM.f_randperm(E, n) if self.attrs["shuffle"] else TM.f_arange(E, n)
        return [E.call(E.getattr(self.attrs["dataset"], "__getitem__"), [idx], {})]
    DL.ns.update(__init__=init, __len__=lambda self: 1 if E.trainer is None or E.trainer.batches is None else E.trainer.batches, __iter__=batches)
    return DL


def mvn_logprob(E, x, mu, S):
    """log density of N(mu, S): an uninterpreted function of (x, mu, S), x row by row"""
    xd = x.dims()
    D = xd[-1]
    L = sum(len(g) for g in xd[:-1])
    n = TS.simp_int(group_size(D))
    if isc(n) and T.cval(n) <= 4:
        n = int(T.cval(n))
        pick = lambda t, ks: t.at_flatgroups([C(k) for k, g in zip(ks, t.dims()) for _ in g])
        ml = tuple(pick(mu, (k,)) for k in range(n))
        sl = tuple(pick(S, (a, b)) for a in range(n) for b in range(n))
        row = lambda idx: tuple(x.at_flatgroups(list(idx[:L]) + [C(k)] * len(D)) for k in range(n))
        fn = lambda idx: app("mvn_logpdf", row(idx) + ml + sl + (C(n),))
    else:
        ml, sl = (TM.lam_of(mu),), (TM.lam_of(S),)
        def fn(idx):
            r = TM.lam1(lambda j: x.at_flatgroups(list(idx[:L]) + [j]), n)
            return app("mvn_logpdf", (r,) + ml + sl + (n,))
    return Tensor.build(xd[:-1], fn, "float32")


def unsupported(m): raise Unsupported(m)


def cdf_t(z):
    return app("ncdf", (z,))


def install_ncdf(E):
    f = E.root.app_facts
    if "ncdf" in f: return
    f["ncdf"] = lambda a: [lt(ZERO, app("ncdf", a)), lt(app("ncdf", a), ONE), eq(app("nicdf", (app("ncdf", a),)), a[0])]
    def inverse(a, ctx):
        z = a.args[1]
        if z.op == "app" and z.args[0] == "nicdf" and ctx.decide(land(lt(ZERO, z.args[1]), lt(z.args[1], ONE))) is True: return z.args[1]
        return None
    if "app_rules" not in E.root.__dict__: E.root.app_rules = {}
    E.root.app_rules["ncdf"] = inverse
    f["nicdf"] = lambda a: [lor(le(a[0], ZERO), le(ONE, a[0]), eq(app("ncdf", (app("nicdf", a),)), a[0]))]


from fractions import Fraction
