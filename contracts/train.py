"""Contracts on the estimation algorithms: marginal likelihood, autoencoder and joint likelihood objectives, bookkeeping of the best state."""
from pyvc.api import contract
from contracts.models import Setup, MOD, POLY, abstract_likelihood
from contracts.estimate import observed_loglik, symmetric, axes_sum, pick

ALG = "irtorch.estimation_algorithms."


def neutral(E, s, name="par"):
    """the data set handed to fit must match the model"""
    return E.data("x", s.N, s.J, s.cats if s.name in POLY else 2, None)


# ------------------------------------------------------------------ P15
@contract("P15", f32=True, tol=5e-4, wide=False, variants=[dict(model=m, D=D, missing=x, cov=c) for m, D, x, c in (
    ("TwoPL", 1, None, False), ("GPC", 1, "nan", True), ("NR", 1, "both", False), ("TwoPL", 2, "-1", True), ("GPC", 2, None, False), ("ThreePL", 1, "nan", True))])
def marginal_likelihood(E, model, D, missing, cov):
    """first recorded loss: minus the log marginal likelihood under the parameters the fit started from"""
    s = Setup(E, model, D=D)
    abstract_likelihood(E, s)
    N, J = s.N, s.J
    G = E.dim("G", 2)
    x = E.data("x", N, J, s.cats if model in POLY else 2, missing)
    S = symmetric(E, D) if cov else E.build([D, D], lambda a, b: E.ite(E.ieq(a, b), lambda: 1, lambda: 0))
    point = lambda q, d: pick(E, d, [lambda k=k: -3 + 6 * q[k] / (G - 1) for k in range(D)])
    grid = E.build([(G,) * D, D], point)
    P = s.call("item_probabilities", grid)
    prior = E.mvn(grid, E.build([D], lambda d: 0), S)
    snap = E.copy(x)
    if not E.symbolic: P = P.detach()
    alg = E.new(ALG + "mml.MML")
    kw = dict(covariance_matrix=S) if cov else {}
    E.call(alg, "fit", model=s.m, train_data=x, max_epochs=1, integration_method="quasi_mc", quadrature_points=G, device="cpu", **kw)
    loss = E.get(alg, "training_history")["train_loss"]
    E.ensure_true("one loss per epoch", len(loss) == 1)
    logw = lambda i, q: E.at(prior, q) + observed_loglik(E, s, x, P, i, q)
    E.observe("loss", loss[0])
    E.ensure("minus the log marginal likelihood", [], lambda: E.eq(loss[0], -E.sum(N, lambda i: E.log(axes_sum(E, G, D, lambda q: E.exp(logw(i, q)))))))
    E.ensure_unchanged("data unchanged", x, snap)


@contract("P15", f32=True, tol=5e-4, wide=False, variants=[dict(model=m, missing=x) for m, x in (("TwoPL", None), ("GPC", "both"), ("NR", "nan"))])
def gauss_hermite_likelihood(E, model, missing):
    """the same with the Gauss-Hermite points and weights"""
    D = 1
    s = Setup(E, model, D=D)
    abstract_likelihood(E, s)
    N = s.N
    G = E.dim("G", 2)
    x = E.data("x", N, s.J, s.cats if model in POLY else 2, missing)
    S = symmetric(E, D)
    if E.symbolic:
        from pyvc import torchmodel as TM
        from pyvc.terms import lift, exp
        def rule(eng, func, args, kw):
            p, w = TM.opaque(eng, "ghpoint", [kw["covariance"]], [[lift(G)], [lift(D)]]), TM.opaque(eng, "ghlogw", [kw["covariance"]], [[lift(G)]])
            return p, TM.f_exp(eng, w) if hasattr(TM, "f_exp") else eng.call(eng.getattr(w, "exp"), [], {})
        E.stub("irtorch.utils.gauss_hermite", rule, "some points and positive weights (gauss_hermite)", proved_by="P21/gauss_hermite (bounded)")
    pts, w = E.fn("irtorch.utils.gauss_hermite", n=G, mean=E.build([D], lambda d: 0), covariance=S)
    P = s.call("item_probabilities", pts if E.symbolic else pts.float())
    if not E.symbolic: P = P.detach()
    alg = E.new(ALG + "mml.MML")
    E.call(alg, "fit", model=s.m, train_data=x, max_epochs=1, integration_method="gauss_hermite", quadrature_points=G, device="cpu", covariance_matrix=S)
    loss = E.get(alg, "training_history")["train_loss"]
    E.observe("loss", loss[0])
    E.ensure("minus the log marginal likelihood", [], lambda: E.eq(loss[0], -E.sum(N, lambda i: E.log(E.sum(G, lambda q: E.at(w, q) * E.exp(observed_loglik(E, s, x, P, i, q)))))))


# ------------------------------------------------------------------ P17
@contract("P17", variants=[dict(model=m, missing=x) for m, x in (("TwoPL", None), ("GPC", "both"), ("NR", "nan"), ("ThreePL", "-1"), ("GRM", "nan"))])
def autoencoder_objective(E, model, missing):
    """a batch costs minus the mean over its respondents of the log-likelihood of their observed responses at the encoded scores"""
    s = Setup(E, model, D=2)
    if model == "GRM": s.order_thresholds(strict=True)
    abstract_likelihood(E, s)
    N = s.N
    x = E.data("x", N, s.J, s.cats if model in POLY else 2, missing)
    P = s.call("item_probabilities", s.theta)
    alg = E.new(ALG + "ae.AE")
    E.set(alg, "encoder", E.new("fixtures.algo.Fixed", s.theta))
    ds = E.new("irtorch.irt_dataset.PytorchIRTDataset", data=x)
    loss = E.call(alg, "_train_batch", s.m, E.get(ds, "input_data"), E.get(ds, "data"), E.get(ds, "mask"))
    E.observe("loss", loss)
    E.ensure("minus the mean log-likelihood", [], lambda: E.eq(E.at(loss), -E.sum(N, lambda i: observed_loglik(E, s, x, P, i, i)) / N))


@contract("P17", variants=[dict(model=m, missing=x, K=k, anneal=a) for m, x, k, a in (("TwoPL", None, None, False), ("GPC", "both", None, True), ("NR", "nan", 1, True), ("ThreePL", "-1", 1, False), ("GPC", "nan", None, False))])
def variational_objective(E, model, missing, K, anneal):
    """a batch costs minus the mean over its respondents of the importance weighted bound on their log marginal likelihood"""
    D = 2
    s = Setup(E, model, D=D)
    abstract_likelihood(E, s)
    N = s.N
    K = K or E.dim("K", 2)
    x = E.data("x", N, s.J, s.cats if model in POLY else 2, missing)
    mean, logvar = E.tensor("mean", N, D), E.tensor("logvar", N, D, lo=-2, hi=1)
    eps = E.noise("eps", K * N, D)
    alg = E.new(ALG + "vae.VAE")
    E.set(alg, "encoder", E.new("fixtures.algo.Fixed", mean, logvar))
    E.set(alg, "iw_samples", K)
    E.set(alg, "anneal", anneal)
    if anneal:
        t, T = E.integer("t", 0, 12), E.integer("T", 1, 10)
        E.set(alg, "total_iterations", t); E.set(alg, "annealing_iterations", T)
        a = E.ite(E.ilt(t, T), lambda: E.div(t, T), lambda: 1)
    else: a = 1
    ds = E.new("irtorch.irt_dataset.PytorchIRTDataset", data=x)
    loss = E.call(alg, "_train_batch", s.m, E.get(ds, "input_data"), E.get(ds, "data"), E.get(ds, "mask"))
    E.observe("loss", loss)
    at = lambda k, i: i if K == 1 else (k, i) if E.symbolic else int(k) * int(N) + int(i)
    z = lambda k, i, d: E.at(eps, at(k, i), d)
    th = lambda k, i, d: E.at(mean, i, d) + E.exp(E.at(logvar, i, d) / 2) * z(k, i, d)
    if K == 1: pts = E.build([N, D], lambda i, d: th(0, i, d))
    else: pts = E.build([(K, N), D], lambda q, d: th(q[0], q[1], d))
    P = s.call("item_probabilities", pts)
    if K == 1:
        kl = lambda i: E.sum(D, lambda d: E.at(mean, i, d) * E.at(mean, i, d) + E.exp(E.at(logvar, i, d)) - 1 - E.at(logvar, i, d)) / 2
        E.ensure("minus the mean evidence lower bound", [], lambda: E.eq(E.at(loss), -E.sum(N, lambda i: observed_loglik(E, s, x, P, i, i) - a * kl(i)) / N))
        return
    lq = lambda k, i: E.sum(D, lambda d: -z(k, i, d) * z(k, i, d) / 2 - E.at(logvar, i, d) / 2)
    lp = lambda k, i: E.sum(D, lambda d: -th(k, i, d) * th(k, i, d) / 2)
    logw = lambda k, i: observed_loglik(E, s, x, P, i, at(k, i)) - a * (lq(k, i) - lp(k, i))
    E.ensure("minus the mean importance weighted bound", [], lambda: E.eq(E.at(loss), -E.sum(N, lambda i: E.log(E.sum(K, lambda k: E.exp(logw(k, i))) / K)) / N))


@contract("P17", bounded="real layers of the neural network", wide=False, variants=[dict(kind=k, hidden=h, bn=b) for k, h, b in (
    ("standard", [4], False), ("standard", [5, 3], True), ("variational", [4], True), ("variational", [5, 3], True), ("variational", [3, 4, 2], False), ("bounded", [5, 3], True))])
def encoder(E, kind, hidden, bn):
    """every hidden layer is linear, normalised if asked for, then nonlinear; one output per latent variable (and its log variance)"""
    import torch
    N, I, D = E.dim("N", 2), E.dim("I"), E.dim("D")
    x = E.tensor("x", N, I)
    act = torch.nn.ELU()
    cls = {"standard": "standard_encoder.StandardEncoder", "variational": "variational_encoder.VariationalEncoder", "bounded": "bounded_encoder.BoundedEncoder"}[kind]
    enc = E.new(ALG + "encoders." + cls, int(I), int(D), list(hidden), batch_normalization=bn, nonlinear=act)
    for n, p in enumerate(enc.parameters()): p.data = p.data + E.tensor(f"p{n}", *p.shape, lo=-1, hi=1)
    out = enc(x)
    lin = [m for m in enc.modules() if isinstance(m, torch.nn.Linear)]
    nor = [m for m in enc.modules() if isinstance(m, torch.nn.BatchNorm1d)]
    E.ensure_true("a linear map per hidden layer and output", len(lin) == len(hidden) + (2 if kind == "variational" else 1))
    E.ensure_true("a normalisation per hidden layer", len(nor) == (len(hidden) if bn else 0))
    h = x
    for k in range(len(hidden)):
        h = h @ lin[k].weight.T + lin[k].bias
        if bn: h = (h - h.mean(0)) / (h.var(0, unbiased=False) + nor[k].eps).sqrt() * nor[k].weight + nor[k].bias
        h = act(h)
    outs = out if kind == "variational" else (out,)
    for n, o in enumerate(outs):
        want = h @ lin[len(hidden) + n].weight.T + lin[len(hidden) + n].bias
        if kind == "bounded": want = want.tanh()
        E.ensure(f"output {n + 1}", [N, D], lambda i, d: E.eq(E.at(o, i, d), E.at(want, i, d)))


@contract("P17", wide=False, variants=[dict(kind=k, layers=l, bn=b) for k, l, b in (
    ("standard", 1, False), ("standard", 2, False), ("standard", 1, True), ("variational", 1, False), ("variational", 2, False), ("variational", 1, True), ("bounded", 1, True), ("bounded", 2, False),
    ("standard", 2, True), ("variational", 3, False), ("bounded", 2, True))])
def encoder_layers(E, kind, layers, bn):
    """the same for layers of any size: every hidden layer is linear, normalised over the batch if asked for, then nonlinear"""
    N, I, D = E.dim("N", 2), E.dim("I"), E.dim("D")
    H = [E.dim(f"H{k}") for k in range(layers)]
    x = E.tensor("x", N, I)
    cls = {"standard": "standard_encoder.StandardEncoder", "variational": "variational_encoder.VariationalEncoder", "bounded": "bounded_encoder.BoundedEncoder"}[kind]
    enc = E.new(ALG + "encoders." + cls, I, D, H, batch_normalization=bn, nonlinear=E.new("torch.nn.Sigmoid"))
    E.havoc(enc, "enc", -1, 1)
    if E.symbolic:
        from pyvc.nnmodel import named_params
        par = [t for n, t in named_params(enc)]
    else: par = [t.detach() for t in enc.parameters()]
    per = 4 if bn else 2
    E.ensure_true("layers", len(par) == per * layers + (4 if kind == "variational" else 2))
    h, n = (lambda i, a: E.at(x, i, a)), I
    for k in range(layers):
        W, b = par[per * k:per * k + 2]
        z = lambda i, c, W=W, b=b, h=h, n=n: E.sum(n, lambda a: h(i, a) * E.at(W, c, a)) + E.at(b, c)
        if bn:
            g, o = par[per * k + 2:per * k + 4]
            m = lambda c, z=z: E.sum(N, lambda i: z(i, c)) / N
            z = lambda i, c, z=z, g=g, o=o, m=m: E.div(z(i, c) - m(c), E.sqrt(E.sum(N, lambda r: (z(r, c) - m(c)) ** 2) / N + 1e-5)) * E.at(g, c) + E.at(o, c)
        h, n = (lambda i, c, z=z: E.sigmoid(z(i, c))), H[k]
    out = E.call(enc, None, x)
    outs = out if kind == "variational" else (out,)
    for q, o in enumerate(outs):
        W, b = par[per * layers + 2 * q:per * layers + 2 * q + 2]
        want = lambda i, d, W=W, b=b: E.sum(n, lambda a: h(i, a) * E.at(W, d, a)) + E.at(b, d)
        if kind == "bounded": w0 = want; want = lambda i, d: E.tanh(w0(i, d))
        E.ensure_shape(f"shape of output {q + 1}", o, N, D)
        E.ensure(f"output {q + 1}", [N, D], lambda i, d: E.eq(E.at(o, i, d), want(i, d)))


@contract("P17", variants=[dict(D=1), dict(D=2)])
def variational_scores(E, D):
    """scores, standard errors and credible intervals are those of the encoder's normal distribution"""
    N = E.dim("N")
    mean, logvar, x = E.tensor("mean", N, D), E.tensor("logvar", N, D, lo=-2, hi=2), E.tensor("x", N, E.dim("I"))
    alpha = E.real("alpha", 0.01, 0.99)
    alg = E.new(ALG + "vae.VAE")
    E.set(alg, "encoder", E.new("fixtures.algo.Fixed", mean, logvar))
    th = E.call(alg, "theta_scores", x)
    m, se = E.call(alg, "latent_mean_se", x)
    lo, mid, hi = E.call(alg, "latent_credible_interval", x, alpha)
    sd = lambda i, d: E.exp(E.at(logvar, i, d) / 2)
    for n, v in (("scores", th), ("mean", m), ("interval centre", mid)): E.ensure(n, [N, D], lambda i, d: E.eq(E.at(v, i, d), E.at(mean, i, d)))
    E.ensure("standard error", [N, D], lambda i, d: E.eq(E.at(se, i, d), sd(i, d)))
    E.ensure("probability below the lower limit", [N, D], lambda i, d: E.eq(E.ncdf(E.div(E.at(lo, i, d) - E.at(mean, i, d), sd(i, d))), alpha / 2))
    E.ensure("probability above the upper limit", [N, D], lambda i, d: E.eq(E.ncdf(E.div(E.at(hi, i, d) - E.at(mean, i, d), sd(i, d))), 1 - alpha / 2))


@contract("P17", variants=[dict(missing=x, mc=c) for x, c in ((None, False), ("both", False), ("nan", True))])
def sum_scores(E, missing, mc):
    """sum of the observed responses, or number of correct responses for multiple choice data"""
    N, J, M = E.dim("N"), E.dim("J"), E.dim("M", 2)
    cats = E.int_list("cats", J, 2, M)
    x = E.data("x", N, J, cats, missing)
    key = E.int_list("mc", J, 0, lambda j: E.item(cats, j) - 1, top=False) if mc else None
    snap = E.copy(x)
    r = E.fn("irtorch._internal_utils.sum_score", x, key)
    E.observe("r", r)
    E.ensure_shape("one score per respondent", r, N)
    one = (lambda i, j: E.ite(E.ieq(E.at(x, i, j), E.item(key, j)), lambda: 1, lambda: 0)) if mc else (lambda i, j: E.ite(E.missing("x", E.at(x, i, j)), lambda: 0, lambda: E.at(x, i, j)))
    E.ensure("sum score of the observed responses", [N], lambda i: E.eq(E.at(r, i), E.sum(J, lambda j: one(i, j))))
    E.ensure_unchanged("data unchanged", x, snap)


def standardised(E, s, x, mc=None):
    """the standardised sum scores"""
    N = s.N
    if E.symbolic:
        from pyvc import torchmodel as TM
        from pyvc.terms import lift
        def rule(eng, func, args, kw):
            a = dict(zip(("data", "mc_correct"), args), **kw)
            key = a.get("mc_correct")
            extra = () if key is None else (TM.lam1(lambda j: lift(eng.getitem(key, j)), lift(s.J)),)
            return TM.opaque(eng, "score", [a["data"]], [a["data"].dims()[0]], extra=extra)
        E.stub("irtorch._internal_utils.sum_score", rule, "sum scores", proved_by="P17/sum_scores")
    sc = E.fn("irtorch._internal_utils.sum_score", x, mc)
    score = lambda i: E.at(sc, i)
    mean = E.sum(N, score) / N
    var = E.div(E.sum(N, lambda i: (score(i) - mean) * (score(i) - mean)), N - 1)
    E.assume(E.ilt(1, N))
    E.assume(E.lt(0 if E.symbolic else 0.01, var))
    return E.build([N, 1], lambda i, d: E.div(score(i) - mean, E.sqrt(var)))


@contract("P17", f32=True, wide=False, tol=2e-4, variants=[dict(model=m, mc=c, missing=x, D=d) for m, c, x, d in (("TwoPL", False, None, 1), ("GPC", False, "both", 1), ("NR", True, "nan", 1), ("GPC", False, "nan", 2))])
def joint_start(E, model, mc, missing, D):
    """without given scores the joint estimation starts from the standardised sum scores (with a little noise when there are several latent variables)"""
    s = Setup(E, model, D=D, mc=mc)
    N = s.N
    x = E.data("x", N, s.J, s.cats if model in POLY else 2, missing)
    z = standardised(E, s, x, s.mc if mc else None)
    eps = E.noise("eps", N, D) if D > 1 else None
    snap = E.copy(x)
    alg = E.new(ALG + "jml.JML")
    E.call(alg, "fit", model=s.m, train_data=x, max_epochs=0, device="cpu")
    th = E.get(alg, "training_theta_scores")
    E.observe("th", th)
    E.ensure_shape("one row per respondent", th, N, D)
    E.ensure("standardised sum scores", [N, D], lambda i, d: E.eq(E.at(th, i, d), E.at(z, i, 0) + (E.at(eps, i, d) / 10 if D > 1 else 0)))
    E.ensure_unchanged("data unchanged", x, snap)


@contract("P17", f32=True, tol=5e-4, wide=False, variants=[dict(model=m, missing=x, start=s) for m, x, s in (("NR", "nan", "given"), ("ThreePL", "-1", "given"), ("GPC", "nan", "given"))] + [dict(model="TwoPL", missing=None, start="sum"), dict(model="GPC", missing="both", start="sum")])
def joint_objective(E, model, missing, start):
    """first recorded loss: minus the log-likelihood of the observed responses at the starting scores, which are the given or the standardised sum scores"""
    D = 1 if start == "sum" else 2
    s = Setup(E, model, D=D)
    abstract_likelihood(E, s)
    N = s.N
    x = E.data("x", N, s.J, s.cats if model in POLY else 2, missing)
    kw = {}
    if start == "given":
        th = kw["start_thetas"] = E.tensor("start", N, D)
        snap = E.copy(th)
    else: th = standardised(E, s, x)
    P = s.call("item_probabilities", th)
    if not E.symbolic: P = P.detach()
    alg = E.new(ALG + "jml.JML")
    E.call(alg, "fit", model=s.m, train_data=x, max_epochs=1, device="cpu", **kw)
    loss = E.get(alg, "training_history")["train_loss"]
    E.observe("loss", loss[0])
    E.ensure_true("one loss per batch", len(loss) == 1)
    E.ensure("minus the log-likelihood at the starting scores", [], lambda: E.eq(loss[0], -E.sum(N, lambda i: observed_loglik(E, s, x, P, i, i))))
    E.ensure_shape("one score per respondent", E.get(alg, "training_theta_scores"), N, D)
    if start == "given": E.ensure_unchanged("given scores unchanged", th, snap)


@contract("P17", f32=True, wide=False, tol=5e-4, bounded="training run with several batches", variants=[dict(model=m, missing=x) for m, x in (("TwoPL", None), ("GPC", "nan"), ("NR", "-1"))])
def joint_objective_batches(E, model, missing):
    """without steps (learning rate zero) the losses of the batches of one epoch add up to minus the log-likelihood of all observed responses, each respondent at the own scores"""
    s = Setup(E, model, D=2)
    N = s.N
    x = E.data("x", N, s.J, s.cats if model in POLY else 2, missing)
    th = E.tensor("start", N, 2)
    P = s.call("item_probabilities", th).detach()
    alg = E.new(ALG + "jml.JML")
    b = E.integer("batch", 1, 4)
    E.call(alg, "fit", model=s.m, train_data=x, max_epochs=1, batch_size=int(b), learning_rate=0.0, start_thetas=th, device="cpu")
    loss = E.get(alg, "training_history")["train_loss"]
    E.ensure_true("one loss per batch", len(loss) == -(-int(N) // int(b)))
    E.ensure("minus the log-likelihood at the starting scores", [], lambda: E.eq(sum(loss), -E.sum(N, lambda i: observed_loglik(E, s, x, P, i, i))))


# ------------------------------------------------------------------ P18
class Recorder:
    """the parameters after every optimiser step of the real run, the learning rate it was made with and the losses of the training history at that time"""
    def __init__(self, alg):
        import torch
        self.alg, self.steps, self.rates, self.hist = alg, [], [], []
        self.old = torch.optim.Adam.step
        rec = self
        def step(opt, *a, **k):
            rec.hist.append(len(rec.alg.training_history["train_loss"]))
            rec.rates.append(opt.param_groups[0]["lr"])
            r = rec.old(opt, *a, **k)
            rec.opt = opt
            rec.steps.append([p.detach().clone() for p in opt.param_groups[0]["params"]])
            return r
        torch.optim.Adam.step = step

    def stop(self):
        import torch
        torch.optim.Adam.step = self.old


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and bool(((x - y).abs() <= 1e-6 * (1 + y.abs())).all()) for x, y in zip(a, b))


def training_data(E, s, missing):
    return E.data("x", s.N, s.J, s.cats if s.name in POLY else 2, missing)


@contract("P18", f32=True, wide=False, bounded="whole training runs (optimiser steps) of a few epochs", variants=[dict(model=m, alg=a, missing=x) for m, a, x in (
    ("TwoPL", "mml", None), ("GPC", "mml", "nan"), ("TwoPL", "jml", "nan"), ("GPC", "jml", None), ("NR", "jml", "batches"))])
def best_epoch_is_kept(E, model, alg, missing):
    """after fitting the model has the parameters of the recorded state with the lowest loss; training stops at the epoch limit or when the learning rate was lowered often enough"""
    import torch
    s = Setup(E, model, D=1)
    x = training_data(E, s, None if missing == "batches" else missing)
    a = E.new(ALG + ("mml.MML" if alg == "mml" else "jml.JML"))
    epochs, patience, stop = E.integer("epochs", 0, 14), E.integer("patience", 0, 3), E.integer("stop", 1, 4)
    lr = E.real("lr", 0.3, 3.0)
    kw = dict(model=s.m, train_data=x, max_epochs=int(epochs), learning_rate=float(lr), learning_rate_update_patience=int(patience), learning_rate_updates_before_stopping=int(stop), device="cpu")
    start = [p.detach().clone() for p in s.m.parameters()]
    if alg == "mml": kw["quadrature_points"] = 5
    else:
        kw["start_thetas"] = E.tensor("start", s.N, 1)
        if missing == "batches": kw["batch_size"] = max(1, int(s.N) // 2)
    if E.value(E.boolean("again")):      # a fit with the same algorithm object before
        a.fit(**dict(kw, max_epochs=4))
        start = [p.detach().clone() for p in s.m.parameters()]
    rec = Recorder(a)
    try: a.fit(**kw)
    finally: rec.stop()
    loss = a.training_history["train_loss"]
    E.ensure_true("a loss for every step", len(loss) == len(rec.steps))
    now = [p.detach() for p in s.m.parameters()]
    if alg == "jml": now = [a.training_theta_scores.detach()] + now
    if not rec.steps: E.ensure_true("nothing changes without training", same(now[-len(start):], start))
    elif all(l == l for l in loss): E.ensure_true("parameters of the state with the lowest loss", same(now, rec.steps[min(range(len(loss)), key=lambda k: loss[k])]))
    per = 1 if missing != "batches" else -(-int(s.N) // kw["batch_size"])
    E.ensure_true("no more than the requested epochs", len(rec.steps) <= int(epochs) * per)
    drops = sum(1 for p, q in zip(rec.rates, rec.rates[1:]) if p != q)
    E.ensure_true("stops when the learning rate was lowered often enough", drops < int(stop))
    last = rec.rates and rec.opt.param_groups[0]["lr"]
    if all(l == l for l in loss): E.ensure_true("does not stop early", len(rec.steps) == int(epochs) * per or drops + 1 == int(stop))
    E.ensure_true("model ready for use", not s.m.training)


@contract("P18", f32=True, wide=False, bounded="whole training runs (optimiser steps) of a few epochs", variants=[dict(model=m, alg=a, missing=x) for m, a, x in (
    ("TwoPL", "ae", None), ("GPC", "ae", "nan"), ("TwoPL", "vae", "-1"), ("GPC", "vae", None), ("NR", "ae", "batches"))])
def best_interval_is_kept(E, model, alg, missing):
    """after fitting, model and encoder have the parameters of the evaluation with the lowest average loss; the training scores are those of that encoder"""
    import torch, numpy as np
    s = Setup(E, model, D=1)
    x = training_data(E, s, None if missing == "batches" else missing)
    a = E.new(ALG + ("ae.AE" if alg == "ae" else "vae.VAE"))
    epochs, every, stop = E.integer("epochs", 0, 14), E.integer("every", 1, 4), E.integer("stop", 1, 4)
    lr = E.real("lr", 0.05, 1.0)
    kw = dict(model=s.m, train_data=x, max_epochs=int(epochs), learning_rate=float(lr), learning_rate_updates_before_stopping=int(stop), evaluation_interval_size=int(every), hidden_layers_encoder=[3], device="cpu")
    per = 1
    if missing == "batches":
        kw["batch_size"] = max(1, int(s.N) // 2)
        per = -(-int(s.N) // kw["batch_size"])
    losses = []
    old = a._train_batch
    def spy(*args, **k):
        r = old(*args, **k)
        losses.append(float(r))
        return r
    a._train_batch = spy
    torch.manual_seed(int(E.integer("seed", 0, 1000)))
    if E.value(E.boolean("again")):      # a fit with the same algorithm object before
        a.fit(**dict(kw, max_epochs=4))
        losses.clear()
    rec = Recorder(a)
    try: a.fit(**kw)
    finally: rec.stop()
    hist = a.training_history["train_loss"]
    if any(l != l for l in losses): return
    times = [k for k in range(1, len(rec.steps) + 1) if k % int(every) == 0 and k != 1]
    means = [np.mean(losses[max(0, k - int(every)):k]) for k in times]
    E.ensure_true("the recorded losses are averages over the last interval", len(hist) == len(means) and np.allclose(hist, means, rtol=1e-5, atol=1e-6))
    now = [p.detach() for p in list(a.encoder.parameters()) + list(s.m.parameters())]
    if times: E.ensure_true("parameters of the evaluation with the lowest loss", same(now, rec.steps[times[min(range(len(times)), key=lambda k: hist[k])] - 1]))
    elif rec.steps: E.ensure_true("last parameters when nothing was evaluated", same(now, rec.steps[-1]))
    E.ensure_true("no more than the requested epochs", len(rec.steps) <= int(epochs) * per)
    drops = sum(1 for p, q in zip(rec.rates, rec.rates[1:]) if p != q)
    E.ensure_true("stops when the learning rate was lowered often enough", drops < int(stop))
    E.ensure_true("does not stop early", len(rec.steps) == int(epochs) * per or drops + 1 == int(stop))
    E.ensure_true("ready for use", not s.m.training and not a.encoder.training)
    from irtorch.irt_dataset import PytorchIRTDataset
    ds = PytorchIRTDataset(data=x, one_hot_encoded=True, item_categories=s.m.item_categories)
    E.ensure_true("training scores of the restored encoder", same([a.training_theta_scores], [a.theta_scores(ds.input_data)]))
