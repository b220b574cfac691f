"""Contracts on latent score estimation, marginal likelihood, fitting and the objective functions."""
import itertools
from pyvc.api import contract
from contracts.models import Setup, MOD, CLS, POLY, DICH, abstract_likelihood

BASE = MOD + "base_irt_model.BaseIRTModel"


def observed_loglik(E, s, x, P, i, q, mcode=False):
    """log probability of respondent i's observed responses under the item probabilities at point q"""
    def one(j):
        v = E.at(x, i, j)
        return E.ite(E.missing("x", v), lambda: 0, lambda: E.log(E.at(P, q, j, E.as_int(v))))
    return E.sum(s.J, one)


def symmetric(E, D, name="S"):
    """a positive definite D x D matrix (D = 1 or 2)"""
    if D == 1:
        v = E.real(name + "v", 0.3, 3.0)
        return E.build([1, 1], lambda a, b: v)
    v, w, r = E.real(name + "v", 0.3, 3.0), E.real(name + "w", 0.3, 3.0), E.real(name + "r", -0.25, 0.25)
    E.assume(E.lt(r * r, v * w))
    return E.build([2, 2], lambda a, b: E.ite(E.ieq(a, b), lambda: E.ite(E.ieq(a, 0), lambda: v, lambda: w), lambda: r))


def axes_sum(E, G, D, f):
    """sum over the points of the cartesian grid (f gets the position on every axis)"""
    return E.sum(G, lambda a: f((a,))) if D == 1 else E.sum(G, lambda a: E.sum(G, lambda b: f((a, b))))


def pick(E, d, values):
    return values[0]() if len(values) == 1 else E.ite(E.ieq(d, 0), values[0], values[1])


# ------------------------------------------------------------------ P16
@contract("P16", f32=True, wide=False, tol=2e-4, variants=[dict(model=m, algo=a, D=D, missing=x) for m, a, D, x in (
    ("TwoPL", "none", 1, None), ("GPC", "none", 1, "nan"), ("GPC", "marginal", 1, "both"), ("NR", "scores", 1, "nan"), ("TwoPL", "marginal", 2, "nan"), ("GPC", "scores", 2, None), ("ThreePL", "none", 1, "-1"), ("NR", "marginal", 1, "nan"))])
def eap(E, model, algo, D, missing):
    s = Setup(E, model, D=D)
    if model == "GRM": s.order_thresholds(strict=True)
    abstract_likelihood(E, s)
    N, J = s.N, s.J
    G = E.dim("G", 2)
    x = E.data("x", N, J, s.cats if model in POLY else 2, missing)
    lo, hi = (lambda d: -3), (lambda d: 3)
    if algo == "marginal":
        S = symmetric(E, D)
        E.set(s.m, "algorithm", E.new("fixtures.algo.Marginal", S))
    elif algo == "scores":
        T = E.dim("T", 4 if D == 2 else 2)
        tr = E.tensor("tr", T, D)
        E.set(s.m, "algorithm", E.new("fixtures.algo.Scores", tr))
        mean = lambda d: E.sum(T, lambda t: E.at(tr, t, d)) / T
        S = E.build([D, D], lambda a, b: E.sum(T, lambda t: (E.at(tr, t, a) - mean(a)) * (E.at(tr, t, b) - mean(b))) / (T - 1))
        mn = lambda d: E.min(T, lambda t: E.at(tr, t, d))
        mx = lambda d: E.max(T, lambda t: E.at(tr, t, d))
        lo, hi = (lambda d: mn(d) - (mx(d) - mn(d)) / 4), (lambda d: mx(d) + (mx(d) - mn(d)) / 4)
    else: S = E.build([D, D], lambda a, b: E.ite(E.ieq(a, b), lambda: 1, lambda: 0))
    point = lambda q, d: pick(E, d, [lambda k=k: lo(k) + (hi(k) - lo(k)) * q[k] / (G - 1) for k in range(D)])
    grid = E.build([(G,) * D, D], point)
    P = s.call("item_probabilities", grid)
    prior = E.mvn(grid, E.build([D], lambda d: 0), S)
    est = s.call("latent_scores", x, theta_estimation="EAP", eap_theta_integration_points=G, device="cpu")
    E.observe("est", est)
    E.ensure_shape("shape", est, N, D)
    logw = lambda i, q: E.at(prior, q) + observed_loglik(E, s, x, P, i, q)
    # on concrete numbers the weights are scaled so that they do not underflow
    top = {} if E.symbolic else {i: max(float(logw(i, q)) for q in itertools.product(range(int(G)), repeat=D)) for i in range(int(N))}
    w = lambda i, q: E.exp(logw(i, q) - (0 if E.symbolic else top[int(i)]))
    E.ensure("posterior mean over the grid", [N, D], lambda i, d: E.eq(E.at(est, i, d), E.div(axes_sum(E, G, D, lambda q: point(q, d) * w(i, q)), axes_sum(E, G, D, lambda q: w(i, q)))))


@contract("P16", f32=True, wide=False, tol=2e-3, bounded="tests of hundreds of items on the running code (range of floating point numbers)", variants=[dict(model="TwoPL"), dict(model="GPC")])
def eap_long_test(E, model):
    """posterior means do not depend on how unlikely the other respondents' answers are, even when no probability is representable"""
    import torch
    J, N = 800, 3
    kw = dict(latent_variables=1, items=J) if model == "TwoPL" else dict(latent_variables=1, item_categories=[3] * J)
    m = E.new(MOD + CLS[model], **kw)
    E.havoc(m, "par", lo=0.2, hi=1.5, special=None)
    E.havoc(m, "bias", lo=-3.5, hi=3.5, special=None, only=["bias_param"])
    u = E.tensor("u", N, J, lo=0, hi=1)
    up = E.tensor("up", N, lo=0, hi=1)
    top = 1 if model == "TwoPL" else 2
    # one likely respondent, one who answers at random, one who answers against the model
    x = torch.where(u < up.unsqueeze(1), torch.tensor(float(top)), torch.tensor(0.0)).float()
    x[0] = top
    x[1] = torch.where(m.bias_param.detach().view(J, -1)[:, 0] > 0, 0.0, float(top)).roll(int(E.integer("shift", 0, 2)))
    G = 41
    grid = torch.linspace(-3, 3, G).unsqueeze(1)
    with torch.no_grad():
        P = m.item_probabilities(grid).double().clamp_min(1e-300)
        lw = torch.log(P[:, torch.arange(J).unsqueeze(0), x.long()]).sum(dim=2) - 0.5 * grid.double() ** 2
        w = (lw - lw.max(dim=0).values).exp()
        spec = (w * grid.double()).sum(dim=0) / w.sum(dim=0)
        est = m.latent_scores(x, theta_estimation="EAP", eap_theta_integration_points=G, device="cpu")
    E.ensure("posterior mean over the grid", [N], lambda i: E.eq(E.at(est, i, 0), spec[int(i)].item()))


@contract("P16", f32=True, variants=[dict(D=1), dict(D=2)])
def grid_of_training_scores(E, D):
    s = Setup(E, "TwoPL", D=D)
    T, G = E.dim("T"), E.dim("G", 2)
    tr = E.tensor("tr", T, D)
    grid = s.call("_theta_grid", tr, G)
    E.observe("grid", grid)
    E.ensure_shape("one row per grid point", grid, G ** D, D)
    mn = lambda d: E.min(T, lambda t: E.at(tr, t, d))
    mx = lambda d: E.max(T, lambda t: E.at(tr, t, d))
    lo, hi = (lambda d: mn(d) - (mx(d) - mn(d)) / 4), (lambda d: mx(d) + (mx(d) - mn(d)) / 4)
    pt = lambda k, d: lo(d) + (hi(d) - lo(d)) * k / (G - 1)
    if D == 1: E.ensure("equally spaced over the extended range", [G], lambda q: E.eq(E.at(grid, q, 0), pt(q, 0)))
    else: E.ensure("cartesian product of equally spaced points", [G, G, D], lambda a, b, d: E.eq(E.at(grid, (a, b), d), pick(E, d, [lambda: pt(a, 0), lambda: pt(b, 1)])))


@contract("P16", f32=True, tol=2e-4, variants=[dict(model=m, D=D, missing=x) for m, D, x in (("TwoPL", 1, None), ("GPC", 1, "nan"), ("NR", 2, "both"), ("ThreePL", 1, "-1"))])
def starting_values(E, model, D, missing):
    s = Setup(E, model, D=D)
    abstract_likelihood(E, s)
    N, J, T = s.N, s.J, E.dim("T", 1)
    E.assume(E.le(N * T, 1000000))
    x = E.data("x", N, J, s.cats if model in POLY else 2, missing)
    tr = E.tensor("tr", T, D)
    E.set(s.m, "algorithm", E.new("fixtures.algo.Scores", tr))
    P = s.call("item_probabilities", tr)
    snap = E.copy(tr)
    est = s.call("_initial_theta_from_training_data", x, "cpu")
    E.observe("est", est)
    E.ensure_shape("one row per respondent", est, N, D)
    Q = s.call("item_probabilities", est)
    E.ensure("at least as likely as every training score", [N, T], lambda i, t: E.le(observed_loglik(E, s, x, P, i, t), observed_loglik(E, s, x, Q, i, i)))
    if not E.symbolic: E.ensure("a training score", [N], lambda i: E.exists(T, lambda t: E.forall(D, lambda d: E.eq(E.at(est, i, d), E.at(tr, t, d)))))
    E.ensure_unchanged("training scores unchanged", tr, snap)


def optimizer_stub(E, s, D):
    """the optimiser by its (weak) contract: it returns some scores, the same for the same data"""
    if not E.symbolic: return
    from pyvc.terms import app
    from pyvc import tensor as TS
    E.stub(BASE + "._ml_map_theta_scores", lambda eng, func, args, kw: TS.Tensor.build([args[1].dims()[0], s.theta.dims()[1]], lambda i: app("mlest", tuple(i)), "float32"),
           "numerical optimisation (LBFGS): returns some scores for the same data", proved_by="P16/maximum_likelihood (bounded)")
    E.stub(BASE + "._initial_theta_from_training_data", lambda eng, func, args, kw: TS.Tensor.build([args[1].dims()[0], s.theta.dims()[1]], lambda i: app("start", tuple(i)), "float32"),
           "starting values", proved_by="P16/starting_values")


@contract("P16", f32=True, tol=5e-3, wide=False, variants=[dict(kinds=k, algo=a) for k in ("", "rotate", "reverse", "warp", "rotate+reverse") for a in (("scores", "marginal") if k in ("", "warp") else ("marginal",))])
def scores_on_the_published_scale(E, kinds, algo):
    from contracts.scales import ScaleSetup
    s = ScaleSetup(E, "TwoPL")
    m, N, D = s.m, s.N, s.D
    for n, k in enumerate(k for k in kinds.split("+") if k): E.call(m, "add_scale_transformation", s.make(k, str(n))[0])
    if algo == "scores":
        tr = E.tensor("tr", E.dim("T", 3), D)
        E.set(m, "algorithm", E.new("fixtures.algo.Scores", tr))
    else: E.set(m, "algorithm", E.new("fixtures.algo.Marginal", None))
    optimizer_stub(E, s, D)
    x = E.data("x", N, s.s.J, 2, "nan")
    raw = E.call(m, "latent_scores", x, theta_estimation="ML", device="cpu", rescale=False)
    est = E.call(m, "latent_scores", x, theta_estimation="ML", device="cpu")
    pub, se = E.call(m, "latent_scores", x, theta_estimation="ML", device="cpu", standard_errors=True)
    raw2, se2 = E.call(m, "latent_scores", x, theta_estimation="ML", device="cpu", standard_errors=True, rescale=False)
    E.observe("est", est)
    y = E.call(m, "transform_theta", raw)
    E.ensure("scores are transformed to the published scale", [N, D], lambda i, d: E.eq(E.at(est, i, d), E.at(y, i, d)))
    E.ensure("same scores with standard errors", [N, D], lambda i, d: E.eq(E.at(pub, i, d), E.at(y, i, d)))
    E.ensure("raw scores with standard errors", [N, D], lambda i, d: E.eq(E.at(raw2, i, d), E.at(raw, i, d)))
    for nm, v, flag in (("published", se, True), ("raw", se2, False)):
        info = E.call(m, "information", raw, item=False, degrees=None, rescale=flag)
        E.ensure(f"standard errors from the test information, {nm} scale", [N, D], lambda i, d: E.implies(E.lt(0 if E.symbolic else 1e-2, E.at(info, i, d, d)), lambda: E.land(E.le(0, E.at(v, i, d)), E.eq(E.at(v, i, d) * E.at(v, i, d) * E.at(info, i, d, d), 1))))


@contract("P16", f32=True, wide=False, bounded="the returned scores come from an iterative optimiser (LBFGS), whose convergence is not a first-order property of the code", variants=[dict(model=m, method=e, missing=x) for m, e, x in (
    ("TwoPL", "ML", None), ("TwoPL", "MAP", "nan"), ("GPC", "ML", "nan"), ("GPC", "MAP", "-1"), ("OnePL", "ML", "both"), ("NR", "MAP", None))])
def maximum_likelihood(E, model, method, missing):
    """the returned scores maximise the (penalised) log-likelihood of the observed responses, and nothing else changes"""
    s = Setup(E, model, D=1)
    N, J = s.N, s.J
    x = E.data("x", N, J, s.cats if model in POLY else 2, missing)
    S = symmetric(E, 1)
    if method == "MAP": E.set(s.m, "algorithm", E.new("fixtures.algo.Marginal", S))
    else: E.set(s.m, "algorithm", E.new("fixtures.algo.Marginal", None))
    snap = E.copy(x)
    before = [p.clone() for p in s.m.parameters()]
    est = s.call("latent_scores", x, theta_estimation=method, device="cpu")
    E.ensure_shape("shape", est, N, 1)
    pts = [-4 + 0.25 * k for k in range(33)]
    grid = E.build([len(pts), 1], lambda q, d: pts[q])
    P = s.call("item_probabilities", grid)
    R = s.call("item_probabilities", est)
    pen = lambda t: -t * t / (2 * E.at(S, 0, 0)) if method == "MAP" else 0
    E.ensure("no grid point is clearly better", [N], lambda i: max(float(observed_loglik(E, s, x, P, i, q)) + pen(pts[q]) for q in range(len(pts))) <= float(observed_loglik(E, s, x, R, i, i)) + pen(E.at(est, i, 0)) + 0.05)
    E.ensure("parameters unchanged", [], lambda: all(bool((a == b).all()) for a, b in zip(before, s.m.parameters())))
    E.ensure_unchanged("responses unchanged", x, snap)
