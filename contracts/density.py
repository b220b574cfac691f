"""Contracts on the densities of the latent variables."""
from pyvc.api import contract

GMM = "irtorch.torch_modules.gaussian_mixture_model.GaussianMixtureModel"
QMV = "irtorch.quantile_mv_normal.QuantileMVNormal"


class Mixture:
    """a Gaussian mixture with K components (the loops over components are unrolled), any number of variables and observations"""
    def __init__(self, E, K):
        self.E, self.K = E, K
        self.N, self.F = E.dim("N", cmax=6), E.dim("F", cmax=3)
        F = self.F
        self.g = E.new(GMM, K, F)
        E.havoc(self.g, "par", lo=0.05, hi=1, special=None, only=["weights"])
        E.havoc(self.g, "par", only=["means"])
        E.havoc(self.g, "par", lo=-1, hi=1, only=["covariances"])
        w, mu, S = (E.param(self.g, n) for n in ("weights", "means", "covariances"))
        if not E.symbolic:
            import torch
            with torch.no_grad(): S.copy_(torch.matmul(S, S.mT) + torch.eye(F))
        for k in range(K): E.assume(E.lt(0, E.at(w, k)))
        self.x = E.tensor("x", self.N, F)
        w, mu, S = E.copy(w), E.copy(mu), E.copy(S)
        logp = [E.mvn(self.x, E.build([F], lambda a, k=k: E.at(mu, k, a)), E.build([F, F], lambda a, b, k=k: E.at(S, k, a, b))) for k in range(K)]
        self.part = lambda k, i: E.at(w, k) * E.exp(E.at(logp[k], i))
        self.pdf = lambda i: sum(self.part(k, i) for k in range(K))


@contract("P23", tol=1e-4, variants=[dict(K=k) for k in (1, 2, 3)])
def mixture_density(E, K):
    """pdf is the weighted sum of the normal densities; the log-likelihood is the sum of its logs over the observations"""
    s = Mixture(E, K)
    p = E.call(s.g, "pdf", s.x)
    E.observe("p", p)
    E.ensure_shape("shape", p, s.N)
    E.ensure("weighted sum of normal densities", [s.N], lambda i: E.eq(E.at(p, i), s.pdf(i)))
    l = E.value(E.call(s.g, None, s.x))
    E.observe("l", l)
    E.ensure_true("log-likelihood", E.eq(l, E.sum(s.N, lambda i: E.log(s.pdf(i)))))


@contract("P23", tol=2e-4, variants=[dict(K=k) for k in (1, 2, 3)])
def expectation_maximisation(E, K):
    """one iteration: weights, means and covariances are those of the observations weighted by their probability of each component"""
    s = Mixture(E, K)
    N, F = s.N, s.F
    x = s.x
    snap = E.copy(x)
    E.call(s.g, "fit", x, iterations=1)
    w, mu, S = (E.param(s.g, n) for n in ("weights", "means", "covariances"))
    E.observe("mu", mu)
    r = lambda k, i: E.div(s.part(k, i), s.pdf(i))
    tot = lambda k: E.sum(N, lambda i: r(k, i))
    mean = lambda k, a: E.div(E.sum(N, lambda i: r(k, i) * E.at(x, i, a)), tot(k))
    for k in range(K):
        E.ensure_true(f"weight of component {k}", E.eq(E.at(w, k), E.div(tot(k), N)))
        E.ensure(f"mean of component {k}", [F], lambda a: E.eq(E.at(mu, k, a), mean(k, a)))
        E.ensure(f"covariance of component {k}", [F, F], lambda a, b: E.eq(E.at(S, k, a, b), E.div(E.sum(N, lambda i: r(k, i) * (E.at(x, i, a) - E.at(mu, k, a)) * (E.at(x, i, b) - E.at(mu, k, b))), tot(k))))
    E.ensure_unchanged("data unchanged", x, snap)


@contract("P23")
def mixture_arguments(E):
    """impossible sizes and data of another dimension are rejected"""
    s = Mixture(E, 2)
    m = E.dim("m", cmax=5)
    E.assume(E.lnot(E.ieq(m, s.F)))
    y = E.tensor("y", s.N, m)
    E.ensure_true("other dimension", E.raises(lambda: E.call(s.g, "fit", y), "ValueError"))
    E.ensure_true("no observations", E.raises(lambda: E.call(s.g, "fit", E.build([0, s.F], lambda i, a: 0)), "ValueError"))
    E.ensure_true("no components", E.raises(lambda: E.new(GMM, 0, s.F), "ValueError"))
    E.ensure_true("no variables", E.raises(lambda: E.new(GMM, 2, 0), "ValueError"))


@contract("P23", tol=1e-4)
def fitted_normal(E):
    """the fitted multivariate normal has the mean and the covariance matrix of the data"""
    N, F = E.dim("N", 2, cmax=8), E.dim("F", cmax=3)
    if not E.symbolic: E.assume(N > F + 1)
    x = E.tensor("x", N, F)
    if not E.symbolic:
        import torch
        E.assume(float(torch.linalg.eigvalsh(torch.cov(x.T).reshape(F, F)).min()) > 1e-2)
    d = E.call(E.new(QMV), "fit_multivariate_normal", x)
    mu, S = E.get(d, "mean"), E.get(d, "covariance_matrix")
    E.observe("S", S)
    mean = lambda a: E.div(E.sum(N, lambda i: E.at(x, i, a)), N)
    E.ensure("mean", [F], lambda a: E.eq(E.at(mu, a), mean(a)))
    E.ensure("covariance", [F, F], lambda a, b: E.eq(E.at(S, a, b), E.div(E.sum(N, lambda i: (E.at(x, i, a) - mean(a)) * (E.at(x, i, b) - mean(b))), N - 1)))


@contract("P23", tol=2e-3, f32=True, wide=False, bounded="sorting and interpolation on the running code, the density integrated numerically")
def quantile_density(E):
    """fitted to data: the density of the normal scores along an interpolation bin; over the line it integrates to one"""
    import torch
    n, V = E.integer("n", 6, 12), E.integer("V", 1, 3)
    x = E.tensor("x", n, V).float()
    gaps = x.sort(dim=0).values.diff(dim=0)
    E.assume(float(gaps.min()) > 0.02)
    q = E.new(QMV)
    keep = x.clone()
    z = torch.stack([torch.distributions.Normal(0.0, 1.0).icdf((x[:, v].argsort().argsort() + 1) / (n + 1)) for v in range(V)], dim=1)
    c = torch.cov(z.T).reshape(V, V)
    E.assume(float(torch.linalg.eigvalsh(c).min()) > 1e-2)
    E.call(q, "fit", x)
    mvn = torch.distributions.MultivariateNormal(z.mean(dim=0), c)
    xs, zs = x.sort(dim=0).values, z.sort(dim=0).values
    k = E.tensor("k", V, lo=0, hi=n - 2, integer=True)
    u = E.tensor("u", 2, V, lo=0.02, hi=0.98).float()
    at = lambda t: torch.stack([t[k[v], v] + u[:, v] * (t[k[v] + 1, v] - t[k[v], v]) for v in range(V)], dim=1)
    pts = at(xs)
    snap = pts.clone()
    p = E.call(q, "pdf", pts)
    l = mvn.log_prob(at(zs))
    E.ensure_shape("shape", p, 2)
    E.ensure_true("normal density of the normal scores within a bin", E.eq(E.value(p[0].log() - p[1].log()), E.value(l[0] - l[1])))
    E.ensure_true("positive", bool((p > 0).all()))
    E.ensure_unchanged("points unchanged", pts, snap)
    E.ensure_unchanged("data unchanged", x, keep)
    if V == 1:
        g = torch.linspace(-60, 60, 60001)[:, None]
        E.ensure_true("integrates to one", abs(float(torch.trapezoid(E.call(q, "pdf", g), g[:, 0])) - 1) < 0.05)
