"""Contracts on rank based transformations of latent scores."""
from pyvc.api import contract

LVF = "irtorch.latent_variable_functions."
RUN = "sorting, ties and nearest neighbours on the running code"


@contract("P22", tol=1e-4)
def quantile_normal_scores(E):
    """normal scores: the normal quantile of rank / (n + 1)"""
    N, V = E.dim("N", cmax=6), E.dim("V", cmax=3)
    x = E.tensor("x", N, V)
    E.assume_all([N, N, V], lambda i, j, v: E.lor(E.ieq(i, j), E.lnot(E.ieq(E.at(x, i, v), E.at(x, j, v)))))
    y = E.fn("irtorch.latent_variable_functions.quantile_transform", x)
    E.observe("y", y)
    below = lambda i, v: E.sum(N, lambda j: E.ite(E.ilt(E.at(x, j, v), E.at(x, i, v)), lambda: 1, lambda: 0))
    E.ensure("normal quantile of rank / (n + 1)", [N, V], lambda i, v: E.eq(E.at(y, i, v), E.nicdf(E.div(1 + below(i, v), N + 1))))


@contract("P22", tol=1e-3, bounded=RUN, variants=[dict(where=w) for w in ("points", "between", "outside")])
def interpolation(E, where):
    """piecewise linear through the points in any order, continued with the end slopes"""
    import torch
    n, q = E.integer("n", 3, 9), E.dim("q", cmax=5)
    gap = E.tensor("gap", n, lo=0.2, hi=2)
    xs, ys = gap.cumsum(0) - 4, E.tensor("ys", n)
    perm = torch.randperm(n, generator=torch.Generator().manual_seed(int(E.integer("perm", 0, 1000))))
    k, u = E.tensor("k", q, lo=0, hi=n - 1, integer=True), E.tensor("u", q, lo=0.01, hi=0.99)
    x0, x1, y0, y1 = xs[k], xs[k + 1], ys[k], ys[k + 1]
    if where == "points": new, spec = xs[k + 1], ys[k + 1]
    elif where == "between": new, spec = x0 + u * (x1 - x0), y0 + u * (y1 - y0)
    else:
        left = (k % 2 == 0)
        new = torch.where(left, xs[0] - 3 * u, xs[-1] + 3 * u)
        slope = torch.where(left, (ys[1] - ys[0]) / (xs[1] - xs[0]), (ys[-1] - ys[-2]) / (xs[-1] - xs[-2]))
        spec = torch.where(left, ys[0] - 3 * u * slope, ys[-1] + 3 * u * slope)
    snap = E.copy(new)
    y = E.fn(LVF + "interp", new, xs[perm], ys[perm])
    E.ensure_shape("shape", y, q)
    E.ensure("linear interpolation", [q], lambda i: E.eq(E.at(y, i), E.at(spec, i)))
    E.ensure_unchanged("points unchanged", new, snap)


@contract("P22", f32=True, tol=1e-4, bounded=RUN, variants=[dict(kind=k) for k in ("default", "one", "each")])
def rank_scale(E, kind):
    """the quantile of rank / (n + 1), tied training scores sharing their average rank; other scores take the rank of the nearest training score"""
    import torch
    n, V, q = E.integer("n", 2, 8), E.integer("V", 1, 3), E.dim("q", cmax=5)
    tr = E.tensor("tr", n, V, lo=-2, hi=3, integer=True).float() * 0.5
    dists = [torch.distributions.Normal(float(E.real(f"m{v}", -1, 1)), float(E.real(f"s{v}", 0.5, 2))) for v in range(V)]
    use = dict(default=None, one=dists[:1], each=dists)[kind]
    sc = E.new("irtorch.rescale.rank_cdf.RankCDF", tr, use)
    x = E.tensor("x", q, V, lo=-2, hi=2)
    x[0] = tr[0]
    # a score half-way between two training scores may take either rank
    for i in range(q):
        for v in range(V):
            d = sorted({abs(float(x[i, v]) - float(t)) for t in tr[:, v]})
            E.assume(len(d) < 2 or d[1] - d[0] > 1e-3)
    snap = E.copy(x)
    y = E.call(sc, "transform", x)
    E.ensure_shape("shape", y, q, V)
    def spec(i, v):
        col = tr[:, v].tolist()
        near = min(col, key=lambda t: abs(t - float(x[i, v])))
        below, ties = sum(t < near for t in col), sum(t == near for t in col)
        p = (below + (ties + 1) / 2) / (n + 1)
        d = torch.distributions.Normal(0.0, 1.0) if use is None else use[0] if len(use) == 1 else use[v]
        return float(d.icdf(torch.tensor(p)))
    E.ensure("quantile of the average rank", [q, V], lambda i, v: E.eq(E.at(y, i, v), spec(int(i), int(v))))
    E.ensure_unchanged("theta unchanged", x, snap)
