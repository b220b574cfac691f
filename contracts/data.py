"""Contracts on response data handling: missing data, one-hot encoding, splitting, outliers."""
from pyvc.api import contract
from contracts.models import Setup, MOD, CLS

U = "irtorch.utils."
I = "irtorch._internal_utils."


class Data:
    """any response matrix with any pattern of missing responses (NaN or -1)"""
    def __init__(self, E, missing="both"):
        self.E = E
        self.N, self.J, self.M = E.dim("N"), E.dim("J"), E.dim("M", 2)
        self.cats = E.int_list("cats", self.J, 2, self.M)
        self.x = E.data("x", self.N, self.J, self.cats, missing)
        self.snap = E.copy(self.x)

    def cat(self, j): return self.E.item(self.cats, j)
    def at(self, i, j): return self.E.at(self.snap, i, j)
    def miss(self, i, j): return self.E.missing("x", self.at(i, j))


# ------------------------------------------------------------------ P12
FN = dict(utils=U + "impute_missing", internal=I + "impute_missing_internal")


def observed_kept(E, d, out):
    E.ensure_shape("shape", out, d.N, d.J)
    E.ensure("observed responses are kept", [d.N, d.J], lambda i, j: E.implies(E.lnot(d.miss(i, j)), lambda: E.eq(E.at(out, i, j), d.at(i, j))))
    E.ensure_unchanged("the caller's data are unchanged", d.x, d.snap)


@contract("P12", variants=[dict(fn=f) for f in FN])
def impute_zero(E, fn):
    d = Data(E)
    out = E.fn(FN[fn], d.x, method="zero")
    E.observe("out", out)
    observed_kept(E, d, out)
    E.ensure("missing responses become zero", [d.N, d.J], lambda i, j: E.implies(d.miss(i, j), lambda: E.eq(E.at(out, i, j), 0)))


@contract("P12", variants=[dict(fn=f) for f in FN])
def impute_mean(E, fn):
    d = Data(E)
    out = E.fn(FN[fn], d.x, method="mean")
    E.observe("out", out)
    observed_kept(E, d, out)
    nobs = lambda j: E.sum(d.N, lambda i: E.ite(d.miss(i, j), 0, 1))
    tot = lambda j: E.sum(d.N, lambda i: E.ite(d.miss(i, j), 0, lambda: d.at(i, j)))
    E.ensure("missing responses become the mean of the item's observed responses", [d.N, d.J], lambda i, j: E.implies(E.land(d.miss(i, j), E.ilt(0, nobs(j))),
             lambda: E.eq(E.at(out, i, j) * nobs(j), tot(j))))


@contract("P12", variants=[dict(fn=f, cats="given") for f in FN] + [dict(fn=f, cats="data", _bounded="category counts come from a column maximum over extended reals: the solver diverges") for f in FN])
def impute_random_incorrect(E, fn, cats):
    d = Data(E)
    mc = E.int_list("mc", d.J, 0, lambda j: d.cat(j) - 1, top=False)
    if cats == "data":
        # every item has two different observed responses
        top = lambda j: E.max(d.N, lambda i: E.ite(d.miss(i, j), 0, lambda: d.at(i, j)))
        E.assume_all([d.J], lambda j: E.ile(1, top(j)))
        hi = lambda j: top(j)
        E.assume_all([d.J], lambda j: E.exists(d.N, lambda i: E.lnot(d.miss(i, j))))
    else: hi = lambda j: d.cat(j) - 1
    kw = dict(item_categories=d.cats) if cats == "given" else {}
    out = E.fn(FN[fn], d.x, method="random incorrect", mc_correct=mc, **kw)
    observed_kept(E, d, out)
    E.ensure("missing responses become an incorrect category of the item", [d.N, d.J], lambda i, j: E.implies(d.miss(i, j), lambda:
             E.land(E.ile(0, E.at(out, i, j)), E.ile(E.at(out, i, j), hi(j)), E.lnot(E.ieq(E.at(out, i, j), E.item(mc, j))), E.is_int(E.at(out, i, j)))))


@contract("P12")
def impute_random_incorrect_model(E):
    s = Setup(E, "NR", mc=True)
    x = E.data("x", s.N, s.J, s.cats, "both")
    snap = E.copy(x)
    miss = lambda i, j: E.missing("x", E.at(snap, i, j))
    out = E.fn(U + "impute_missing", x, method="random incorrect", model=s.m)
    E.ensure("observed responses are kept", [s.N, s.J], lambda i, j: E.implies(E.lnot(miss(i, j)), lambda: E.eq(E.at(out, i, j), E.at(snap, i, j))))
    E.ensure("missing responses become an incorrect category of the item", [s.N, s.J], lambda i, j: E.implies(miss(i, j), lambda:
             E.land(E.ile(0, E.at(out, i, j)), E.ilt(E.at(out, i, j), s.cat(j)), E.lnot(E.ieq(E.at(out, i, j), s.correct(j))), E.is_int(E.at(out, i, j)))))


@contract("P12", variants=[dict(model=m) for m in ("TwoPL", "GPC")])
def impute_prior_expected(E, model):
    s = Setup(E, model)
    x = E.data("x", s.N, s.J, s.cats if model == "GPC" else 2, "both")
    snap = E.copy(x)
    miss = lambda i, j: E.missing("x", E.at(snap, i, j))
    out = E.fn(U + "impute_missing", x, method="prior expected", model=s.m)
    e = s.call("expected_scores", E.zeros(1, s.D))
    E.observe("out", out)
    E.ensure("observed responses are kept", [s.N, s.J], lambda i, j: E.implies(E.lnot(miss(i, j)), lambda: E.eq(E.at(out, i, j), E.at(snap, i, j))))
    E.ensure("missing responses become the rounded expected score at the prior mean", [s.N, s.J], lambda i, j: E.implies(miss(i, j), lambda: E.eq(E.at(out, i, j), E.round(E.at(e, 0, j)))))
    E.ensure_unchanged("the caller's data are unchanged", x, snap)


@contract("P12")
def one_hot(E):
    d = Data(E)
    out = E.fn(I + "one_hot_encode_test_data", d.x, d.cats)
    E.observe("out", out)
    off = lambda j: E.sum(j, lambda q: d.cat(q))
    E.ensure_shape("one column per item category", out, d.N, off(d.J))
    E.ensure("one-hot code of the response, all zero for a missing one", [d.N, d.J, lambda i, j: d.cat(j)], lambda i, j, k:
             E.eq(E.at(out, i, E.ragged(d.J, d.cat, d.M, j, k)), E.ite(d.miss(i, j), 0, lambda: E.ite(E.ieq(d.at(i, j), k), 1, 0))))
    E.ensure_unchanged("the caller's data are unchanged", d.x, d.snap)


@contract("P12")
def missing_mask(E):
    d = Data(E)
    out = E.fn(I + "get_missing_mask", d.x)
    E.observe("out", out)
    E.ensure("mask marks exactly the missing responses", [d.N, d.J], lambda i, j: E.beq(E.at(out, i, j), d.miss(i, j)))
    E.ensure_unchanged("the caller's data are unchanged", d.x, d.snap)


@contract("P12", variants=[dict(imputation=m, onehot=o) for m in (None, "zero", "mean") for o in (False, True) if not (m == "mean" and o)])
def dataset(E, imputation, onehot):
    d = Data(E)
    kw = dict(item_categories=d.cats) if onehot else {}
    ds = E.new("irtorch.irt_dataset.PytorchIRTDataset", d.x, one_hot_encoded=onehot, imputation_method=imputation, **kw)
    r = E.integer("row", 0, d.N)
    E.ensure_true("one entry per respondent", E.ieq(E.call(ds, "__len__"), d.N))
    data, mask, inp, ix = E.call(ds, "__getitem__", r)
    E.ensure("the row's responses", [d.J], lambda j: E.eq(E.at(data, j), d.at(r, j)))
    E.ensure("mask of the row's missing responses", [d.J], lambda j: E.beq(E.at(mask, j), d.miss(r, j)))
    E.ensure_true("row index", E.ieq(ix, r))
    full = d.x if imputation is None else E.fn(FN["internal"], E.copy(d.snap), method=imputation)
    if onehot: full = E.fn(I + "one_hot_encode_test_data", E.copy(full), d.cats)
    if onehot: E.ensure("network input of the row", [d.J, d.cat], lambda j, k: (lambda p: E.eq(E.at(inp, p), E.at(full, r, p)))(E.ragged(d.J, d.cat, d.M, j, k)))
    else: E.ensure("network input of the row", [d.J], lambda k: E.eq(E.at(inp, k), E.at(full, r, k)))
    E.ensure_unchanged("the caller's data are unchanged", d.x, d.snap)


# ------------------------------------------------------------------ P21
@contract("P21", bounded="column maximum over extended reals: the solver diverges on the nested extremum facts")
def item_categories(E):
    d = Data(E)
    E.assume_all([d.J], lambda j: E.exists(d.N, lambda i: E.lnot(d.miss(i, j))))
    out = E.fn(U + "get_item_categories", d.x)
    E.ensure("every observed response is a category", [d.J, d.N], lambda j, i: E.implies(E.lnot(d.miss(i, j)), lambda: E.ilt(d.at(i, j), E.item(out, j))))
    E.ensure("the highest category was observed", [d.J], lambda j: E.exists(d.N, lambda i: E.lnot(E.implies(E.lnot(d.miss(i, j)), lambda: E.lnot(E.ieq(d.at(i, j) + 1, E.item(out, j)))))))
    E.ensure_unchanged("the caller's data are unchanged", d.x, d.snap)


@contract("P21", variants=[dict(shuffle=s) for s in (True, False)])
def split(E, shuffle):
    N, J = E.dim("N", 1, 12), E.dim("J")
    x = E.tensor("x", N, J)
    snap = E.copy(x)
    r = E.real("ratio", 0, 1)
    p = E.permutation("p", N)
    train, test = E.fn(U + "split_data", x, train_ratio=r, shuffle=shuffle)
    n1 = E.shape(train)[0]
    E.ensure_true("sizes add up", E.land(E.ieq(n1 + E.shape(test)[0], N), E.ile(n1, N * r), E.ilt(N * r - 1, n1)))
    q = (lambda i: E.at(p, i)) if shuffle else (lambda i: i)
    E.ensure("training rows", [n1, J], lambda i, j: E.eq(E.at(train, i, j), E.at(x, q(i), j)))
    E.ensure("test rows", [N - n1, J], lambda i, j: E.eq(E.at(test, i, j), E.at(x, q(n1 + i), j)))
    E.ensure_unchanged("the caller's data are unchanged", x, snap)


@contract("P21", bounded="the number of folds is a Python-level partition by torch.chunk of a symbolic row count")
def folds(E):
    N, J = E.dim("N", 1, 14), E.dim("J")
    k = E.dim("folds", 2, 6)
    x = E.tensor("x", N, J)
    out = E.fn(U + "_prepare_cross_validation_data", x, k)
    def go():
        import torch
        rows = sorted(map(tuple, torch.cat(list(out)).tolist()))
        E.ensure_true("every respondent is in exactly one fold", rows == sorted(map(tuple, x.tolist())))
        E.ensure_true("number of folds", len(out) <= k and all(len(f) > 0 for f in out))
    E.only_concrete(go)


@contract("P21", bounded="iterates over Python dictionaries of parameter lists")
def param_grid(E):
    def go():
        grid = {f"p{k}": [round(E.u(f"v{k}", q), 3) for q in range(1 + int(E.u(f"n{k}") * 3))] for k in range(1 + int(E.u("n") * 3))}
        kw = {"max_epochs": 3} if E.u("kw") < 0.5 else {}
        E.inputs["grid"] = grid
        out = E.fn(U + "_create_param_grid", grid, kw)
        import itertools
        want = [dict(zip(grid, c), **kw) for c in itertools.product(*grid.values())]
        E.ensure_true("every combination once, with the fixed arguments", sorted(map(str, [sorted(o.items()) for o in out])) == sorted(map(str, [sorted(o.items()) for o in want])))
    E.only_concrete(go)


@contract("P21", bounded="quadrature nodes come from numpy's hermgauss (numerical constants)", variants=[dict(dim=d) for d in (1, 2, 3)])
def gauss_hermite(E, dim):
    def go():
        import torch
        n = E.dim("n", 3, 6)
        mean = E.tensor("mean", dim)
        A = E.tensor("A", dim, dim)
        cov = A @ A.T + 0.3 * torch.eye(dim)
        x, w = E.fn(U + "gauss_hermite", n, mean, cov)
        E.ensure_shape("points", x, n ** dim, dim)
        E.ensure_shape("weights", w, n ** dim)
        E.ensure_true("weights sum to one", E.eq(w.sum().item(), 1.0))
        m = (w[:, None] * x).sum(0)
        c = ((x - mean).T * w) @ (x - mean)
        E.ensure("mean", [dim], lambda a: E.eq(m[a].item(), mean[a].item()))
        E.ensure("covariance", [dim, dim], lambda a, b: E.eq(c[a, b].item(), cov[a, b].item()))
        f = (w * ((x - mean)[:, 0] ** 4)).sum().item()
        E.ensure_true("fourth moment of the first coordinate", E.eq(f, 3 * cov[0, 0].item() ** 2))
        E.ensure_true("positive weights", bool((w > 0).all()))
    E.only_concrete(go)


# ------------------------------------------------------------------ sampling and cross-validation
@contract("P21", variants=[dict(given=g, mc=m) for g in (True, False) for m in (True, False)])
def random_guessing(E, given, mc):
    """guessing data: the correct response with the guessing probability, every other response equally often; without a key polytomous items score 0"""
    n, J, M = E.dim("n"), E.dim("J"), E.dim("M", 2)
    cats = E.int_list("cats", J, 2, M)
    cat = lambda j: E.item(cats, j)
    u = E.uniform("u")
    kw = {}
    if mc:
        key = E.int_list("key", J, 0, lambda j: cat(j) - 1, top=False)
        kw["mc_correct"] = key
    if given:
        g = E.real_list("g", J, 0, 0.99)
        kw["guessing_probabilities"] = g
        p = lambda j: E.item(g, j)
    else:
        p = lambda j: E.div(1, cat(j)) if mc else 0
    X = E.fn(I + "random_guessing_data", cats, n, **kw)
    E.observe("X", X)
    E.ensure_shape("shape", X, n, J)
    if not mc:
        E.ensure("dichotomous items are answered correctly with the guessing probability", [n, J], lambda i, j: E.implies(E.ieq(cat(j), 2), lambda: E.ieq(E.at(X, i, j), E.ite(E.le(1 - p(j), u), 1, 0))))
        E.ensure("no guessing on polytomous items", [n, J], lambda i, j: E.implies(E.ilt(2, cat(j)), lambda: E.ieq(E.at(X, i, j), 0)))
    else:
        # k wrong categories at or below l, plus the key if it is at or below l
        cdf = lambda j, l: E.ite(E.ile(E.item(key, j), l), lambda: p(j) + l * E.div(1 - p(j), cat(j) - 1), lambda: (l + 1) * E.div(1 - p(j), cat(j) - 1))
        total = lambda j: p(j) + (cat(j) - 1) * E.div(1 - p(j), cat(j) - 1)     # one
        E.ensure("multiple choice items: the key with the guessing probability, the distractors equally often", [n, J],
                 lambda i, j: E.ieq(E.at(X, i, j), E.sum(cat(j) - 1, lambda l: E.ite(E.le(cdf(j, l), u * total(j)), 1, 0))))


@contract("P21", variants=[dict(k=k, algorithm=a) for k in (2, 3) for a in (True, False)])
def cross_validation_score(E, k, algorithm):
    """the score of a parameter combination is the mean, over the folds, of the held-out log-likelihood of a model fitted from scratch on exactly the other folds"""
    J = E.dim("J")
    sizes = [E.dim(f"N{q}") for q in range(k)]
    x = [E.tensor(f"x{q}", n, J) for q, n in enumerate(sizes)]
    snaps = [E.copy(t) for t in x]
    rate, extra = E.real("rate"), E.real("extra")
    m = E.new("fixtures.cv.Model")
    params = dict(rate=rate, extra=extra)
    if algorithm: params["algorithm"] = E.new("fixtures.cv.Algorithm")
    out = E.fn(U + "_cv_param_combination", m, x, params, "ML", "cpu")
    tot = [E.sum(sizes[q], lambda i, q=q: E.sum(J, lambda j: E.at(x[q], i, j))) for q in range(k)]
    whole = sum(tot[1:], tot[0])
    start = 3 if algorithm else 0
    E.ensure_true("the score", E.eq(k * out["log_likelihood"], sum([((start + rate * (whole - t)) * t + t) for t in tot[1:]], (start + rate * (whole - tot[0])) * tot[0] + tot[0])))
    E.ensure_true("the combination is reported with its score", E.land(E.eq(out["rate"], rate), E.eq(out["extra"], extra)))
    E.ensure_true("the caller's model is not fitted", E.eq(E.get(m, "state"), 0))
    if algorithm: E.ensure_true("the caller's algorithm is not used", E.eq(E.get(params["algorithm"], "fits"), 0))
    for q in range(k): E.ensure_unchanged(f"the data of fold {q} are unchanged", x[q], snaps[q])


# ------------------------------------------------------------------ P25
OD = "irtorch.outlier_detector.OutlierDetector"


class Out:
    def __init__(self, E):
        self.E = E
        self.N, self.J = E.dim("N", 1, 9), E.dim("J")
        self.x = E.tensor("x", self.N, self.J, lo=-3, hi=3)
        E.spread(self.x)
        self.f = E.real("factor", 1, 3)
        self.d = E.new(OD, factor=self.f)
    def q(self, j, p): return self.E.quantile(self.N, lambda i: self.E.at(self.x, i, j), p)
    def lo(self, j): return self.q(j, 0.25) - self.f * (self.q(j, 0.75) - self.q(j, 0.25))
    def hi(self, j): return self.q(j, 0.75) + self.f * (self.q(j, 0.75) - self.q(j, 0.25))


SIDES = [dict(upper=True, lower=True), dict(upper=True, lower=False), dict(upper=False, lower=True)]


@contract("P25", variants=SIDES)
def identify_outliers(E, upper, lower):
    s = Out(E)
    out = E.call(s.d, "identify_outliers", s.x, upper=upper, lower=lower)
    E.ensure_shape("one flag per value", out, s.N, s.J)
    E.ensure("outside the interquartile fence", [s.N, s.J], lambda i, j: E.beq(E.at(out, i, j),
             E.lor(E.land(upper, E.ilt(s.hi(j), E.at(s.x, i, j))), E.land(lower, E.ilt(E.at(s.x, i, j), s.lo(j))))))
    same = E.call(s.d, "is_outlier", s.x, s.x, upper=upper, lower=lower)
    E.ensure("new observations are judged by the same rule", [s.N, s.J], lambda i, j: E.beq(E.at(out, i, j), E.at(same, i, j)))


@contract("P25", variants=SIDES)
def is_outlier(E, upper, lower):
    s = Out(E)
    K = E.dim("K")
    y = E.tensor("y", K, s.J, lo=-6, hi=6)
    out = E.call(s.d, "is_outlier", y, s.x, upper=upper, lower=lower)
    E.ensure_shape("one flag per value", out, K, s.J)
    E.ensure("outside the fence of the reference data", [K, s.J], lambda i, j: E.beq(E.at(out, i, j),
             E.lor(E.land(upper, E.ilt(s.hi(j), E.at(y, i, j))), E.land(lower, E.ilt(E.at(y, i, j), s.lo(j))))))


@contract("P25", variants=[dict(smallest=b) for b in (True, False)])
def extreme_non_outlier(E, smallest):
    s = Out(E)
    out = E.call(s.d, "smallest_largest_non_outlier", s.x, smallest=smallest)
    E.ensure_shape("one value per column", out, 1, s.J)
    inside = lambda i, j: E.land(E.ile(s.lo(j), E.at(s.x, i, j)), E.ile(E.at(s.x, i, j), s.hi(j)))
    bound = (lambda i, j: E.ile(E.at(out, 0, j), E.at(s.x, i, j))) if smallest else (lambda i, j: E.ile(E.at(s.x, i, j), E.at(out, 0, j)))
    E.ensure("bounds every non-outlier", [s.N, s.J], lambda i, j: E.implies(inside(i, j), lambda: bound(i, j)))
    E.ensure("is attained by a non-outlier", [s.J], lambda j: E.implies(E.exists(s.N, lambda i: inside(i, j)), lambda: E.exists(s.N, lambda i: E.land(inside(i, j), E.ieq(E.at(out, 0, j), E.at(s.x, i, j))))))


@contract("P25")
def factor_bound(E):
    f = E.real("f", -1, 0.99)
    E.ensure_true("a factor below one is rejected", E.raises(lambda: E.new(OD, factor=f), "ValueError"))
    N, J = E.dim("N"), E.dim("J")
    x = E.tensor("x", N, J)
    d = E.new(OD)
    E.ensure_true("one side must be requested", E.raises(lambda: E.call(d, "identify_outliers", x, upper=False, lower=False), "ValueError"))
    E.ensure_true("one side must be requested for new observations", E.raises(lambda: E.call(d, "is_outlier", x, x, upper=False, lower=False), "ValueError"))
