"""Contracts on model evaluation: residuals, fit statistics, score distributions."""
from pyvc.api import contract
from contracts.models import Setup, MOD, CLS, POLY, DICH, abstract_likelihood

EV = "irtorch.evaluator.Evaluator"


class Evaluation:
    """a fitted model, responses to it and latent scores of the respondents"""
    def __init__(self, E, model, missing, mc=False, D=None, abstract=True, levels="none", lo=None):
        self.E = E
        s = self.s = Setup(E, model, mc=mc, D=D)
        if model == "GRM": s.order_thresholds(strict=True)
        if abstract: abstract_likelihood(E, s)
        self.N, self.J, self.M = s.N, s.J, s.M
        self.x = E.data("x", s.N, s.J, s.cats if model in POLY else 2, missing)
        self.ev = E.new(EV, s.m)
        self.P = s.call("item_probabilities", s.theta)
        self.missing = missing

    def gone(self, i, j): return self.E.missing("x", self.E.at(self.x, i, j))
    def obs(self, i, j): return self.E.as_int(self.E.at(self.x, i, j))
    def p(self, i, j, k): return self.E.at(self.P, i, j, k)

    def expected(self, i, j):
        s, E = self.s, self.E
        if hasattr(s, "mc"): return self.p(i, j, s.correct(j))
        return E.sum(self.M, lambda k: k * self.p(i, j, k))

    def average(self, f, over):
        """mean of f(i, j) over the responses that are not missing (NaN when all are): over items, respondents or both"""
        E = self.E
        tot = dict(items=lambda g: lambda i: E.sum(self.J, lambda j: g(i, j)), respondents=lambda g: lambda j: E.sum(self.N, lambda i: g(i, j)),
                   everything=lambda g: lambda: E.sum(self.N, lambda i: E.sum(self.J, lambda j: g(i, j))))[over]
        total = tot(lambda i, j: E.ite(self.gone(i, j), lambda: 0, lambda: f(i, j)))
        count = tot(lambda i, j: E.ite(self.gone(i, j), lambda: 0, lambda: 1))
        return lambda *i: E.ite(E.ieq(count(*i), 0), lambda: E.nan, lambda: E.div(total(*i), count(*i)))

    def somebody_answers(self, over):
        """precondition of an average: at least one response is not missing"""
        E = self.E
        if self.missing is None: return
        if over == "items": E.assume_all([self.N], lambda i: E.exists(self.J, lambda j: E.lnot(self.gone(i, j))))
        elif over == "respondents": E.assume_all([self.J], lambda j: E.exists(self.N, lambda i: E.lnot(self.gone(i, j))))
        else: E.assume(E.exists(self.N, lambda i: E.exists(self.J, lambda j: E.lnot(self.gone(i, j)))))

    def ensure_average(self, out, over, f):
        E = self.E
        g = self.average(f, over)
        dims = dict(items=[self.N], respondents=[self.J], everything=[])[over]
        E.ensure_shape("shape", out, *dims)
        E.ensure("mean over the observed responses", dims, lambda *i: E.eq(E.at(out, *i), g(*i)))


RES = [dict(model=m, mc=c, missing=x, over=o) for m, c, x, o in (
    ("GPC", False, "both", "none"), ("NR", True, "nan", "none"), ("NR", True, "both", "none"), ("TwoPL", False, None, "none"), ("ThreePL", False, "nan", "none"), ("GRM", False, "nan", "none"),
    ("GPC", False, "both", "items"), ("NR", True, "nan", "respondents"), ("TwoPL", False, "-1", "everything"), ("NR", True, "both", "items"))]


@contract("P19", variants=RES)
def residuals(E, model, mc, missing, over):
    v = Evaluation(E, model, missing, mc)
    snap = E.copy(v.x)
    out = E.call(v.ev, "residuals", data=v.x, theta=v.s.theta, average_over=over)
    E.observe("out", out)
    one = lambda i, j: (1 - v.p(i, j, v.obs(i, j))) if mc else E.at(v.x, i, j) - v.expected(i, j)
    if over == "none":
        E.ensure_shape("shape", out, v.N, v.J)
        E.ensure("residual of each observed response, NaN for a missing one", [v.N, v.J], lambda i, j: E.eq(E.at(out, i, j), E.ite(v.gone(i, j), lambda: E.nan, lambda: one(i, j))))
        E.ensure_unchanged("the caller's data are untouched", v.x, snap)
    else: v.ensure_average(out, over, one)


@contract("P19", variants=[dict(model=m, missing=x, over=o) for m, x, o in (("GPC", "both", "everything"), ("NR", "nan", "items"), ("TwoPL", "-1", "respondents"), ("GRM", "nan", "respondents"))])
def accuracy(E, model, missing, over):
    v = Evaluation(E, model, missing)
    out = E.call(v.ev, "accuracy", data=v.x, theta=v.s.theta, level=dict(everything="all", respondents="item", items="respondent")[over])
    E.observe("out", out)
    # the most probable category (the first of several equally probable ones) is the observed one
    hit = lambda i, j: E.ite(E.ieq(E.argmax(v.M, lambda k: v.p(i, j, k)), v.obs(i, j)), lambda: 1, lambda: 0)
    v.ensure_average(out, over, hit)


@contract("P19", variants=[dict(model=m, mc=c, missing=x, level=o) for m, c, x, o in (
    ("GPC", False, "both", "item"), ("GPC", False, "nan", "respondent"), ("NR", True, "nan", "item"), ("NR", True, "-1", "respondent"), ("TwoPL", False, None, "item"), ("GRM", False, "nan", "item"))])
def infit_outfit(E, model, mc, missing, level):
    v = Evaluation(E, model, missing, mc)
    over = "respondents" if level == "item" else "items"
    v.somebody_answers(over)
    infit, outfit = E.value(E.call(v.ev, "infit_outfit", data=v.x, theta=v.s.theta, level=level))
    E.observe("infit", infit)
    E.observe("outfit", outfit)
    if mc:
        score = lambda i, j: E.ite(E.ieq(v.obs(i, j), v.s.correct(j)), lambda: 1, lambda: 0)
        variance = lambda i, j: v.expected(i, j) * (1 - v.expected(i, j))
    else:
        score = lambda i, j: E.at(v.x, i, j)
        variance = lambda i, j: E.sum(v.M, lambda k: (k - v.expected(i, j)) ** 2 * v.p(i, j, k))
    # floating point only: away from saturated probabilities, where the variance rounds to zero
    if not E.symbolic: E.assume_all([v.N, v.J], lambda i, j: E.ilt(1e-4, variance(i, j)))
    sq = lambda i, j: (score(i, j) - v.expected(i, j)) ** 2
    keep = lambda i, j, f: E.ite(v.gone(i, j), lambda: 0, lambda: f(i, j))
    if level == "item":
        dims, tot = [v.J], lambda f: lambda j: E.sum(v.N, lambda i: keep(i, j, f))
    else:
        dims, tot = [v.N], lambda f: lambda i: E.sum(v.J, lambda j: keep(i, j, f))
    E.ensure("infit is the squared residuals over the variances", dims, lambda i: E.eq(E.at(infit, i), E.div(tot(sq)(i), tot(variance)(i))))
    v.ensure_average(outfit, over, lambda i, j: E.ite(E.ieq(sq(i, j), 0), lambda: 0, lambda: E.div(sq(i, j), variance(i, j))))


@contract("P19", variants=[dict(model=m, missing=x, reduction=r, level=l) for m, x, r, l in (
    ("GPC", "both", "sum", "all"), ("NR", "nan", "sum", "item"), ("TwoPL", "-1", "mean", "respondent"), ("GPC", "nan", "mean", "all"), ("ThreePL", "nan", "none", "all"), ("GPC", "nan", "sum", "respondent"), ("GRM", "nan", "mean", "item"))])
def log_likelihood(E, model, missing, reduction, level):
    v = Evaluation(E, model, missing)
    over = dict(all="everything", item="respondents", respondent="items")[level]
    out = E.call(v.ev, "log_likelihood", data=v.x, theta=v.s.theta, reduction=reduction, level=level)
    E.observe("out", out)
    # a probability that rounds to zero counts as exp(-30)
    one = lambda i, j: E.ite(E.ieq(v.p(i, j, v.obs(i, j)), 0), lambda: -30.0, lambda: E.log(v.p(i, j, v.obs(i, j))))
    keep = lambda i, j: E.ite(v.gone(i, j), lambda: 0, lambda: one(i, j))
    if reduction == "none":
        E.ensure("log probability of each response", [v.N, v.J], lambda i, j: E.eq(E.at(out, i, j), E.ite(v.gone(i, j), lambda: E.nan, lambda: one(i, j))))
    elif reduction == "mean": v.ensure_average(out, over, one)
    elif level == "all": E.ensure("sum over the observed responses", [], lambda: E.eq(E.at(out), E.sum(v.N, lambda i: E.sum(v.J, lambda j: keep(i, j)))))
    elif level == "item": E.ensure("sum over the observed responses", [v.J], lambda j: E.eq(E.at(out, j), E.sum(v.N, lambda i: keep(i, j))))
    else: E.ensure("sum over the observed responses", [v.N], lambda i: E.eq(E.at(out, i), E.sum(v.J, lambda j: keep(i, j))))


def ordered(E, v, key):
    """respondents in increasing order of their (transformed) score"""
    return E.argsort(v.N, key)


@contract("P19", variants=[dict(model=m, missing=x, groups=g, lv=l) for m, x, g, l in (("GPC", "nan", 1, 1), ("TwoPL", "-1", 2, 2), ("NR", "both", 2, 1), ("ThreePL", None, 3, 1))])
def group_fit_log_likelihood(E, model, missing, groups, lv):
    v = Evaluation(E, model, missing, D=2)
    G = groups
    E.assume(E.ile(G, v.N))
    at = ordered(E, v, lambda i: E.at(v.s.theta, i, lv - 1))
    out = E.call(v.ev, "group_fit_log_likelihood", data=v.x, theta=v.s.theta, groups=G, latent_variable=lv)
    E.observe("out", out)
    E.ensure_shape("shape", out, G)
    one = lambda i: E.sum(v.J, lambda j: E.ite(v.gone(i, j), lambda: 0, lambda: E.log(v.p(i, j, v.obs(i, j)))))
    q, rest = E.idiv(v.N, G), E.imod(v.N, G)
    for g in range(G):
        # groups of equal size along the latent variable, the first N mod G of them with one more respondent
        mean = lambda start, size: E.div(E.sum(size, lambda r: one(at(start + r))), size)
        def spec(k, start):
            longer = E.ilt(k, rest)
            if k == g: return E.ite(longer, lambda: mean(start, q + 1), lambda: mean(start, q))
            return E.ite(longer, lambda: spec(k + 1, start + q + 1), lambda: spec(k + 1, start + q))
        E.ensure(f"mean log-likelihood of group {g + 1}", [], lambda: E.eq(E.at(out, g), spec(0, 0)))


@contract("P19", variants=[dict(model=m, missing=x) for m, x in (("GPC", "both"), ("TwoPL", "nan"), ("NR", None))])
def observed_proportions(E, model, missing):
    v = Evaluation(E, model, missing)
    if missing: E.assume_all([v.J], lambda j: E.exists(v.N, lambda i: E.lnot(v.gone(i, j))))
    out = E.call(v.ev, "_observed_item_score_proportions", v.x)
    E.observe("out", out)
    hits = lambda j, k: E.sum(v.N, lambda i: E.ite(v.gone(i, j), lambda: 0, lambda: E.ite(E.ieq(v.obs(i, j), k), lambda: 1, lambda: 0)))
    n = lambda j: E.sum(v.N, lambda i: E.ite(v.gone(i, j), lambda: 0, lambda: 1))
    top = E.max(v.J, lambda j: v.s.cat(j))
    E.ensure_shape("shape", out, v.J, top)
    E.ensure("share of the observed responses in each category", [v.J, top], lambda j, k: E.eq(E.at(out, j, k), E.div(hits(j, k), n(j))))


@contract("P19", variants=[dict(model=m, groups=g, missing=x, rescale=r) for m, g, x, r in (("GPC", 1, "nan", False), ("TwoPL", 2, None, False), ("NR", 2, "-1", True), ("GPC", 3, None, False))])
def latent_group_probabilities(E, model, groups, missing, rescale):
    v = Evaluation(E, model, missing, D=2)
    G, lv, s = groups, 2, v.s
    E.assume(E.ile(G, v.N))
    score = lambda i, d: E.at(s.theta, i, d)
    if rescale:
        s.call("add_scale_transformation", E.new("irtorch.rescale.reverse.Reverse", [True, True]))
        score = lambda i, d: -E.at(s.theta, i, d)
    at = E.argsort(v.N, lambda i: score(i, lv - 1))
    data, prob, mid = E.value(E.call(v.ev, "latent_group_probabilities", data=v.x, theta=s.theta, latent_variable=lv, groups=G, rescale=rescale))
    for n, t in (("data", data), ("prob", prob), ("mid", mid)): E.observe(n, t)
    # torch.chunk: pieces of ceil(N / G) respondents
    size = -E.idiv(-v.N, G)
    top = E.max(v.J, lambda j: s.cat(j))
    for g in range(G):
        def group(f, empty):
            """f(first respondent, number of respondents) of group g when there are respondents left for it"""
            return E.ite(E.ilt((g + 1) * size, v.N), lambda: f(size * g, size), lambda: E.ite(E.ilt(g * size, v.N), lambda: f(size * g, v.N - size * g), lambda: empty))
        mean = lambda h: lambda a, n: E.div(E.sum(n, lambda r: h(at(a + r))), n)
        gone = lambda i, j: v.gone(i, j)
        if not E.symbolic and g * int(size) >= int(v.N): continue
        E.ensure(f"mean model probability of group {g + 1}", [v.J, top], lambda j, k: E.implies(E.ilt(g * size, v.N), lambda: E.eq(E.at(prob, g, j, k), group(mean(lambda i: v.p(i, j, k)), 0))))
        hits = lambda j, k: lambda a, n: E.sum(n, lambda r: E.ite(gone(at(a + r), j), lambda: 0, lambda: E.ite(E.ieq(v.obs(at(a + r), j), k), lambda: 1, lambda: 0)))
        count = lambda j: lambda a, n: E.sum(n, lambda r: E.ite(gone(at(a + r), j), lambda: 0, lambda: 1))
        E.ensure(f"share of the observed responses of group {g + 1}", [v.J, top], lambda j, k: E.implies(E.land(E.ilt(g * size, v.N), E.ilt(0, group(count(j), 0))),
                 lambda: E.eq(E.at(data, g, j, k) * group(count(j), 1), group(hits(j, k), 0))))
        E.ensure(f"mid point of group {g + 1}", [], lambda: E.implies(E.ilt(g * size, v.N), lambda: E.eq(E.at(mid, g), group(mean(lambda i: score(i, lv - 1)), 0) if rescale else group(lambda a, n: E.median(n, lambda r: score(at(a + r), lv - 1)), 0))))


@contract("P19", variants=[dict(model=m, mc=c, algo=a) for m, c, a in (("GPC", False, "scores"), ("NR", True, "scores"), ("TwoPL", False, "scores"))])
def sum_score_probabilities(E, model, mc, algo):
    v = Evaluation(E, model, None, mc)
    s = v.s
    T = E.dim("T")
    tr = E.tensor("tr", T, s.D)
    E.set(s.m, "algorithm", E.new("fixtures.algo.Scores", tr))
    U = "irtorch._internal_utils."
    conditional(E, U + "conditional_score_distribution")
    P = s.call("item_probabilities", tr)
    if mc: P = E.fn(U + "sum_incorrect_probabilities", P, s.cats, s.mc)
    two = mc or model not in POLY
    C = E.fn(U + "conditional_score_distribution", P, pairs(E, s.J) if mc else E.get(s.m, "item_categories"))
    out = E.call(v.ev, "sum_score_probabilities", latent_density_method="data")
    E.observe("out", out)
    top = s.J if two else E.sum(s.J, lambda j: s.cat(j) - 1)
    E.ensure_shape("one probability per sum score", out, top + 1)
    E.ensure("average of the conditional distributions over the population", [top + 1], lambda k: E.eq(E.at(out, k), E.sum(T, lambda t: E.at(C, t, k)) / T))


def pairs(E, J):
    """two categories for every item"""
    return E.int_list("two", J, 2, 2, top=False) if E.symbolic else [2] * int(J)


def conditional(E, name):
    """conditional score distribution through its contract: a distribution per point that depends on the probabilities at that point"""
    if not E.symbolic: return
    from pyvc import torchmodel as TM, tensor as TS
    from pyvc.terms import lift, add, sub, ONE, app
    def f(eng, func, args, kw):
        p, cats = args
        n = lift(eng.call(eng.builtins["sum"], [cats], {}))
        k = lift(eng.call(eng.builtins["len"], [cats], {}))
        g = p.dims()
        return TM.opaque(eng, "conv_of", [p], [g[0], [TS.simp_int(add(sub(n, k), ONE))]])
    E.stub(name, f, "conditional distribution of the sum score", proved_by="P13/conditional_score_distribution")


@contract("P19", variants=[dict(model=m, missing=x, standardize=z) for m, x, z in (("GPC", None, False), ("NR", "nan", False), ("TwoPL", None, True), ("GPC", None, True))])
def group_fit_residuals(E, model, missing, standardize):
    v = Evaluation(E, model, missing, D=2)
    s = v.s
    E.assume(E.ilt(2, v.N))
    E.argsort(v.N, lambda i: E.at(s.theta, i, 0))
    data, prob, mid = E.value(E.call(v.ev, "latent_group_probabilities", data=v.x, theta=s.theta, latent_variable=1, groups=2, rescale=False))
    res, mid2 = E.value(E.call(v.ev, "group_fit_residuals", data=v.x, theta=s.theta, latent_variable=1, groups=2, rescale=False, standardize=standardize))
    E.observe("res", res)
    top = E.max(v.J, lambda j: s.cat(j))
    size = -E.idiv(-v.N, 2)
    n = lambda g: size if g == 0 else v.N - size
    def spec(g, j, k):
        raw = E.at(data, g, j, k) - E.at(prob, g, j, k)
        if not standardize: return raw
        return E.div(raw, E.sqrt(E.div(E.at(prob, g, j, k) * (1 - E.at(prob, g, j, k)), n(g))))
    if not E.symbolic: E.assume_all([2, v.J], lambda g, j: E.forall(s.cat(j), lambda k: 1e-4 < float(E.at(prob, g, j, k)) < 1 - 1e-4))
    for g in range(2):
        E.ensure(f"observed minus expected share (in standard errors), group {g + 1}", [v.J, lambda j: s.cat(j)], lambda j, k: E.eq(E.at(res, g, j, k), spec(g, j, k)))
        if not standardize: E.ensure(f"no residual for categories that do not exist, group {g + 1}", [v.J, lambda j: (s.cat(j), top)], lambda j, k: E.isnan(E.at(res, g, j, k)))
    E.ensure("same mid points", [2], lambda g: E.eq(E.at(mid2, g), E.at(mid, g)))


C = "irtorch._internal_utils."


def correlation(E, n, a, b, keep):
    """Pearson correlation of a(i) and b(i) over the i with keep(i)"""
    tot = lambda f: E.sum(n, lambda i: E.ite(keep(i), lambda: f(i), lambda: 0))
    m = tot(lambda i: 1)
    ma, mb = E.div(tot(a), m), E.div(tot(b), m)
    cov = tot(lambda i: (a(i) - ma) * (b(i) - mb))
    return E.div(cov, E.sqrt(tot(lambda i: (a(i) - ma) ** 2) * tot(lambda i: (b(i) - mb) ** 2)))


@contract("P19", tol=1e-4)
def correlation_of_complete_data(E):
    N, J = E.dim("N", 2), E.dim("J")
    x = E.tensor("x", N, J)
    r = E.fn(C + "correlation_matrix", x)
    E.observe("r", r)
    var = lambda j: E.sum(N, lambda i: (E.at(x, i, j) - E.sum(N, lambda v: E.at(x, v, j)) / N) ** 2)
    E.assume_all([J], lambda j: E.ilt(1e-3 if not E.symbolic else 0, var(j)))
    E.ensure_shape("shape", r, J, J)
    sd = lambda j: E.sqrt(var(j) / (N - 1))
    E.ensure("covariance over the standard deviations", [J, J], lambda a, b: E.eq(E.at(r, a, b) * sd(a) * sd(b),
             E.sum(N, lambda i: (E.at(x, i, a) - E.sum(N, lambda v: E.at(x, v, a)) / N) * (E.at(x, i, b) - E.sum(N, lambda v: E.at(x, v, b)) / N)) / (N - 1)))


@contract("P19", tol=1e-4, variants=[dict(J=2, _bounded="two variables"), dict(J=3, _bounded="three variables")])
def correlation_of_incomplete_data(E, J):
    N = E.dim("N", 4)
    gone = E.tensor("gone", N, J, boolean=True)
    t = E.tensor("x", N, J)
    x = E.build([N, J], lambda i, j: E.ite(E.at(gone, i, j), lambda: E.nan, lambda: E.at(t, i, j)))
    r = E.fn(C + "correlation_matrix", x)
    E.observe("r", r)
    for a in range(J):
        for b in range(J):
            both = lambda i: E.lnot(E.lor(E.at(gone, i, a), E.at(gone, i, b)))
            tot = lambda f: E.sum(N, lambda i: E.ite(both(i), lambda: f(i), lambda: 0))
            n = tot(lambda i: 1)
            mean = lambda c: E.div(tot(lambda i: E.at(t, i, c)), n)
            sq = lambda c: tot(lambda i: (E.at(t, i, c) - mean(c)) ** 2)
            ok = lambda: E.land(E.ilt(1, n), E.land(E.ilt(1e-3, sq(a)), E.ilt(1e-3, sq(b))))
            if a == b: E.ensure(f"unit diagonal {a}", [], lambda: E.eq(E.at(r, a, a), 1))
            else: E.ensure(f"correlation of {a} and {b} over the respondents with both", [], lambda: E.implies(ok(), lambda: E.eq(E.at(r, a, b), correlation(E, N, lambda i: E.at(t, i, a), lambda i: E.at(t, i, b), both))))


@contract("P19", bounded="pandas tables", tol=1e-4, variants=[dict(model="GPC", missing="nan"), dict(model="TwoPL", missing=None), dict(model="NR", missing="-1")])
def q3(E, model, missing):
    v = Evaluation(E, model, missing, mc=model == "NR")
    E.assume(v.N >= 4 and v.J >= 2)
    res = E.call(v.ev, "residuals", data=v.x, theta=v.s.theta)
    both = lambda a, b: lambda i: not (v.gone(i, a) or v.gone(i, b))
    sq = lambda c, keep: sum((float(res[i, c]) - m) ** 2 for idx in [[i for i in range(v.N) if keep(i)]] if len(idx) > 1 for m in [sum(float(res[i, c]) for i in idx) / len(idx)] for i in idx)
    E.assume_all([v.J, v.J], lambda a, b: a == b or (sq(a, both(a, b)) > 1e-3 and sq(b, both(a, b)) > 1e-3))
    df, p = E.call(v.ev, "q3", data=v.x, theta=v.s.theta)
    E.ensure_true("no p-values requested", p is None)
    for a in range(v.J):
        for b in range(v.J):
            if a == b: E.ensure(f"no correlation of an item with itself {a}", [], lambda: E.isnan(float(df.iloc[a, a])))
            else: E.ensure(f"residual correlation {a},{b}", [], lambda: abs(float(df.iloc[a, b]) - correlation(E, v.N, lambda i: float(E.at(res, i, a)), lambda i: float(E.at(res, i, b)), both(a, b))) < 1e-3)
    E.ensure_true("labels", list(df.columns) == [f"Item {k + 1}" for k in range(v.J)] == list(df.index))


@contract("P19", bounded="unique response combinations and pandas tables", tol=1e-4, variants=[dict(model="GPC", missing="nan"), dict(model="TwoPL", missing=None), dict(model="NR", missing="-1")])
def mutual_information_difference(E, model, missing):
    import math
    from collections import Counter
    v = Evaluation(E, model, missing)
    pair = lambda a, b: [(v.obs(i, a), v.obs(i, b)) for i in range(v.N) if not (v.gone(i, a) or v.gone(i, b))]
    E.assume(v.J >= 2)
    E.assume_all([v.J, v.J], lambda a, b: len(pair(a, b)) > 1)
    base = 2.0 if model != "NR" else 4.0
    mid, amid, p = E.call(v.ev, "mutual_information_difference", data=v.x, theta=v.s.theta, log_base=base)
    H = lambda ps: -sum(q * math.log(q) for q in ps if q > 0) / math.log(base)
    def freq(z): return [c / len(z) for c in Counter(z).values()]
    def model_mi(a, b):
        P = lambda i, j, k: float(v.p(i, j, k))
        ma = [sum(P(i, a, k) for i in range(v.N)) / v.N for k in range(v.M)]
        mb = [sum(P(i, b, k) for i in range(v.N)) / v.N for k in range(v.M)]
        j = [sum(P(i, a, k) * P(i, b, l) for i in range(v.N)) / v.N for k in range(v.M) for l in range(v.M)]
        return H(ma) + H(mb) - H(j)
    for a in range(v.J):
        for b in range(v.J):
            if a == b: continue
            want = H(freq([x for x, _ in pair(a, a)])) + H(freq([x for x, _ in pair(b, b)])) - H(freq(pair(a, b))) - model_mi(a, b)
            E.ensure(f"mutual information of the data minus that of the model {a},{b}", [], lambda: abs(float(mid.iloc[a, b]) - want) < 1e-4)
            E.ensure(f"absolute difference {a},{b}", [], lambda: abs(float(amid.iloc[a, b]) - abs(want)) < 1e-4)


@contract("P19", bounded="loop over items and categories into a pandas table", tol=1e-4, variants=[dict(model="GPC", missing="both"), dict(model="NR", missing=None), dict(model="TwoPL", missing="nan")])
def predictions(E, model, missing):
    v = Evaluation(E, model, missing)
    E.assume_all([v.J], lambda j: any(not v.gone(i, j) for i in range(v.N)))
    df = E.call(v.ev, "predictions", data=v.x, theta=v.s.theta)
    for j in range(v.J):
        rows = [(E.argmax(v.M, lambda k: v.p(i, j, k)), v.obs(i, j)) for i in range(v.N) if not v.gone(i, j)]
        C = v.s.cat(j)
        want = dict(precision=0.0, recall=0.0, f1=0.0, w_precision=0.0, w_recall=0.0, w_f1=0.0)
        for k in range(C):
            tp = sum(a == k and b == k for a, b in rows)
            pred, obs = sum(a == k for a, _ in rows), sum(b == k for _, b in rows)
            pr, rc = (tp / pred if pred else 0), (tp / obs if obs else 0)
            f1 = 2 * pr * rc / (pr + rc) if tp else 0
            for nm, val in (("precision", pr), ("recall", rc), ("f1", f1)):
                want[nm] += val / C
                want["w_" + nm] += val * obs / len(rows)
        for nm, val in want.items():
            E.ensure(f"{nm} of item {j}", [], lambda: abs(float(df[nm].iloc[j]) - val) < 1e-5)


class Samples:
    """simulated data tables the model is made to draw, instead of random ones"""
    def __init__(self, E, v, S):
        import torch
        self.tables, self.n = [E.data(f"draw{k}", v.N, v.J, getattr(v.s, "cats", 2), None) for k in range(S)], 0
        def draw(theta):
            self.n += 1
            return self.tables[self.n - 1].clone()
        object.__setattr__(v.s.m, "sample_test_data", draw)


@contract("P19", bounded="sampling distribution over simulated tables", tol=1e-4, variants=[dict(model="GPC", stat="q3"), dict(model="TwoPL", stat="q3"), dict(model="GPC", stat="mutual_information_difference"), dict(model="NR", stat="mutual_information_difference")])
def sampling_p_values(E, model, stat):
    """the p-value of an item pair is the share of simulated tables with a statistic as extreme as the observed one"""
    import torch
    S = 5
    v = Evaluation(E, model, None)
    E.assume(v.N >= 4 and v.J >= 2)
    sm = Samples(E, v, S)
    if stat == "q3":
        ok = lambda x: bool((E.call(v.ev, "residuals", data=x, theta=v.s.theta).std(dim=0) > 1e-3).all())
        for t in [v.x] + sm.tables: E.assume(ok(t))
    one = lambda x: E.call(v.ev, stat, data=x, theta=v.s.theta)
    idx = 0 if stat == "q3" else 1
    raw = []
    import irtorch.evaluator as ev
    obs = torch.tensor(one(v.x)[idx].values)
    draws = [torch.tensor(one(t)[idx].values) for t in sm.tables]
    close = lambda a, b: any(not abs(float(obs[a, b] - d[a, b])) > 2e-3 for d in draws)
    p = E.call(v.ev, stat, data=v.x, theta=v.s.theta, sample_hypothesis_test=True, samples=S)[-1]
    E.ensure_true("one simulated table per sample", sm.n == S)
    for a in range(v.J):
        for b in range(v.J):
            if a == b:
                E.ensure(f"no p-value for an item with itself {a}", [], lambda: E.isnan(float(p.iloc[a, a])))
                continue
            if close(a, b): continue
            above = sum(float(d[a, b]) > float(obs[a, b]) for d in draws)
            want = above / S if stat != "q3" else 2 * min(above, S - above) / S
            E.ensure(f"p-value {a},{b}", [], lambda: abs(float(p.iloc[a, b]) - want) < 2e-3)


@contract("P19", bounded="mixture models chosen by their cross-validated likelihood", variants=[dict(comps=3), dict(comps=1)])
def mixture_components(E, comps):
    """the number of mixture components is the candidate with the highest likelihood of the left-out fifths"""
    import torch, irtorch.evaluator as ev
    s = Setup(E, "TwoPL")
    N = E.integer("N", 10, 30)
    data = E.tensor("x", N, s.D)
    cands = [k + 2 for k in range(comps)]
    score = {c: E.real(f"score{c}", -3, 3) for c in cands}
    E.assume(len({round(x, 3) for x in score.values()}) == comps)
    log = []
    class Fake:
        def __init__(self, n_components, n_features): self.n, self.d = n_components, n_features
        def fit(self, x): self.data = x; log.append((self.n, x))
        def __call__(self, val): log[-1] += (val,); return torch.tensor(score[self.n] * (1 + 0.01 * float(val.shape[0])))
    old = ev.GaussianMixtureModel
    ev.GaussianMixtureModel = Fake
    try:
        e = E.new(EV, s.m)
        E.call(e, "approximate_latent_density", data, approximation="gmm", cv_n_components=cands)
    finally: ev.GaussianMixtureModel = old
    g = e.latent_density
    avg = lambda c: sum(score[c] * (1 + 0.01 * x.shape[0]) for x in data.chunk(5)) / len(data.chunk(5))
    E.ensure_true("the best candidate is used", g.n == max(cands, key=avg))
    E.ensure_true("dimension", g.d == s.D)
    E.ensure_true("fitted to all the scores", g.data.shape == data.shape and bool((g.data == data).all()))
    if comps > 1:
        for k, c in enumerate(cands):
            for f, val in enumerate(data.chunk(5)):
                n, train, v = log[k * len(data.chunk(5)) + f]
                rest = torch.cat([x for h, x in enumerate(data.chunk(5)) if h != f])
                E.ensure_true(f"fold {f} of candidate {c}", n == c and v.shape == val.shape and bool((v == val).all()) and train.shape == rest.shape and bool((train == rest).all()))


@contract("P19", bounded="integration grid spanned by the observed scores", tol=1e-4, variants=[dict(model="GPC", method="qmvn"), dict(model="TwoPL", method="gmm"), dict(model="GPC", method="gmm")])
def density_weighted_sum_scores(E, model, method):
    """sum score probabilities under an approximated latent density: the average over the grid from one standard deviation
    below the lowest to one above the highest score, weighted by the density"""
    import torch, itertools, irtorch.evaluator as ev
    v = Evaluation(E, model, None, D=E.integer("D", 1, 2))
    s = v.s
    n = E.integer("nt", 3, 12)
    tr = E.tensor("tr", n, s.D)
    E.set(s.m, "algorithm", E.new("fixtures.algo.Scores", tr))
    seen = []
    class Density(ev.QuantileMVNormal if method == "qmvn" else ev.GaussianMixtureModel):
        def __init__(self): torch.nn.Module.__init__(self) if method == "gmm" else None
        def pdf(self, t):
            seen.append(t)
            return (-0.3 * (t ** 2).sum(dim=1)).exp() * (1 + t[:, 0].sigmoid())
    v.ev.latent_density = Density()
    g = 4
    out = E.call(v.ev, "sum_score_probabilities", latent_density_method=method, trapezoidal_segments=g)
    lo, hi, sd = tr.min(0).values, tr.max(0).values, tr.std(0)
    axes = [[float(lo[d] - sd[d] + (hi[d] - lo[d] + 2 * sd[d]) * k / (g - 1)) for k in range(g)] for d in range(int(s.D))]
    grid = torch.tensor(list(itertools.product(*axes)))
    w = v.ev.latent_density.pdf(grid); w = w / w.sum()
    C = E.fn("irtorch._internal_utils.conditional_score_distribution", s.call("item_probabilities", grid), s.m.item_categories)
    want = (C * w.view(-1, 1)).sum(dim=0)
    E.ensure_true("number of sum scores", out.shape == want.shape)
    E.ensure("probability of every sum score", [len(want)], lambda k: E.eq(E.at(out, k), float(want[k])))
