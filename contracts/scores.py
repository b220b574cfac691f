"""Contracts on expected scores, information and derivatives."""
from pyvc.api import contract
from contracts.models import Setup, POLY, DICH

MC = ("NR",)


def mc_setup(E, model):
    """nominal response model with a correct category per item"""
    return Setup(E, model, mc=True)


# ------------------------------------------------------------------ P06
@contract("P06", variants=[dict(model=m, mc=c) for m in POLY + DICH for c in ((False, True) if m in MC else (False,))])
def expected_scores(E, model, mc):
    expected_of(E, Setup(E, model, mc=mc), mc)


def expected_of(E, s, mc):
    J, N, M = s.J, s.N, s.M
    P = s.call("item_probabilities", s.theta)
    sc = s.call("expected_scores", s.theta)
    tot = s.call("expected_scores", s.theta, return_item_scores=False)
    E.observe("scores", sc)
    E.observe("total", tot)
    def spec(i, j):
        if mc: return E.at(P, i, j, s.correct(j))
        return E.sum(s.cat(j), lambda k: k * E.at(P, i, j, k))
    E.ensure_shape("shape of item scores", sc, N, J)
    E.ensure_shape("shape of total scores", tot, N)
    E.ensure("item score is the expectation under the item probabilities", [N, J], lambda i, j: E.eq(E.at(sc, i, j), spec(i, j)))
    E.ensure("total score is the sum of the expected item scores", [N], lambda i: E.eq(E.at(tot, i), E.sum(J, lambda j: E.at(sc, i, j))))


@contract("P06", variants=[dict(model=m) for m in POLY + DICH])
def population_difficulty(E, model):
    difficulty_of(E, Setup(E, model))


def difficulty_of(E, s, mc=False):
    J, N, M = s.J, s.N, s.M
    P = s.call("item_probabilities", s.theta)
    dif = s.call("population_difficulty", s.theta)
    E.observe("dif", dif)
    E.ensure_shape("one difficulty per item", dif, J)
    if mc:
        E.ensure("one minus the mean probability of the correct response", [J], lambda j: E.eq(E.at(dif, j) * N, N - E.sum(N, lambda i: E.at(P, i, j, s.correct(j)))))
        return
    E.ensure("one minus the mean relative expected score", [J], lambda j: E.eq(E.at(dif, j) * N * (s.cat(j) - 1),
             N * (s.cat(j) - 1) - E.sum(N, lambda i: E.sum(s.cat(j), lambda k: k * E.at(P, i, j, k)))))


# ------------------------------------------------------------------ P08
@contract("P08", tol=2e-4, variants=[dict(model=m) for m in POLY + DICH])
def probability_gradients(E, model):
    gradients_of(E, Setup(E, model))


def gradients_of(E, s):
    J, N, M, D = s.J, s.N, s.M, s.D
    snap = E.copy(s.theta)
    g = s.call("probability_gradients", s.theta)
    d = E.grad(lambda x: s.call("item_probabilities", x), s.theta)
    E.observe("g", g)
    E.ensure_shape("shape", g, N, J, M, D)
    E.ensure("gradient of every category probability", [N, J, lambda i, j: s.cat(j), D], lambda i, j, k, q: E.eq(E.at(g, i, j, k, q), d((i, j, k), (i, q))))
    E.ensure("no gradient for categories the item does not have", [N, J, lambda i, j: (s.cat(j), M), D], lambda i, j, k, q: E.eq(E.at(g, i, j, k, q), 0))
    E.ensure_unchanged("theta unchanged", s.theta, snap)


@contract("P08", tol=2e-4, variants=[dict(model=m, mc=c, byitem=b) for m in POLY + DICH for c in ((False, True) if m in MC else (False,)) for b in (True, False)])
def expected_item_score_gradients(E, model, mc, byitem):
    score_gradients_of(E, Setup(E, model, mc=mc), mc, byitem)


def score_gradients_of(E, s, mc, byitem):
    J, N, M, D = s.J, s.N, s.M, s.D
    snap = E.copy(s.theta)
    g = s.call("expected_item_score_gradients", s.theta, rescale_by_item_score=byitem)
    d = E.grad(lambda x: s.call("expected_scores", x), s.theta)
    E.observe("g", g)
    E.ensure_shape("shape", g, N, J, D)
    f = (lambda j: s.cat(j) - 1) if byitem and not mc else (lambda j: 1)
    E.ensure("gradient of the expected item score", [N, J, D], lambda i, j, q: E.eq(E.at(g, i, j, q) * f(j), d((i, j), (i, q))))
    E.ensure_unchanged("theta unchanged", s.theta, snap)


@contract("P08", tol=2e-4, variants=[dict(model=m, mc=c) for m in POLY + DICH for c in ((False, True) if m in MC else (False,))])
def population_discrimination(E, model, mc):
    discrimination_of(E, Setup(E, model, mc=mc), mc)


def discrimination_of(E, s, mc):
    J, N, D = s.J, s.N, s.D
    snap = E.copy(s.theta)
    g = s.call("population_discrimination", s.theta)
    d = E.grad(lambda x: s.call("expected_scores", x), s.theta)
    E.observe("g", g)
    E.ensure_shape("shape", g, J, D)
    f = (lambda j: s.cat(j) - 1) if not mc else (lambda j: 1)
    E.ensure("mean over respondents of the gradient of the relative expected item score", [J, D], lambda j, q: E.eq(E.at(g, j, q) * f(j) * N, E.sum(N, lambda i: d((i, j), (i, q)))))
    E.ensure_unchanged("theta unchanged", s.theta, snap)


# ------------------------------------------------------------------ P07
@contract("P07", tol=2e-4, wide=False, variants=[dict(model=m) for m in POLY + DICH])
def information(E, model):
    s = Setup(E, model)
    if model == "GRM": s.order_thresholds(strict=True)
    information_of(E, s)


def information_of(E, s):
    J, N, M, D = s.J, s.N, s.M, s.D
    info = s.call("information", s.theta)
    tot = s.call("information", s.theta, item=False)
    P = s.call("item_probabilities", s.theta)
    g = E.grad(lambda x: s.call("item_probabilities", x), s.theta)
    E.observe("info", info)
    E.observe("tot", tot)
    E.ensure_shape("shape", info, N, J, D, D)
    E.ensure_shape("shape of test information", tot, N, D, D)
    E.ensure("expected outer product of the score", [N, J, D, D], lambda i, j, a, b: E.eq(E.at(info, i, j, a, b),
             E.sum(s.cat(j), lambda k: E.div(g((i, j, k), (i, a)) * g((i, j, k), (i, b)), E.at(P, i, j, k)))))
    E.ensure("symmetric", [N, J, D, D], lambda i, j, a, b: E.eq(E.at(info, i, j, a, b), E.at(info, i, j, b, a)))
    E.ensure("test information is the sum over items", [N, D, D], lambda i, a, b: E.eq(E.at(tot, i, a, b), E.sum(J, lambda j: E.at(info, i, j, a, b))))


@contract("P07", variants=[dict(model=m) for m in ("GPC", "NR", "TwoPL")])
def information_degrees(E, model):
    s = Setup(E, model, Dmin=2)
    J, N, M, D = s.J, s.N, s.M, s.D
    deg = E.real_list("deg", D, 0, 180)
    info = s.call("information", s.theta)
    di = s.call("information", s.theta, degrees=deg)
    E.observe("di", di)
    c = lambda a: E.cos(E.item(deg, a) * E.pi / 180)
    E.ensure_shape("shape", di, N, J)
    E.ensure("directional information", [N, J], lambda i, j: E.eq(E.at(di, i, j), E.sum(D, lambda a: E.sum(D, lambda b: c(a) * E.at(info, i, j, a, b) * c(b)))))
