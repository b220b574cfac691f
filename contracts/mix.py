"""Contracts on mixtures of response models over different items."""
from pyvc.api import contract
from contracts.models import Setup, abstract_likelihood, MOD, CLS, POLY, DICH

MIXES = [("TwoPL", "GPC"), ("GPC", "NR"), ("GRM", "TwoPL"), ("NR", "GPC", "TwoPL")]


class Mix:
    """a mixture of models; every part has its own items and parameters"""
    def __init__(self, E, kinds):
        self.E = E
        N, D = self.N, self.D = E.dim("N"), E.dim("D")
        self.theta = E.tensor("theta", N, D)
        self.parts = []
        for n, k in enumerate(kinds):
            p = Setup(E, k, N=N, D=D, pre="abc"[n], theta=self.theta)
            if k == "GRM": p.order_thresholds()
            self.parts.append(p)
            abstract_likelihood(E, p)
        self.m = E.new(MOD + "model_mix.ModelMix", [p.m for p in self.parts])
        self.off, o = [], 0
        for p in self.parts:
            self.off.append(o)
            o = o + p.J
        self.J = o

    def call(self, meth, *a, **k): return self.E.call(self.m, meth, *a, **k)


@contract("P01", variants=[dict(kinds="+".join(k)) for k in MIXES])
def mixture(E, kinds):
    """every item of a mixture has the probabilities its own model gives it; categories of other models' width have probability zero"""
    s = Mix(E, kinds.split("+"))
    P = s.call("item_probabilities", s.theta)
    if not E.symbolic: E.observe("P", P)
    M = E.shape(P)[2]
    for n, p in enumerate(s.parts):
        Q = p.call("item_probabilities", s.theta)
        o = s.off[n]
        E.ensure(f"items of model {n}", [s.N, p.J, p.M], lambda i, j, k: E.eq(E.at(P, i, o + j, k), E.at(Q, i, j, k)))
        E.ensure(f"no further categories for model {n}", [s.N, p.J, (p.M, M)], lambda i, j, k: E.eq(E.at(P, i, o + j, k), 0))
    big = s.parts[0].M
    for p in s.parts[1:]: big = E.ite(E.ilt(big, p.M), lambda: p.M, lambda: big)
    E.ensure_shape("shape", P, s.N, s.J, big)


@contract("P03", variants=[dict(kinds="+".join(k), missing=x) for k in MIXES for x in (None, "nan")])
def mixture_likelihood(E, kinds, missing):
    s = Mix(E, kinds.split("+"))
    xs = [E.data("abc"[n] + "x", s.N, p.J, p.cats if p.name in POLY else 2, missing) for n, p in enumerate(s.parts)]
    x = E.fn("torch.cat", xs, dim=1)
    out = s.call("forward", s.theta)
    kw = {}
    if missing: kw["missing_mask"] = E.call(x, "isnan")
    ll = s.call("log_likelihood", x, out, loss_reduction="sum", **kw)
    tot = 0
    for n, p in enumerate(s.parts):
        Q = p.call("item_probabilities", s.theta)
        def spec(i, j, n=n, Q=Q):
            v = E.at(xs[n], i, j)
            return E.ite(E.isnan(v), lambda: 0, lambda: E.log(E.at(Q, i, j, E.as_int(v))))
        tot = tot + E.sum(s.N, lambda i: E.sum(p.J, lambda j: spec(i, j)))
    E.ensure("sum of the log probabilities of the observed responses", [], lambda: E.eq(E.at(ll), tot))


@contract("P03", wide=False, bounded="known finding: the order of the entries differs from the other models", variants=[dict(kinds="TwoPL+GPC", missing=x) for x in (None, "nan")])
def mixture_likelihood_entries(E, kinds, missing):
    s = Mix(E, kinds.split("+"))
    xs = [E.data("abc"[n] + "x", s.N, p.J, p.cats if p.name in POLY else 2, missing) for n, p in enumerate(s.parts)]
    x = E.fn("torch.cat", xs, dim=1)
    out = s.call("forward", s.theta)
    kw = {}
    if missing: kw["missing_mask"] = E.call(x, "isnan")
    ll = s.call("log_likelihood", x, out, loss_reduction="none", **kw)
    E.ensure_shape("one entry per response", ll, s.N * s.J)
    for n, p in enumerate(s.parts):
        Q = p.call("item_probabilities", s.theta)
        o = s.off[n]
        def spec(i, j):
            v = E.at(xs[n], i, j)
            return E.ite(E.isnan(v), lambda: E.nan, lambda: E.log(E.at(Q, i, j, E.as_int(v))))
        E.ensure(f"entries of model {n} in some order of the models", [s.N, p.J], lambda i, j: E.lor(E.eq(E.at(ll, i * s.J + o + j), spec(i, j)), E.eq(E.at(ll, s.N * o + i * p.J + j), spec(i, j))))
        if n: E.ensure("respondent by respondent", [s.N, p.J], lambda i, j: E.eq(E.at(ll, i * s.J + o + j), spec(i, j)))
