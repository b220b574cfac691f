"""Contracts on the distribution of the sum score."""
from pyvc.api import contract

U = "irtorch._internal_utils."


class Probabilities:
    """an item probability array of any size: per point and item a distribution over the item's categories"""
    def __init__(self, E):
        self.E = E
        self.N, self.J, self.M = E.dim("N"), E.dim("J"), E.dim("M", 2)
        self.cats = E.int_list("cats", self.J, 2, self.M)
        self.cat = lambda j: E.item(self.cats, j)
        raw = E.tensor("p", self.N, self.J, self.M, lo=0.01, hi=1)
        if not E.symbolic:
            import torch
            k = torch.arange(int(self.M))
            raw = torch.where(k[None, None, :] < torch.tensor([int(c) for c in self.cats])[None, :, None], raw, 0.0)
            raw = raw / raw.sum(-1, keepdim=True)
            E.inputs["p"] = raw.tolist()
        self.p = raw
        E.assume_all([self.N, self.J, self.M], lambda i, j, k: E.le(0, E.at(raw, i, j, k)))
        E.assume_all([self.N, self.J, lambda i, j: (self.cat(j), self.M)], lambda i, j, k: E.ieq(E.at(raw, i, j, k), 0))
        if E.symbolic: E.assume_all([self.N, self.J], lambda i, j: E.eq(E.sum(self.cat(j), lambda k: E.at(raw, i, j, k)), 1))

    def max_score(self, j):
        """largest sum score on items 0..j"""
        return self.E.sum(j + 1, lambda v: self.cat(v) - 1)


@contract("P13")
def conditional_score_distribution(E):
    s = Probabilities(E)
    N, J = s.N, s.J
    top = s.max_score(J - 1)
    p = lambda i, j, v: E.ite(E.land(E.ile(0, v), E.ilt(v, s.cat(j))), lambda: E.at(s.p, i, j, v), lambda: 0)
    # distribution of the score on items 0..m, item by item (the definition of the convolution)
    conv = E.recurrence("conv", [N, top + 1], lambda i, v: p(i, 0, v),
                        lambda k, S, i, v: E.sum(s.max_score(k) + 1, lambda u: S(i, u) * p(i, k + 1, v - u)),
                        U + "conditional_score_distribution", "nsprobs")
    r = E.fn(U + "conditional_score_distribution", s.p, s.cats)
    E.observe("r", r)
    E.ensure_shape("one probability per possible score", r, N, top + 1)
    E.ensure("convolution of the item score distributions", [N, top + 1], lambda i, v: E.eq(E.at(r, i, v), conv(J - 1, i, v)))


@contract("P13", bounded="sum over all response patterns (a product over a symbolic number of items)", wide=False)
def score_distribution_by_enumeration(E):
    """independent oracle: total probability of the response patterns with each score; a distribution with the expected total score as its mean"""
    import itertools, math
    s = Probabilities(E)
    r = E.fn(U + "conditional_score_distribution", s.p, s.cats)
    cats = [int(c) for c in s.cats]
    if math.prod(cats) > 3000: cats = None
    def spec(i):
        out = [0.0] * (sum(cats) - len(cats) + 1)
        for pat in itertools.product(*[range(c) for c in cats]): out[sum(pat)] += math.prod(float(s.p[i, j, k]) for j, k in enumerate(pat))
        return out
    top = int(s.max_score(s.J - 1))
    if cats:
        E.ensure("probability of the response patterns with that score", [s.N, top + 1], lambda i, v: E.eq(E.at(r, i, v), spec(i)[v]))
    E.ensure("sums to one", [s.N], lambda i: E.eq(E.sum(top + 1, lambda v: E.at(r, i, v)), 1))
    E.ensure("mean is the expected total score", [s.N], lambda i: E.eq(E.sum(top + 1, lambda v: v * E.at(r, i, v)), E.sum(s.J, lambda j: E.sum(s.cat(j), lambda k: k * E.at(s.p, i, j, k)))))


@contract("P13")
def sum_incorrect_probabilities(E):
    s = Probabilities(E)
    mc = E.int_list("mc", s.J, 0, lambda j: s.cat(j) - 1, top=False)
    snap = E.copy(s.p)
    r = E.fn(U + "sum_incorrect_probabilities", s.p, s.cats, mc)
    E.observe("r", r)
    E.ensure_shape("two probabilities per item", r, s.N, s.J, 2)
    E.ensure("probability of the correct response", [s.N, s.J], lambda i, j: E.eq(E.at(r, i, j, 1), E.at(s.p, i, j, E.item(mc, j))))
    E.ensure("probability of any other response", [s.N, s.J], lambda i, j: E.eq(E.at(r, i, j, 0), E.sum(s.M, lambda k: E.at(s.p, i, j, k)) - E.at(s.p, i, j, E.item(mc, j))))
    E.ensure_unchanged("probabilities unchanged", s.p, snap)
