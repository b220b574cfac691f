"""Contracts on scale transformations: inverse, composition, Jacobians."""
from pyvc.api import contract
from contracts.models import Setup, MOD, CLS

RES = "irtorch.rescale."


class ScaleSetup:
    """a model with an arbitrary list of scales; makers return (scale, D->D forward formula)"""
    def __init__(self, E, model="TwoPL", Dmin=1):
        self.E = E
        self.s = Setup(E, model, Dmin=Dmin)
        self.m, self.D, self.N, self.theta = self.s.m, self.s.D, self.s.N, self.s.theta
        self.rev = 0

    def matrix(self, name):
        E, D = self.E, self.D
        R = E.tensor(name, D, D, lo=-1, hi=1)
        if not E.symbolic:
            import torch
            R = R + 3 * torch.eye(D)
            E.inputs[name] = R.tolist()
        return R

    def make(self, kind, tag):
        E, D = self.E, self.D
        if kind == "rotate":
            R = self.matrix("R" + tag)
            sc = E.new(RES + "rotate.Rotate", self.m, rotation_matrix=R)
            f = lambda x, i, d: E.sum(self.D, lambda k: x(i, k) * E.at(R, k, d))
        elif kind == "reverse":
            b = E.bool_list("b" + tag, self.D)
            sc = E.new(RES + "reverse.Reverse", b)
            f = lambda x, i, d: E.ite(E.item(b, d), lambda: -x(i, d), lambda: x(i, d))
        elif kind == "warp":
            A, c = self.matrix("W" + tag), E.tensor("c" + tag, D, lo=0, hi=1)
            sc = E.new("fixtures.warp.Warp", A, c)
            f = lambda x, i, d: E.sum(D, lambda k: x(i, k) * E.at(A, k, d)) + E.at(c, d) * E.exp(x(i, d))
        return sc, f


KINDS = ("rotate", "reverse")


# ------------------------------------------------------------------ P09
@contract("P09", variants=[dict(kind=k) for k in KINDS])
def inverse_of_scale(E, kind):
    s = ScaleSetup(E)
    sc, f = s.make(kind, "1")
    th = s.theta
    snap = E.copy(th)
    y = E.call(sc, "transform", th)
    y2 = E.call(sc, None, th)
    E.observe("y", y)
    E.ensure_shape("shape", y, s.N, s.D)
    E.ensure("transformation formula", [s.N, s.D], lambda i, d: E.eq(E.at(y, i, d), f(lambda a, b: E.at(th, a, b), i, d)))
    E.ensure("calling the scale is transform", [s.N, s.D], lambda i, d: E.eq(E.at(y, i, d), E.at(y2, i, d)))
    x = E.call(sc, "inverse", y)
    E.ensure("inverse after transform", [s.N, s.D], lambda i, d: E.eq(E.at(x, i, d), E.at(th, i, d)))
    z = E.call(sc, "transform", E.call(sc, "inverse", th))
    E.ensure("transform after inverse", [s.N, s.D], lambda i, d: E.eq(E.at(z, i, d), E.at(th, i, d)))
    E.ensure_unchanged("theta unchanged", th, snap)


COMP = [("rotate", "reverse"), ("reverse", "rotate"), ("rotate", "reverse", "rotate"), ("rotate", "rotate")]


@contract("P09", variants=[dict(kinds="+".join(c)) for c in (("warp", "rotate"), ("reverse", "warp"), ("rotate", "warp", "reverse"))])
def order(E, kinds):
    s = ScaleSetup(E)
    th = s.theta
    g = lambda a, b: E.at(th, a, b)
    for n, k in enumerate(kinds.split("+")):
        sc, f = s.make(k, str(n))
        E.call(s.m, "add_scale_transformation", sc)
        g = (lambda f, g: lambda i, d: f(g, i, d))(f, g)
    y = E.call(s.m, "transform_theta", th)
    E.ensure("scales are applied in the order they were added", [s.N, s.D], lambda i, d: E.eq(E.at(y, i, d), g(i, d)))


@contract("P09", variants=[dict(kinds="+".join(c)) for c in COMP])
def composition(E, kinds):
    s = ScaleSetup(E)
    th = s.theta
    g = lambda a, b: E.at(th, a, b)
    for n, k in enumerate(kinds.split("+")):
        sc, f = s.make(k, str(n))
        E.call(s.m, "add_scale_transformation", sc)
        g = (lambda f, g: lambda i, d: f(g, i, d))(f, g)
    y = E.call(s.m, "transform_theta", th)
    E.observe("y", y)
    E.ensure("scales are applied in the order they were added", [s.N, s.D], lambda i, d: E.eq(E.at(y, i, d), g(i, d)))
    x = E.call(s.m, "inverse_transform_theta", y)
    E.ensure("inverse of the composition", [s.N, s.D], lambda i, d: E.eq(E.at(x, i, d), E.at(th, i, d)))
    E.call(s.m, "detach_scale_transformations")
    z = E.call(s.m, "transform_theta", th)
    E.ensure("detaching restores the original scale", [s.N, s.D], lambda i, d: E.eq(E.at(z, i, d), E.at(th, i, d)))


# ------------------------------------------------------------------ P10
@contract("P10", tol=2e-4, variants=[dict(kind=k) for k in KINDS])
def jacobian_of_scale(E, kind):
    s = ScaleSetup(E)
    sc, f = s.make(kind, "1")
    J = E.call(sc, "jacobian", s.theta)
    d = E.grad(lambda x: E.call(sc, "transform", x), s.theta)
    E.observe("J", J)
    E.ensure_shape("shape", J, s.N, s.D, s.D)
    E.ensure("derivative of transform", [s.N, s.D, s.D], lambda i, a, b: E.eq(E.at(J, i, a, b), d((i, a), (i, b))))


WARP = [("warp",), ("reverse", "warp"), ("rotate", "warp"), ("warp", "rotate")]


@contract("P10", tol=2e-4, variants=[dict(kinds="+".join(c)) for c in COMP + WARP])
def jacobian_of_composition(E, kinds):
    s = ScaleSetup(E)
    for n, k in enumerate(kinds.split("+")): E.call(s.m, "add_scale_transformation", s.make(k, str(n))[0])
    J = E.call(s.m, "theta_transform_jacobian", s.theta)
    d = E.grad(lambda x: E.call(s.m, "transform_theta", x), s.theta)
    E.observe("J", J)
    E.ensure_shape("shape", J, s.N, s.D, s.D)
    E.ensure("derivative of transform_theta", [s.N, s.D, s.D], lambda i, a, b: E.eq(E.at(J, i, a, b), d((i, a), (i, b))))


@contract("P10", tol=2e-4, variants=[dict(model=m, kinds=k, what=w) for m in ("TwoPL", "GPC") for k in ("rotate", "reverse", "rotate+reverse", "warp", "reverse+warp") for w in ("prob", "score")])
def rescaled_gradients(E, model, kinds, what):
    s = ScaleSetup(E, model)
    for n, k in enumerate(kinds.split("+")): E.call(s.m, "add_scale_transformation", s.make(k, str(n))[0])
    N, J, M, D = s.N, s.s.J, s.s.M, s.D
    if what == "prob":
        g = E.call(s.m, "probability_gradients", s.theta)
        g0 = E.call(s.m, "probability_gradients", s.theta, rescale=False)
        rng, ix = [N, J, lambda i, j: s.s.cat(j), D], lambda i, j, k: (i, j, k)
    else:
        g = E.call(s.m, "expected_item_score_gradients", s.theta)
        g0 = E.call(s.m, "expected_item_score_gradients", s.theta, rescale=False)
        rng, ix = [N, J, D], lambda i, j: (i, j)
    Jac = E.call(s.m, "theta_transform_jacobian", s.theta)
    E.observe("g", g)
    sol = lambda i, *r: E.solve(D, lambda a, b: E.at(Jac, i, b, a), lambda a: E.at(g0, i, *r, a))
    E.ensure("chain rule: gradient on the transformed scale", rng, lambda i, *r: E.eq(E.at(g, i, *r), sol(i, *r[:-1])(r[-1])))


@contract("P10", tol=2e-4, variants=[dict(kinds=k) for k in ("rotate", "reverse", "rotate+reverse", "warp")])
def rescaled_information(E, kinds):
    s = ScaleSetup(E, "TwoPL")
    for n, k in enumerate(kinds.split("+")): E.call(s.m, "add_scale_transformation", s.make(k, str(n))[0])
    N, J, M, D = s.N, s.s.J, s.s.M, s.D
    info = E.call(s.m, "information", s.theta)
    g = E.call(s.m, "probability_gradients", s.theta)
    P = E.call(s.m, "item_probabilities", s.theta)
    E.observe("info", info)
    E.ensure("information on the transformed scale", [N, J, D, D], lambda i, j, a, b: E.eq(E.at(info, i, j, a, b),
             E.sum(2, lambda k: E.div(E.at(g, i, j, k, a) * E.at(g, i, j, k, b), E.at(P, i, j, k)))))
