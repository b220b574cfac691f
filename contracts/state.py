"""Contracts on what is kept: saving and loading, the caller's data."""
from pyvc.api import contract
from contracts.models import Setup, MOD, CLS, POLY, DICH
from contracts.flex import Flex

RES = "irtorch.rescale."


# ------------------------------------------------------------------ P20
@contract("P20", variants=[dict(model=m) for m in POLY + DICH])
def save_and_load(E, model):
    """a model of the same structure that loads the file answers like the saved one, whatever happens to the saved one afterwards"""
    s = Setup(E, model)
    T = E.dim("T")
    tr = E.tensor("tr", T, s.D)
    other = s.twin()
    E.set(other, "algorithm", E.new("fixtures.algo.Scores", E.tensor("own", E.dim("T2"), s.D)))
    E.set(s.m, "algorithm", E.new("fixtures.algo.Scores", tr))
    P = E.no_grad(lambda: s.call("forward", s.theta))
    E.observe("P", P)
    f = E.path("model.pt")
    s.call("save_model", f)
    E.havoc(s.m, "later")
    tr2 = E.copy(tr)
    E.call(other, "load_model", f)
    Q = E.no_grad(lambda: E.call(other, "forward", s.theta))
    if model in POLY: E.ensure("same output", [s.N, s.J, lambda i, j: s.cat(j)], lambda i, j, k: E.eq(E.at(Q, i, j * s.M + k), E.at(P, i, j * s.M + k)))
    elif model == "ThreePL": E.ensure("same output", [s.N, s.J], lambda i, j: E.eq(E.at(Q, i, j), E.at(P, i, j)))
    else: E.ensure("same output", [s.N, s.J, 2], lambda i, j, k: E.eq(E.at(Q, i, j * 2 + k), E.at(P, i, j * 2 + k)))
    got = E.get(E.get(other, "algorithm"), "training_theta_scores")
    E.ensure("same training scores", [T, s.D], lambda t, d: E.eq(E.at(got, t, d), E.at(tr2, t, d)))


@contract("P20", variants=[dict(kinds=k) for k in ("rotate", "reverse", "warp", "rotate+reverse", "reverse+warp")] + [dict(kinds=k, own=o) for k, o in (("rotate", "reverse"), ("reverse+warp", "rotate"), ("", "rotate"))])
def save_and_load_scales(E, kinds, own=""):
    """scales are saved and loaded with the model, in their order, and take the place of the scales the loading model had"""
    from contracts.scales import ScaleSetup
    s = ScaleSetup(E)
    other = s.s.twin()
    for n, k in enumerate(kinds.split("+") if kinds else ()): E.call(s.m, "add_scale_transformation", s.make(k, str(n))[0])
    if own: E.call(other, "add_scale_transformation", s.make(own, "own")[0])
    y = E.call(s.m, "transform_theta", s.theta)
    E.observe("y", y)
    f = E.path("model.pt")
    E.call(s.m, "save_model", f)
    E.call(s.m, "detach_scale_transformations")
    E.call(other, "load_model", f)
    z = E.call(other, "transform_theta", s.theta)
    E.ensure("same transformation", [s.N, s.D], lambda i, d: E.eq(E.at(z, i, d), E.at(y, i, d)))


@contract("P20", variants=[dict(kind=k, opt=o) for k, o in (("NN", "categories"), ("NN", "items"), ("Poly", "categories"), ("BSpline", "items"), ("BSpline", "categories"), ("Surprisal", None), ("Nested", "nominal"), ("Nested", "bspline"))])
def save_and_load_flexible(E, kind, opt):
    o = {} if opt is None else dict(incorrect=opt) if kind == "Nested" else dict(separate=opt)
    s = Flex(E, kind, **o)
    a = s.made[1]
    if kind == "Nested": a = dict(a, correct_response_model=E.new(MOD + CLS["TwoPL"], latent_variables=s.D, items=s.J))
    other = E.new(s.made[0], **a)
    E.havoc(other, "twin")
    what = "forward" if kind == "NN" else "item_probabilities"
    P = E.no_grad(lambda: s.call(what, s.theta))
    f = E.path("model.pt")
    s.call("save_model", f)
    E.havoc(s.m, "later")
    E.call(other, "load_model", f)
    Q = E.no_grad(lambda: E.call(other, what, s.theta))
    if kind == "NN": E.ensure("same output", [s.N, s.J, lambda i, j: s.cat(j)], lambda i, j, k: E.eq(E.at(Q, i, j * s.M + k), E.at(P, i, j * s.M + k)))
    else: E.ensure("same probabilities", [s.N, s.J, s.M], lambda i, j, k: E.eq(E.at(Q, i, j, k), E.at(P, i, j, k)))
