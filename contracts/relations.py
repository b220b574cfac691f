"""Contracts on how items relate to latent variables: independence (P04) and monotonicity (P05)."""
from pyvc.api import contract
from contracts.models import Setup, POLY, DICH, MOD
from contracts.flex import Flex, out_at, is_soft, NESTB, BASES, bspline_values

REL = [dict(model=m) for m in ("TwoPL", "ThreePL", "GPC", "GRM", "NR")]
FREL = [dict(kind="NN", separate="categories"), dict(kind="NN", separate="items"), dict(kind="NN", separate="categories", negative=False), dict(kind="NN", separate="categories", bounded=False),
        dict(kind="NN", separate="categories", hidden=[3, 6], _bounded="block-separated hidden layers: the blocks are written at symbolic offsets"),
        dict(kind="Poly", separate="categories"), dict(kind="Poly", separate="items"), dict(kind="Poly", separate="categories", negative=False),
        dict(kind="Surprisal"), dict(kind="Nested", incorrect="nominal", _bounded=NESTB), dict(kind="Nested", incorrect="bspline", _bounded=NESTB)]


def independent(E, s, meth, at):
    """an item's answer does not change with the latent variables it has no relationship with: all of them are changed at once"""
    N, J, M, D = s.N, s.J, s.M, s.D
    item = E.integer("item", 0, J)
    E.assume(E.ilt(item, J))
    v = E.tensor("other", N, D)
    theta2 = E.build([N, D], lambda i, d: E.ite(E.at(s.rel, item, d), lambda: E.at(s.theta, i, d), lambda: E.at(v, i, d)))
    P = E.no_grad(lambda: s.call(meth, s.theta))
    Q = E.no_grad(lambda: s.call(meth, theta2))
    E.ensure("unrelated latent variables have no influence", [N, s.cat(item)], lambda i, k: E.eq(at(Q, i, item, k), at(P, i, item, k)))


@contract("P04", variants=REL)
def unrelated_latent_variables(E, model):
    s = Setup(E, model, rel=True)
    independent(E, s, "item_probabilities", lambda P, i, j, k: E.at(P, i, j, k))


@contract("P04", variants=[v for v in REL if v["model"] != "NR"])
def unrelated_slopes_are_zero(E, model):
    s = Setup(E, model, rel=True).params()
    E.ensure("zero slope in the parameter table", [s.J, s.D], lambda j, d: E.implies(E.lnot(E.at(s.rel, j, d)), lambda: E.eq(s.a(j, d), 0)))


@contract("P04", variants=[{k: v for k, v in o.items() if k != "_bounded" or o["kind"] != "Nested"} for o in FREL])
def unrelated_latent_variables_flexible(E, kind, **o):
    """on the model output (the probabilities are a function of it, P01)"""
    s = Flex(E, kind, rel=True, **o)
    if is_soft(kind): independent(E, s, "forward", lambda P, i, j, k: out_at(E, s, P, i, j, k))
    else: independent(E, s, "item_probabilities", lambda P, i, j, k: E.at(P, i, j, k))


# ------------------------------------------------------------------ P05
def basis_derivative(E):
    """the derivative of the B-spline basis only moves weight from lower to higher bases: its tail sums btail are non-negative"""
    if not E.symbolic: return
    from pyvc.terms import app, C, le, ite, ZERO, sub, add, ONE, eq, lor
    r = E.e.root
    tail = lambda x, b: ite(lor(le(b, ZERO), le(C(BASES), b)), ZERO, app("btail", (x, b)))
    r.app_facts["btail"] = lambda a: [le(ZERO, app("btail", a))]
    r.derivs["bspl"] = (0, lambda a: sub(tail(a[0], a[1]), tail(a[0], add(a[1], ONE))))
    E.note("assumed contract: the derivative of a B-spline basis has non-negative tail sums (raising x moves weight to higher bases)")


MONO = [dict(kind="NN", separate=p, **o) for p in ("categories", "items") for o in ({}, dict(negative=False), dict(bounded=False))] + [
    dict(kind="NN", separate="categories", mc=True), dict(kind="NN", separate="categories", hidden=[3, 6], _bounded="block-separated hidden layers: the blocks are written at symbolic offsets"),
    dict(kind="Poly", separate="categories"), dict(kind="Poly", separate="items"), dict(kind="Poly", separate="categories", negative=False), dict(kind="Poly", separate="categories", degree=5),
    dict(kind="BSpline", separate="items"), dict(kind="BSpline", separate="categories")]


@contract("P05", tol=2e-4, variants=MONO)
def log_odds_are_monotone(E, kind, **o):
    """the log-odds of every category over the one below it (multiple choice: of the correct category over every other one) never move against the reported direction"""
    mc = bool(o.get("mc"))
    s = Flex(E, kind, **o)
    if kind == "BSpline": basis_derivative(E)
    dirs = E.no_grad(lambda: s.call("item_theta_relationship_directions", s.theta))
    E.observe("directions", dirs)
    E.ensure_shape("directions per item and latent variable", dirs, s.J, s.D)
    G = E.grad(lambda t: s.call("forward", t), s.theta)
    idx = lambda i, j, k: (i, j, k) if kind == "BSpline" else (i, j * s.M + k)
    for q in range(2) if kind == "NN" else [None]:
        dims = [s.N, s.J] + ([] if q is not None else [s.D])
        def mono(i, j, d, a, b):
            g = lambda k: G(idx(i, j, k), (i, d))
            return E.le(0, E.at(dirs, j, d) * (g(a) - g(b)))
        tag = "" if q is None else f" in latent variable {q}"
        if mc:
            # log-odds of the correct answer over category k = own increment of the correct answer + sum of the increments of the categories other than k
            at = lambda d: d[0] if q is None else q
            if not E.symbolic: E.ensure("correct answer" + tag, [*dims, lambda i, j, *d: s.cat(j)], lambda i, j, *d: mono(i, j, at(d), s.correct(j), d[-1]))
            E.ensure("increments of the other answers" + tag, [*dims, lambda i, j, *d: s.cat(j)],
                     lambda i, j, *d: E.implies(E.lnot(E.ieq(d[-1], s.correct(j))), lambda: E.le(0, E.at(dirs, j, at(d)) * G((i, j * s.M + d[-1]), (i, at(d))))))
            E.ensure("own increment of the correct answer" + tag, dims,
                     lambda i, j, *d: E.le(0, E.at(dirs, j, at(d)) * (G((i, j * s.M + s.correct(j)), (i, at(d))) - E.sum(s.cat(j), lambda k: E.ite(E.ieq(k, s.correct(j)), lambda: 0, lambda: G((i, j * s.M + k), (i, at(d))))))))
        else: E.ensure("log-odds" + tag, [*dims, lambda i, j, *d: (1, s.cat(j))], lambda i, j, *d: mono(i, j, d[0] if q is None else q, d[-1], d[-1] - 1))


@contract("P05", bounded="the expected score's monotonicity follows from that of the log-odds (log_odds_are_monotone); checked on the running code",
          variants=MONO)
def expected_scores_are_monotone(E, kind, **o):
    mc = bool(o.get("mc"))
    s = Flex(E, kind, **o)
    N, J, D = s.N, s.J, s.D
    dirs = E.no_grad(lambda: s.call("item_theta_relationship_directions", s.theta))
    q = E.integer("q", 0, D)
    E.assume(E.ilt(q, D))
    up = E.tensor("step", N, lo=0, hi=3)
    theta2 = E.build([N, D], lambda i, d: E.at(s.theta, i, d) + E.ite(E.ieq(d, q), lambda: E.at(up, i), lambda: 0))
    a = E.no_grad(lambda: s.call("expected_scores", s.theta, return_item_scores=True))
    b = E.no_grad(lambda: s.call("expected_scores", theta2, return_item_scores=True))
    E.ensure("expected item scores", [N, J], lambda i, j: E.le(0, E.at(dirs, j, q) * (E.at(b, i, j) - E.at(a, i, j))))
