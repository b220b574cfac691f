"""Contracts on the flexible (neural, polynomial, spline, nested and mixed) response models and their building blocks."""
import math
from pyvc.api import contract
from contracts.models import Setup, MOD, CLS, MISS, likelihood_entries, likelihood_total
from contracts.scores import expected_of, difficulty_of, gradients_of, score_gradients_of, discrimination_of, information_of

FCLS = dict(NN="monotone_nn.MonotoneNN", Poly="monotone_polynomial.MonotonePolynomial", BSpline="monotone_b_spline.MonotoneBSpline",
            Surprisal="surprisal_spline.SurprisalSpline", Nested="nested_logit.NestedLogit", Mix="model_mix.ModelMix")
BASES = 9      # five inner knots, degree three


def bspline_values(x, degree=3, knots=(-1.7, -0.7, 0, 0.7, 1.7)):
    """values of the B-spline basis (Cox-de Boor) for the default knots"""
    t = [0.0] * (degree + 1) + [1 / (1 + math.exp(-k)) for k in knots] + [1.0] * (degree + 1)
    x = min(max(x, 0.0), 1.0 - 1e-12)
    b = [1.0 if t[i] <= x < t[i + 1] else 0.0 for i in range(len(t) - 1)]
    for d in range(1, degree + 1):
        b = [(((x - t[i]) / (t[i + d] - t[i]) * b[i]) if t[i + d] > t[i] else 0.0) + (((t[i + d + 1] - x) / (t[i + d + 1] - t[i + 1]) * b[i + 1]) if t[i + d + 1] > t[i + 1] else 0.0)
             for i in range(len(b) - 1)]
    return b


def spline_stub(E):
    """the B-spline basis comes from the third-party package splinetorch: one row of non-negative values per point, summing to one"""
    def basis(eng, func, args, kw):
        from pyvc import tensor as TS
        from pyvc.terms import app, C, le, eq, add, ZERO, ONE
        x = args[0]
        g = x.dims()[0]
        def facts(a):
            t = ZERO
            for b in range(BASES): t = add(t, app("bspl", (a[0], C(b))))
            return [le(ZERO, app("bspl", a)), eq(t, ONE)]
        eng.root.app_facts["bspl"] = facts
        E.syms["bspl"] = lambda inp, a: bspline_values(a[0])[int(a[1])]
        return TS.Tensor.build([g, [C(BASES)]], lambda i: app("bspl", (x.at_dims([list(i[:len(g)])]), i[-1])))
    E.stub("irtorch.torch_modules.b_spline.BSplineBasisFunction.forward", basis,
           "splinetorch.b_spline_basis returns, for every point, non-negative basis values that sum to one")


class Flex(Setup):
    def __init__(self, E, kind, N=None, J=None, D=None, **o):
        self.E, self.name, self.pre = E, kind, ""
        self.N = E.dim("N") if N is None else N
        if kind == "Mix":
            self.parts = [Setup.__new__(Setup), Setup.__new__(Setup)]
            raise NotImplementedError
        J = self.J = E.dim("J") if J is None else J
        D = self.D = (2 if kind == "NN" else E.dim("D")) if D is None else D
        M = self.M = E.dim("M", 2)
        lo = 2
        self.cats = E.int_list("cats", J, lo, M)
        self.cat = lambda j: E.item(self.cats, j)
        args = dict(latent_variables=D, item_categories=self.cats)
        self.mc = None
        if o.pop("mc", False) or kind == "Nested":
            self.mc = E.int_list("mc", J, 0, lambda j: self.cat(j) - 1, top=False)
            self.correct = lambda j: E.item(self.mc, j)
            args["mc_correct"] = self.mc
        if o.pop("rel", False):
            self.rel = E.tensor("rel", J, D, boolean=True)
            E.assume_all([J], lambda j: E.ilt(0, E.sum(D, lambda d: E.ite(E.at(self.rel, j, d), lambda: 1, lambda: 0))))
            args["item_theta_relationships"] = self.rel
        else: self.rel = None
        if kind in ("BSpline", "Surprisal") or o.get("incorrect") == "bspline": spline_stub(E)
        if kind == "Nested":
            self.right = E.new(MOD + CLS["TwoPL"], latent_variables=D, items=J, **({} if self.rel is None else dict(item_theta_relationships=self.rel)))
            args["correct_response_model"] = self.right
        if "negative" in o: o["negative_latent_variable_item_relationships"] = o.pop("negative")
        if "bounded" in o: o["use_bounded_activation"] = o.pop("bounded")
        if "hidden" in o: o["hidden_dim"] = o.pop("hidden")
        if "incorrect" in o: o["incorrect_response_model"] = o.pop("incorrect")
        self.made = (MOD + FCLS[kind], dict(args, **o))
        self.m = E.new(self.made[0], **self.made[1])
        E.havoc(self.m)
        self.theta = E.tensor("theta", self.N, D)


NNV = [dict(kind="NN", separate="categories"), dict(kind="NN", separate="items"), dict(kind="NN", separate="categories", mc=True),
       dict(kind="NN", separate="categories", bounded=False), dict(kind="NN", separate="categories", hidden=[3, 6], _bounded="block-separated hidden layers: the blocks are written at symbolic offsets"), dict(kind="NN", separate="categories", negative=False)]
POLYV = [dict(kind="Poly", separate="categories"), dict(kind="Poly", separate="items"), dict(kind="Poly", separate="categories", negative=False)]
SPLV = [dict(kind="BSpline", separate="items"), dict(kind="BSpline", separate="categories"), dict(kind="Surprisal")]
NESTB = "re-indexing of the incorrect categories through a boolean mask: the sum over the selection exceeds the solver's time limit"
NESTV = [dict(kind="Nested", incorrect="nominal", _bounded=NESTB), dict(kind="Nested", incorrect="bspline", _bounded=NESTB)]
ALL = NNV + POLYV + SPLV + NESTV


def is_soft(kind): return kind in ("NN", "Poly", "BSpline")


def out_at(E, s, out, i, j, k):
    """entry of the model output for an item category (flat over item and category, or one axis each)"""
    return E.at(out, i, j, k) if len(E.shape(out)) == 3 else E.at(out, i, j * s.M + k)


@contract("P01", variants=NNV + POLYV + SPLV[:2])
def flexible_output(E, kind, **o):
    """contract of forward: one finite value per existing category, minus infinity for the others"""
    s = Flex(E, kind, **o)
    out = E.no_grad(lambda: s.call("forward", s.theta))
    E.observe("out", out)
    E.ensure("finite for existing categories", [s.N, s.J, lambda i, j: (0, s.cat(j))], lambda i, j, k: E.finite(out_at(E, s, out, i, j, k)))
    E.ensure("minus infinity for non-existing categories", [s.N, s.J, lambda i, j: (s.cat(j), s.M)], lambda i, j, k: E.neginf(out_at(E, s, out, i, j, k)))


def forward_stub(E, s):
    """forward abstracted to its contract (flexible_output)"""
    if not E.symbolic: return
    def fwd(eng, func, args, kw):
        from pyvc import tensor as TS
        from pyvc.terms import app, ite, lt, lift, NINF
        g = args[1].dims()[0]
        dims = [g, [lift(s.J)], [lift(s.M)]] if s.name == "BSpline" else [g, [lift(s.J), lift(s.M)]]
        return TS.Tensor.build(dims, lambda i: ite(lt(i[-1], lift(s.cat(i[-2]))), app("out", tuple(i)), NINF))
    E.stub(f"{MOD}{FCLS[s.name]}.forward", fwd, "forward of the flexible model", proved_by="P01/flexible_output")


SURP = "irtorch.models.surprisal_spline.SurprisalSpline.forward"


def nested_stubs(E, s):
    """the two inner models are used through their contract P01/distribution"""
    if not E.symbolic: return
    def right(eng, func, args, kw):
        from pyvc import tensor as TS
        from pyvc.terms import app, ite, eq, le, lift, ZERO, ONE, sub
        eng.root.app_facts["pr"] = lambda a: [le(ZERO, app("pr", a)), le(app("pr", a), ONE)]
        return TS.Tensor.build([args[1].dims()[0], [lift(s.J)], [lift(2)]], lambda i: ite(eq(i[-1], ZERO), sub(ONE, app("pr", tuple(i[:-1]))), app("pr", tuple(i[:-1]))))
    E.stub(MOD + CLS["TwoPL"] + ".probabilities_from_output", right, "probabilities of the two-category model", proved_by="P01/distribution[model=TwoPL]")
    def wrong(eng, func, args, kw):
        from pyvc import tensor as TS
        from pyvc.terms import app, ite, lt, le, eq, lift, ZERO, ONE, sub, fresh, mksum
        n = lambda j: sub(lift(s.cat(j)), ONE)
        def facts(a):
            q = fresh("q")
            return [le(ZERO, app("pw", a)), eq(mksum(q, ZERO, n(a[1]), app("pw", (a[0], a[1], q))), ONE)]
        eng.root.app_facts["pw"] = facts
        return TS.Tensor.build([args[1].dims()[0], [lift(s.J)], [sub(lift(s.M), ONE)]], lambda i: ite(lt(i[-1], n(i[-2])), app("pw", tuple(i)), ZERO))
    E.stub(MOD + CLS["NR"] + ".probabilities_from_output", wrong, "probabilities of the nominal model over the incorrect categories", proved_by="P01/distribution[model=NR]")


@contract("P01", variants=ALL)
def flexible_distribution(E, kind, **o):
    s = Flex(E, kind, **o)
    if is_soft(kind): forward_stub(E, s)
    if kind == "Nested": nested_stubs(E, s)
    if kind == "Surprisal": E.capture(SURP)
    J, N, M = s.J, s.N, s.M
    P = s.call("item_probabilities", s.theta)
    if not is_soft(kind) and kind != "Nested": E.observe("P", P)
    E.ensure_shape("shape", P, N, J, M)
    if kind == "Surprisal":
        # stick breaking: probability k steps below the top is exp(-S_k) - exp(-S_{k+1}), S the cumulative surprisal
        S = lambda i, j, k: E.sum(k, lambda m: E.at(E.local(SURP, "surprisal"), i, j, m))
        E.ensure_sum("sums to one", [N, J], M, lambda i, j, k: E.at(P, i, j, M - 1 - k), 1, lambda i, j, k: E.ite(E.lt(k, M), lambda: -E.exp(-S(i, j, k)), lambda: 0))
    else: E.ensure("sums to one", [N, J], lambda i, j: E.eq(E.sum(M, lambda k: E.at(P, i, j, k)), 1))
    E.ensure("non-negative", [N, J, M], lambda i, j, k: E.le(0, E.at(P, i, j, k)))
    E.ensure("non-existing categories have probability zero", [N, J, lambda i, j: (s.cat(j), M)], lambda i, j, k: E.eq(E.at(P, i, j, k), 0))


# ------------------------------------------------------------------ P03
def stub_output(E, s):
    if is_soft(s.name): return forward_stub(E, s)
    if not E.symbolic: return
    def fwd(eng, func, args, kw):
        from pyvc import tensor as TS
        from pyvc.terms import app, lift
        return TS.Tensor.build([args[1].dims()[0], [lift(s.J)], [lift(s.M)]], lambda i: app("out", tuple(i)))
    E.stub(f"{MOD}{FCLS[s.name]}.forward", fwd, "forward of the flexible model: its probabilities", proved_by="P01/flexible_distribution")


LIK = [dict(kind=k, missing=x, **o) for k, o in (("NN", dict(separate="categories")), ("Poly", dict(separate="items")), ("BSpline", dict(separate="items")), ("Surprisal", {}), ("Nested", dict(incorrect="nominal"))) for x in MISS]


@contract("P03", wide=False, variants=LIK)
def flexible_likelihood_none(E, kind, missing, **o):
    s = Flex(E, kind, **o)
    stub_output(E, s)
    likelihood_entries(E, s, missing, E.no_grad(lambda: s.call("forward", s.theta)))


@contract("P03", wide=False, variants=LIK)
def flexible_likelihood_sum(E, kind, missing, **o):
    s = Flex(E, kind, **o)
    stub_output(E, s)
    likelihood_total(E, s, missing, E.no_grad(lambda: s.call("forward", s.theta)))


# ------------------------------------------------------------------ P06, P07, P08
def smooth_stub(E, s, name="out"):
    """forward as some differentiable function of the latent scores of the respondent, finite for the categories of the item"""
    if not E.symbolic: return
    def fwd(eng, func, args, kw):
        from pyvc import tensor as TS
        from pyvc import torchmodel as TM
        from pyvc.terms import app, ite, lt, lift, NINF, isc, cval
        th = args[1]
        g, D = th.dims()
        n = TS.simp_int(TS.group_size(D))
        eng.root.smooth[name] = (int(cval(n)) if isc(n) and cval(n) <= 4 else None, n)
        dims = [g, [lift(s.J)], [lift(s.M)]] if s.name in ("BSpline", "Surprisal", "Nested") else [g, [lift(s.J), lift(s.M)]]
        def fn(i):
            lead = list(i[:len(g)])
            v = app(name, TM.rowargs(lambda d: th.at_flatgroups(lead + ([d] if D else [])), n, True) + (i[-2], i[-1]))
            return ite(lt(i[-1], lift(s.cat(i[-2]))), v, NINF if is_soft(s.name) else lift(0))
        return TS.Tensor.build(dims, fn)
    E.stub(f"{MOD}{FCLS[s.name]}.forward", fwd, "forward of the flexible model: a differentiable function of the latent scores", proved_by="P01/flexible_output, P01/flexible_distribution")


FX = [dict(kind="NN", separate="categories"), dict(kind="NN", separate="categories", mc=True), dict(kind="Poly", separate="items"), dict(kind="BSpline", separate="items"), dict(kind="Surprisal"), dict(kind="Nested", incorrect="nominal")]


def smooth(E, kind, o):
    mc = bool(o.get("mc")) or kind == "Nested"
    s = Flex(E, kind, **o)
    smooth_stub(E, s)
    return s, mc


@contract("P06", variants=FX)
def flexible_expected_scores(E, kind, **o):
    s, mc = smooth(E, kind, o)
    expected_of(E, s, mc)


@contract("P06", variants=FX)
def flexible_population_difficulty(E, kind, **o):
    s, mc = smooth(E, kind, o)
    difficulty_of(E, s, mc)


@contract("P08", tol=2e-4, variants=FX)
def flexible_probability_gradients(E, kind, **o):
    s, mc = smooth(E, kind, o)
    gradients_of(E, s)


@contract("P08", tol=2e-4, variants=[dict(v, byitem=b) for v in FX for b in (True, False)])
def flexible_score_gradients(E, kind, byitem, **o):
    s, mc = smooth(E, kind, o)
    score_gradients_of(E, s, mc, byitem)


@contract("P08", tol=2e-4, variants=FX)
def flexible_population_discrimination(E, kind, **o):
    s, mc = smooth(E, kind, o)
    discrimination_of(E, s, mc)


@contract("P07", tol=2e-4, wide=False, variants=FX)
def flexible_information(E, kind, **o):
    s, mc = smooth(E, kind, o)
    information_of(E, s)
