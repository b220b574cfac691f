"""Frame contracts: analysing data leaves the caller's tensors and the fitted model as they were."""
from pyvc.api import contract
from contracts.models import Setup, MOD, CLS, POLY, DICH
from contracts.flex import Flex

PAR = dict(OnePL=["bias_param"], TwoPL=["weight_param", "bias_param"], ThreePL=["weight_param", "bias_param", "guessing_param"],
           GPC=["weight_param", "bias_param"], GRM=["weight_param", "bias_param"], NR=["weight_param", "bias_param"])
BUF = dict(GPC=["gpc_weight_multiplier", "free_weights", "free_bias", "missing_category", "first_category"], GRM=["free_weights", "free_bias", "missing_category", "first_category"],
           NR=["free_weights", "free_bias", "missing_category"], TwoPL=["free_weights"], ThreePL=["free_weights"], OnePL=[])


class Frame:
    """remembers tensors and lists, and states at the end that they are as they were"""
    def __init__(self, E, s=None):
        self.E, self.s, self.kept, self.lists = E, s, [], []
        if s is not None:
            self.state = [(n, E.copy(E.get(s.m, n))) for n in PAR.get(s.name, [])]
            self.bufs = [(n, E.copy(E.get(s.m, n))) for n in BUF.get(s.name, [])]
            if hasattr(s, "cats"): self.list("item categories", s.cats, s.J)
            if hasattr(s, "mc"): self.list("correct categories", s.mc, s.J)

    def keep(self, name, t):
        self.kept.append((name, t, self.E.copy(t)))
        return t

    def list(self, name, l, n):
        self.lists.append((name, l, n, [self.E.item(l, k) for k in range(len(l))] if not self.E.symbolic else l))
        return l

    def check(self):
        E = self.E
        for n, t, snap in self.kept: E.ensure_unchanged(f"{n} unchanged", t, snap)
        if self.s is not None:
            for n, snap in self.state + self.bufs: E.ensure_unchanged(f"{n} of the model unchanged", E.get(self.s.m, n), snap)
        if not E.symbolic:
            for n, l, _, old in self.lists: E.ensure_true(f"{n} unchanged", list(l) == old)


MODELS = [dict(model=m) for m in POLY + DICH]


@contract("P24", variants=MODELS + [dict(model="NR", mc=True)])
def model_answers(E, model, mc=False):
    """asking a model for probabilities, scores and parameters changes neither the latent scores nor the model"""
    s = Setup(E, model, mc=mc)
    if model == "GRM": s.order_thresholds(strict=True)
    f = Frame(E, s)
    th = f.keep("latent scores", s.theta)
    s.call("item_probabilities", th)
    out = s.call("forward", th)
    f.keep("model output", out)
    s.call("probabilities_from_output", out)
    s.call("expected_scores", th)
    s.call("expected_scores", th, return_item_scores=False)
    s.call("population_difficulty", th)
    s.call("item_parameters")
    f.check()


@contract("P24", variants=MODELS + [dict(model="NR", mc=True)])
def derivatives(E, model, mc=False):
    """gradients and information change neither the latent scores nor the model"""
    s = Setup(E, model, mc=mc)
    if model == "GRM": s.order_thresholds(strict=True)
    f = Frame(E, s)
    th = f.keep("latent scores", s.theta)
    s.call("probability_gradients", th)
    s.call("expected_item_score_gradients", th)
    s.call("information", th)
    s.call("population_discrimination", th)
    f.check()


@contract("P24", variants=[dict(model=m, missing=x, reduction=r) for m, x, r in (("GPC", "both", "none"), ("GPC", "nan", "sum"), ("NR", "nan", "none"), ("NR", None, "sum"), ("GRM", "-1", "none"), ("GRM", "both", "sum"),
                                                                                  ("TwoPL", "nan", "none"), ("OnePL", "both", "sum"), ("ThreePL", "nan", "none"), ("ThreePL", "-1", "sum"))])
def likelihood(E, model, missing, reduction):
    """evaluating the log-likelihood changes neither responses, mask, model output nor model"""
    s = Setup(E, model)
    if model == "GRM": s.order_thresholds(strict=True)
    f = Frame(E, s)
    x = f.keep("responses", E.data("x", s.N, s.J, s.cats if model in POLY else 2, missing))
    mask = f.keep("missing mask", E.fn("irtorch._internal_utils.get_missing_mask", x)) if missing else None
    out = f.keep("model output", s.call("forward", s.theta))
    f.keep("latent scores", s.theta)
    s.call("log_likelihood", x, out, mask, loss_reduction=reduction)
    f.check()


EVALUATIONS = dict(residuals=[dict(average_over="none"), dict(average_over="items")], accuracy=[dict(level="all")], infit_outfit=[dict(level="item"), dict(level="respondent")],
                   log_likelihood=[dict(reduction="sum"), dict(reduction="none")], latent_group_probabilities=[dict(groups=2)], group_fit_log_likelihood=[dict(groups=2)])


@contract("P24", variants=[dict(model=m, what=w, missing=x) for m, w, x in (
    ("GPC", "residuals", "both"), ("NRmc", "residuals", "nan"), ("GPC", "accuracy", "nan"), ("GPC", "infit_outfit", "both"), ("NRmc", "infit_outfit", "nan"), ("TwoPL", "log_likelihood", "nan"),
    ("GPC", "log_likelihood", "both"), ("GPC", "latent_group_probabilities", "nan"), ("GPC", "group_fit_log_likelihood", "both"))])
def evaluation(E, model, what, missing):
    """evaluating a fitted model leaves responses, latent scores and model alone"""
    from contracts.evaluate import Evaluation
    v = Evaluation(E, model[:2] if model.startswith("NR") else model, missing, mc=model.endswith("mc"))
    f = Frame(E, v.s)
    if "group" in what:
        E.assume(E.ilt(2, v.N))
        E.argsort(v.N, lambda i: E.at(v.s.theta, i, 0))
    f.keep("responses", v.x); f.keep("latent scores", v.s.theta)
    for kw in EVALUATIONS[what]: E.call(v.ev, what, data=v.x, theta=v.s.theta, **kw)
    f.check()


@contract("P24", bounded="pandas tables and sampled data", variants=[dict(model=m, what=w, missing=x) for m, w, x in (
    ("GPC", "predictions", "both"), ("GPC", "q3", "nan"), ("GPC", "mutual_information_difference", "nan"), ("GPC", "group_fit_residuals", None), ("GPC", "sample_test_data", None), ("TwoPL", "q3p", None), ("TwoPL", "midp", None))])
def tabulation(E, model, what, missing):
    from contracts.evaluate import Evaluation
    v = Evaluation(E, model, missing)
    E.assume(v.N >= 3 and v.J >= 2)
    E.assume_all([v.J, v.J], lambda a, b: sum(not (v.gone(i, a) or v.gone(i, b)) for i in range(v.N)) > 1)
    f = Frame(E, v.s)
    f.keep("responses", v.x); f.keep("latent scores", v.s.theta)
    if what == "sample_test_data": v.s.call(what, v.s.theta)
    elif what in ("q3p", "midp"): E.call(v.ev, "q3" if what == "q3p" else "mutual_information_difference", data=v.x, theta=v.s.theta, sample_hypothesis_test=True, samples=3)
    else: E.call(v.ev, what, data=v.x, theta=v.s.theta, **(dict(groups=2) if "group" in what else {}))
    f.check()


@contract("P24", f32=True, wide=False, variants=[dict(model=m, missing=x, algo=a) for m, x, a in (("TwoPL", None, "scores"), ("GPC", "nan", "scores"), ("NR", "both", "marginal"))])
def posterior_scores(E, model, missing, algo):
    """EAP scores leave the responses, the training scores (or covariance) and the model alone"""
    from contracts.models import abstract_likelihood
    from contracts.estimate import symmetric
    s = Setup(E, model, D=1)
    abstract_likelihood(E, s)
    f = Frame(E, s)
    x = f.keep("responses", E.data("x", s.N, s.J, s.cats if model in POLY else 2, missing))
    if algo == "scores": E.set(s.m, "algorithm", E.new("fixtures.algo.Scores", f.keep("training scores", E.tensor("tr", E.dim("T", 3), 1))))
    else: E.set(s.m, "algorithm", E.new("fixtures.algo.Marginal", f.keep("covariance", symmetric(E, 1))))
    s.call("latent_scores", x, theta_estimation="EAP", eap_theta_integration_points=E.dim("G", 2), device="cpu")
    f.check()


@contract("P24", f32=True, wide=False, bounded="numerical optimisation", variants=[dict(model=m, missing=x, est=e) for m, x, e in (("TwoPL", None, "ML"), ("GPC", "nan", "ML"), ("NR", "both", "MAP"))])
def estimated_scores(E, model, missing, est):
    s = Setup(E, model, D=1)
    f = Frame(E, s)
    x = f.keep("responses", E.data("x", s.N, s.J, s.cats if model in POLY else 2, missing))
    E.set(s.m, "algorithm", E.new("fixtures.algo.Scores", f.keep("training scores", E.tensor("tr", E.dim("T", 3), 1))))
    s.call("latent_scores", x, theta_estimation=est, standard_errors=est == "ML", device="cpu")
    f.check()


@contract("P24", variants=[dict(kinds=k) for k in ("rotate", "reverse", "warp", "rotate+reverse+warp")])
def rescaling(E, kinds):
    """transforming scores and gradients leaves the scores, the scales and the model alone"""
    from contracts.scales import ScaleSetup
    s = ScaleSetup(E, "TwoPL")
    f = Frame(E, s.s)
    for n, k in enumerate(kinds.split("+")):
        sc, _ = s.make(k, str(n))
        E.call(s.m, "add_scale_transformation", sc)
        if k == "rotate": f.keep(f"rotation matrix {n}", E.get(sc, "rotation_matrix"))
    th = f.keep("latent scores", s.theta)
    y = E.call(s.m, "transform_theta", th)
    f.keep("transformed scores", y)
    if "warp" not in kinds: E.call(s.m, "inverse_transform_theta", y)
    E.call(s.m, "theta_transform_jacobian", th)
    g = f.keep("gradients", E.tensor("g", s.N, s.s.J, s.s.M, s.D))
    E.call(s.m, "_rescale_gradients", g, th)
    f.check()


@contract("P24", variants=[dict(kind="NN", separate="categories"), dict(kind="NN", separate="items"), dict(kind="Poly", separate="categories"), dict(kind="Poly", separate="items"), dict(kind="BSpline", separate="items"), dict(kind="Surprisal"),
                           dict(kind="Nested", incorrect="nominal"), dict(kind="Nested", incorrect="bspline")])
def flexible_answers(E, kind, **o):
    s = Flex(E, kind, **o)
    f = Frame(E)
    th = f.keep("latent scores", s.theta)
    p = f.keep("first answer", E.no_grad(lambda: s.call("item_probabilities", th)))
    E.no_grad(lambda: s.call("expected_scores", th))
    if kind == "NN" and E.symbolic: return f.check()
    q = E.no_grad(lambda: s.call("item_probabilities", th))
    f.check()
    E.ensure("asking again gives the same answer", [s.N, s.J, s.M], lambda i, j, k: E.eq(E.at(p, i, j, k), E.at(q, i, j, k)))


@contract("P24", variants=[dict(what=w) for w in ("identify_outliers", "is_outlier", "smallest_largest_non_outlier")])
def outliers(E, what):
    f = Frame(E)
    N, J = E.dim("N", 2), E.dim("J")
    x = f.keep("data", E.tensor("x", N, J))
    d = E.new("irtorch.outlier_detector.OutlierDetector", factor=E.real("factor", 1, 3))
    if what == "is_outlier": E.call(d, what, f.keep("observations", E.tensor("new", E.dim("K"), J)), x)
    else: E.call(d, what, x)
    f.check()


@contract("P24", variants=[dict(model=m, missing=x, alg=a) for m, x, a in (("GPC", "both", "ae"), ("TwoPL", "nan", "ae"), ("GPC", "nan", "vae"), ("TwoPL", "-1", "vae"))])
def training_batch(E, model, missing, alg):
    """a training batch leaves the responses alone"""
    from contracts.models import abstract_likelihood
    s = Setup(E, model, D=2)
    abstract_likelihood(E, s)
    f = Frame(E, s)
    x = f.keep("responses", E.data("x", s.N, s.J, s.cats if model in POLY else 2, missing))
    a = E.new(f"irtorch.estimation_algorithms.{alg}.{alg.upper()}")
    if alg == "ae": out = [f.keep("encoder output", s.theta)]
    else:
        out = [f.keep("encoder means", s.theta), f.keep("encoder log variances", E.tensor("lv", s.N, 2, lo=-2, hi=1))]
        E.set(a, "iw_samples", 1)
        E.noise("eps", s.N, 2)
    E.set(a, "encoder", E.new("fixtures.algo.Fixed", *out))
    ds = E.new("irtorch.irt_dataset.PytorchIRTDataset", data=x)
    for n in ("input_data", "data", "mask"): f.keep(n, E.get(ds, n))
    E.call(a, "_train_batch", s.m, E.get(ds, "input_data"), E.get(ds, "data"), E.get(ds, "mask"))
    f.check()


@contract("P24", bounded="whole training runs", f32=True, wide=False, variants=[dict(alg=a, missing=x) for a in ("mml", "jml", "ae", "vae") for x in (None, "nan", "both")])
def fitting(E, alg, missing):
    """fitting changes the model, never the responses"""
    import torch
    s = Setup(E, "GPC", D=1)
    E.assume(s.N >= 4)
    f = Frame(E)
    x = f.keep("responses", E.data("x", s.N, s.J, s.cats, missing))
    E.assume(all(len({int(v) for v in x[:, j].tolist() if v == v and v != -1}) > 1 for j in range(s.J)))
    a = E.new(f"irtorch.estimation_algorithms.{alg}.{alg.upper()}")
    E.call(s.m, "fit", train_data=x, algorithm=a, max_epochs=2, device="cpu")
    f.check()


SHAPES = "data utilities with data dependent shapes"


@contract("P24", variants=[dict(what=w, missing=x) for w, x in (("split_data", None), ("split_data", "nan"), ("folds", None), ("gauss_hermite", None), ("sum_score", "both"))]
          + [dict(what=w, missing=x, _bounded=SHAPES) for w, x in (("get_item_categories", "nan"), ("conditional", None), ("joint_entropy_matrix", "nan"), ("correlation_matrix", "nan"))])
def utilities(E, what, missing):
    f = Frame(E)
    N, J = E.dim("N", 4), E.dim("J", 2)
    U, I = "irtorch.utils.", "irtorch._internal_utils."
    if what == "gauss_hermite":
        from contracts.estimate import symmetric
        E.fn(U + what, n=3, mean=f.keep("mean", E.tensor("mean", 2)), covariance=f.keep("covariance", symmetric(E, 2)))
    elif what == "conditional":
        cats = f.list("item categories", E.int_list("cats", J, 2, 4), J)
        E.fn(I + "conditional_score_distribution", f.keep("probabilities", E.tensor("p", N, J, 4, lo=0, hi=1)), cats)
    else:
        x = f.keep("data", E.data("x", N, J, 3, missing))
        if what == "get_item_categories": E.assume_all([J], lambda j: any(not E.missing("x", E.at(x, i, j)) for i in range(N)))
        if what == "joint_entropy_matrix": E.assume_all([J, J], lambda a, b: sum(not (E.missing("x", E.at(x, i, a)) or E.missing("x", E.at(x, i, b))) for i in range(N)) > 1)
        if what == "split_data":
            E.fn(U + what, x, 0.5); E.fn(U + what, x, 0.5, shuffle=False)
        elif what == "folds": E.fn(U + "_prepare_cross_validation_data", x, 2)
        else: E.fn((U if what == "get_item_categories" else I) + what, x)
    f.check()
