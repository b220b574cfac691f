"""Contracts on the IRT models: distributions, formulas, likelihood, scores."""
from pyvc.api import contract

MOD = "irtorch.models."
CLS = dict(OnePL="one_parameter_logistic.OneParameterLogistic", TwoPL="two_parameter_logistic.TwoParameterLogistic",
           ThreePL="three_parameter_logistic.ThreeParameterLogistic", GRM="graded_response.GradedResponse",
           GPC="generalized_partial_credit.GeneralizedPartialCredit", NR="nominal_response.NominalResponse")
POLY = ("GPC", "NR", "GRM")
DICH = ("OnePL", "TwoPL", "ThreePL")


class Setup:
    """a fitted model of any size: every parameter value is arbitrary"""
    def __init__(self, E, name, rel=False, N=None, mc=False, Dmin=1, D=None, pre="", theta=None, **kw):
        self.E, self.name, self.pre = E, name, pre
        J = self.J = E.dim(pre + "J")
        self.N = E.dim("N") if N is None else N
        D = self.D = D if D is not None else 1 if name == "OnePL" else E.dim("D", Dmin)
        if name in POLY:
            M = self.M = E.dim(pre + "M", 2)
            self.cats = E.int_list(pre + "cats", J, 2, M)
            self.cat = lambda j: E.item(self.cats, j)
            args = dict(latent_variables=D, item_categories=self.cats)
        else:
            M = self.M = 2
            self.cat = lambda j: 2
            args = dict(items=J) if name == "OnePL" else dict(latent_variables=D, items=J)
        if rel:
            self.rel = E.tensor("rel", J, D, boolean=True)
            E.assume_all([J], lambda j: E.ilt(0, E.sum(D, lambda d: E.ite(E.at(self.rel, j, d), lambda: 1, lambda: 0))))
            args["item_theta_relationships"] = self.rel
        if mc:
            self.mc = E.int_list("mc", J, 0, lambda j: self.cat(j) - 1, top=False)
            self.correct = lambda j: E.item(self.mc, j)
            args["mc_correct"] = self.mc
        if name == "GRM": grm_stub(E)
        self.made = (MOD + CLS[name], dict(args, **kw))
        self.m = E.new(self.made[0], **self.made[1])
        E.havoc(self.m, pre + "par")
        self.theta = E.tensor("theta", self.N, D) if theta is None else theta

    def twin(self, prefix="twin"):
        """another model of the same structure with other parameters"""
        m = self.E.new(self.made[0], **self.made[1])
        self.E.havoc(m, prefix)
        return m

    def call(self, meth, *a, **k): return self.E.call(self.m, meth, *a, **k)

    def order_thresholds(self, strict=False):
        """GRM precondition: category thresholds decrease within an item (what fitting/initialisation maintain)"""
        E, ip = self.E, self.call("item_parameters")
        self.ip = ip
        if E.symbolic:
            E.assume_all([self.J, lambda j: (1, self.cat(j) - 1)], lambda j, k: (E.lt if strict else E.le)(self.d(j, k + 1), self.d(j, k)))
        else:
            import torch
            with torch.no_grad():
                b = self.m.bias_param
                off = 0
                for j in range(self.J):
                    n = self.cat(j) - 1
                    b[off:off + n] = torch.sort(b[off:off + n], descending=True).values
                    if strict: b[off:off + n] -= 0.1 * torch.arange(n)
                    off += n
            E.inputs[self.pre + "par.bias_param"] = b.tolist()
            self.ip = self.call("item_parameters")

    # published parameters (the table a user reads)
    def params(self):
        self.ip = self.call("item_parameters")
        return self
    def a(self, j, d): return self.E.at(self.ip, j, d)
    def d(self, j, k):
        """intercept of category k"""
        return self.E.at(self.ip, j, self.D + (k - 1 if self.name == "GRM" else k))
    def nr_a(self, j, k, d): return self.E.at(self.ip, j, d * self.M + k)
    def nr_d(self, j, k): return self.E.at(self.ip, j, self.D * self.M + k)
    def score(self, i, f):
        return self.E.sum(self.D, lambda d: f(d) * self.E.at(self.theta, i, d))


def grm_stub(E):
    def reset(eng, func, args, kw):
        m = args[0]
        def go():
            fb = eng.getattr(m, "free_bias")
            torch = eng.import_module("torch")
            z = eng.call(eng.getattr(torch, "zeros_like"), [fb], dict(dtype=eng.getattr(torch, "float")))
            w = eng.getattr(m, "weight_param")
            eng.setattr(m, "bias_param", eng.call(eng.getattr(eng.getattr(torch, "nn"), "Parameter"), [eng.getitem(z, fb)], {}))
        go()
    E.stub("irtorch.models.graded_response.GradedResponse.reset_parameters", reset,
           "GradedResponse.reset_parameters creates bias_param with one entry per free bias; its values are arbitrary here")


# ------------------------------------------------------------------ P01
@contract("P01", variants=[dict(model=m) for m in POLY + DICH])
def distribution(E, model):
    s = Setup(E, model)
    if model == "GRM": s.order_thresholds()
    J, N, M = s.J, s.N, s.M
    P = s.call("item_probabilities", s.theta)
    E.observe("P", P)
    E.ensure_shape("shape", P, N, J, M)
    E.ensure("sums to one", [N, J], lambda i, j: E.eq(E.sum(M, lambda k: E.at(P, i, j, k)), 1))
    E.ensure("non-negative", [N, J, M], lambda i, j, k: E.le(0, E.at(P, i, j, k)))
    if model in POLY:
        E.ensure("non-existing categories have probability zero", [N, J, lambda i, j: (s.cat(j), M)], lambda i, j, k: E.ieq(E.at(P, i, j, k), 0))


# ------------------------------------------------------------------ P02
@contract("P02", variants=[dict(model=m) for m in POLY + DICH])
def formula(E, model):
    s = Setup(E, model).params()
    J, N, M, D = s.J, s.N, s.M, s.D
    P = s.call("item_probabilities", s.theta)
    E.observe("P", P)
    if model == "OnePL":
        E.ensure("1PL formula", [N, J], lambda i, j: E.eq(E.at(P, i, j, 1), E.sigmoid(E.at(s.theta, i, 0) + E.at(s.ip, j, 0))))
    elif model in ("TwoPL", "ThreePL"):
        c = (lambda j: E.at(s.ip, j, D + 1)) if model == "ThreePL" else (lambda j: 0)
        E.ensure(f"{model} formula", [N, J], lambda i, j: E.eq(E.at(P, i, j, 1),
                 c(j) + (1 - c(j)) * E.sigmoid(s.score(i, lambda d: s.a(j, d)) + E.at(s.ip, j, D))))
    elif model == "GPC":
        num = lambda i, j, k: E.exp(k * s.score(i, lambda d: s.a(j, d)) + s.d(j, k))
        E.ensure("first category intercept is zero", [J], lambda j: E.eq(s.d(j, 0), 0))
        E.ensure("GPC formula", [N, J, lambda i, j: s.cat(j)], lambda i, j, k: E.eq(E.at(P, i, j, k) * E.sum(s.cat(j), lambda v: num(i, j, v)), num(i, j, k)))
    elif model == "NR":
        num = lambda i, j, k: E.exp(s.score(i, lambda d: s.nr_a(j, k, d)) + s.nr_d(j, k))
        E.ensure("NR formula", [N, J, lambda i, j: s.cat(j)], lambda i, j, k: E.eq(E.at(P, i, j, k) * E.sum(s.cat(j), lambda v: num(i, j, v)), num(i, j, k)))
        E.ensure("NR slopes sum to zero", [J, D], lambda j, d: E.eq(E.sum(s.cat(j), lambda k: s.nr_a(j, k, d)), 0))
        E.ensure("NR intercepts sum to zero", [J], lambda j: E.eq(E.sum(s.cat(j), lambda k: s.nr_d(j, k)), 0))
    elif model == "GRM":
        geq = lambda i, j, k: E.ite(E.ieq(k, 0), lambda: 1, lambda: E.ite(E.ilt(k, s.cat(j)), lambda: E.sigmoid(s.score(i, lambda d: s.a(j, d)) + s.d(j, k)), lambda: 0))
        E.ensure("GRM cumulative formula", [N, J, lambda i, j: s.cat(j)], lambda i, j, k: E.eq(E.at(P, i, j, k), geq(i, j, k) - geq(i, j, k + 1)))


@contract("P02", variants=[dict(model=m) for m in ("GPC", "GRM") + DICH])
def parameter_table(E, model):
    s = Setup(E, model).params()
    J, M, D = s.J, s.M, s.D
    if model == "OnePL":
        E.ensure("labels", [], lambda: E.label_is(s.ip, 0, "d"))
    elif model in ("TwoPL", "ThreePL"):
        E.ensure("slope labels", [D], lambda d: E.label_is(s.ip, d, "a", d + 1))
        E.ensure("intercept label", [], lambda: E.label_is(s.ip, D, "d"))
        if model == "ThreePL": E.ensure("guessing label", [], lambda: E.label_is(s.ip, D + 1, "c"))
    elif model in ("GPC", "GRM"):
        E.ensure("slope labels", [D], lambda d: E.label_is(s.ip, d, "a", d + 1))
        E.ensure("intercept labels", [M if model == "GPC" else M - 1], lambda k: E.label_is(s.ip, D + k, "d", k + 1))


# ------------------------------------------------------------------ P03
def responses(E, s, missing):
    """responses, the mask given to log_likelihood, and the observed category as a function (None: response missing)"""
    cats = s.cats if s.name not in DICH else 2
    kw, m = {}, None
    if missing == "mask":
        # what the training code passes: imputed data and the mask of the responses that were missing
        x = E.data("x", s.N, s.J, cats)
        m = kw["missing_mask"] = E.tensor("mask", s.N, s.J, boolean=True)
    else:
        x = E.data("x", s.N, s.J, cats, missing)
        if missing: kw["missing_mask"] = E.call(x, "isnan")
    gone = lambda i, j: E.at(m, i, j) if m is not None else E.isnan(E.at(x, i, j))
    return x, kw, gone


MISS = (None, "nan", "mask")


def likelihood_entries(E, s, missing, out):
    J, N = s.J, s.N
    x, kw, gone = responses(E, s, missing)
    P = s.call("probabilities_from_output", out)
    ll = s.call("log_likelihood", x, out, loss_reduction="none", **kw)
    E.observe("ll", ll)
    E.ensure_shape("one entry per response", ll, N * J)
    spec = lambda i, j: E.ite(gone(i, j), lambda: E.nan, lambda: E.log(E.at(P, i, j, E.as_int(E.at(x, i, j)))))
    E.ensure("log probability of each observed response, NaN for a missing one", [N, J], lambda i, j: E.eq(E.at(ll, i * J + j), spec(i, j)))


def likelihood_total(E, s, missing, out):
    J, N = s.J, s.N
    x, kw, gone = responses(E, s, missing)
    P = s.call("probabilities_from_output", out)
    ll = s.call("log_likelihood", x, out, loss_reduction="sum", **kw)
    E.observe("ll", ll)
    spec = lambda i, j: E.ite(gone(i, j), lambda: 0, lambda: E.log(E.at(P, i, j, E.as_int(E.at(x, i, j)))))
    E.ensure("sum of the log probabilities of the observed responses", [],
             lambda: E.eq(E.at(ll), E.sum(N, lambda i: E.sum(J, lambda j: spec(i, j)))))


@contract("P03", variants=[dict(model=m, missing=x) for m in POLY + DICH for x in MISS])
def likelihood_none(E, model, missing):
    s = Setup(E, model)
    if model == "GRM": s.order_thresholds()
    likelihood_entries(E, s, missing, s.call("forward", s.theta))


@contract("P03", variants=[dict(model=m, missing=x) for m in POLY + DICH for x in MISS])
def likelihood_sum(E, model, missing):
    s = Setup(E, model)
    if model == "GRM": s.order_thresholds()
    likelihood_total(E, s, missing, s.call("forward", s.theta))


# ------------------------------------------------------------------ callee contract used by the estimation code
def qualname_of(name, meth):
    """class that provides a method of a parametric model"""
    own = dict(log_likelihood=("GRM", "ThreePL"), probabilities_from_output=("GRM", "ThreePL"))
    if meth == "forward" or name in own[meth]: return MOD + CLS[name] + "." + meth
    return MOD + "base_irt_model.BaseIRTModel." + meth


def abstract_likelihood(E, s, version=lambda: ()):
    """forward / probabilities / log-likelihood through their contracts: the probabilities at a point are some positive numbers that depend on the
    point (and the version of the parameters) only, and the log-likelihood lists their logarithms at the observed categories (P03)"""
    if not E.symbolic: return
    from pyvc import tensor as TS
    from pyvc import torchmodel as TM
    from pyvc.terms import app, ite, lift, exp, isnan, NAN, ZERO, add, mul
    from pyvc.interp import Unsupported
    M, J = lift(s.M), lift(s.J)
    size = lambda eng, m: (lift(eng.getattr(m, "items")), lift(eng.getattr(m, "max_item_responses")))
    def forward(eng, func, args, kw):
        th = args[1]
        g, D = th.dims()
        n = TS.simp_int(TS.group_size(D))
        ver = tuple(version())
        def fn(i):
            i = list(i)
            lead = i[:len(g)]
            return app(s.pre + "logp", TM.rowargs(lambda d: th.at_flatgroups(lead + ([d] if D else [])), n) + ver + (i[-2], i[-1]))
        return TS.Tensor.build([g, [J, M]], fn, "float32")
    def probs(eng, func, args, kw):
        out = args[1]
        g = out.dims()[0]
        J, M = size(eng, args[0])
        return TS.Tensor.build([g, [J], [M]], lambda i: exp(out.at_dims([list(i[:len(g)]), list(i[len(g):])])), "float32")
    def loglik(eng, func, args, kw):
        a = dict(zip(("self", "data", "output", "missing_mask", "loss_reduction"), args))
        a.update(kw)
        data, out, mask = a["data"], a["output"], a.get("missing_mask")
        red = a.get("loss_reduction", "sum")
        g, gj = data.dims()
        def entry(i):
            i = list(i)
            r, j = i[:len(g)], i[len(g):]
            x = TS.to_int(data.at_dims([r, j]))
            v = out.at_dims([r, j + [x]])
            if mask is None: return v, None
            return v, mask.at_dims([r, j])
        if red == "none":
            def fn(i):
                v, m = entry(i)
                return v if m is None else ite(m, NAN, v)
            return TS.Tensor.build([g + gj], fn, "float32")
        if red == "sum":
            def fs(i):
                v, m = entry(i)
                return v if m is None else ite(m, ZERO, v)
            return TS.tsum(TS.Tensor.build([g, gj], fs, "float32"))
        raise Unsupported("mean reduction through the likelihood contract")
    E.stub(qualname_of(s.name, "forward"), forward, "forward, a function of the latent scores of the respondent")
    E.stub(qualname_of(s.name, "probabilities_from_output"), probs, "probabilities from the output", proved_by="P01/distribution")
    E.stub(qualname_of(s.name, "log_likelihood"), loglik, "log-likelihood = log probabilities of the observed responses", proved_by="P03/likelihood_none, P03/likelihood_sum")


def probabilities_stub(E, s):
    """item_probabilities through its contract: some distribution for every respondent and item"""
    if not E.symbolic: return
    from pyvc import tensor as TS
    from pyvc.terms import app, lift, ite, eq, sub, ZERO, ONE
    def probs(eng, func, args, kw):
        return TS.Tensor.build([args[1].dims()[0], [lift(s.J)], [lift(s.M)]],
                               (lambda i: app("Pr", tuple(i))) if s.name in POLY else (lambda i: ite(eq(i[2], ZERO), app("Pr", (i[0], i[1], ZERO)), sub(ONE, app("Pr", (i[0], i[1], ZERO))))))
    def total(t, ctx):
        if len(t.args[0]) != 1: return None
        (w, hi), = t.args[0]
        b = t.args[1]
        return ONE if b.op == "app" and b.args[0] == "Pr" and b.args[3] is w and w not in b.args[1].fv | b.args[2].fv and hi is lift(s.M) else None
    E.e.root.msum_rules.append(total)
    E.stub(MOD + "base_irt_model.BaseIRTModel.item_probabilities", probs, "the model's distribution: sums to one", proved_by="P01/distribution")


@contract("P01", variants=[dict(model=m) for m in POLY + DICH])
def simulated_responses(E, model):
    """sample_test_data draws every response from the model's distribution, whatever the random draw (inverse distribution function)"""
    s = Setup(E, model)
    if model == "GRM": s.order_thresholds()
    u = E.uniform("u")
    probabilities_stub(E, s)
    P = s.call("item_probabilities", s.theta)
    X = s.call("sample_test_data", s.theta)
    E.ensure_shape("shape", X, s.N, s.J)
    cum = lambda i, j, k: E.sum(k + 1, lambda l: E.at(P, i, j, l))
    E.ensure("the response is the category at which the distribution function passes the draw", [s.N, s.J], lambda i, j: E.eq(E.at(X, i, j), E.sum(s.M - 1, lambda k: E.ite(E.le(cum(i, j, k), u), 1, 0))))
