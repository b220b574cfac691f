"""Contracts on the monotone splines behind the flow and linking scales."""
from pyvc.api import contract, gen_real

RQS = "irtorch.torch_modules.rational_quadratic_spline.RationalQuadraticSpline"


class Spline:
    """a rational quadratic spline with arbitrary bounds and parameters; u(which, i, v, k): the k-th knot of row v scaled to [0, 1]"""
    def __init__(self, E, bins=None, free=False):
        self.E = E
        self.N, self.V, self.K = E.dim("N", cmax=4), E.dim("V", cmax=3), bins or E.dim("K", 2, cmax=6)
        self.min = {w: E.real("min_" + w, gen=gen_real(1e-4, 0.1, ())) for w in ("widths", "heights", "slope")}
        E.assume(E.lt(self.min["slope"], 1))
        for w in self.min: E.assume(E.lt(0, self.min[w]))
        for w in ("widths", "heights"): E.assume(E.le(self.min[w] * self.K, 1))
        self.a, self.la, self.c, self.lc = (E.real(n, gen=gen_real(lo, hi, ())) for n, lo, hi in (("a", -3, 0), ("la", 1, 6), ("c", -3, 0), ("lc", 1, 6)))
        E.assume(E.lt(0, self.la)), E.assume(E.lt(0, self.lc))
        self.b, self.d = self.a + self.la, self.c + self.lc
        self.s = E.new(RQS, self.V, num_bins=self.K, lower_input_bound=self.a, upper_input_bound=self.b, lower_output_bound=self.c, upper_output_bound=self.d, free_endpoints=free,
                       min_bin_width=self.min["widths"], min_bin_height=self.min["heights"], min_derivative=self.min["slope"])
        E.havoc(self.s, "par", only=["unnormalized_widths", "unnormalized_heights", "unnormalized_derivatives"])
        if E.symbolic: self.stubs()

    def stubs(self):
        """callees through their contracts: sorted knots from the lower to the upper bound (spline_knots), positive slopes"""
        E = self.E
        from pyvc import tensor as TS
        from pyvc.terms import app, lift, add, sub, mul, eq, land, lt, le, ZERO, ONE, fresh, subst, subterms
        K = lift(self.K)
        def knots(eng, func, args, kw):
            raw, lo, hi = args[1], lift(E.value(args[2])), lift(E.value(args[3]))
            g = raw.dims()
            name = "uh" if "heights" in repr(raw.at(TS.group_idx(TS.fresh_phs(raw.axes), raw.axes))) else "uw"
            least = lift(E.value(args[4]))
            u = lambda i, k: app(name, tuple(self.flatidx(i[:-1])) + (k, least))
            cum = TS.Tensor.build([*g[:-1], [add(K, ONE)]], lambda i: add(lo, mul(sub(hi, lo), u(i, i[-1]))), "float32")
            w = TS.Tensor.build([*g[:-1], [K]], lambda i: mul(sub(hi, lo), app("s" + name[1], tuple(self.flatidx(i)) + (least,))), "float32")
            return (cum, w)
        def search(t, ctx):
            """number of knots below a point of bin b: the indicator is constant up to b and constant after it"""
            if len(t.args[0]) != 1: return None
            (w, hi), = t.args[0]
            z = next((z for z in subterms(t.args[1]) if z.op == "app" and z.args[0] == "z" and w not in z.fv), None)
            if z is None: return None
            b = lift(self.B(*z.args[1:]))
            h, total = add(b, ONE), ZERO
            for lo_, hi_ in ((ZERO, h), (h, hi)):
                z = fresh("z")
                ch, body = ctx.child(le(lo_, z), lt(z, hi_)), subst(t.args[1], {w: z})
                c = next((c for c in (ZERO, ONE) if ch.decide(eq(body, c)) is True), None)
                if c is None: return None
                total = add(total, mul(c, sub(hi_, lo_)))
            return total if ctx.decide(land(le(ZERO, h), le(h, hi))) is True else None
        E.e.root.msum_rules.append(search)
        E.stub(RQS + "._compute_cumparams", knots, "sorted knots from the lower to the upper bound", proved_by="P14/spline_knots")
        E.stub(RQS + "._pad_derivatives", lambda eng, func, args, kw: TS.Tensor.build([*args[1].dims()[:-1], [add(K, ONE)]], lambda i: app("dv", tuple(self.flatidx(i[:-1])) + (i[-1],)), "float32"),
               "slopes at the knots", proved_by="P14/spline_slopes")

    def flatidx(self, i):
        out = []
        for x in i: out += list(x) if isinstance(x, tuple) else [x]
        return out

    def u(self, which, i, v, k):
        E = self.E
        if E.symbolic:
            from pyvc.terms import app, lift
            return app("u" + which[0], (lift(i), lift(v), lift(k), lift(E.value(self.min[which]))))
        p = E.param(self.s, "unnormalized_" + which)
        e = [E.exp(E.at(p, v, j)) for j in range(self.K)]
        return sum(self.min[which] + (1 - self.min[which] * self.K) * e[j] / sum(e) for j in range(k))

    def size(self, which, i, v, k):
        """size of bin k scaled to [0, 1]"""
        E = self.E
        if E.symbolic:
            from pyvc.terms import app, lift
            return app("s" + which[0], (lift(i), lift(v), lift(k), lift(E.value(self.min[which]))))
        return self.u(which, i, v, k + 1) - self.u(which, i, v, k)

    def slope(self, i, v, k):
        E = self.E
        if E.symbolic:
            from pyvc.terms import app, lift
            return self.min["slope"] + E.softplus(app("dv", (lift(i), lift(v), lift(k))))
        import math
        if k in (0, self.K): return 1.0
        return self.min["slope"] + E.softplus(E.at(E.param(self.s, "unnormalized_derivatives"), v, k - 1))

    def inside(self, which="widths"):
        """points between the bounds, scaled to [0, 1] (self.z); the bin of each is the one whose knots enclose it"""
        E, N, V, K = self.E, self.N, self.V, self.K
        u = lambda i, v, k: self.u(which, i, v, k)
        bin = E.tensor("bin", N, V, lo=0, hi=6, integer=True)
        if E.symbolic:
            B = lambda i, v: E.at(bin, i, v)
            z = E.tensor("z", N, V)
            E.assume_all([N, V], lambda i, v: E.land(E.ile(0, B(i, v)), E.ilt(B(i, v), K)))
            E.assume_all([N, V], lambda i, v: E.land(E.le(0, E.at(z, i, v)), E.lt(E.at(z, i, v), 1)))
            E.assume_all([N, V, K + 1], lambda i, v, k: E.land(E.implies(E.ile(k, B(i, v)), lambda: E.le(u(i, v, k), E.at(z, i, v))), E.implies(E.ilt(B(i, v), k), lambda: E.lt(E.at(z, i, v), u(i, v, k)))))
            for w in ("widths", "heights"):
                E.assume_all([N, V, K], lambda i, v, k: E.lt(0, self.size(w, i, v, k)))
            E.note("every point between the bounds lies in exactly one bin of the sorted knots")
            self.z = lambda i, v: E.at(z, i, v)
        else:
            B = lambda i, v: int(E.at(bin, i, v)) % K
            th = E.tensor("th", N, V, lo=0, hi=1)
            self.z = lambda i, v: u(i, v, B(i, v)) + E.at(th, i, v) * (u(i, v, B(i, v) + 1) - u(i, v, B(i, v)))
        self.B = B
        lo, size = (self.a, self.la) if which == "widths" else (self.c, self.lc)
        return E.build([N, V], lambda i, v: lo + size * self.z(i, v))

    def cell(self, i, v):
        """lower corner and size of the bin, slopes at its ends"""
        b = self.B(i, v)
        return (self.a + self.la * self.u("widths", i, v, b), self.c + self.lc * self.u("heights", i, v, b), self.la * self.size("widths", i, v, b), self.lc * self.size("heights", i, v, b),
                self.slope(i, v, b), self.slope(i, v, b + 1))

    def formula(self, i, v):
        E = self.E
        x0, y0, w, h, dl, dr = self.cell(i, v)
        t = E.div(self.a + self.la * self.z(i, v) - x0, w)
        return rq(E, t, x0, y0, w, h, dl, dr)


def rq(E, t, x0, y0, w, h, dl, dr):
    s = E.div(h, w)
    return y0 + E.div(h * (s * t * t + dl * t * (1 - t)), s + (dl + dr - 2 * s) * t * (1 - t))


def rq_slope(E, t, x0, y0, w, h, dl, dr):
    s = E.div(h, w)
    q = s + (dl + dr - 2 * s) * t * (1 - t)
    return E.div(s * s * (dr * t * t + 2 * s * t * (1 - t) + dl * (1 - t) * (1 - t)), q * q)


@contract("P14")
def spline_formula(E):
    """between the bounds: the rational quadratic through the knots of the bin with the given slopes"""
    s = Spline(E)
    x = s.inside()
    y, l = E.value(E.call(s.s, None, x))
    E.observe("y", y)
    E.ensure_shape("shape", y, s.N, s.V)
    E.ensure("rational quadratic interpolant of the bin", [s.N, s.V], lambda i, v: E.eq(E.at(y, i, v), s.formula(i, v)))
    E.ensure("log slope of the interpolant", [s.N, s.V], lambda i, v: E.eq(E.at(l, i, v), log_slope(E, E.div(s.a + s.la * s.z(i, v) - s.cell(i, v)[0], s.cell(i, v)[2]), *s.cell(i, v))))


def log_slope(E, t, x0, y0, w, h, dl, dr):
    s = E.div(h, w)
    q = s + (dl + dr - 2 * s) * t * (1 - t)
    return E.log(s * s * (dr * t * t + 2 * s * t * (1 - t) + dl * (1 - t) * (1 - t))) - 2 * E.log(q)


def rq_root(E, y, x0, y0, w, h, dl, dr):
    """relative position in the bin of the point with value y"""
    s = E.div(h, w)
    a, b, c = (y - y0) * (dl + dr - 2 * s) + h * (s - dl), h * dl - (y - y0) * (dl + dr - 2 * s), -s * (y - y0)
    return E.div(2 * c, -b - E.sqrt(b * b - 4 * a * c))


@contract("P14")
def spline_inverse_formula(E):
    """between the output bounds: the point of the bin at the root of the quadratic equation"""
    s = Spline(E)
    y = s.inside("heights")
    x, l = E.value(E.call(s.s, None, y, inverse=True))
    E.observe("x", x)
    E.ensure_shape("shape", x, s.N, s.V)
    root = lambda i, v: rq_root(E, s.c + s.lc * s.z(i, v), *s.cell(i, v))
    E.ensure("solution of the quadratic equation of the bin", [s.N, s.V], lambda i, v: E.eq(E.at(x, i, v), s.cell(i, v)[0] + root(i, v) * s.cell(i, v)[2]))
    E.ensure("minus the log slope at the solution", [s.N, s.V], lambda i, v: E.eq(E.at(l, i, v), -log_slope(E, root(i, v), *s.cell(i, v))))


@contract("P14", variants=[dict(inverse=i, side=s) for i in (False, True) for s in ("below", "above")])
def spline_tails(E, inverse, side):
    """outside the bounds: the line through the end of the spline with the average slope, and its log slope"""
    s = Spline(E)
    r = E.tensor("r", s.N, s.V, lo=0, hi=3)
    E.assume_all([s.N, s.V], lambda i, v: E.lt(0, E.at(r, i, v)))
    (a, b, la), (c, d, lc) = ((s.c, s.d, s.lc), (s.a, s.b, s.la)) if inverse else ((s.a, s.b, s.la), (s.c, s.d, s.lc))
    x = E.build([s.N, s.V], lambda i, v: a - E.at(r, i, v) if side == "below" else b + E.at(r, i, v))
    y, l = E.value(E.call(s.s, None, x, inverse=inverse))
    E.observe("y", y)
    slope = E.div(lc, la)
    E.ensure("linear", [s.N, s.V], lambda i, v: E.eq(E.at(y, i, v), c - slope * E.at(r, i, v) if side == "below" else d + slope * E.at(r, i, v)))
    E.ensure("log slope of the line", [s.N, s.V], lambda i, v: E.eq(E.exp(E.at(l, i, v)), slope))


@contract("P14")
def spline_knots(E):
    """the knots rise from the lower to the upper bound, every bin takes at least the minimal share and the rest is shared by softmax"""
    V, K = E.dim("V", cmax=3), E.dim("K", 2, cmax=8)
    MIN = E.real("least", gen=gen_real(1e-4, 0.1, ()))
    E.assume(E.land(E.lt(0, MIN), E.le(MIN * K, 1)))
    lo, size = E.real("lo"), E.real("size", gen=gen_real(0.5, 6, ()))
    E.assume(E.lt(0, size))
    s = E.new(RQS, V, num_bins=K)
    raw = E.tensor("raw", V, K)
    cum, w = E.value(E.call(s, "_compute_cumparams", raw, lo, lo + size, MIN))
    E.observe("cum", cum)
    E.ensure_shape("one more knot than bins", cum, V, K + 1)
    E.ensure_shape("one size per bin", w, V, K)
    share = lambda v, k: MIN + (1 - MIN * K) * E.div(E.exp(E.at(raw, v, k)), E.sum(K, lambda j: E.exp(E.at(raw, v, j))))
    E.ensure("size of every bin", [V, K], lambda v, k: E.eq(E.at(w, v, k), size * share(v, k)))
    E.ensure("knots are cumulated sizes", [V, K], lambda v, k: E.eq(E.at(cum, v, k), lo + size * E.sum(k, lambda j: share(v, j))))
    E.ensure("last knot is the upper bound", [V], lambda v: E.eq(E.at(cum, v, K), lo + size))
    E.ensure("every bin takes the minimal share", [V, K], lambda v, k: E.land(E.le(size * MIN, E.at(w, v, k)), E.lt(0, E.at(w, v, k))))


@contract("P14")
def spline_slopes(E):
    """slopes at the inner knots are the parameters, the end slopes are one after the minimal slope is added"""
    V, K = E.dim("V", cmax=3), E.dim("K", 2, cmax=8)
    MIN = E.real("least", gen=gen_real(1e-4, 0.1, ()))
    E.assume(E.land(E.lt(0, MIN), E.lt(MIN, 1)))
    s = E.new(RQS, V, num_bins=K, min_derivative=MIN)
    raw = E.tensor("raw", V, K - 1)
    E.have("the end slopes exceed the minimum", [], lambda: E.lt(E.exp(MIN), E.exp(1)))
    out = E.call(s, "_pad_derivatives", raw)
    E.observe("out", out)
    E.ensure_shape("one slope per knot", out, V, K + 1)
    E.ensure("inner knots", [V, K - 1], lambda v, k: E.eq(E.at(out, v, k + 1), E.at(raw, v, k)))
    for name, k in (("first", 0), ("last", K)): E.ensure(f"slope one at the {name} knot", [V], lambda v: E.eq(MIN + E.softplus(E.at(out, v, k)), 1))


@contract("P14")
def spline_bounds(E):
    """more bins than the minimal sizes leave room for are rejected"""
    V, K = 2, E.dim("K", 2, cmax=12)
    m = E.real("m", gen=gen_real(0.01, 0.5, (0.1, 0.25)))
    E.assume(E.lt(1 if E.symbolic else 1.01, m * K))
    x = E.tensor("x", 1, V, lo=0, hi=1)
    for v in range(V): E.assume(E.land(E.le(0, E.at(x, 0, v)), E.le(E.at(x, 0, v), 1)))
    for kw in (dict(min_bin_width=m), dict(min_bin_height=m)):
        s = E.new(RQS, V, num_bins=K, **kw)
        E.ensure_true("rejected", E.raises(lambda: E.call(s, None, x), "ValueError"))


def cell_vars(E):
    r = lambda n, lo=0.1, hi=4: E.real(n, gen=gen_real(lo, hi, ()))
    x0, y0, w, h, dl, dr, t = r("x0", -3, 3), r("y0", -3, 3), r("w"), r("h"), r("dl"), r("dr"), r("t", 0, 1)
    for p in (w, h, dl, dr): E.assume(E.lt(0, p))
    E.assume(E.land(E.le(0, t), E.le(t, 1)))
    return t, (x0, y0, w, h, dl, dr)


@contract("P14")
def bin_is_monotone(E):
    """inside a bin: the interpolant starts and ends at the corners with the slopes of the knots, and its slope is positive"""
    t, c = cell_vars(E)
    x0, y0, w, h, dl, dr = c
    s = E.div(h, w)
    E.ensure_true("starts at the lower corner", E.eq(rq(E, 0, *c), y0))
    E.ensure_true("ends at the upper corner", E.eq(rq(E, 1, *c), y0 + h))
    E.ensure_true("slope at the lower knot", E.eq(rq_slope(E, 0, *c), dl))
    E.ensure_true("slope at the upper knot", E.eq(rq_slope(E, 1, *c), dr))
    D, N = s + (dl + dr - 2 * s) * t * (1 - t), h * (s * t * t + dl * t * (1 - t))
    E.ensure_true("denominator is positive", E.lt(0, s * (1 - 2 * t * (1 - t)) + (dl + dr) * t * (1 - t)))
    dD, dN = (dl + dr - 2 * s) * (1 - 2 * t), h * (2 * s * t + dl * (1 - 2 * t))
    E.ensure_true("quotient rule", E.eq(dN * D - N * dD, w * (s * s * (dr * t * t + 2 * s * t * (1 - t) + dl * (1 - t) * (1 - t)))))
    E.ensure_true("slope is positive", E.lt(0, dr * t * t + 2 * s * t * (1 - t) + dl * (1 - t) * (1 - t)))


@contract("P14")
def bin_root_inverts(E):
    """the root used by the inverse is the position the interpolant was evaluated at"""
    t, c = cell_vars(E)
    x0, y0, w, h, dl, dr = c
    s = E.div(h, w)
    D, N = s + (dl + dr - 2 * s) * t * (1 - t), h * (s * t * t + dl * t * (1 - t))
    E.assume(E.lt(0, D))                                   # bin_is_monotone: denominator is positive
    e = E.div(N, D)
    a, b, q = e * (dl + dr - 2 * s) + h * (s - dl), h * dl - e * (dl + dr - 2 * s), -s * e
    r = E.div(h * s * (dr * t * t + 2 * s * t * (1 - t) + dl * (1 - t) * (1 - t)), D)
    E.ensure_true("the position solves the quadratic equation", E.eq(a * t * t + b * t + q, 0))
    E.ensure_true("square root of the discriminant", E.eq(b * b - 4 * a * q, r * r))
    E.ensure_true("derivative of the equation", E.eq(2 * a * t + b, r))
    E.ensure_true("the chosen root is the position", E.eq(2 * q, t * (-b - r)))


# ------------------------------------------------------------------ scales built on a monotone transformation
class FlowScale:
    """a fitted Flow: any means, positive standard deviations and a monotone transformation of every variable (exp(rate * x + shift))"""
    def __init__(self, E):
        self.E = E
        self.N, self.V = E.dim("N", cmax=4), E.dim("V", cmax=3)
        self.t = E.new("fixtures.monotone.Monotone", self.V)
        E.havoc(self.t, "par", lo=0.2, hi=1.5, special=None)
        self.nf = E.new("irtorch.torch_modules.neural_spline_flow.NeuralSplineFlow", self.t, E.new("torch.distributions.Normal", 0.0, 1.0))
        self.sc = E.new("irtorch.rescale.flow.Flow", self.V)
        self.mu, self.sd = E.tensor("mu", self.V), E.tensor("sd", self.V, lo=0.3, hi=3)
        E.assume_all([self.V], lambda v: E.lt(0, E.at(self.sd, v)))
        E.assume_all([self.V], lambda v: E.lt(0, E.at(E.param(self.t, "rate"), v)))
        E.set(self.sc, "flow", self.nf), E.set(self.sc, "theta_means", self.mu), E.set(self.sc, "theta_stds", self.sd)
        self.x = E.tensor("x", self.N, self.V)
        self.std = lambda i, v: E.div(E.at(self.x, i, v) - E.at(self.mu, v), E.at(self.sd, v))
        self.f = lambda z, v: E.exp(E.at(E.param(self.t, "rate"), v) * z + E.at(E.param(self.t, "shift"), v))


@contract("P14", tol=1e-4, modules=["fixtures.monotone"])
def flow_scale(E):
    """transform standardises and applies the monotone transformation; inverse undoes transform"""
    s = FlowScale(E)
    snap = E.copy(s.x)
    y = E.call(s.sc, "transform", s.x)
    E.observe("y", y)
    E.ensure_shape("shape", y, s.N, s.V)
    E.ensure("transformation of the standardised scores", [s.N, s.V], lambda i, v: E.eq(E.at(y, i, v), s.f(s.std(i, v), v)))
    back = E.call(s.sc, "inverse", y)
    E.ensure("inverse after transform", [s.N, s.V], lambda i, v: E.eq(E.at(back, i, v), E.at(s.x, i, v)))
    E.ensure_unchanged("theta unchanged", s.x, snap)


@contract("P14", tol=2e-4, modules=["fixtures.monotone"])
def flow_jacobian(E):
    s = FlowScale(E)
    J = E.call(s.sc, "jacobian", s.x)
    d = E.grad(lambda x: E.call(s.sc, "transform", x), s.x)
    E.observe("J", J)
    E.ensure_shape("shape", J, s.N, s.V, s.V)
    E.ensure("derivative of transform", [s.N, s.V, s.V], lambda i, a, b: E.eq(E.at(J, i, a, b), d((i, a), (i, b))))


@contract("P14", tol=2e-4, modules=["fixtures.monotone"])
def flow_density(E):
    """log_prob is the log density of a variable whose transformation is standard normal (change of variables)"""
    s = FlowScale(E)
    l = E.call(s.nf, "log_prob", s.x)
    d = E.grad(lambda x: E.call(s.nf, None, x), s.x)
    E.observe("l", l)
    E.ensure_shape("shape", l, s.N, s.V)
    E.ensure("normal density of the transformed value times the slope", [s.N, s.V], lambda i, v: E.eq(E.exp(E.at(l, i, v)),
             E.exp(-E.div(s.f(E.at(s.x, i, v), v) * s.f(E.at(s.x, i, v), v), 2)) * E.div(d((i, v), (i, v)), E.sqrt(2 * E.pi))))


class Linking:
    """a linking scale between two models with one latent variable"""
    def __init__(self, E, method, inverted, **kw):
        self.E = E
        self.N = E.dim("N", cmax=5)
        J, J2 = E.dim("J", cmax=4), E.dim("J2", cmax=4)
        mod = lambda j: E.new("irtorch.models.two_parameter_logistic.TwoParameterLogistic", latent_variables=1, items=j)
        self.sc = E.new("irtorch.rescale.link_common_items.LinkCommonItems", mod(J), mod(J2), [0], [0], method=method, inverted=inverted, **kw)
        self.x = E.tensor("x", self.N, 1)
        self.sign = -1 if inverted else 1


@contract("P14", tol=1e-4, modules=["fixtures.monotone"], variants=[dict(inverted=b) for b in (False, True)])
def linking_scale(E, inverted):
    """the linked scale is the monotone transformation, decreasing when inverted; inverse and jacobian belong to it"""
    s = Linking(E, "spline", inverted)
    t = E.new("fixtures.monotone.Monotone", 1)
    E.havoc(t, "par", lo=0.2, hi=1.5, special=None)
    r, c = E.at(E.param(t, "rate"), 0), E.at(E.param(t, "shift"), 0)
    E.assume(E.lt(0, r))
    E.swap(s.sc, "RationalQuadraticSpline", t)
    snap = E.copy(s.x)
    y = E.call(s.sc, "transform", s.x)
    E.observe("y", y)
    E.ensure_shape("shape", y, s.N, 1)
    E.ensure("monotone transformation, reversed if inverted", [s.N], lambda i: E.eq(E.at(y, i, 0), s.sign * E.exp(r * E.at(s.x, i, 0) + c)))
    back = E.call(s.sc, "inverse", y)
    E.ensure("inverse after transform", [s.N], lambda i: E.eq(E.at(back, i, 0), E.at(s.x, i, 0)))
    J = E.call(s.sc, "jacobian", s.x)
    E.ensure_shape("shape of the jacobian", J, s.N, 1, 1)
    E.ensure("jacobian is the slope", [s.N], lambda i: E.eq(E.at(J, i, 0, 0), s.sign * r * E.exp(r * E.at(s.x, i, 0) + c)))
    E.ensure_unchanged("theta unchanged", s.x, snap)


LINKNET = [dict(inverted=b, neurons=n) for b, n in ((False, 3), (True, 3), (False, 6))]


@contract("P14", tol=1e-4, variants=LINKNET)
def linking_network_slope(E, inverted, neurons):
    """the monotone network: jacobian is its derivative, nowhere negative (nowhere positive when inverted)"""
    s = Linking(E, "neuralnet", inverted, neurons=neurons)
    E.havoc(E.get(s.sc, "_transformation"), "par")
    J = E.call(s.sc, "jacobian", s.x)
    d = E.grad(lambda x: E.call(s.sc, "transform", x), s.x)
    E.observe("J", J)
    E.ensure_shape("shape of the jacobian", J, s.N, 1, 1)
    E.ensure("jacobian is the derivative", [s.N], lambda i: E.eq(E.at(J, i, 0, 0), d((i, 0), (i, 0))))
    E.ensure("slope has one sign", [s.N], lambda i: E.le(0, s.sign * E.at(J, i, 0, 0)))


@contract("P14", tol=1e-5, bounded="order of two evaluations of the linking network on the running code", variants=LINKNET)
def linking_network_monotone(E, inverted, neurons):
    s = Linking(E, "neuralnet", inverted, neurons=neurons)
    E.havoc(E.get(s.sc, "_transformation"), "par")
    r = E.tensor("r", s.N, 1, lo=0, hi=3)
    y = E.call(s.sc, "transform", s.x)
    y2 = E.call(s.sc, "transform", s.x + r)
    E.ensure_shape("shape", y, s.N, 1)
    E.ensure("monotone", [s.N], lambda i: E.le(s.sign * E.at(y, i, 0), s.sign * E.at(y2, i, 0)))


@contract("P14", tol=1e-4, bounded="round trip, order and slope of the spline on the running code", variants=[dict(free=f) for f in (False, True)])
def spline_round_trip(E, free):
    """points anywhere, in and out of the bounds: inverse undoes forward, order is kept, the log determinant is the log slope"""
    import torch
    s = Spline(E, free=free)
    x = E.tensor("x", s.N, s.V, lo=-7, hi=9)
    y, l = s.s(x)
    back, li = s.s(y, inverse=True)
    E.ensure("inverse undoes forward", [s.N, s.V], lambda i, v: E.eq(E.at(back, i, v), E.at(x, i, v)))
    E.ensure("log determinant of the inverse", [s.N, s.V], lambda i, v: E.eq(E.at(li, i, v), -E.at(l, i, v)))
    E.ensure("order", [s.N, s.N, s.V], lambda i, j, v: E.implies(E.lt(E.at(x, i, v), E.at(x, j, v)), lambda: E.lt(E.at(y, i, v), E.at(y, j, v))))
    xg = x.detach().requires_grad_(True)
    g, = torch.autograd.grad(s.s(xg)[0].sum(), xg)
    E.ensure("log determinant is the log slope", [s.N, s.V], lambda i, v: E.eq(E.exp(E.at(l, i, v)), E.at(g, i, v)))
    E.ensure("lower bound", [s.V], lambda v: E.eq(E.at(s.s(torch.full((1, s.V), float(s.a)).to(x))[0], 0, v), s.c))
    E.ensure("upper bound", [s.V], lambda v: E.eq(E.at(s.s(torch.full((1, s.V), float(s.b)).to(x))[0], 0, v), s.d))
