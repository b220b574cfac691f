"""Contracts on the bit scale."""
from pyvc.api import contract
from contracts.models import Setup, MOD

BIT = "irtorch.rescale.bit.Bit"
GRID = "the running code against an independent fine integration: the entropy is followed along a grid whose points are sorted and merged with the latent scores"


def pick_items(s, which):
    """all items, or an arbitrary subset given by a list of positions"""
    E = s.E
    if which == "all": return None, s.J, lambda a: a
    return [1, 0], 2, lambda a: 1 - a


def model_stubs(E, s):
    """probabilities, their slopes and expected scores through their contracts"""
    if not E.symbolic: return
    from pyvc import tensor as TS
    from pyvc import torchmodel as TM
    from pyvc.terms import app, lift, ite, lt, ZERO
    J, M = lift(s.J), lift(s.M)
    cat = lambda i: lt(i[2], lift(s.cat(i[1])))
    E.e.root.app_facts["Pr"] = lambda a: [lt(ZERO, app("Pr", a))]
    lead = lambda args: args[1].dims()[0]
    B = MOD + "base_irt_model.BaseIRTModel."
    E.stub(B + "item_probabilities", lambda eng, func, args, kw: TS.Tensor.build([lead(args), [J], [M]], lambda i: ite(cat(i), app("Pr", tuple(i)), ZERO)), "the model's distribution", proved_by="P01/distribution")
    E.stub(B + "probability_gradients", lambda eng, func, args, kw: TS.Tensor.build([lead(args), [J], [M], [lift(s.D)]], lambda i: ite(cat(i), app("dPr" if (kw.get("rescale", args[2] if len(args) > 2 else True)) is False else "dPrScaled", tuple(i)), ZERO)), "derivatives of the probabilities", proved_by="P08/probability_gradients")
    def scores(eng, func, args, kw):
        th = args[1]
        g, D = th.dims()
        n = TS.simp_int(TS.group_size(D))
        return TS.Tensor.build([g, [J]], lambda i: app("ES", TM.rowargs(lambda d: th.at_flatgroups(list(i[:len(g)]) + ([d] if D else [])), n) + (i[-1],)))
    E.stub(B + "expected_scores", scores, "expected item scores", proved_by="P06/expected_scores")


@contract("P11", tol=2e-4, variants=[dict(model=m, items=i) for m in ("TwoPL", "GPC", "NR", "ThreePL", "GRM") for i in ("all", "two")] + [dict(model="GPC", items="all", scaled=True)])
def bit_jacobian(E, model, items, scaled=False):
    """slope of the bit score: the entropy change of every selected item in bits, in the direction of increasing scores"""
    s = Setup(E, model, D=1)
    if model == "GRM": s.order_thresholds(strict=True)
    N, J, M = s.N, s.J, s.M
    if items == "two": E.assume(E.ile(2, J))
    model_stubs(E, s)
    th = s.theta
    idx, n, pos = pick_items(s, items)
    sc = E.new(BIT, s.m, items=idx)
    if scaled: E.call(s.m, "add_scale_transformation", E.new("fixtures.warp.Warp", E.build([1, 1], lambda a, b: 2), E.build([1], lambda a: 0)))
    snap = E.copy(th)
    Jac = E.call(sc, "jacobian", th)
    E.observe("J", Jac)
    P = s.call("item_probabilities", th)
    if not E.symbolic: E.assume_all([N, J, lambda i, j: (0, s.cat(j))], lambda i, j, k: E.ilt(1e-12, E.at(P, i, j, k)))
    if E.symbolic:
        g = s.call("probability_gradients", th, rescale=False)
        dP = lambda i, j, k: E.at(g, i, j, k, 0)
    else:
        g = E.grad(lambda x: s.call("item_probabilities", x), th)
        dP = lambda i, j, k: g((i, j, k), (i, 0))
    ends = s.call("expected_scores", E.build([2, 1], lambda i, d: 2 * i - 1))
    total = lambda i: E.sum(J, lambda j: E.at(ends, i, j))
    sign = E.ite(E.ilt(total(1), total(0)), lambda: -1, lambda: 1)
    bits = lambda i, j: E.abs(E.sum(s.cat(j), lambda k: E.div(E.log(E.at(P, i, j, k)), E.log(2)) * dP(i, j, k)))
    E.ensure_shape("shape", Jac, N, 1, 1)
    E.ensure("entropy change in bits", [N], lambda i: E.eq(E.at(Jac, i, 0, 0), sign * E.sum(n, lambda a: bits(i, pos(a)))))
    E.ensure_unchanged("theta unchanged", th, snap)


# ------------------------------------------------------------------ the score itself
def variation(E, s, sc_items, points):
    """total change of the item entropies in bits along a sequence of latent scores"""
    import torch
    with torch.no_grad():
        p = s.call("item_probabilities", points)[:, sc_items]
        h = -(p * torch.where(p > 0, p, torch.ones_like(p)).log2()).sum(dim=2)
        return float((h[1:] - h[:-1]).abs().sum())


def direction(E, s):
    """+1 when the expected total score grows with the latent variable (from -1 to 1, the others at zero), else -1"""
    import torch
    out = []
    with torch.no_grad():
        for v in range(s.D):
            e = torch.zeros(2, s.D)
            e[0, v], e[1, v] = -1.0, 1.0
            t = s.call("item_probabilities", e)
            k = torch.arange(t.shape[2], dtype=t.dtype)
            if getattr(s, "mc", None): t = torch.stack([t[:, j, s.mc[j]] for j in range(s.J)], dim=1).sum(dim=1)
            else: t = (t * k).sum(dim=(1, 2))
            E.assume(abs(float(t[1] - t[0])) > 1e-3)
            out.append(1.0 if t[1] > t[0] else -1.0)
    return torch.tensor(out)


def bit_setup(E, model, D, **kw):
    import torch
    s = Setup(E, model, D=D, N=E.dim("N", cmax=4), **kw)
    with torch.no_grad():
        for p in s.m.parameters(): p.clamp_(-2, 2)
    if model == "GRM": s.order_thresholds(strict=True)
    return s


CASES = [dict(model="TwoPL", D=1), dict(model="GPC", D=1), dict(model="NR", D=1), dict(model="GRM", D=1), dict(model="TwoPL", D=2), dict(model="GPC", D=2), dict(model="NR", D=2, mc=True)]


@contract("P11", tol=2e-2, bounded=GRID, wide=False, variants=[dict(c, items=i, start=t) for c in CASES for i, t in (("all", "default"), ("two", "given"))])
def bit_score(E, model, D, items, start, mc=False):
    """total change of the entropies of the selected items from the starting score, the other latent variables at zero"""
    import torch
    s = bit_setup(E, model, D, mc=mc)
    if items == "two": E.assume(s.J >= 2)
    idx = None if items == "all" else [1, 0]
    use = list(range(s.J)) if idx is None else idx
    up = direction(E, s)
    st = None if start == "default" else torch.tensor([float(E.real(f"st{v}", -2, 0)) for v in range(D)])
    th = s.theta.clamp(-5, 5)
    if st is not None: st = st * up
    snap, keep = E.copy(th), None if st is None else E.copy(st)
    sc = E.new(BIT, s.m, items=idx, start_theta=st)
    B = E.call(sc, "transform", th)
    E.ensure_shape("shape", B, s.N, D)
    first = torch.full((D,), -10000.0) if st is None else st * up
    def spec(i, v):
        a, b = float(first[v]), float(th[i, v] * up[v])
        if b <= a: return 0.0
        line = torch.cat([torch.tensor([a]), torch.linspace(max(a, -7.0), b, 3000)]) if b > -7 else torch.tensor([a, b])
        pts = torch.zeros(len(line), D)
        pts[:, v] = line * up[v]
        return variation(E, s, use, pts)
    E.ensure("total change of the entropy", [s.N, D], lambda i, v: E.eq(E.at(B, i, v), spec(int(i), int(v))))
    E.ensure("not negative", [s.N, D], lambda i, v: E.le(0, E.at(B, i, v)))
    E.ensure("increases in the direction of higher scores", [s.N, s.N, D], lambda i, j, v: E.implies(E.ile(float(th[int(i), int(v)] * up[int(v)]), float(th[int(j), int(v)] * up[int(v)])), lambda: E.le(E.at(B, i, v), E.at(B, j, v))))
    E.ensure_unchanged("theta unchanged", th, snap)
    if st is not None: E.ensure_unchanged("start unchanged", st, keep)
    one = E.call(sc, "transform_to_1D", th)
    E.ensure_shape("one-dimensional shape", one, s.N, 1)
    def spec1(i):
        b = th[i] * up
        a = torch.full((D,), -7.0)
        pts = torch.maximum(a + torch.linspace(0, 1, 3000)[:, None] * (b - a), first)
        return variation(E, s, use, torch.cat([first[None, :], pts]) * up)
    E.ensure("one score along the line from the start", [s.N], lambda i: E.eq(E.at(one, i, 0), spec1(int(i))))
    E.ensure_unchanged("theta unchanged by the one-dimensional score", th, snap)


@contract("P11", tol=2e-2, bounded=GRID, wide=False, variants=CASES)
def bit_score_of_a_population(E, model, D, mc=False):
    """with a population: the other latent variables are held at the population medians"""
    import torch
    s = bit_setup(E, model, D, mc=mc)
    up = direction(E, s)
    n = 2 * E.integer("half", 10, 20) + 1
    pop = E.tensor("pop", n, D, lo=-3, hi=3)
    st = torch.tensor([float(E.real(f"st{v}", -3, -1)) for v in range(D)]) * up
    th = s.theta.clamp(-2, 2)
    snap, keep = E.copy(th), E.copy(pop)
    pop[0] = 4 * up
    keep = E.copy(pop)
    sc = E.new(BIT, s.m, population_theta=pop, start_theta=st)
    B = E.call(sc, "transform", th)
    E.ensure_shape("shape", B, s.N, D)
    first = st * up
    med = torch.maximum(pop * up, first).sort(dim=0).values[n // 2]
    def spec(i, v):
        a, b = float(first[v]), float(th[i, v] * up[v])
        if b <= a: return 0.0
        pts = med.repeat(3000, 1)
        pts[:, v] = torch.linspace(a, b, 3000)
        return variation(E, s, list(range(s.J)), pts * up)
    E.ensure("total change of the entropy, the others at the population medians", [s.N, D], lambda i, v: E.eq(E.at(B, i, v), spec(int(i), int(v))))
    E.ensure_unchanged("theta unchanged", th, snap)
    E.ensure_unchanged("population unchanged", pop, keep)


@contract("P11", tol=1e-6, bounded="random draws on the running code: the responses of guessing respondents are checked by their frequencies", wide=False, variants=[dict(items=i, guess=g) for i in ("all", "two") for g in ("default", "given")])
def starting_score_by_guessing(E, items, guess):
    """the median score of respondents who guess: the correct category with the guessing probability, the others equally often"""
    import torch
    s = bit_setup(E, "NR", 2, mc=True)
    if items == "two": E.assume(s.J >= 2)
    idx = None if items == "all" else [1, 0]
    use = list(range(s.J)) if idx is None else idx
    g = None if guess == "default" else [float(E.real(f"g{a}", 0.05, 0.9)) for a in range(len(use))]
    seen = []
    w = E.tensor("w", s.J, 2)
    def scores(data, **kw):
        seen.append(data.clone())
        assert kw.get("rescale") is False
        return torch.nan_to_num(data).to(w.dtype) @ w
    s.m.latent_scores = scores
    sc = E.new(BIT, s.m)
    torch.manual_seed(int(E.integer("seed", 0, 10000)))
    E.call(sc, "bit_score_starting_theta_mc", items=idx, guessing_probabilities=g, guessing_iterations=2000)
    del s.m.latent_scores
    x = seen[0]
    E.ensure_true("one call", E.eq(len(seen), 1))
    E.ensure_shape("responses to every item of the model", x, 2000, s.J)
    for a, j in enumerate(use):
        p = 1 / s.cats[j] if g is None else g[a]
        for k in range(s.cats[j]):
            q = p if k == s.mc[j] else (1 - p) / (s.cats[j] - 1)
            E.ensure_true(f"frequency of category {k} of item {j}", abs(float((x[:, j] == k).double().mean()) - q) < 0.075)
    for j in range(s.J):
        if j not in use: E.ensure_true(f"item {j} is not answered", bool(((x[:, j] == -1) | x[:, j].isnan()).all()))
    sc0 = E.get(sc, "_start_theta")
    E.ensure("median score", [2], lambda v: E.eq(E.at(sc0, v), float((torch.nan_to_num(x).to(w.dtype) @ w)[:, int(v)].sort().values[999])))
