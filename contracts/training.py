"""Contracts on the training loops: which state a fit ends in, for any number of epochs and any course of the losses and learning rates."""
from pyvc.api import contract
from contracts.models import Setup, POLY, abstract_likelihood
from contracts.estimate import observed_loglik

ALG = "irtorch.estimation_algorithms."
STUB = "one step of the optimiser on the parameters, returning the loss they had before it"


def parameters(model):
    from pyvc.nnmodel import named_params
    return dict(named_params(model))


def state_after(tr, model, e):
    """what a copy of the state dictionary holds after e steps: trained parameters, other tensors as they are"""
    from pyvc.nnmodel import named_params, named_buffers
    return {**{n: tr.value(t, e) for n, t in named_params(model)}, **{n: t.contiguous_copy() for n, t in named_buffers(model)}}


def finished(E, tr, n, stop, tensors):
    """what holds after training with at most n steps"""
    done = tr.steps
    kept = E.ite(E.ilt(0, done), lambda: tr.best(done) + 1, lambda: 0)
    E.ensure_true("no more than the requested epochs", E.le(done, n))
    for i, t in enumerate(tensors): E.ensure_equal(f"tensor {i} of the state with the lowest loss", t, tr.value(t, kept))
    E.ensure_true("stops early only when the learning rate was changed often enough", E.lor(E.ieq(done, n), E.ile(stop, tr.drops(done))))
    E.ensure_true("stops as soon as the learning rate was changed often enough", E.implies(E.ilt(0, done), lambda: before_last(E, tr, done - 1, stop)))


def before_last(E, tr, k, stop):
    tr.define(k)
    return E.ilt(tr.drops(k), stop)


@contract("P18", symbolic_only=True, variants=[dict(model=m) for m in ("TwoPL", "GPC")])
def marginal_training_loop(E, model):
    """MML: the model ends in the state of the earliest lowest loss; training stops exactly at the epoch limit or when the learning rate was changed often enough"""
    from pyvc import tensor as TS
    s = Setup(E, model, D=1)
    m = s.m
    x = E.data("x", s.N, s.J, s.cats if model in POLY else 2, None)
    n, stop = E.integer("epochs", 0, None), E.integer("stop", 1, None)
    tr = E.training()
    alg = E.new(ALG + "mml.MML")
    par = parameters(m)
    tr.initial(par.values())
    def step(eng, func, args, kw):
        tr.zero_grad()
        tr.backward(TS.Tensor.build([], lambda i: tr.L(tr.steps), "float32"))
        tr.step(E.get(alg, "optimizer"))
        return tr.L(tr.steps - 1)
    E.stub(ALG + "mml.MML._train_step", step, STUB, proved_by="P18/marginal_step")
    def state(k):
        opt = E.get(alg, "optimizer")
        b = tr.best(k) + 1
        best = dict(state_dict=state_after(tr, m, b), optimizer=dict(nsteps=b, lr=[tr.rate(b)]))
        return dict(locals=dict(lr_update_count=tr.drops(k), best_epoch=E.any_value, best_loss=tr.L(tr.best(k)), best_model_state=best, prev_lr=[tr.rate(k)]),
                    facts=[E.ilt(tr.drops(k), stop), before_last(E, tr, k - 1, stop)], items=[tr.pending, (tr.g, "steps", k), (tr.g, "scheduled", k), (opt, "nsteps", k), (E.get(opt, "param_groups")[0], "lr", tr.rate(k))],
                    tensors=[(t, tr.value(t, k)) for t in par.values()])
    E.loop(n, state)
    E.call(alg, "fit", model=m, train_data=x, max_epochs=n, quadrature_points=5, learning_rate=tr.rate(0), learning_rate_updates_before_stopping=stop, device="cpu")
    finished(E, tr, n, stop, par.values())
    E.ensure_true("model ready for use", E.lnot(E.get(m, "training")))


@contract("P18", symbolic_only=True, variants=[dict(model=m, missing=x) for m, x in (("TwoPL", None), ("GPC", "nan"))])
def marginal_step(E, model, missing):
    """MML: every step is taken from the state before it: the recorded loss is the one of that state, and there is one step and one recorded loss per epoch"""
    s = Setup(E, model, D=1)
    tr = E.training()
    now = [0]
    from pyvc.terms import lift
    abstract_likelihood(E, s, lambda: (lift(now[0]) if now else tr.steps,))
    N, G = s.N, E.dim("G", 2)
    x = E.data("x", N, s.J, s.cats if model in POLY else 2, missing)
    grid = E.build([(G,), 1], lambda q, d: -3 + 6 * q[0] / (G - 1))
    prior = E.mvn(grid, E.build([1], lambda d: 0), E.build([1, 1], lambda a, b: 1))
    P0 = s.call("item_probabilities", grid)
    now.clear()
    alg = E.new(ALG + "mml.MML")
    E.set(alg, "training_history", {"train_loss": [E.real("older")]})      # left by an earlier fit
    par = parameters(s.m)
    tr.initial(par.values())
    tr.losses_known = False
    E.call(alg, "fit", model=s.m, train_data=x, max_epochs=1, quadrature_points=G, learning_rate=1, learning_rate_updates_before_stopping=100, device="cpu")
    loss = E.get(alg, "training_history")["train_loss"]
    E.ensure_true("one loss per step", E.land(len(loss) == 1, E.ieq(tr.steps, 1)))
    E.ensure("the loss is minus the log marginal likelihood of the state before the step", [], lambda: E.eq(loss[0], -E.sum(N, lambda i: E.log(E.sum(G, lambda a: E.exp(E.at(prior, (a,)) + observed_loglik(E, s, x, P0, i, (a,))))))))
    E.ensure("the step uses the gradient of that loss", [], lambda: E.eq(tr.last[0], loss[0]) if tr.last else E.ieq(0, 1))
    E.ensure_true("gradients are cleared for every step", tr.cleared >= 1)
    for i, t in enumerate(par.values()): E.ensure_equal(f"tensor {i} after the step", t, tr.value(t, 1))


@contract("P18", symbolic_only=True, variants=[dict(model=m, missing=x) for m, x in (("TwoPL", None), ("GPC", "nan"))])
def joint_training_loop(E, model, missing):
    """JML in mini-batches: model and latent scores end in the state of the earliest lowest batch loss; training stops exactly at the epoch limit or when the learning rate was changed often enough"""
    from pyvc import tensor as TS
    s = Setup(E, model, D=1)
    m, N = s.m, s.N
    x = E.data("x", N, s.J, s.cats if model in POLY else 2, missing)
    n, stop, B = E.integer("epochs", 0, None), E.integer("stop", 1, None), E.integer("batches", 1, None)
    tr = E.training()
    tr.in_batches(B, N)
    abstract_likelihood(E, s)
    E.stub("irtorch.models.base_irt_model.BaseIRTModel.log_likelihood", lambda eng, func, args, kw: TS.Tensor.build([], lambda i: -tr.L(tr.steps), "float32"), "some number that depends on the state", proved_by="P03, P17")
    start = E.tensor("start", N, 1)
    alg = E.new(ALG + "jml.JML")
    E.set(alg, "training_history", {"train_loss": [E.real("older")]})      # left by an earlier fit
    par = parameters(m)
    tr.initial(par.values())
    th = lambda: E.get(alg, "training_theta_scores")
    def state(t):
        opt = E.get(alg, "optimizer")
        b = tr.best(t) + 1
        best = dict(theta=tr.value(th(), b), state_dict=state_after(tr, m, b), optimizer=dict(nsteps=b, lr=[tr.rate(b)]))
        return dict(locals=dict(lr_update_count=tr.drops(t), best_epoch=E.any_value, best_loss=tr.L(tr.best(t)), best_model_state=best, prev_lr=[tr.rate(t)]),
                    facts=[E.ilt(tr.drops(t), stop), before_last(E, tr, t - 1, stop)],
                    items=[tr.pending, (tr.g, "steps", t), (tr.g, "scheduled", t), (opt, "nsteps", t), (E.get(opt, "param_groups")[0], "lr", tr.rate(t))],
                    lists=[(E.get(alg, "training_history")["train_loss"], t, tr.L)],
                    tensors=[(p, tr.value(p, t)) for p in par.values()] + [(th(), tr.value(th(), t))])
    E.loop(n, lambda e: state(e * B), "epochs")
    E.loop(B, lambda j, *e: state((e[0] if e else 0) * B + j), "batches")
    E.call(alg, "fit", model=m, train_data=x, max_epochs=n, batch_size=E.integer("batch_size", 1, None), start_thetas=start, learning_rate=tr.rate(0), learning_rate_updates_before_stopping=stop, device="cpu")
    finished(E, tr, n * B, stop, list(par.values()))
    trained, = [p for p in E.get(E.get(alg, "optimizer"), "param_groups")[0]["params"] if all(p.st is not q.st for q in par.values())]
    if E.e.fork(E.ilt(0, tr.steps)): E.ensure_equal("latent scores of the state with the lowest loss", th(), tr.value(trained, tr.best(tr.steps) + 1))
    E.ensure_true("model ready for use", E.lnot(E.get(m, "training")))


@contract("P18", symbolic_only=True, variants=[dict(alg=a) for a in ("ae", "vae")])
def autoencoder_training_loop(E, alg):
    """AE and VAE in mini-batches: model and encoder end in the state of the earliest lowest average loss (the last state if none was evaluated); training stops exactly at
    the epoch limit or when the learning rate was changed often enough; the training scores are those of the restored encoder"""
    from pyvc import tensor as TS
    s = Setup(E, "TwoPL", D=1)
    m, N = s.m, s.N
    x = E.data("x", N, s.J, 2, None)
    n, stop, B, every = E.integer("epochs", 0, None), E.integer("stop", 1, None), E.integer("batches", 1, None), E.integer("every", 1, None)
    tr = E.training(every)
    tr.in_batches(B, N)
    cls = ALG + ("ae.AE" if alg == "ae" else "vae.VAE")
    E.stub(cls + "._train_batch", lambda eng, func, args, kw: TS.Tensor.build([], lambda i: tr.L(tr.steps), "float32"), "some number that depends on the state", proved_by="P17")
    a = E.new(cls)
    # whatever an earlier fit of the same object left behind
    for name, v in dict(total_iterations=7, lr_update_count=3, best_avg_loss=(E.real("old"), 5), batch_mean_losses=[E.real("older")]).items(): E.set(a, name, v)
    def state(t):
        opt, enc = E.get(a, "optimizer"), E.get(a, "encoder")
        b = tr.best(t)
        none = E.e.fork(E.ieq(b, 0))
        best = None if none else dict(state_dict_model=state_after(tr, m, b), state_dict_encoder=state_after(tr, enc, b), optimizer=dict(nsteps=b, lr=[tr.lr(b)]))
        size, at = tr.window(t)
        return dict(locals={}, facts=[E.ilt(tr.drops(t), stop), *tr.facts(t)],
                    items=[tr.pending, (tr.g, "steps", t), (tr.g, "scheduled", tr.evaluations(t)), (opt, "nsteps", t), (E.get(opt, "param_groups")[0], "lr", tr.lr(t)), (a, "total_iterations", t), (a, "lr_update_count", tr.drops(t)),
                           (a, "best_avg_loss", (E.inf, 0) if none else (tr.average(b), b)), (a, "best_model_state", best)],
                    lists=[(E.get(a, "batch_mean_losses"), size, at), (E.get(a, "training_history")["train_loss"], E.any_value, None)],
                    tensors=[(p, tr.value(p, t)) for p in trained()])
    trained = lambda: list(parameters(m).values()) + list(parameters(E.get(a, "encoder")).values())
    def inner(j, *e):
        t = (e[0] if e else 0) * B + j
        return dict(state(t), locals=dict(learning_rate=tr.lr(t), epoch_mean_loss=E.any_value))
    E.loop(n, lambda e: state(e * B), "epochs")
    E.loop(B, inner, "batches")
    def scores(eng, func, args, kw):
        finished_by_intervals(E, tr, n * B, stop, trained())
        return E.tensor("scores", N, 1)
    E.stub(cls + ".theta_scores", scores, "some scores that depend on the state of the encoder")
    E.call(a, "fit", model=m, train_data=x, max_epochs=n, batch_size=E.integer("batch_size", 1, None), learning_rate=tr.rate(0), learning_rate_updates_before_stopping=stop, evaluation_interval_size=every, hidden_layers_encoder=[2], device="cpu")
    finished_by_intervals(E, tr, n * B, stop, trained())
    got = E.get(a, "training_theta_scores")
    E.ensure("training scores", [N], lambda i: E.eq(E.at(got, i, 0), E.at(E.tensor("scores", N, 1), i, 0)))
    E.ensure_true("ready for use", E.land(E.lnot(E.get(m, "training")), E.lnot(E.get(E.get(a, "encoder"), "training"))))


def finished_by_intervals(E, tr, n, stop, tensors):
    done = tr.steps
    b = tr.best(done)
    E.ensure_true("no more than the requested epochs", E.le(done, n))
    if E.e.fork(E.ieq(done, 0)): return
    for i, t in enumerate(tensors): E.ensure_equal(f"tensor {i} of the evaluation with the lowest average loss", t, tr.value(t, E.ite(E.ieq(b, 0), lambda: done, lambda: b)))
    E.ensure_true("stops early only when the learning rate was changed often enough", E.lor(E.ieq(done, n), E.ile(stop, tr.drops(done))))


@contract("P17", symbolic_only=True, variants=[dict(model=m, missing=x) for m, x in (("TwoPL", None), ("NR", "nan"), ("ThreePL", "-1"), ("GPC", "nan"))])
def joint_batch(E, model, missing):
    """JML: the loss of a mini-batch of any rows is minus the log-likelihood of the observed responses of those rows, each at the own latent scores"""
    s = Setup(E, model, D=2)
    abstract_likelihood(E, s)
    N = s.N
    tr = E.training()
    tr.losses_known = False
    tr.in_batches(1, N)
    x = E.data("x", N, s.J, s.cats if model in POLY else 2, missing)
    start = E.tensor("start", N, 2)
    P = s.call("item_probabilities", start)
    alg = E.new(ALG + "jml.JML")
    E.call(alg, "fit", model=s.m, train_data=x, max_epochs=1, start_thetas=start, batch_size=E.integer("batch_size", 1, None), device="cpu")
    loss = E.get(alg, "training_history")["train_loss"]
    E.ensure_true("one loss per batch", len(loss) == 1)
    E.ensure("the step uses the gradient of that loss", [], lambda: E.eq(tr.last[0], loss[0]) if tr.last else E.ieq(0, 1))
    size, row = tr.batch(0)
    E.ensure("minus the log-likelihood of the batch", [], lambda: E.eq(loss[0], -E.sum(size, lambda b: observed_loglik(E, s, x, P, row(b), row(b)))))


@contract("P17", symbolic_only=True, variants=[dict(alg=a, model=m, missing=x) for a, m, x in (("ae", "TwoPL", None), ("ae", "GPC", "nan"), ("vae", "NR", "-1"))])
def autoencoder_batch(E, alg, model, missing):
    """AE and VAE: a mini-batch of any rows is trained on the encoder input, the responses and the missing response indicator of those rows"""
    s = Setup(E, model, D=1)
    abstract_likelihood(E, s)
    N, J = s.N, s.J
    tr = E.training(10)
    tr.in_batches(1, N)
    x = E.data("x", N, J, s.cats if model in POLY else 2, missing)
    cls = ALG + ("ae.AE" if alg == "ae" else "vae.VAE")
    a = E.new(cls)
    from pyvc import tensor as TS, torchmodel as TM
    from pyvc.terms import app
    K = E.sum(J, lambda j: s.cat(j))
    inputs = TS.Tensor.build([TM.mkdims([N])[0], TM.mkdims([K])[0]], lambda i: app("inputs", tuple(i), "R"), "float32")
    E.stub("irtorch._internal_utils.one_hot_encode_test_data", lambda eng, func, args, kw: inputs, "the encoder's input", proved_by="P12/one_hot")
    E.stub("irtorch._internal_utils.impute_missing_internal", lambda eng, func, args, kw: (args[0] if args else kw["data"]), "imputed data", proved_by="P12")
    def batch(eng, func, args, kw):
        got = dict(zip(("self", "model", "input_batch", "batch", "missing_mask"), args), **kw)
        size, row = tr.batch(0)
        E.ensure("encoder input of the batch", [size, K], lambda b, j: E.eq(E.at(got["input_batch"], b, j), E.at(inputs, row(b), j)))
        E.ensure("responses of the batch", [size, J], lambda b, j: E.lor(E.missing("x", E.at(x, row(b), j)), E.eq(E.at(got["batch"], b, j), E.at(x, row(b), j))))
        E.ensure("missing responses of the batch", [size, J], lambda b, j: E.beq(E.at(got["missing_mask"], b, j), E.missing("x", E.at(x, row(b), j))))
        return TS.Tensor.build([], lambda i: tr.L(tr.steps), "float32")
    E.stub(cls + "._train_batch", batch, "some number that depends on the state", proved_by="P17")
    E.call(a, "fit", model=s.m, train_data=x, max_epochs=1, batch_size=E.integer("batch_size", 1, None), evaluation_interval_size=5, hidden_layers_encoder=[2], device="cpu")
    E.ensure_true("one step per batch", E.ieq(tr.steps, 1))
