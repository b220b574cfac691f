"""Loops of arbitrary length decided by an invariant stated in the contract, and the ghost state of a training run.

A loop `for x in xs` with a symbolic number n of iterations is replaced by four paths:
  * n = 0: the loop is skipped;
  * the first iteration, from the state before the loop: it must end in the state the invariant gives for 1;
  * an arbitrary later iteration k (1 <= k < n), from the state the invariant gives for k (everything else the body assigns is
    unknown): it must end in the state for k + 1;
  * the exit: execution goes on after the loop in the state for n.
An iteration that leaves the loop early (break, return, exception) goes on after the loop with the state it reached.
Whatever the body changes and the invariant does not mention makes the loop unsupported (frame condition)."""
import ast
from .interp import *
from .interp import _ABSENT
from . import tensor as TS, norm as NM, torchmodel as TM, terms as T
from .terms import *
from .tensor import Tensor, Storage, cur, py


class PathDone(Exception):
    """the rest of the path is covered by the other paths"""


INFER = type("Infer", (), {"__repr__": lambda s: "inferred"})()     # the value the first iteration ends with, if it is (); unknown (None) otherwise
ANY = type("Any", (), {"__repr__": lambda s: "any value"})()


class LoopSpec:
    """state(k, *outer) -> dict(locals={name: value}, items=[(object or dict, key, value)], tensors=[(tensor, value)], lists=[(list, length, element)],
    facts=[condition])"""
    def __init__(self, E, n, state, name): self.E, self.n, self.state, self.name, self.active, self.inferred = E, n, state, name, False, {}


def storages(v, out):
    if isinstance(v, Tensor): out.append(v.st)
    elif isinstance(v, dict):
        for x in v.values(): storages(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v: storages(x, out)
    return out


def match(E, name, got, want, live):
    if want is ANY: return
    if isinstance(want, Tensor):
        if not isinstance(got, Tensor) or got.ndim != want.ndim: raise Unsupported(f"{name}: the code keeps {type(got).__name__}")
        if live is not None: E.ensure_true(f"{name} is a separate copy", got.st not in live)
        E.ensure_equal(name, got, want)
    elif isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want): raise Unsupported(f"{name}: the code keeps {got if not isinstance(got, dict) else list(got)}"[:200])
        for k in want: match(E, f"{name}[{k}]", got[k], want[k], live)
    elif isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want): raise Unsupported(f"{name}: the code keeps {got!r}"[:200])
        for k, (a, b) in enumerate(zip(got, want)): match(E, f"{name}[{k}]", a, b, live)
    elif isinstance(want, (str, type(None), bool)):
        if type(got) is not type(want): raise Unsupported(f"{name}: the code keeps {got!r}"[:200])
        E.ensure_true(name, got == want)
    else:
        if isinstance(got, Tensor): got = got.item_term()
        if not isinstance(got, (int, float, Term)) or isinstance(got, bool): raise Unsupported(f"{name}: the code keeps {got!r}"[:200])
        E.ensure(name, [], lambda: E.eq(got, want))


def run_loop(eng, s, env, it):
    """True if the loop was handled here"""
    n = it.n
    spec = next((p for p in eng.loop_specs if not p.active and (p.n is n or cur.ctx.decide(eq(lift(p.n), n)) is True)), None)
    if spec is None: return False
    if len(eng.frames) != 1: raise Unsupported("a loop under an invariant inside merged branches")
    if s.orelse: raise Unsupported("else of a loop under an invariant")
    E = spec.E
    outer = tuple(p.k for p in eng.loop_specs if p.active)
    assigned = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
    targets = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    def child(*cs): cur.ctx = cur.ctx.child(*cs)
    def body(k):
        spec.active, spec.k = True, k
        try:
            eng.assign(s.target, it.fn(k), env)
            try: eng.exec_block(s.body, env)
            except Cont: pass
            except Brk: return "break"
            return "end"
        finally: spec.active = False
    def check(k):
        st = spec.state(k, *outer)
        live = [t.st for t, _ in st["tensors"]]
        for name, want in st["locals"].items():
            if name not in env.vars: raise Unsupported(f"the loop has no variable {name}")
            match(E, f"{spec.name}: {name}", env.vars[name], want, live)
        for o, key, want in st["items"]:
            d = o.attrs if isinstance(o, Obj) else o
            if want is INFER:
                if k is ONE: spec.inferred[key] = () if d[key] == () else None
                elif spec.inferred.get(key) == () and d[key] != (): raise Unsupported(f"{key} after an iteration: {d[key]!r}"[:200])
                continue
            match(E, f"{spec.name}: {key}", d.get(key, _ABSENT) if isinstance(d, dict) else d[key], want, live if isinstance(want, (dict, list)) else None)
        for i, (l, size, at) in enumerate(st.get("lists", ())):
            pre, l = ZERO, list(l)
            if l and isinstance(l[0], SymTail):
                if l[0].prefix: raise Unsupported("a list with a symbolic part")
                pre, old, l = lift(l[0].sl.n), l[0].sl, l[0].suffix
                if at is not None and old.fn is not at: E.ensure(f"{spec.name}: entries of list {i}", [pre], lambda q: E.eq(old.fn(q), at(q)))
            if size is not ANY: E.ensure_true(f"{spec.name}: length of list {i}", E.eq(add(pre, C(len(l))), lift(size)))
            for j, x in enumerate(l if at is not None else ()): match(E, f"{spec.name}: appended to list {i}", x, at(add(pre, C(j))), None)
        for i, c in enumerate(st.get("facts", ())): E.ensure_true(f"{spec.name}: fact {i}", c)
        for i, (t, want) in enumerate(st["tensors"]): match(E, f"{spec.name}: tensor {i}", t, want, None)
    def head(k):
        st = spec.state(k, *outer)
        for name in assigned | targets | set(st["locals"]):
            if name in st["locals"]:
                if name not in env.vars: raise Unsupported(f"the loop has no variable {name}")
                v = st["locals"][name]
                if v is ANY:
                    old = env.vars[name]
                    if isinstance(old, Term): v = fresh(name, old.sort)
                    elif isinstance(old, (int, float)) and not isinstance(old, bool): v = fresh(name, "R")
                    else: v = Poison(f"{name} is not described by the loop invariant")
            elif name in env.vars or name in targets: v = Poison(f"{name} depends on the iterations")
            else: v = Poison(f"{name} depends on the iterations")
            eng.journal.rec_dict(env.vars, name, "env")
            env.vars[name] = v
        keys = {("env", id(env.vars), nm) for nm in assigned | targets | set(st["locals"])}
        for o, key, v in st["items"]:
            d = o.attrs if isinstance(o, Obj) else o
            if v is INFER: v = spec.inferred.get(key)
            if isinstance(d, list):
                eng.journal.rec_list(d); d[key] = v; keys.add(("list", id(d), None)); continue
            if key not in d: raise Unsupported(f"no {key} before the loop")
            eng.journal.rec_dict(d, key, "attr" if isinstance(o, Obj) else "dict")
            d[key] = v
            keys.add(("attr" if isinstance(o, Obj) else "dict", id(d), key))
        for l, size, at in st.get("lists", ()):
            eng.journal.rec_list(l)
            if size is ANY:
                size = fresh("length")
                child(le(ZERO, size))
            nm = fresh("entry").args[0] if at is None else None
            l[:] = [SymTail([], SymList(lift(size), at if at is not None else lambda i, nm=nm: app(str(nm), (i,), "R")))]
            keys.add(("list", id(l), None))
        child(*[c for c in st.get("facts", ()) if isinstance(c, Term)])
        for t, v in st["tensors"]:
            TS.assign(t, v)
            keys.add(("st", id(t.st), None))
        return keys
    def frame(mark, uid, keys):
        for key, e in eng.journal.diff(mark).items():
            if key in keys: continue
            if e[0] == "st" and e[1].uid > uid: continue
            if e[0] == "env" and e[1] is not env.vars: continue      # local variables of functions called in the body
            if e[3] is e[4] or (isinstance(e[3], (int, float, str, bool, type(None))) and type(e[3]) is type(e[4]) and e[3] == e[4]): continue
            raise Unsupported(f"the loop changes {e[2] or e[0]}, which the invariant does not mention")
    if not eng.fork(lt(ZERO, n)): return True
    if eng.fork(fresh("first", "B")):
        if body(ZERO) == "break": return True
        check(ONE)
        raise PathDone()
    if eng.fork(fresh("later", "B")):
        k = fresh("k")
        child(le(ONE, k), lt(k, n))
        keys = head(k)
        mark, uid = eng.journal.mark(), next(Storage._n)
        try: r = body(k)
        finally: pass
        frame(mark, uid, keys)
        if r == "break": return True
        check(add(k, ONE))
        raise PathDone()
    child(le(ONE, n))
    head(n)
    return True


class Trainer:
    """ghost state of a training run: the optimiser's e-th step puts arbitrary new values (a function of e) into its parameters, the loss of the state before
    the e-th step is L(e), and the scheduler's e-th step sets an arbitrary learning rate (a function of e)"""
    def __init__(self, E, spe=ONE):
        self.E, self.e = E, E.e
        self.g = Obj(PyClass("Ghost", [], {}))
        self.g.attrs.update(steps=0, scheduled=0, pending=())
        self.names, self.defs = {}, {}
        self.e.trainer = self
        E.assumed.add("torch.optim: a step replaces the values of the registered parameters in place, a scheduler sets the learning rate; both otherwise arbitrary")
        f = E.e.root.app_facts
        f["best"] = lambda a: [le(ZERO, app("best", a, "I")), lor(le(a[0], ZERO), lt(app("best", a, "I"), a[0]))]
        f["drops"] = lambda a: [le(ZERO, app("drops", a, "I"))]
    losses_known = True
    def mean(self, t): pass
    def unfold(self): pass
    batches = None          # number of mini-batches of an epoch (one batch with every respondent if None)
    steps = property(lambda s: lift(s.g.attrs["steps"]))
    L = staticmethod(lambda e: app("loss", (lift(e),), "R"))
    rate = staticmethod(lambda e: app("rate", (lift(e),), "R"))
    best = staticmethod(lambda k: app("best", (lift(k),), "I"))
    drops = staticmethod(lambda k: app("drops", (lift(k),), "I"))

    def define(self, k):
        """instances at k of the recursive definitions: drops counts the changes of the learning rate, best is the earliest of the first k losses that is least"""
        k = lift(cur.ctx.nterm(lift(k)))
        k1 = py(cur.ctx.nterm(add(k, ONE)))
        zero = cur.ctx.decide(eq(k, ZERO)) is True
        self.rule("drops", {ZERO: ZERO, lift(k1): add(ZERO if zero else self.drops(k), T.ite(eq(self.rate(k1), self.rate(k)), ZERO, ONE))})
        self.rule("best", {lift(k1): ZERO if zero else T.ite(lt(self.L(k), self.L(self.best(k))), k, self.best(k))})

    def rule(self, name, table):
        self.defs.setdefault(name, {}).update(table)
        self.e.root.__dict__.setdefault("app_rules", {})[name] = lambda a, ctx: self.defs[name].get(a.args[1])

    def name(self, t):
        return self.names.setdefault(t.st.uid, f"trained.{len(self.names)}")

    def value(self, t, e):
        """contents of the tensor after e steps"""
        nm = self.name(t)
        r = t.contiguous_copy()
        r.st.body = app(nm, (lift(e),) + tuple(r.st.phs), "R")
        r.is_param = r.requires_grad = False
        return r

    def initial(self, tensors):
        """before training: the values of step 0"""
        for t in tensors: TS.assign(t, self.value(t, ZERO))

    def count(self, key):
        self.e.rawset(self.g, key, py(cur.ctx.nterm(add(lift(self.g.attrs[key]), ONE))))

    # losses whose gradients were added up since the gradients were last set to zero (None: unknown)
    cleared = 0
    def zero_grad(self):
        self.cleared += 1
        self.e.rawset(self.g, "pending", ())
    def backward(self, loss):
        p = self.g.attrs["pending"]
        if self.e.nograd: raise Unsupported("backward under no_grad")
        self.e.rawset(self.g, "pending", None if p is None else p + (loss.item_term(),))

    pending = property(lambda s: (s.g, "pending", INFER))

    def step(self, opt):
        p = self.last = self.g.attrs["pending"]
        self.E.ensure_true("every step uses the gradient of one loss", p is not None and len(p) == 1)
        if self.losses_known and p: self.E.ensure("every step uses the gradient of the loss of the state before it", [], lambda: self.E.eq(p[0], self.L(self.steps)))
        self.define(self.steps)
        self.count("steps")
        for g in opt.attrs["param_groups"]:
            for p in g["params"]: TS.assign(p, self.value(p, self.steps))
        self.e.rawset(opt, "nsteps", py(cur.ctx.nterm(add(lift(opt.attrs["nsteps"]), ONE))))

    def schedule(self, opt, loss):
        if isinstance(loss, Tensor): loss = loss.item_term()
        e = lift(self.g.attrs["scheduled"])
        if self.losses_known: self.E.ensure("the scheduler is told the loss of every step", [], lambda: land(self.E.eq(loss, self.L(e)), eq(add(e, ONE), self.steps)))
        self.count("scheduled")
        for g in opt.attrs["param_groups"]:
            self.e.journal.rec_dict(g, "lr", "dict")
            g["lr"] = self.rate(self.g.attrs["scheduled"])

    def in_batches(self, B, rows):
        """every epoch goes through B mini-batches of some rows of the data set, in any partition and order"""
        self.batches, self.rows = lift(B), lift(rows)
        f = self.e.root.app_facts
        f["batchsize"] = lambda a: [le(ONE, app("batchsize", a, "I")), le(app("batchsize", a, "I"), self.rows)]
        f["batchrow"] = lambda a: [le(ZERO, app("batchrow", a, "I")), lt(app("batchrow", a, "I"), self.rows)]

    def batch(self, step):
        """(size, row of the data set) of the batch of that step"""
        return app("batchsize", (lift(step),), "I"), lambda b: app("batchrow", (lift(step), lift(b)), "I")

    def loader(self, dataset):
        # a new iteration over the loader may form other batches: the batch is named by the number of steps made before it
        t = self.steps
        def batch(j):
            s = add(t, j)
            idx = Tensor.build([[app("batchsize", (s,), "I")]], lambda i: app("batchrow", (s, i[0]), "I"), "int64")
            return self.e.call(self.e.getattr(dataset, "__getitem__"), [idx], {})
        return SymList(self.batches, batch)


class IntervalTrainer(Trainer):
    """the losses are averaged over the last `every` steps; averages are compared, and the scheduler steps, after every `every`-th step except the first step of all.
    Time is counted in steps: best(t) is the earliest evaluation up to t with the lowest average (0 if there was none), lr(t) the learning rate after t steps"""
    def __init__(self, E, every):
        super().__init__(E)
        self.every = lift(every)
        f = E.e.root.app_facts
        f["best"] = lambda a: [le(ZERO, app("best", a, "I")), le(app("best", a, "I"), a[0])]
        f["evaluations"] = lambda a: [le(ZERO, app("evaluations", a, "I"))]
        self.rule("drops", {ZERO: ZERO})
        self.rule("best", {ZERO: ZERO})
        self.rule("evaluations", {ZERO: ZERO})
        self.rule("first", {ZERO: ZERO})
        self.averages = {}
        self.rule("lr", {ZERO: self.rate(ZERO)})
    lr = staticmethod(lambda t: app("lr", (lift(t),), "R"))
    average = staticmethod(lambda t: app("average", (lift(t),), "R"))
    evaluations = staticmethod(lambda t: app("evaluations", (lift(t),), "I"))
    def evaluated(self, t): return land(eq(self.E.imod(t, self.every), ZERO), lnot(eq(lift(t), ONE)))
    # first(t): the first of the steps the average after t steps runs over (0 until there were more than `every` steps, then t - every)
    first = staticmethod(lambda t: app("first", (lift(t),), "I"))
    def facts(self, t):
        t, f = lift(t), self.first(t)
        return [le(ZERO, f), lt(f, t), lor(land(eq(f, ZERO), le(t, self.every)), eq(add(f, self.every), t))]
    def window(self, t):
        """losses of the last steps before t: (how many, i-th)"""
        t, f = lift(t), self.first(t)
        return sub(t, f), lambda i: self.L(add(f, i))
    def mean(self, t):
        """mean of the recorded losses: if these are the losses of the window, it is the average by definition"""
        k, pr = self.steps, cur.ctx.prove
        f, q = self.first(k), fresh("q")
        n = lift(t.sl.n)
        base = cur.ctx
        def window():
            if t.prefix or not pr(eq(add(n, C(len(t.suffix))), sub(k, f))): return False
            if any(not pr(eq(lift(x), self.L(add(f, n, C(j))))) for j, x in enumerate(t.suffix)): return False
            cur.ctx = base.child(le(ZERO, q), lt(q, n))
            try: return cur.ctx.prove(eq(lift(t.sl.fn(q)), self.L(add(f, q))))
            finally: cur.ctx = base
        if window(): return self.average(k)
        self.unfold()
    def unfold(self): self.rule("average", self.averages)
    def define(self, k):
        k = lift(cur.ctx.nterm(lift(k)))
        k1 = lift(py(cur.ctx.nterm(add(k, ONE))))
        ev = self.evaluated(k1)
        s = fresh("s")
        f = self.first(k)
        self.rule("first", {k1: add(f, T.ite(lt(self.every, sub(k1, f)), ONE, ZERO))})
        f = self.first(k1)
        self.averages.update({k1: T.div(add(mksum(s, ZERO, sub(k, f), self.L(add(f, s))), self.L(k)), sub(k1, f))})
        if "average" in self.defs: self.unfold()
        self.rule("lr", {k1: T.ite(ev, self.rate(k1), self.lr(k))})
        self.rule("evaluations", {k1: add(self.evaluations(k), T.ite(ev, ONE, ZERO))})
        self.rule("drops", {k1: add(self.drops(k), T.ite(land(ev, lnot(eq(self.rate(k1), self.lr(k)))), ONE, ZERO))})
        b = self.best(k)
        self.rule("best", {k1: T.ite(land(ev, lor(eq(b, ZERO), lt(self.average(k1), self.average(b)))), k1, b)})

    def schedule(self, opt, loss):
        if isinstance(loss, Tensor): loss = loss.item_term()
        self.E.ensure_true("the scheduler steps at the evaluations", self.evaluated(self.steps))
        if self.losses_known: self.E.ensure("the scheduler is told the average loss", [], lambda: self.E.eq(loss, self.average(self.steps)))
        self.count("scheduled")
        for g in opt.attrs["param_groups"]:
            self.e.journal.rec_dict(g, "lr", "dict")
            g["lr"] = self.rate(self.steps)
