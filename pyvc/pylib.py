"""Models of Python builtins and small library modules used by the interpreted code."""
import math, itertools
from .terms import *
from . import terms as T
from . import tensor as TS
from .tensor import Tensor, PyRaise, cur, py
from .interp import *
from .interp import _ABSENT


class NullCtx:
    """context manager / decorator without an effect on values (torch.no_grad and friends)"""
    def __init__(self, *a, **k): pass
    def ctx_enter(self): return self
    def ctx_exit(self): pass
    def __call__(self, f=None, *a, **k): return f


class Noop:
    """object whose methods do nothing (logging)"""
    def attr_(self, n): return lambda *a, **k: None
    def __call__(self, *a, **k): return self


class SymSet:
    def __init__(self, l): self.l = l


def value_attr(eng, o, n):
    if isinstance(o, LoopList): raise Unsupported("list under construction")
    if isinstance(o, list): return list_attr(eng, o, n)
    if isinstance(o, dict): return dict_attr(eng, o, n)
    if isinstance(o, SymList):
        if n == "index":
            def index(x):
                raise Unsupported("index in symbolic list")
            return index
        if n == "copy": return lambda: SymList(o.n, o.fn)
        if n == "append":
            raise Unsupported("append to a symbolic list")
        raise PyRaise("AttributeError", f"list.{n}")
    if isinstance(o, tuple):
        if n == "index": return lambda x: list(o).index(x)
        if n == "count": return lambda x: o.count(x)
        if n == "numel": 
            def numel():
                r = 1
                for x in o: r = eng.binop("Mult", r, x)
                return r
            return numel
    if isinstance(o, str):
        f = getattr(o, n, None)
        if n == "join":
            def join(l):
                l = eng.iterable(l)
                if isinstance(l, SymList) or not all(isinstance(x, str) for x in l): return "?"
                return o.join(l)
            return join
        if f is not None: return lambda *a, **k: f(*[x if isinstance(x, (str, int, tuple)) else "?" for x in a], **k)
    if isinstance(o, SymStr): raise Unsupported("method of symbolic string")
    if isinstance(o, set):
        if n in ("add", "discard", "remove", "update"): raise Unsupported("set mutation")
        f = getattr(o, n, None)
        if f: return f
    if isinstance(o, (int, float, Term)) :
        if n == "item": raise PyRaise("AttributeError", "'float' object has no attribute 'item'")
        if isinstance(o, float) and n == "is_integer": return o.is_integer
    if isinstance(o, range) and n in ("start", "stop", "step"): return getattr(o, n)
    raise PyRaise("AttributeError", f"{type(o).__name__}.{n}")


def list_attr(eng, o, n):
    J = eng.journal
    if len(o) == 1 and isinstance(o[0], SymTail) and n in ("append", "pop"):
        t = o[0]
        def append(x):
            J.rec_list(o); o[:] = [SymTail(t.prefix, t.sl, t.suffix + [x])]
        def pop(i=-1):
            if i == -1 and t.suffix: x, r = t.suffix[-1], SymTail(t.prefix, t.sl, t.suffix[:-1])
            elif i == 0 and t.prefix: x, r = t.prefix[0], SymTail(t.prefix[1:], t.sl, t.suffix)
            elif i == 0 and cur.ctx.decide(lt(ZERO, t.sl.n)) is True: x, r = t.sl.fn(ZERO), SymTail([], SymList(py(cur.ctx.nterm(sub(t.sl.n, ONE))), lambda j: t.sl.fn(add(j, ONE))), t.suffix)
            else: raise Unsupported("pop from a list of symbolic length")
            J.rec_list(o); o[:] = [r]
            return x
        return append if n == "append" else pop
    if len(o) == 1 and isinstance(o[0], SymTail):
        return value_attr(eng, eng.untail(o), n)
    def append(x):
        J.rec_list(o); o.append(x)
    def extend(x):
        l = eng.iterable(x)
        J.rec_list(o)
        if isinstance(l, SymList):
            pre = list(o)
            o[:] = [SymTail(pre, l)]
        else: o.extend(l)
    def pop(i=-1):
        J.rec_list(o)
        if not o: raise PyRaise("IndexError", "pop from empty list")
        return o.pop(i)
    def insert(i, x):
        J.rec_list(o); o.insert(i, x)
    def remove(x):
        for i, y in enumerate(o):
            if eng.truth(eng.compare("Eq", x, y)):
                J.rec_list(o); del o[i]
                return
        raise PyRaise("ValueError", "list.remove")
    def index(x):
        for i, y in enumerate(o):
            if eng.truth(eng.compare("Eq", x, y)): return i
        raise PyRaise("ValueError", "not in list")
    def sort(key=None, reverse=False):
        J.rec_list(o)
        o[:] = b_sorted(eng, o, key=key, reverse=reverse)
    def clear():
        J.rec_list(o); o.clear()
    def reverse():
        J.rec_list(o); o.reverse()
    d = dict(append=append, extend=extend, pop=pop, insert=insert, remove=remove, index=index, sort=sort, clear=clear,
             reverse=reverse, copy=lambda: list(o), count=lambda x: sum(1 for y in o if eng.truth(eng.compare("Eq", x, y))))
    if n in d: return d[n]
    raise PyRaise("AttributeError", f"'list' object has no attribute '{n}'")


def dict_attr(eng, o, n):
    J = eng.journal
    def get(k, d=None): return o.get(k, d)
    def update(*a, **k):
        J.rec_dictall(o)
        for x in a: o.update(x if isinstance(x, dict) else dict(eng.as_list(x)))
        o.update(k)
    def pop(k, *d):
        J.rec_dictall(o)
        if k in o: return o.pop(k)
        if d: return d[0]
        raise PyRaise("KeyError", str(k))
    def setdefault(k, d=None):
        if k not in o:
            J.rec_dict(o, k, "dict"); o[k] = d
        return o[k]
    tab = dict(get=get, update=update, pop=pop, setdefault=setdefault, keys=lambda: list(o), values=lambda: list(o.values()),
               items=lambda: [(k, v) for k, v in o.items()], copy=lambda: dict(o))
    if n in tab: return tab[n]
    raise PyRaise("AttributeError", f"'dict' object has no attribute '{n}'")


# ------------------------------------------------------------------ builtins
def b_len(eng, x):
    if isinstance(x, list) and len(x) == 1 and isinstance(x[0], SymTail): x = eng.untail(x)
    if isinstance(x, (list, tuple, dict, str, set, range)): return len(x)
    if isinstance(x, SymList): return py(x.n)
    if isinstance(x, SymRange): return py(T.maximum(ZERO, cur.ctx.nterm(sub(x.hi, x.lo))))
    if isinstance(x, Tensor):
        if x.ndim == 0: raise PyRaise("TypeError", "len() of a 0-d tensor")
        return py(x.size(0))
    if isinstance(x, Obj):
        f, _ = x.cls.lookup("__len__")
        if f is not None: return eng.call(Bound(x, f), [], {})
        if "_items_" in x.attrs: return b_len(eng, x.attrs["_items_"])
    if hasattr(x, "len_"): return x.len_()
    raise PyRaise("TypeError", "object has no len()")


def b_range(eng, *a):
    a = [x.item_term() if isinstance(x, Tensor) else x for x in a]
    a = [py(cur.ctx.nterm(x)) if isinstance(x, Term) else x for x in a]
    for x in a:
        if isinstance(x, float) or (isinstance(x, Term) and x.sort != "I"): raise PyRaise("TypeError", "'float' object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in a): return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if st == -1:
        lo_, hi_ = lift(lo), lift(hi)
        n = cur.ctx.nterm(sub(lo_, hi_))
        return SymList(n, lambda i: py(sub(lo_, i)))
    if not isinstance(st, int): raise Unsupported("symbolic range step")
    return SymRange(lo, hi, st)


def seq(eng, x):
    return eng.iterable(x)


def b_enumerate(eng, x, start=0):
    l = eng.iterable(x)
    if isinstance(l, SymList): return SymList(l.n, lambda i: (py(add(i, lift(start))), l.fn(i)))
    return [(eng.binop("Add", start, i), v) for i, v in enumerate(l)]


def b_zip(eng, *xs):
    ls = [eng.iterable(x) for x in xs]
    if not ls: return []
    if any(isinstance(l, SymList) for l in ls):
        n = None
        for l in ls:
            m = lift(b_len(eng, l))
            if n is None: n = m
            elif not TS.same(n, m):
                d = cur.ctx.decide(le(n, m))
                if d is True: pass
                elif d is False: n = m
                else: n = T.minimum(n, m)
        return SymList(n, lambda i: tuple(eng.getitem(l, py(i)) for l in ls))
    return [tuple(t) for t in zip(*ls)]


def b_reversed(eng, x):
    l = eng.iterable(x)
    if isinstance(l, SymList): return SymList(l.n, lambda i: l.fn(cur.ctx.nterm(sub(sub(l.n, ONE), i))))
    return list(reversed(l))


def b_list(eng, x=()):
    l = eng.iterable(x)
    return l if isinstance(l, SymList) else list(l)


def b_tuple(eng, x=()):
    l = eng.iterable(x)
    return SymList(l.n, l.fn, "tuple") if isinstance(l, SymList) else tuple(l)


def b_sum(eng, x, start=0):
    l = eng.iterable(x)
    if isinstance(l, SymList) and hasattr(l, "parts_"):
        r = start
        if eng.trainer is not None: eng.trainer.unfold()
        for part in l.parts_: r = b_sum(eng, part, r)
        return r
    if isinstance(l, SymList):
        k = fresh("s")
        base = cur.ctx
        cur.ctx = base.child(le(ZERO, k), lt(k, l.n))
        try: v = l.fn(k)
        finally: cur.ctx = base
        if isinstance(v, Tensor):
            v2 = v
            return Tensor.build(v.dims(), lambda idx: mksum(k, ZERO, l.n, v2.at_flatgroups(idx)), v.dtype)
        return py(add(lift(start), mksum(k, ZERO, l.n, lift(v))))
    r = start
    for v in l: r = eng.binop("Add", r, v)
    return r


def b_all(eng, x, isall=True):
    l = eng.iterable(x)
    if isinstance(l, SymList):
        k = fresh("q")
        base = cur.ctx
        cur.ctx = base.child(le(ZERO, k), lt(k, l.n))
        try: c = eng.truth_term(l.fn(k))
        finally: cur.ctx = base
        r = T.forall_(k, ZERO, l.n, c) if isall else T.exists_(k, ZERO, l.n, c)
        d = cur.ctx.decide(r)
        if d is None and cur.ctx.prove(r): d = True
        return r if d is None else d
    r = TRUE if isall else FALSE
    for v in l: r = land(r, eng.truth_term(v)) if isall else lor(r, eng.truth_term(v))
    return py(r)


def b_max(eng, *xs, key=None, default=_ABSENT, which="max"):
    if len(xs) == 1:
        x = xs[0]
        if isinstance(x, SymList) and hasattr(x, which + "_"): return getattr(x, which + "_")
        l = eng.iterable(x)
        if isinstance(l, SymList):
            if hasattr(l, which + "_"): return getattr(l, which + "_")
            if key is not None: raise Unsupported("max with key")
            parts = getattr(l, "parts_", None)
            if parts and all(not isinstance(p, SymList) or cur.ctx.decide(lt(ZERO, p.n)) is True for p in parts):
                ms = [b_max(eng, p, which=which) for p in parts if isinstance(p, SymList) or len(p)]
                return b_max(eng, *ms, which=which) if len(ms) > 1 else ms[0]
            k = fresh("x")
            v = l.fn(k)
            if isinstance(v, Tensor): v = v.item_term()
            return py(T.mkmax(k, ZERO, l.n, lift(v), which))
        xs = list(l)
        if not xs:
            if default is not _ABSENT: return default
            raise PyRaise("ValueError", "max() arg is an empty sequence")
    if key is not None: raise Unsupported("max with key")
    r = xs[0]
    for v in xs[1:]:
        if isinstance(r, (int, float)) and isinstance(v, (int, float)): r = max(r, v) if which == "max" else min(r, v)
        else:
            a = r.item_term() if isinstance(r, Tensor) else lift(r)
            b = v.item_term() if isinstance(v, Tensor) else lift(v)
            d = cur.ctx.decide(le(a, b))
            if d is not None: r = py(b if d == (which == "max") else a)
            else: r = T.maximum(a, b) if which == "max" else T.minimum(a, b)
    return r


def b_sorted(eng, x, key=None, reverse=False):
    l = eng.iterable(x)
    if isinstance(l, SymList): raise Unsupported("sorted of symbolic sequence")
    ks = [eng.call(key, [v], {}) if key else v for v in l]
    if all(isinstance(k, (int, float, str, tuple)) for k in ks):
        return [v for _, v in sorted(zip(ks, l), key=lambda p: p[0], reverse=reverse)]
    raise Unsupported("sorted of symbolic values")


def b_isinstance(eng, x, t):
    if isinstance(t, (tuple, list)): return any(b_isinstance(eng, x, u) for u in t)
    if isinstance(t, TypeName):
        return t.check(x)
    if isinstance(t, PyClass):
        if isinstance(x, Obj): return x.cls.issub(t)
        if t.name == "Parameter": return isinstance(x, Tensor) and x.is_param
        return False
    if isinstance(t, type) and issubclass(t, BaseException): return isinstance(x, ExcValue)
    if isinstance(t, Missing):
        if isinstance(x, (Obj, Tensor, Term, int, float, str, list, SymList, type(None), dict, tuple)): return False
    if hasattr(t, "check"): return t.check(x)
    raise Unsupported(f"isinstance {t!r}")


class TypeName:
    def __init__(self, name, chk, conv): self.name, self.chk, self.conv = name, chk, conv
    __name__ = "type"
    def check(self, x): return self.chk(x)
    def __call__(self, *a, **k): return self.conv(*a, **k)
    def __hash__(self): return hash(self.name)
    def binop(self, op, other, swapped): return self      # X | Y annotations
    def getitem_(self, k): return self
    def attr_(self, n):
        if n == "__name__": return self.name
        if self.name == "dict" and n == "fromkeys": return lambda l, v=None: {k: v for k in l}
        raise Unsupported(self.name + "." + n)


def is_int(x): return isinstance(x, int) or (isinstance(x, Term) and x.sort in "IB")
def is_float(x): return isinstance(x, float) or (isinstance(x, Term) and x.sort == "R")


def conv_int(eng, x=0):
    if isinstance(x, Tensor): x = x.item_term()
    if isinstance(x, str): return int(x)
    if isinstance(x, Term):
        if x.sort == "I": return py(x)
        if x.special:
            if eng.fork(lor(T.isnan(x), T.isinf(x))): raise PyRaise("ValueError", "cannot convert float NaN or infinity to integer")
            x = T.finite_part(x)
        if x.op == "mul" or x.op == "inv" or True:
            # int(a / b) of integers with an exact quotient
            p = cur.ctx.nterm(x)
            if p.sort == "I": return py(p)
            q = cur.ctx.norm(x)
            if NM.is_int_poly(q): return py(as_int(NM.pterm(q)))
        return py(TS.to_int(x))
    if hasattr(x, "item_"): return conv_int(eng, x.item_())
    return int(x)


def as_int(t):
    return t if t.sort == "I" else T.mk(t.op, t.args, "I")


from . import norm as NM


def conv_float(eng, x=0.0):
    if isinstance(x, Tensor): x = x.item_term()
    if isinstance(x, Term): return x if x.sort == "R" else (float(T.cval(x)) if isc(x) else x)
    return float(x)


def builtins(eng):
    E = eng
    B = {}
    B.update({"True": True, "False": False, "None": None, "NotImplemented": None, "Ellipsis": Ellipsis, "__debug__": True})
    B["len"] = lambda x: b_len(E, x)
    B["range"] = TypeName("range", lambda x: isinstance(x, (range, SymRange)), lambda *a: b_range(E, *a))
    B["enumerate"] = lambda x, start=0: b_enumerate(E, x, start)
    B["zip"] = lambda *a, **k: b_zip(E, *a)
    B["reversed"] = lambda x: b_reversed(E, x)
    B["sum"] = lambda x, start=0: b_sum(E, x, start)
    B["all"] = lambda x: b_all(E, x)
    B["any"] = lambda x: b_all(E, x, False)
    B["max"] = lambda *a, **k: b_max(E, *a, **k)
    B["min"] = lambda *a, **k: b_max(E, *a, **k, which="min")
    B["sorted"] = lambda x, key=None, reverse=False: b_sorted(E, x, key, reverse)
    B["print"] = lambda *a, **k: None
    B["isinstance"] = lambda x, t: b_isinstance(E, x, t)
    B["issubclass"] = lambda x, t: x.issub(t) if isinstance(x, PyClass) else False
    B["callable"] = lambda x: isinstance(x, (PyFunc, Bound, PyClass)) or callable(x)
    B["hasattr"] = lambda o, n: b_hasattr(E, o, n)
    B["getattr"] = lambda o, n, *d: b_getattr(E, o, n, *d)
    B["setattr"] = lambda o, n, v: E.setattr(o, n, v)
    B["delattr"] = lambda o, n: (E.journal.rec_dict(o.attrs, n, "attr"), o.attrs.pop(n))[0] and None
    B["abs"] = lambda x: E.tm.method(E, x, "abs") if isinstance(x, Tensor) else (py(T.absf(x)) if isinstance(x, Term) else abs(x))
    B["round"] = lambda x, n=None: b_round(E, x, n)
    B["map"] = lambda f, *xs: b_map(E, f, *xs)
    B["filter"] = lambda f, x: [v for v in E.as_list(x) if E.truth(E.call(f, [v], {}) if f else v)]
    B["iter"] = lambda x: Iter(E.as_list(x))
    B["next"] = b_next
    B["id"] = id
    B["pow"] = lambda a, b: E.binop("Pow", a, b)
    B["divmod"] = lambda a, b: (E.binop("FloorDiv", a, b), E.binop("Mod", a, b))
    B["repr"] = lambda x: "?"
    B["super"] = lambda *a: Super(*a)
    B["vars"] = lambda o: o.attrs
    B["locals"] = Missing("locals")
    B["open"] = Missing("open")
    B["exit"] = Missing("exit")
    B["property"] = Prop
    B["staticmethod"] = Static
    B["classmethod"] = ClassM
    B["int"] = TypeName("int", is_int, lambda *a: conv_int(E, *a))
    B["float"] = TypeName("float", is_float, lambda *a: conv_float(E, *a))
    B["bool"] = TypeName("bool", lambda x: isinstance(x, bool) or (isinstance(x, Term) and x.sort == "B"), lambda x=False: py(E.truth_term(x)) if isinstance(x, (Term, Tensor)) else E.truth(x))
    B["str"] = TypeName("str", lambda x: isinstance(x, (str, SymStr)), lambda x="": x if isinstance(x, (str, SymStr)) else str(x) if isinstance(x, (int, float)) else SymStr([x]) if isinstance(x, Term) else "?")
    B["list"] = TypeName("list", lambda x: isinstance(x, list) or (isinstance(x, SymList) and x.kind == "list"), lambda *a: b_list(E, *a))
    B["tuple"] = TypeName("tuple", lambda x: isinstance(x, tuple) or (isinstance(x, SymList) and x.kind == "tuple"), lambda *a: b_tuple(E, *a))
    B["dict"] = TypeName("dict", lambda x: isinstance(x, dict), lambda *a, **k: b_dict(E, *a, **k))
    B["set"] = TypeName("set", lambda x: isinstance(x, set), lambda *a: b_set(E, *a))
    B["frozenset"] = B["set"]
    B["slice"] = lambda *a: slice(*a)
    B["object"] = PyClass("object", [], {})
    B["type"] = TypeName("type", lambda x: isinstance(x, PyClass), lambda x: x.cls if isinstance(x, Obj) else b_type(B, x))
    B["format"] = lambda *a: "?"
    B["hash"] = id
    return B


def b_type(B, x):
    for n in ("bool", "int", "float", "str", "list", "tuple", "dict"):
        if B[n].check(x): return B[n]
    raise Unsupported("type()")


def b_dict(E, *a, **k):
    d = {}
    for x in a: d.update(x if isinstance(x, dict) else dict(E.as_list(x)))
    d.update(k)
    return d


def b_set(E, x=()):
    l = E.iterable(x)
    if isinstance(l, SymList): return SymSet(l)
    if any(isinstance(v, (Term, Tensor)) for v in l): raise Unsupported("set of symbolic values")
    return set(l)


class Iter:
    def __init__(self, l): self.l, self.i = l, 0
    def iterate(self):
        r = self.l[self.i:]
        self.i = len(self.l)
        return r


def b_next(it, *d):
    if isinstance(it, list): it = Iter(it)
    if isinstance(it, Iter):
        if it.i < len(it.l):
            it.i += 1
            return it.l[it.i - 1]
        if d: return d[0]
        raise PyRaise("StopIteration")
    raise Unsupported("next")


def b_map(E, f, *xs):
    ls = E.iterable(xs[0]) if len(xs) == 1 else b_zip(E, *xs)
    one = len(xs) == 1
    if isinstance(ls, SymList): return E.sym_map(ls.n, lambda k: E.call(f, [ls.fn(k)] if one else list(ls.fn(k)), {}))
    return [E.call(f, [v] if one else list(v), {}) for v in ls]


def b_hasattr(E, o, n):
    try:
        E.getattr(o, n)
        return True
    except PyRaise as e:
        if e.kind == "AttributeError": return False
        raise


def b_getattr(E, o, n, *d):
    if isinstance(n, SymStr): raise Unsupported("getattr with a symbolic name")
    try: return E.getattr(o, n)
    except PyRaise as e:
        if e.kind == "AttributeError" and d: return d[0]
        raise


def b_round(E, x, n=None):
    if isinstance(x, (int, float)): return round(x, n) if n is not None else round(x)
    if isinstance(x, Term): return app("round", (x,), "I") if n is None else app("roundn", (x, C(n)), "R")
    raise Unsupported("round")


# ------------------------------------------------------------------ modules
def deepcopy(eng, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo: return memo[id(v)]
    if isinstance(v, (int, float, str, bool, type(None), Term, PyFunc, PyClass, SymStr, range, SymRange)): return v
    if isinstance(v, Tensor):
        r = v.contiguous_copy()
        r.is_param, r.requires_grad, r.persistent = v.is_param, v.requires_grad, getattr(v, "persistent", True)
        memo[id(v)] = r
        return r
    if isinstance(v, list):
        r = []
        memo[id(v)] = r
        r.extend(deepcopy(eng, x, memo) for x in v)
        return r
    if isinstance(v, tuple): return tuple(deepcopy(eng, x, memo) for x in v)
    if isinstance(v, dict):
        r = {}
        memo[id(v)] = r
        for k, x in v.items(): r[k] = deepcopy(eng, x, memo)
        return r
    if isinstance(v, SymList): return SymList(v.n, v.fn, v.kind)
    if isinstance(v, Obj):
        f, _ = v.cls.lookup("__deepcopy__")
        if f is not None: return eng.call(Bound(v, f), [memo], {})
        o = Obj(v.cls)
        memo[id(v)] = o
        for k, x in v.attrs.items(): o.attrs[k] = deepcopy(eng, x, memo)
        return o
    if isinstance(v, Bound): return Bound(deepcopy(eng, v.self_, memo), v.func)
    if isinstance(v, SymTail): return v
    if hasattr(v, "deepcopy_"): return v.deepcopy_(lambda x: deepcopy(eng, x, memo))
    raise Unsupported("deepcopy of " + type(v).__name__)


def mathfn(name):
    pyf = {"exp": math.exp, "log": math.log, "sqrt": math.sqrt}.get(name)
    def f(x, *a):
        if isinstance(x, Tensor): x = x.item_term()
        if isinstance(x, (int, float)):
            x = lift(x)
        r = T.fn1(name, x)
        return py(r)
    return f


def modules(eng):
    M = {}
    def mod(n, **ns): M[n] = NativeModule(n, ns)
    mod("math", exp=mathfn("exp"), log=mathfn("log"), sqrt=mathfn("sqrt"), pi=T.app("pi", (), "R"), inf=math.inf, nan=math.nan,
        ceil=lambda x: mceil(eng, x), floor=lambda x: mfloor(eng, x), isnan=lambda x: py(T.isnan(lift(x))),
        isinf=lambda x: py(T.isinf(lift(x))), log10=Missing("math.log10"), factorial=math.factorial,
        cos=lambda x: T.fn1("cos", lift(x)), sin=lambda x: T.fn1("sin", lift(x)), radians=lambda x: mul(lift(x), T.div(T.app("pi", (), "R"), C(180))))
    mod("copy", deepcopy=lambda x, memo=None: deepcopy(eng, x), copy=lambda x: x)
    lg = Noop()
    mod("logging", getLogger=lambda *a: lg, INFO=20, DEBUG=10, WARNING=30, ERROR=40, Logger=Missing("Logger"), basicConfig=lambda *a, **k: None,
        info=lambda *a, **k: None, warning=lambda *a, **k: None, NullHandler=lambda: lg)
    obj = PyClass("ABC", [], {})
    def abstractmethod(f):
        if isinstance(f, PyFunc): f.attrs["abstract"] = True
        return f
    mod("abc", ABC=obj, abstractmethod=abstractmethod, ABCMeta=obj)
    class Ty:
        def __init__(self, n): self.n = n
        def getitem_(self, k): return self
        def binop(self, op, o, sw): return self
        def __call__(self, *a, **k): return self
        def check(self, x): raise Unsupported("isinstance of typing construct")
    mod("typing", **{n: Ty(n) for n in ("Any", "Callable", "Dict", "List", "Tuple", "Optional", "Union", "Literal", "Iterable", "Sequence", "Self", "Generator")}, TYPE_CHECKING=False)
    M["collections.abc"] = NativeModule("collections.abc", {n: Ty(n) for n in ("Callable", "Iterable", "Sequence", "Mapping")})
    mod("collections", OrderedDict=lambda *a, **k: b_dict(eng, *a, **k), defaultdict=Missing("defaultdict"))
    def wraps(f): return lambda g: g
    def reduce(f, l, *init):
        xs = eng.as_list(l)
        r = init[0] if init else xs.pop(0)
        for x in xs: r = eng.call(f, [r, x], {})
        return r
    mod("functools", wraps=wraps, partial=lambda f, *a, **k: (lambda *b, **q: eng.call(f, list(a) + list(b), {**k, **q})), reduce=reduce,
        lru_cache=lambda *a, **k: (a[0] if a and isinstance(a[0], PyFunc) else (lambda f: f)), cached_property=Prop)
    mod("itertools", product=lambda *a, **k: [tuple(t) for t in itertools.product(*[eng.as_list(x) for x in a], **k)],
        chain=lambda *a: [v for x in a for v in eng.as_list(x)], accumulate=Missing("accumulate"), combinations=lambda l, r: [tuple(t) for t in itertools.combinations(eng.as_list(l), r)])
    mod("operator", add=lambda a, b: eng.binop("Add", a, b), mul=lambda a, b: eng.binop("Mult", a, b))
    class FakePath:
        def attr_(self, n): return lambda *a, **k: True if n in ("exists", "isdir", "isfile") else "/x"
    mod("os", path=FakePath(), cpu_count=lambda: 4, environ={}, makedirs=lambda *a, **k: None, getcwd=lambda: "/x", listdir=Missing("listdir"))
    mod("time", time=lambda: T.fresh("time", "R"), sleep=lambda *a: None, perf_counter=lambda: T.fresh("time", "R"))
    mod("gc", collect=lambda *a: None)
    mod("warnings", warn=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)
    mod("contextlib", contextmanager=Missing("contextmanager"), nullcontext=NullCtx)
    mod("dataclasses", dataclass=Missing("dataclass"))
    mod("__future__")
    mod("sys", stdout=Noop(), version_info=(3, 12))
    mod("random", seed=lambda *a: None)
    mod("importlib", resources=Missing("resources"))
    for n in ("plotly", "plotly.graph_objects", "plotly.express", "plotly.io", "factor_analyzer", "scipy", "sklearn", "pickle",
              "urllib.request", "tempfile", "shutil", "requests", "matplotlib"):
        mod(n)
    return M


def mceil(eng, x):
    if isinstance(x, (int, float)): return math.ceil(x)
    x = lift(x)
    if x.sort == "I": return x
    if isc(x): return math.ceil(T.cval(x))
    return app("ceil", (x,), "I")


def mfloor(eng, x):
    if isinstance(x, (int, float)): return math.floor(x)
    x = lift(x)
    if x.sort == "I": return x
    if isc(x): return math.floor(T.cval(x))
    return app("floor", (x,), "I")
