"""Model of the part of pandas / numpy the code uses: a table is a list of column blocks (2-D tensors) plus column labels."""
import math
from .terms import *
from . import terms as T
from . import tensor as TS
from .tensor import Tensor, PyRaise, cur, py, as_tensor
from .interp import *


class DF:
    def __init__(self, eng, blocks, labels):
        self.eng, self.blocks, self.labels_ = eng, blocks, labels     # labels_: None or list / SymList per whole table (list of parts)

    def ncols(self):
        r = ZERO
        for b in self.blocks: r = add(r, lift(b.size(1)))
        return r
    def nrows(self): return self.blocks[0].size(0)

    def attr_(self, n):
        if n == "columns": return self.columns()
        if n == "shape": return (py(lift(self.nrows())), py(cur.ctx.nterm(self.ncols())))
        if n == "iloc": return Iloc(self)
        if n == "index": return SymRange(ZERO, lift(self.nrows()))
        if n == "values": return self.eng.call(self.eng.getattr(self.eng.import_module("torch"), "cat"), [list(self.blocks)], {"dim": 1}) if len(self.blocks) > 1 else self.blocks[0]
        if n == "to_numpy": return lambda *a, **k: self.attr_("values")
        raise Unsupported("DataFrame." + n)

    def setattr_(self, n, v):
        if n == "columns":
            if isinstance(v, (list, tuple, SymList)):
                ln = len_of(v) if not isinstance(v, SymList) else v.n
                if not cur.ctx.prove(eq(lift(ln), self.ncols())):
                    if cur.ctx.decide(eq(lift(ln), self.ncols())) is False: raise PyRaise("ValueError", "Length mismatch")
                    self.eng.side_condition("number of column labels", eq(lift(ln), self.ncols()))
            self.labels_ = [v]
            return
        raise Unsupported("DataFrame." + n + " =")

    def columns(self):
        ls = self.labels_ or []
        return ls[0] if len(ls) == 1 else ls

    def locate(self, k):
        """(block, column within the block)"""
        off = ZERO
        for b in self.blocks[:-1]:
            n = lift(b.size(1))
            d = cur.ctx.decide(lt(sub(k, off), n))
            if d is None: raise Unsupported("column position not determined: " + show(k))
            if d: return b, cur.ctx.nterm(sub(k, off))
            off = add(off, n)
        return self.blocks[-1], cur.ctx.nterm(sub(k, off))

    def iloc_at(self, eng, i, k):
        b, c = self.locate(lift(k))
        from .symrun import decode
        return b.at_dims([decode(x, [b.axes[a] for a in g]) for x, g in zip((lift(i), c), b.groups)])

    def label(self, k):
        k, off = lift(k), ZERO
        parts = self.labels_
        for p in parts[:-1]:
            n = lift(p.n if isinstance(p, SymList) else len(p))
            d = cur.ctx.decide(lt(sub(k, off), n))
            if d is None: raise Unsupported("label position not determined")
            if d: return self.eng.getitem(p, py(cur.ctx.nterm(sub(k, off))))
            off = add(off, n)
        return self.eng.getitem(parts[-1], py(cur.ctx.nterm(sub(k, off))))


class Iloc:
    def __init__(self, df): self.df = df
    def getitem_(self, k):
        if isinstance(k, tuple) and len(k) == 2 and not any(isinstance(x, slice) for x in k): return self.df.iloc_at(self.df.eng, *k)
        raise Unsupported("iloc slice")


class DictFrame:
    """DataFrame built from a dict of columns"""
    def __init__(self, eng, d): self.eng, self.d = eng, d
    def getitem_(self, k): return self.d[k]
    def attr_(self, n):
        if n == "columns": return list(self.d)
        raise Unsupported("DataFrame." + n)


def install(eng):
    E = eng
    def DataFrame(data=None, columns=None, index=None):
        if isinstance(data, dict): return DictFrame(E, dict(data))
        if isinstance(data, Tensor):
            t = data
            if t.ndim == 1: t = E.tm.METH["unsqueeze"](E, t, 1) if hasattr(E.tm, "METH") else t.unsqueeze(1)
            d = DF(E, [t], None)
            if columns is not None: d.setattr_("columns", columns)
            return d
        raise Unsupported("DataFrame of " + type(data).__name__)
    def concat(objs, axis=0, ignore_index=False):
        if axis != 1: raise Unsupported("row concat")
        objs = E.as_list(objs)
        for o in objs[1:]:
            E.side_condition("concat: same number of rows", eq(lift(o.nrows()), lift(objs[0].nrows())))
        return DF(E, [b for o in objs for b in o.blocks], [l for o in objs for l in (o.labels_ or [None])])
    pd = NativeModule("pandas", dict(DataFrame=DataFrame, concat=concat, isna=Missing("pd.isna"), Series=Missing("Series")))

    def u(name):
        def f(x, *a, **k):
            if isinstance(x, Tensor): return E.call(E.getattr(x, name), [], {})
            r = T.fn1(name, lift(x))
            return py(r)
        return f
    def mean(x, axis=None):
        if isinstance(x, Tensor): return E.call(E.getattr(x, "mean"), [], {})
        if isinstance(x, list) and len(x) == 1 and isinstance(x[0], SymTail):
            r = E.trainer.mean(x[0]) if E.trainer is not None else None
            if r is not None: return r
            x = E.untail(x)
        if isinstance(x, SymList): return div(E.builtins["sum"](x), x.n)
        xs = E.as_list(x)
        if any(isinstance(v, Term) for v in xs): return div(add(ZERO, *[lift(v) for v in xs]), C(len(xs)))
        return sum(xs) / len(xs)
    def hermgauss(n):
        """nodes and weights of Gauss-Hermite quadrature (uninterpreted; numpy is trusted)"""
        n = lift(n)
        x = Tensor.build([[n]], lambda i: app("herm_x", (n, i[0])))
        w = Tensor.build([[n]], lambda i: app("herm_w", (n, i[0])))
        return x, w
    E.root.app_facts["herm_w"] = lambda a: [lt(ZERO, app("herm_w", a))]
    herm = NativeModule("numpy.polynomial.hermite", dict(hermgauss=hermgauss))
    poly = NativeModule("numpy.polynomial", dict(hermite=herm))
    rnd = NativeModule("numpy.random", dict(seed=lambda *a: None))
    torch = E.import_module("torch")
    def eye(n, dtype=None):
        t = E.call(E.getattr(torch, "eye"), [n], {})
        return TS.cast(t, "bool") if dtype is bool or dtype is E.builtins.get("bool") else t
    np = NativeModule("numpy", dict(log=u("log"), exp=u("exp"), sqrt=u("sqrt"), mean=mean, eye=eye, polynomial=poly, random=rnd,
        ndarray=Missing("ndarray"), pi=T.app("pi", (), "R"), inf=math.inf, nan=math.nan, array=lambda x, **k: E.to_index_tensor(x)))
    return {"pandas": pd, "numpy": np, "numpy.polynomial": poly, "numpy.polynomial.hermite": herm, "numpy.random": rnd}
