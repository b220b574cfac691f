"""Symbolic tensors with symbolic dimensions: a tensor is an index function to terms.

A dimension is a group (list) of atomic axes (flattened product in order); storages are shared by views and
writes go through views.  CAxis is the axis produced by boolean-mask selection (indexed by the masked multi-index)."""
import math
from .terms import *
from . import terms as T
from .norm import *
from . import norm as NM
import itertools


class PyRaise(Exception):
    """a Python-level exception raised by the interpreted program"""
    def __init__(self, kind, msg="", value=None):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.value = kind, msg, value
        self.where = cur.eng.where() if cur.eng is not None else ''


class Cur:
    ctx = None
    eng = None
    writes = None      # list of storages written (loop analysis)
    reads_guard = None


cur = Cur()


def decide(c):
    return cur.ctx.decide(c)


def same(a, b):
    if a is b: return True
    if isinstance(a, CAxis) or isinstance(b, CAxis):
        return isinstance(a, CAxis) and isinstance(b, CAxis) and a.same(b)
    return decide(eq(a, b)) is True


def is_one(s):
    if isinstance(s, CAxis): return False
    if isc(s): return cval(s) == 1
    return s.op in ("var",) and decide(eq(s, ONE)) is True


def py(t):
    """python int for constant terms"""
    if isinstance(t, Term) and t.op == "c":
        v = t.args[0]
        if isinstance(v, bool): return v
        if v.denominator == 1 and t.sort == "I": return int(v)
    return t


def simp_int(t):
    if isinstance(t, int): return C(t)
    if t.op in ("var", "c"): return t
    if t.op == "mul" and all(x.op in ("var", "c", "mul") for x in t.args):
        return t      # keep the written factor order
    p = cur.ctx.norm(t)
    r = pterm(p)
    return r


T_cval = T.cval


class CAxis:
    """axis of a masked selection: underlying sizes + mask lambda"""
    def __init__(self, sizes, phs, mask):
        self.sizes, self.phs, self.mask = list(sizes), tuple(phs), mask
        self._lam = self._row = None

    def lam(self):
        # canonical lambda of the mask under the index ranges
        ctx = cur.ctx
        ch = ctx.child(*[c for p, s in zip(self.phs, self.sizes) for c in (le(ZERO, p), lt(p, s))])
        m = ch.nb(self.mask)
        h = binder_height([m])
        nv = tuple(canon_var(h + 1 + i) for i in range(len(self.phs)))
        m = subst(m, dict(zip(self.phs, nv)))
        ch = ctx.child(*[c for p, s in zip(nv, self.sizes) for c in (le(ZERO, p), lt(p, s))])
        return mk("lam", (nv, ch.nb(m)), "L")

    def at(self, idx):
        return subst(self.mask, dict(zip(self.phs, idx)))

    def count(self):
        r = ite(self.mask, ONE, ZERO)
        for p, s in zip(reversed(self.phs), reversed(self.sizes)):
            r = mksum(p, ZERO, s, r)
        return r

    def inner_pattern(self):
        """mask that depends only on the last, literal-sized axis: list of bools, else None"""
        s = self.sizes[-1]
        if not isc(s) or T_cval(s) > 8: return None
        ctx = cur.ctx.child(*[c for p, z in zip(self.phs, self.sizes) for c in (le(ZERO, p), lt(p, z))])
        out = []
        for k in range(int(T_cval(s))):
            d = ctx.decide(subst(self.mask, {self.phs[-1]: C(k)}))
            if d is None: return None
            out.append(d)
        return out

    def blocks(self):
        """the selection of leading axes when the mask does not depend on the trailing ones, else None"""
        vs, body = self.lam().args
        n = len(vs)
        while n > 0 and vs[n - 1] not in body.fv: n -= 1
        return CAxis(self.sizes[:n], vs[:n], body) if 0 < n < len(vs) and body is not TRUE else None

    def one_per_row(self):
        """column selected in every row, for a two-axis mask selecting exactly one element per row"""
        if len(self.sizes) != 2: return None
        if self._row is not None and self._row[0] is cur.ctx: return self._row[1]
        self._row = (cur.ctx, None)
        (v, w), body = self.lam().args
        a, b = fresh("r"), fresh("c")
        body = subst(body, {v: a, w: b})
        cs = body.args if body.op == "and" else (body,)
        eqs = [c for c in cs if c.op == "eq0" and b in c.fv]
        if len(eqs) != 1: return None
        e = NM_solve(cur.ctx.norm(eqs[0].args[0]), b)
        if e is None: return None
        e = pterm(e)
        ch = cur.ctx.child(le(ZERO, a), lt(a, self.sizes[0]))
        if b in e.fv or any(b in c.fv for c in cs if c is not eqs[0]): return None
        if not ch.prove(land(le(ZERO, e), lt(e, self.sizes[1]), *[c for c in cs if c is not eqs[0]])): return None
        self._row = (cur.ctx, lambda i: subst(e, {a: i}))
        return self._row[1]

    def rank(self, idx):
        """position of an element among the selected ones"""
        if len(self.sizes) > 1 or isc(self.sizes[-1]):
            pat = self.inner_pattern()
            if pat is not None:
                r = ZERO
                for i, s in zip(idx[:-1], self.sizes[:-1]): r = add(mul(r, s), i)
                r = mul(r, C(sum(pat)))
                j, off = idx[-1], ZERO
                for k in range(len(pat)):
                    off = ite(lt(C(k), j), C(sum(pat[:k + 1])), off)
                return simp_int(add(r, off))
        # trailing axes the mask does not depend on: whole blocks are selected
        lam = self.lam()
        if lam.args[1] is TRUE and len(self.sizes) == 1: return simp_int(idx[0])
        h = self.blocks()
        if h is not None:
            n = len(h.sizes)
            r = h.rank(idx[:n])
            for i, s in zip(idx[n:], self.sizes[n:]): r = add(mul(r, s), i)
            return simp_int(r)
        f = self.one_per_row()
        if f is not None: return simp_int(add(idx[0], ite(lt(f(idx[0]), idx[1]), ONE, ZERO)))
        return app("rank", (lam,) + tuple(simp_int(s) for s in self.sizes) + tuple(simp_int(i) for i in idx), "I")

    def same(self, o):
        if self is o: return True
        if len(self.sizes) != len(o.sizes): return False
        if not all(same(a, b) for a, b in zip(self.sizes, o.sizes)): return False
        return self.lam() is o.lam()


def axis_count(s):
    return s.count() if isinstance(s, CAxis) else s


def nph(s):
    return len(s.sizes) if isinstance(s, CAxis) else 1


def flat_idx(idx):
    out = []
    for i in idx:
        if isinstance(i, tuple): out.extend(i)
        else: out.append(i)
    return out


def group_idx(flat, sizes):
    out, k = [], 0
    for s in sizes:
        if isinstance(s, CAxis):
            n = len(s.sizes)
            out.append(tuple(flat[k:k + n])); k += n
        else:
            out.append(flat[k]); k += 1
    return tuple(out)


class Storage:
    _n = itertools.count(1)

    def __init__(self, sizes, phs, body):
        e = cur.eng
        if e is not None and e.nograd and e.leaves: body = e.tm.AD.expand(e, body)
        self.sizes, self.phs, self.body = list(sizes), tuple(phs), body
        self.uid = next(Storage._n)
        self.version = 0
        self.input_name = None     # name of caller's input: mutation is observable

    def read(self, flat):
        if not self.phs: return self.body
        return subst(self.body, dict(zip(self.phs, flat)))

    def write(self, body):
        if cur.writes is not None: cur.writes.add(self)
        self.body = body
        self.version += 1


def fresh_phs(sizes):
    out = []
    for s in sizes:
        for _ in range(nph(s)): out.append(fresh("x"))
    return tuple(out)


class Tensor:
    def __init__(self, st, axes, groups, rd=None, wr=None, dtype="float32"):
        self.st = st
        self.axes = list(axes)          # sizes
        self.groups = [list(g) for g in groups]
        self.rd = rd or (lambda idx: flat_idx(idx))
        self.wr = wr                    # storage flat idx -> (cond, idx) ; None = identity ; False = not writable
        self.dtype = dtype
        self.requires_grad = False
        self.grad = None
        self.leaf = None
        self.is_param = False

    def frozen(self):
        """the same view on a private copy of the storage"""
        st = Storage(self.st.sizes, self.st.phs, self.st.body)
        r = Tensor(st, self.axes, self.groups, self.rd, self.wr, self.dtype)
        r.requires_grad, r.grad, r.leaf, r.is_param = self.requires_grad, self.grad, self.leaf, self.is_param
        return r

    # -- construction
    @staticmethod
    def build(dims, fn, dtype="float32"):
        """dims: list of lists of axis sizes; fn(list of idx per axis) -> Term"""
        axes, groups = [], []
        for g in dims:
            ids = []
            for s in g:
                ids.append(len(axes)); axes.append(s)
            groups.append(ids)
        phs = fresh_phs(axes)
        base = cur.ctx
        if phs and base is not None:
            conds = []
            for p, s in zip(group_idx(phs, axes), axes):
                if isinstance(s, CAxis):
                    for q, z in zip(p, s.sizes): conds += [le(ZERO, q), lt(q, z)]
                    conds.append(s.at(p))
                else: conds += [le(ZERO, p), lt(p, s)]
            cur.ctx = base.child(*conds)
            try: body = fn(list(group_idx(phs, axes)))
            finally: cur.ctx = base
        else: body = fn(list(group_idx(phs, axes)))
        return Tensor(Storage(axes, phs, body), axes, groups, dtype=dtype)

    @staticmethod
    def scalar(t, dtype=None):
        t = lift(t)
        return Tensor(Storage([], (), t), [], [], dtype=dtype or ("bool" if t.sort == "B" else "int64" if t.sort == "I" else "float32"))

    def clone_view(self, axes, groups, rd, wr, dtype=None):
        r = Tensor(self.st, axes, groups, rd, wr, dtype or self.dtype)
        r.base = self
        return r

    # -- shape
    def dims(self):
        return [[self.axes[i] for i in g] for g in self.groups]

    @property
    def ndim(self): return len(self.groups)

    def size(self, k):
        if k < 0: k += self.ndim
        if k < 0 or k >= self.ndim: raise PyRaise("IndexError", "dimension out of range")
        return group_size([self.axes[i] for i in self.groups[k]])

    def shape(self):
        return tuple(py(self.size(k)) for k in range(self.ndim))

    def numel(self):
        r = ONE
        for s in self.axes: r = mul(r, axis_count(s))
        return r

    # -- element access
    def at(self, idx):
        """idx: one entry per axis"""
        return self.st.read(self.rd(list(idx)))

    def at_dims(self, didx):
        """didx: per dim, a list of axis idx"""
        idx = [None] * len(self.axes)
        for g, d in zip(self.groups, didx):
            for i, x in zip(g, d): idx[i] = x
        return self.at(idx)

    def item_term(self):
        if any(not is_one(s) for s in self.axes): raise Unsupported("item() of non-scalar")
        return self.at([ZERO] * len(self.axes))

    # -- writes
    def set_all(self, fn):
        """self[idx] = fn(idx) for every idx of the view"""
        self.set_where(lambda idx: TRUE, fn)

    def set_where(self, cond, fn):
        st = self.st
        if self.wr is False: raise Unsupported("write through this view")
        if self.wr is None:
            idx = list(group_idx(st.phs, st.sizes))
            c0 = TRUE
        else:
            c0, idx = self.wr(list(group_idx(st.phs, st.sizes)))
        c = land(c0, cond(idx))
        old = st.body
        st.write(ite(c, fn(idx), old))

    def map(self, f, dtype=None):
        return Tensor.build(self.dims(), lambda idx: f(self.at_flatgroups(idx)), dtype or self.dtype)

    def at_flatgroups(self, idx):
        """idx in dims order (flattened groups)"""
        order = [i for g in self.groups for i in g]
        full = [ZERO] * len(self.axes)
        for i, x in zip(order, idx): full[i] = x
        return self.at(full)

    # -- views
    def permute(self, perm):
        return self.clone_view(self.axes, [self.groups[p] for p in perm], self.rd, self.wr)

    def regroup(self, groups):
        return self.clone_view(self.axes, groups, self.rd, self.wr)

    def drop_axis(self, a, index):
        """select index on axis a (view)"""
        rd0, wr0, n = self.rd, self.wr, len(self.axes)
        rd = lambda idx: rd0(idx[:a] + [index] + idx[a:])
        w0 = self._wr()
        def wr(s):
            c, i = w0(s)
            return land(c, eq(i[a], index)), i[:a] + i[a + 1:]
        groups = [[(i if i < a else i - 1) for i in g if i != a] for g in self.groups]
        return self.clone_view(self.axes[:a] + self.axes[a + 1:], groups, rd, wr if wr0 is not False else False)

    def _wr(self):
        if self.wr is None: return lambda s: (TRUE, s)
        if self.wr is False: return None
        return self.wr

    def slice_axis(self, a, start, size, step=1):
        rd0, w0 = self.rd, self._wr()
        rd = lambda idx: rd0(idx[:a] + [add(start, mul(C(step), idx[a]))] + idx[a + 1:])
        def wr(s):
            c, i = w0(s)
            if step == 1:
                k = sub(i[a], start)
                return land(c, le(start, i[a]), lt(k, size)), i[:a] + [k] + i[a + 1:]
            if isc(start) and isc(size):
                conds = [eq(i[a], add(start, C(step * q))) for q in range(int(cval(size)))]
                k = C(0)
                for q, cc in enumerate(conds): k = ite(cc, C(q), k)
                return land(c, lor(*conds)), i[:a] + [k] + i[a + 1:]
            raise Unsupported("write through strided slice")
        axes = list(self.axes)
        axes[a] = size
        return self.clone_view(axes, self.groups, rd, wr if w0 else False)

    def unsqueeze(self, k):
        if k < 0: k += self.ndim + 1
        g = list(self.groups)
        g.insert(k, [])
        return self.regroup(g)

    def squeeze(self, k=None):
        if k is None: ks = [i for i in range(self.ndim) if dim_is_one(self.dims()[i])]
        else: ks = [x % self.ndim for x in (k if isinstance(k, (tuple, list)) else [k])]
        r = self
        for i in sorted(ks, reverse=True):
            if dim_is_one(r.dims()[i]):
                while r.groups[i]: r = r.drop_axis(r.groups[i][0], ZERO)
                g = list(r.groups)
                del g[i]
                r = r.regroup(g)
        return r

    def strip_ones(self):
        """drop size-one axes"""
        r = self
        again = True
        while again:
            again = False
            for a, s in enumerate(r.axes):
                if is_one(s):
                    r = r.drop_axis(a, ZERO)
                    again = True
                    break
        return r

    def expand(self, sizes):
        """broadcast view; sizes: list of dim groups or None(keep) aligned right"""
        k = len(sizes) - self.ndim
        axes, groups = list(self.axes), []
        newax = []
        for j, g in enumerate(sizes):
            old = self.groups[j - k] if j >= k else []
            og = [self.axes[i] for i in old]
            if g is None or (j >= k and not dim_is_one(og)):
                groups.append(list(old))
            else:
                ids = []
                for s in g:
                    ids.append(len(axes) + len(newax)); newax.append(s)
                groups.append(list(old) + ids if not old else ids)
                if old:
                    groups[-1] = ids
        n = len(self.axes)
        rd0 = self.rd
        # axes dropped from groups (size-one) keep index 0
        used = {i for g in groups for i in g}
        dead = [i for i in range(n) if i not in used]
        def rd(idx):
            idx = list(idx[:n])
            for d in dead: idx[d] = ZERO
            return rd0(idx)
        return compact_axes(self.clone_view(axes + newax, groups, rd, False), dead)

    def contiguous_copy(self):
        return Tensor.build(self.dims(), self.at_flatgroups, self.dtype)


def compact_axes(t, dead):
    for a in sorted(dead, reverse=True):
        wr = t.wr
        rd0 = t.rd
        t2 = Tensor(t.st, t.axes[:a] + t.axes[a + 1:], [[(i if i < a else i - 1) for i in g if i != a] for g in t.groups],
                    (lambda rd0, a: (lambda idx: rd0(idx[:a] + [ZERO] + idx[a:])))(rd0, a), False, t.dtype)
        t = t2
    return t


def group_size(g):
    r = ONE
    for s in g: r = mul(r, axis_count(s))
    return r


def dim_is_one(g):
    return all(is_one(s) for s in g)


def split_size(s):
    """a dim size (int/Term) -> list of axis sizes, products split in the written order"""
    if isinstance(s, int): return [C(s)]
    if isinstance(s, Tensor): s = s.item_term()
    if s.op == "mul" and s.sort == "I":
        out = []
        def rec(x):
            if x.op == "mul":
                rec(x.args[0]); rec(x.args[1])
            else: out.append(x)
        rec(s)
        # one convention for the two ways of writing a product with a literal factor: J*2
        return [x for x in out if not isc(x)] + [x for x in out if isc(x)]
    return [s]


# ------------------------------------------------------------------ alignment of dims
def match_groups(ga, gb):
    """how to read an index over ga as an index over gb: function list->list, or None"""
    if len(ga) == len(gb) and all(same(a, b) for a, b in zip(ga, gb)):
        return lambda x: list(x)
    ga1 = [(i, s) for i, s in enumerate(ga) if not is_one(s)]
    gb1 = [(i, s) for i, s in enumerate(gb) if not is_one(s)]
    if len(ga1) == len(gb1) and all(same(a, b) for (_, a), (_, b) in zip(ga1, gb1)):
        def f(x):
            out = [ZERO] * len(gb)
            for (i, _), (j, _) in zip(ga1, gb1): out[j] = x[i]
            return out
        return f
    # ga factored, gb flat single axis
    if len(gb1) == 1 and not isinstance(gb1[0][1], CAxis):
        tot = group_size(ga)
        if same(tot, gb1[0][1]):
            def f(x):
                out = [ZERO] * len(gb)
                out[gb1[0][0]] = flat_of(x, ga)
                return out
            return f
    # ga flat, gb factored (or compact) : only through recognisable indices
    if len(ga1) == 1 and not isinstance(ga1[0][1], CAxis) and (same(ga1[0][1], group_size(gb)) or any(isinstance(x, CAxis) for _, x in gb1) and cur.ctx.prove(eq(ga1[0][1], group_size(gb)))):
        def f(x):
            r = decode_flat(x[ga1[0][0]], gb)
            if r is None: raise Unsupported("flat index into factored dimension")
            return r
        return f
    return None


def flat_of(x, g):
    """flat position of index x in group g"""
    if len(g) == 1 and isinstance(g[0], CAxis): return g[0].rank(x[0])
    r = ZERO
    for i, s in zip(x, g):
        if isinstance(s, CAxis): raise Unsupported("flat index of compact group")
        r = add(mul(r, s), i)
    return r


def install_unrank(eng):
    if "unrank" in eng.root.app_facts: return
    def facts(args):
        lam, n, r = args
        a = app("unrank", args, "I")
        (v,), body = lam.args
        j = fresh("j")
        cnt = mksum(j, ZERO, n, ite(subst(body, {v: j}), ONE, ZERO))
        return [lor(lt(r, ZERO), le(cnt, r), land(le(ZERO, a), lt(a, n), subst(body, {v: a})))]
    eng.root.app_facts["unrank"] = facts


def NM_solve(p, v):
    from .norm import solve_for
    return solve_for(p, v)


def decode_flat(f, g):
    """f as flat index over group g -> per-axis indices"""
    g1 = [(i, s) for i, s in enumerate(g) if not is_one(s)]
    out = [ZERO] * len(g)
    if len(g1) == 1:
        i, s = g1[0]
        if isinstance(s, CAxis):
            f = cur.ctx.nterm(f)
            if f.op == "app" and f.args[0] == "rank":
                n = len(s.sizes)
                lam, szs, idx = f.args[1], f.args[2:2 + n], f.args[2 + n:]
                if lam is s.lam() and all(same(a, b) for a, b in zip(szs, s.sizes)):
                    out[i] = tuple(idx)
                    return out
            if len(s.sizes) == 1:
                # the element of position f among the selected ones
                lam = s.lam()
                (v,), body = lam.args
                if body.op == "not" and body.args[0].op == "eq0":
                    e = NM_solve(cur.ctx.norm(body.args[0].args[0]), v)
                    if e is not None and v not in pterm(e).fv:
                        # every position but one is selected
                        e = pterm(e)
                        if decide(land(le(ZERO, e), lt(e, s.sizes[0]))) is True or cur.ctx.prove(land(le(ZERO, e), lt(e, s.sizes[0]))):
                            out[i] = (ite(lt(f, e), f, add(f, ONE)),)
                            return out
                install_unrank(cur.eng)
                out[i] = (app("unrank", (s.lam(), simp_int(s.sizes[0]), f), "I"),)
                return out
            return None
        out[i] = f
        return out
    if len(g1) == 0: return out
    # f = hi * S + lo,  S = product of the trailing sizes
    (i, s0), rest = g1[0], g1[1:]
    if any(isinstance(s, CAxis) for _, s in g1): return None
    S = group_size([s for _, s in rest])
    Sp = cur.ctx.norm(S)
    if len(Sp) != 1: return None
    (sm, sc), = Sp.items()
    fp = cur.ctx.norm(f)
    hi, lo = {}, {}
    for m, c in fp.items():
        q = mono_mul(m, tuple((a, -e) for a, e in sm))
        if all(e > 0 for a, e in q) and (c / sc).denominator == 1: hi[q] = c / sc
        else: lo[m] = c
    lot = pterm(lo)
    if decide(land(le(ZERO, lot), lt(lot, S))) is not True: return None
    out[i] = pterm(hi)
    r = decode_flat(lot, [s for _, s in rest])
    if r is None: return None
    for (j, _), x in zip(rest, r): out[j] = x
    return out


def broadcast(ts):
    """common dims and per-tensor readers (list of idx flattened in dims order) -> Term"""
    n = max(t.ndim for t in ts)
    dims = []
    readers = [[None] * n for _ in ts]
    for k in range(n):
        cand = []
        for t in ts:
            j = k - (n - t.ndim)
            if j >= 0: cand.append(t.dims()[j])
        ref = None
        for g in cand:
            if dim_is_one(g): continue
            if ref is None: ref = g
            elif len(g) > len(ref): ref = g
            elif len(g) == 1 and len(ref) == 1 and isinstance(g[0], CAxis) and not isinstance(ref[0], CAxis): ref = g
        if ref is None: ref = []
        dims.append(ref)
        for q, t in enumerate(ts):
            j = k - (n - t.ndim)
            if j < 0: readers[q][k] = ("none",); continue
            g = t.dims()[j]
            if dim_is_one(g): readers[q][k] = ("one", len(g)); continue
            f = match_groups(ref, g)
            if f is None:
                if decide(eq(group_size(ref), group_size(g))) is True:
                    # same total size, incompatible factorisation
                    readers[q][k] = ("incompat", ref, g, t); continue
                raise PyRaise("RuntimeError", f"size mismatch {[show(group_size(x)) for x in cand]}")
            readers[q][k] = ("map", f)
    lens = [len(d) for d in dims]
    def reader(q):
        t = ts[q]
        def rd(idx):
            didx = []
            p = 0
            for k in range(n):
                part = idx[p:p + lens[k]]
                p += lens[k]
                r = readers[q][k]
                if r[0] == "none": continue
                if r[0] == "one": didx.append([ZERO] * r[1])
                elif r[0] == "map": didx.append(r[1](part))
                else:
                    # only fine if the tensor is constant along that dim
                    didx.append([fresh("junk") for _ in r[2]])
            e = t.at_dims(didx)
            if any(v.args[0].startswith("junk!") for v in e.fv):
                raise Unsupported("incompatible factorisations of one dimension")
            return e
        return rd
    return dims, [reader(q) for q in range(len(ts))]


def as_tensor(x):
    if isinstance(x, Tensor): return x
    return Tensor.scalar(lift(x))


RANK = {"bool": 0, "int32": 1, "int64": 1, "float32": 2, "float64": 3}


def promote(*ts):
    best = "bool"
    # zero-dim scalars do not upgrade within a category
    for t in ts:
        if RANK[t.dtype] > RANK[best]: best = t.dtype
    return best


def elementwise(f, *xs, dtype=None):
    ts = [as_tensor(x) for x in xs]
    dims, rds = broadcast(ts)
    return Tensor.build(dims, lambda idx: f(*[r(idx) for r in rds]), dtype or promote(*ts))


def assign(view, value):
    """view[...] = value with broadcasting of value"""
    value = as_tensor(value)
    vd = view.dims()
    nd = len(vd)
    # leading size-one dims of the value may be dropped
    while value.ndim > nd and dim_is_one(value.dims()[0]): value = squeeze0(value)
    if value.ndim > nd: raise PyRaise("RuntimeError", "shape mismatch in assignment")
    maps = []
    for k in range(nd):
        j = k - (nd - value.ndim)
        if j < 0: maps.append(None); continue
        g = value.dims()[j]
        if dim_is_one(g): maps.append(("one", len(g))); continue
        f = match_groups(vd[k], g)
        if f is None: raise PyRaise("RuntimeError", "shape mismatch in assignment")
        maps.append(("map", f))
    # freeze the value (it may alias the target)
    frozen = Tensor(Storage(value.st.sizes, value.st.phs, value.st.body), value.axes, value.groups, value.rd, value.wr, value.dtype)
    integer = view.dtype in ("int64", "int32")
    isb = view.dtype == "bool"
    def fn(idx):
        didx = []
        for k in range(nd):
            if maps[k] is None: continue
            part = [idx[i] for i in view.groups[k]]
            if maps[k][0] == "one": didx.append([ZERO] * maps[k][1])
            else: didx.append(maps[k][1](part))
        e = frozen.at_dims(didx)
        return cast_term(e, view.dtype)
    view.set_all(fn)


def squeeze0(t):
    r = t
    while r.groups[0]: r = r.drop_axis(r.groups[0][0], ZERO)
    return r.regroup(r.groups[1:])


_garb = itertools.count(1)


def cast_term(e, dtype):
    if dtype == "bool":
        if e.sort == "B": return e
        return lor(isnan(e), lnot(eq(e, ZERO))) if e.special else lnot(eq(e, ZERO))
    e = b2n(e)
    if dtype in ("int64", "int32"):
        if e.sort == "I" and not e.special: return e
        return to_int(e)
    return e


def rounded(op, e):
    """round / floor / ceil of a real: integers stay"""
    e = b2n(e)
    if T.is_special_leaf(e): return e
    if e.special and e.op == "ite" or e.op == "ite": return ite(e.args[0], rounded(op, e.args[1]), rounded(op, e.args[2]))
    if e.special: raise Unsupported(op + " of an extended real")
    if e.sort == "I": return e
    if e.op == "c": return C({"round": round, "floor": math.floor, "ceil": math.ceil}[op](e.args[0]))
    z = as_int(e)
    if z is not None: return z
    return app(op, (e,), "I")


def to_int(e):
    e = b2n(e)
    if e.special:
        return map_leaves(e, to_int)
    if e.sort == "I": return e
    if e.op == "ite": return ite(e.args[0], to_int(e.args[1]), to_int(e.args[2]))
    if e.op == "c":
        v = e.args[0]
        return C(int(v))
    z = as_int(e)
    if z is not None: return z
    return app("trunc", (e,), "I")


def as_int(e):
    """I-sorted copy of a real term that is integer-valued by its form, else None"""
    if e.sort == "I": return e
    if e.op == "c": return C(int(e.args[0])) if e.args[0].denominator == 1 else None
    if e.op in ("add", "mul"):
        xs = [as_int(x) for x in e.args]
        return None if None in xs else (add if e.op == "add" else mul)(*xs)
    if e.op == "ite":
        a, b = as_int(e.args[1]), as_int(e.args[2])
        return None if a is None or b is None else ite(e.args[0], a, b)
    if e.op == "sum":
        v, lo, hi, body = e.args
        b = as_int(body)
        return None if b is None else mksum(v, lo, hi, b)
    return None


def map_leaves(e, f):
    if e.special and e.op == "ite":
        return ite(e.args[0], map_leaves(e.args[1], f), map_leaves(e.args[2], f))
    if e.special:   # nan/inf -> unspecified integer
        return var("garbage_int", "I")
    return f(e)


def cast(t, dtype):
    if t.dtype == dtype: return t
    return t.map(lambda e: cast_term(e, dtype), dtype)


# ------------------------------------------------------------------ reshape
def reshape(t, sizes):
    t0 = t
    t = t.strip_ones()
    order = [i for g in t.groups for i in g]
    axes = [t.axes[i] for i in order]
    targets = []
    for s in sizes:
        if isinstance(s, Tensor): s = s.item_term()
        targets.append(None if (isinstance(s, int) and s == -1) or (isinstance(s, Term) and isc(s) and cval(s) == -1) else lift(s))
    if targets.count(None) > 1: raise PyRaise("RuntimeError", "only one -1")
    k = targets.index(None) if None in targets else len(targets)
    pend = list(zip(order, axes))
    splits = []
    def take(lst, target, left):
        """consume axes of product == target"""
        if isc(target) and cval(target) == 1 or is_one(target): return []
        acc, prod = [], ONE
        while True:
            if acc and same(prod, target): return acc
            if not lst: return None
            i, s = lst.pop(0 if left else -1)
            # concrete split
            if not isinstance(s, CAxis) and isc(s) and isc(target) and isc(prod):
                need = cval(target) / cval(prod)
                if need.denominator == 1 and cval(s) > need and cval(s) % need == 0:
                    need = int(need); oth = int(cval(s)) // need
                    a, b = (("s", i, "hi", C(need), C(oth)), ("s", i, "lo", C(need), C(oth))) if left else \
                           (("s", i, "hi", C(oth), C(need)), ("s", i, "lo", C(oth), C(need)))
                    if left:
                        acc.append((a, C(need))); lst.insert(0, (b, C(oth)))
                    else:
                        acc.insert(0, (b, C(need))); lst.append((a, C(oth)))
                    splits.append(i)
                    prod = mul(prod, C(need))
                    continue
            if left: acc.append((i, s))
            else: acc.insert(0, (i, s))
            prod = mul(prod, axis_count(s))
    groups = [None] * len(targets)
    for j in range(k):
        g = take(pend, targets[j], True)
        if g is None: return reshape_fail(t0, sizes)
        groups[j] = g
    for j in range(len(targets) - 1, k, -1):
        g = take(pend, targets[j], False)
        if g is None: return reshape_fail(t0, sizes)
        groups[j] = g
    if k < len(targets): groups[k] = pend
    elif pend: return reshape_fail(t0, sizes)
    if not splits:
        return t.regroup([[i for i, s in g] for g in groups])
    # concrete axis split: copy
    dims = [[s for i, s in g] for g in groups]
    flat_ids = [i for g in groups for i, s in g]
    def fn(idx):
        full = [None] * len(t.axes)
        part = {}
        for i, x in zip(flat_ids, idx):
            if isinstance(i, tuple):
                def place(i, x):
                    _, a, w, h, l = i
                    part.setdefault(a, {}).setdefault(w, x)
                    part[a]["l"] = l
                    d = part[a]
                    if "hi" in d and "lo" in d:
                        v = add(mul(d["hi"], l), d["lo"])
                        if isinstance(a, tuple): place(a, v)
                        else: full[a] = v
                place(i, x)
            else: full[i] = x
        return t.at(full)
    r = Tensor.build(dims, fn, t.dtype)
    r.wr = False
    return r


def reshape_fail(t, sizes):
    tot = t.numel()
    want = ONE
    has = False
    for s in sizes:
        if isinstance(s, int) and s == -1: has = True
        else: want = mul(want, lift(s))
    if not has and decide(eq(tot, want)) is False:
        raise PyRaise("RuntimeError", "shape is invalid for input")
    raise Unsupported(f"reshape {[show(x) for x in map(lift, t.shape())]} -> {sizes}")


# ------------------------------------------------------------------ reductions
def reduce_dims(t, ks, fold, keepdim=False, dtype=None):
    """fold(axis list [(var,size)], term) -> term"""
    ks = [k % t.ndim for k in ks]
    dims = t.dims()
    out = [([] if k in ks else d) for k, d in enumerate(dims)]
    res_dims = [d for k, d in enumerate(out) if k not in ks or keepdim]
    def fn(idx):
        didx, binders, p = [], [], 0
        for k, d in enumerate(dims):
            if k in ks:
                xs = []
                for s in d:
                    if isinstance(s, CAxis):
                        vs = tuple(fresh("r") for _ in s.sizes)
                        binders.append((vs, s)); xs.append(vs)
                    else:
                        v = fresh("r")
                        binders.append((v, s)); xs.append(v)
                didx.append(xs)
            else:
                n = len(d)
                didx.append(idx[p:p + n]); p += n
        return fold(binders, t.at_dims(didx))
    return Tensor.build(res_dims, fn, dtype or t.dtype)


def fold_sum(binders, e):
    e = b2n(e)
    for v, s in reversed(binders):
        if isinstance(s, CAxis):
            e = ite(s.at(v), e, C(0, e.sort))
            for w, z in zip(reversed(v), reversed(s.sizes)): e = mksum(w, ZERO, z, e)
        else: e = mksum(v, ZERO, s, e)
    return e


def fold_any(binders, e):
    for v, s in reversed(binders):
        if isinstance(s, CAxis):
            e = land(s.at(v), e)
            for w, z in zip(reversed(v), reversed(s.sizes)): e = exists_(w, ZERO, z, e)
        else: e = exists_(v, ZERO, s, e)
    return e


def fold_max(which):
    def f(binders, e):
        e = b2n(e)
        for v, s in reversed(binders):
            if isinstance(s, CAxis): 
                bot = NINF if which == "max" else PINF
                e = ite(s.at(v), e, bot)
                for w, z in zip(reversed(v), reversed(s.sizes)): e = mkmax(w, ZERO, z, e, which)
            else: e = mkmax(v, ZERO, s, e, which)
        return e
    return f


def all_dims(t, dim):
    if dim is None: return list(range(t.ndim))
    if isinstance(dim, (list, tuple)): return [d % t.ndim for d in dim]
    return [dim % t.ndim]


def tsum(t, dim=None, keepdim=False):
    return reduce_dims(t, all_dims(t, dim), fold_sum, keepdim, "int64" if t.dtype == "bool" else t.dtype)


def tcount(t, dim):
    r = ONE
    for k in all_dims(t, dim): r = mul(r, group_size(t.dims()[k]))
    return r


# ------------------------------------------------------------------ indexing
def norm_index(i, size):
    """python index -> term in [0,size)"""
    i = lift(i)
    if isc(i):
        if cval(i) < 0: i = add(size, i)
        return simp_int(i)
    d = decide(lt(i, ZERO))
    if d is True: return simp_int(add(size, i))
    if d is None:
        d = decide(le(ZERO, i))
        if d is not True: raise Unsupported("index of unknown sign " + show(i)[:60])
    return i


def check_bounds(i, size):
    d = decide(land(le(ZERO, i), lt(i, size)))
    if d is False: raise PyRaise("IndexError", "index out of range")
    if d is None:
        cur.eng.side_condition("index in range", land(le(ZERO, i), lt(i, size)))


def getitem(t, key):
    if not isinstance(key, tuple): key = (key,)
    return index(t, key)


def is_adv(k):
    return isinstance(k, (Tensor, list)) or type(k).__name__ in ("SymList", "SymRange", "range")


def index(t, key):
    """basic + mask + integer-tensor indexing -> Tensor (view for basic)"""
    key = list(key)
    n_used = 0
    for k in key:
        if k is None or k is Ellipsis: continue
        if isinstance(k, Tensor) and k.dtype == "bool": n_used += max(1, k.ndim)
        else: n_used += 1
    if Ellipsis in [k for k in key if not isinstance(k, (Tensor, Term))]:
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key[p:p + 1] = [slice(None)] * (t.ndim - n_used)
    else:
        key = key + [slice(None)] * (t.ndim - n_used)
    if n_used > t.ndim: raise PyRaise("IndexError", "too many indices for tensor")
    r = t
    d = 0
    advs = []
    for k in key:
        if k is None:
            r = r.unsqueeze(d); d += 1
        elif isinstance(k, slice):
            r = slice_dim(r, d, k); d += 1
        elif isinstance(k, Tensor) and k.dtype == "bool":
            advs.append((d, k)); d += max(1, k.ndim)
        elif isinstance(k, Tensor) and k.ndim == 0:
            r = select_dim(r, d, k.item_term())
        elif is_adv(k):
            advs.append((d, cur.eng.to_index_tensor(k))); d += 1
        else:
            r = select_dim(r, d, k)
    if not advs: return r
    return adv_index(r, advs)


def select_dim(t, d, k):
    if d >= t.ndim: raise PyRaise("IndexError", "too many indices for tensor")
    if isinstance(k, (bool,)): raise Unsupported("bool index")
    g = t.groups[d]
    size = t.size(d)
    k = norm_index(k, size)
    check_bounds(k, size)
    sizes = [t.axes[i] for i in g]
    r = decode_flat(k, sizes)
    if r is None:
        if len(g) == 1 and isinstance(sizes[0], CAxis): raise Unsupported("select on compact axis")
        raise Unsupported("select in factored dim: " + show(k)[:80])
    out = t
    for a, x in sorted(zip(g, r), key=lambda z: -z[0]): out = out.drop_axis(a, x)
    gg = list(out.groups)
    del gg[d]
    return out.regroup(gg)


def slice_dim(t, d, sl):
    a, b, st = sl.start, sl.stop, sl.step
    if a is None and b is None and (st is None or st == 1): return t
    g = t.groups[d]
    sizes = [t.axes[i] for i in g]
    size = t.size(d)
    st = 1 if st is None else st
    if isinstance(st, Term): st = py(st)
    if isinstance(a, Tensor): a = a.item_term()
    if isinstance(b, Tensor): b = b.item_term()
    if not isinstance(st, int): raise Unsupported("symbolic slice step")
    live = [(i, s) for i, s in zip(g, sizes) if not is_one(s)]
    if len(live) >= 2 and st != 1 and b is None and isc(live[-1][1]) and cval(live[-1][1]) == st:
        a0 = 0 if a is None else a
        return t.drop_axis(live[-1][0], lift(a0))
    if len(live) >= 2 and st > 1 and b is None and isc(live[-1][1]) and cval(live[-1][1]) % st == 0 and (a is None or isinstance(a, int) and 0 <= a < st):
        return t.slice_axis(live[-1][0], lift(a or 0), C(int(cval(live[-1][1])) // st), st)
    lo = ZERO if a is None else clampi(a, size)
    hi = size if b is None else clampi(b, size)
    if len(live) >= 2:
        # block [k*S, (k+1)*S)  of the trailing sizes
        S = group_size([s for i, s in live[1:]])
        ln = cur.ctx.nterm(sub(hi, lo))
        if same(ln, S):
            x = decode_flat(lo, [s for i, s in live])
            if x is not None and all(isc(y) and cval(y) == 0 for y in x[1:]):
                return t.drop_axis(live[0][0], x[0])
        # multiples of S
        x = decode_flat(lo, [s for i, s in live])
        hp = cur.ctx.norm(hi)
        Sp = cur.ctx.norm(S)
        if x is not None and all(isc(y) and cval(y) == 0 for y in x[1:]) and len(Sp) == 1:
            (sm, sc), = Sp.items()
            q = {mono_mul(m, tuple((z, -e) for z, e in sm)): c / sc for m, c in hp.items()}
            if all(e > 0 for m in q for z, e in m) and all(c.denominator == 1 for c in q.values()):
                return t.slice_axis(live[0][0], x[0], simp_int(sub(pterm(q), x[0])))
        raise Unsupported("slice of factored dimension")
    if not live:
        n = py(cur.ctx.nterm(sub(hi, lo)))
        if n == 1: return t
        raise Unsupported("slice of size-one dim")
    ax, s = live[0]
    if isinstance(s, CAxis): raise Unsupported("slice of compact axis")
    n = sub(hi, lo)
    if st != 1:
        n2 = py(cur.ctx.nterm(n))
        if not isinstance(n2, int): raise Unsupported("strided slice of symbolic size")
        n = C(max(0, -(-n2 // st)))
        return t.slice_axis(ax, lo, n, st)
    d_ = decide(le(lo, hi))
    if d_ is False: n = ZERO
    elif d_ is None:
        n = maximum(ZERO, n)
    return t.slice_axis(ax, lo, simp_int(n))


def clampi(x, size):
    x = lift(x)
    if x.sort == "R": x = to_int(x)
    d = decide(lt(x, ZERO))
    if d is True:
        x = add(size, x)
        if decide(le(ZERO, x)) is not True: x = maximum(ZERO, x)
        return simp_int(x)
    if d is None and not x.op == "var": 
        if decide(le(ZERO, x)) is not True: raise Unsupported("slice bound of unknown sign")
    d = decide(le(x, size))
    if d is True: return x
    if d is False: return size
    return minimum(x, size)


def adv_index(t, advs):
    # boolean masks -> compact axes ; integer tensors -> gather
    if len(advs) == 1 and advs[0][1].dtype == "bool":
        d, m = advs[0]
        return mask_select(t, d, m)
    idxs = []
    for d, k in advs:
        if k.dtype == "bool": raise Unsupported("mixed mask and integer indexing")
        idxs.append((d, k))
    ds = [d for d, _ in idxs]
    dims, rds = broadcast([k for _, k in idxs])
    adjacent = all(b == a + 1 for a, b in zip(ds, ds[1:]))
    pos = ds[0] if adjacent else 0
    td = t.dims()
    rest = [k for k in range(t.ndim) if k not in ds]
    if adjacent: out_dims = td[:pos] + dims + td[ds[-1] + 1:]
    else: out_dims = dims + [td[k] for k in rest]
    nadv = sum(len(g) for g in dims)
    def fn(idx):
        p0 = sum(len(td[k]) for k in range(pos)) if adjacent else 0
        av = idx[p0:p0 + nadv]
        others = idx[:p0] + idx[p0 + nadv:]
        didx, p = [], 0
        vals = [r(av) for r in rds]
        for k in range(t.ndim):
            if k in ds:
                v = b2n(vals[ds.index(k)])
                if v.special: raise Unsupported("special index value")
                size = t.size(k)
                if isc(v) and cval(v) < 0: v = add(size, v)
                else: cur.eng.index_value(v, size)
                x = decode_index(v, td[k])
                didx.append(x)
            else:
                n = len(td[k])
                didx.append(others[p:p + n]); p += n
        return t.at_dims(didx)
    return Tensor.build(out_dims, fn, t.dtype)


def decode_index(v, g):
    if v.op == "ite" and len([s for s in g if not is_one(s)]) > 1:
        pass
    x = decode_flat(v, g)
    if x is None: raise Unsupported("index value into factored/compact dim: " + show(v)[:80])
    return x


def mask_axis(t, d, m):
    """CAxis for mask m against dims d.. of t, and the maps of its index to t's axes"""
    nd = max(1, m.ndim)
    td = t.dims()
    sizes = []
    for k in range(nd):
        g, h = td[d + k], m.dims()[k]
        f = match_groups(g, h)
        if f is None: raise PyRaise("IndexError", "mask shape mismatch")
        sizes.append((g, f))
    flat = [s for g, f in sizes for s in g]
    if any(isinstance(s, CAxis) for s in flat): raise Unsupported("mask over compact axis")
    phs = tuple(fresh("m") for _ in flat)
    didx, p = [], 0
    for g, f in sizes:
        didx.append(f(list(phs[p:p + len(g)]))); p += len(g)
    mask = m.at_dims(didx)
    return CAxis(flat, phs, mask), nd


def mask_select(t, d, m):
    ca, nd = mask_axis(t, d, m)
    td = t.dims()
    dims = td[:d] + [[ca]] + td[d + nd:]
    pre = sum(len(g) for g in td[:d])
    def fn(idx):
        full = list(idx[:pre]) + list(idx[pre]) + list(idx[pre + 1:])
        return t.at_flatgroups(full)
    return Tensor.build(dims, fn, t.dtype)


def setitem(t, key, value):
    if not isinstance(key, tuple): key = (key,)
    key = list(key)
    adv = [(i, k) for i, k in enumerate(key) if is_adv(k) and not (isinstance(k, Tensor) and k.ndim == 0 and k.dtype != "bool")]
    if not adv:
        assign(index(t, tuple(key)), value)
        return
    if len(adv) == 1 and isinstance(adv[0][1], Tensor) and adv[0][1].dtype == "bool":
        i, m = adv[0]
        pre = tuple(key[:i])
        if any(k is not None and not isinstance(k, slice) and k is not Ellipsis for k in key[:i] + key[i + 1:]):
            # apply the basic parts first
            pass
        # basic-index everything else, keep the mask dims whole
        full = list(key[:i]) + [slice(None)] * max(1, m.ndim) + list(key[i + 1:])
        if Ellipsis in [k for k in key[:i] if not isinstance(k, (Term, Tensor))]: raise Unsupported("ellipsis before mask")
        d = 0
        for k in key[:i]:
            if k is None or isinstance(k, slice): d += 1
        v = index(t, tuple(full))
        mask_assign(v, d, m, value)
        return
    if len(adv) == 1:
        i, k = adv[0]
        if type(k).__name__ in ("range", "SymRange"):
            lo, hi, stp = cur.eng.range_bounds(k)
            if stp == 1:
                key2 = list(key); key2[i] = slice(lo, hi)
                assign(index(t, tuple(key2)), value)
                return
        kt = cur.eng.to_index_tensor(k)
        index_assign(t, key, i, kt, value)
        return
    idx_multi_assign(t, key, adv, value)


def mask_assign(v, d, m, value):
    ca, nd = mask_axis(v, d, m)
    value = as_tensor(value)
    td = v.dims()
    gstart = [i for g in v.groups[d:d + nd] for i in g]
    pre_axes = [i for g in v.groups[:d] for i in g]
    post_dims = list(range(d + nd, v.ndim))
    frozen = Tensor(Storage(value.st.sizes, value.st.phs, value.st.body), value.axes, value.groups, value.rd, value.wr, value.dtype)
    # value dims: [pre..., compact, post...] right aligned
    out_nd = d + 1 + len(post_dims)
    if value.ndim > out_nd: raise PyRaise("RuntimeError", "shape mismatch in mask assignment")
    maps = []
    for k in range(out_nd):
        j = k - (out_nd - value.ndim)
        if j < 0: maps.append(None); continue
        g = value.dims()[j]
        if k == d:
            live = [s for s in g if not is_one(s)]
            if not live:
                maps.append(("one", len(g)))
                # a size-one 1-d value broadcasts
                continue
            if len(live) == 1 and isinstance(live[0], CAxis):
                if not live[0].same(ca): raise Unsupported("assignment from a selection by another mask")
                maps.append(("compact", len(g), [q for q, s in enumerate(g) if not is_one(s)][0])); continue
            tot = group_size(g)
            if decide(eq(tot, ca.count())) is not True:
                if decide(eq(tot, ca.count())) is False: raise PyRaise("RuntimeError", "mask assignment size mismatch")
                if not cur.ctx.prove(eq(tot, ca.count())):
                    cur.eng.side_condition("mask assignment size", eq(tot, ca.count()))
            maps.append(("rank", g)); continue
        if dim_is_one(g): maps.append(("one", len(g))); continue
        vg = td[k] if k < d else td[k + nd - 1]
        f = match_groups(vg, g)
        if f is None: raise PyRaise("RuntimeError", "shape mismatch in mask assignment")
        maps.append(("map", f))
    def fn(idx):
        didx = []
        under = tuple(idx[i] for i in gstart)
        for k in range(out_nd):
            mp = maps[k]
            if mp is None: continue
            if mp[0] == "one": didx.append([ZERO] * mp[1])
            elif mp[0] == "compact":
                x = [ZERO] * mp[1]; x[mp[2]] = under
                didx.append(x)
            elif mp[0] == "rank":
                if ca.lam().args[1] is TRUE and len(mp[1]) > 1: 
                    gs = [cur.ctx.nterm(z) for z in mp[1]]
                    r = list(under) if len(gs) == len(ca.sizes) and all(same(a, b) for a, b in zip(gs, ca.sizes)) else decode_flat(flat_of(list(under), ca.sizes), gs)
                else:
                    h = ca.blocks()
                    n, t = (len(h.sizes), len(ca.sizes) - len(h.sizes)) if h is not None else (0, 0)
                    if h is not None and t < len(mp[1]) and all(not isinstance(z, CAxis) and same(cur.ctx.nterm(z), cur.ctx.nterm(s)) for z, s in zip(mp[1][-t:], ca.sizes[n:])):
                        # whole blocks of the value: the block number counts the selected blocks
                        r = decode_flat(h.rank(under[:n]), mp[1][:-t])
                        if r is not None: r = list(r) + list(under[n:])
                    else: r = decode_flat(ca.rank(under), mp[1])
                if r is None: raise Unsupported("mask assignment into factored value")
                didx.append(r)
            else:
                vg = v.groups[k] if k < d else v.groups[k + nd - 1]
                didx.append(mp[1]([idx[i] for i in vg]))
        return cast_term(frozen.at_dims(didx), v.dtype)
    v.set_where(lambda idx: ca.at([idx[i] for i in gstart]), fn)


def index_assign(t, key, i, kt, value):
    """t[.., kt, ..] = value with one 1-d integer index tensor"""
    if kt.ndim != 1: raise Unsupported("index assignment with rank>1 index")
    d = 0
    for k in key[:i]:
        if k is None or isinstance(k, slice): d += 1
    full = list(key)
    full[i] = slice(None)
    v = index(t, tuple(full))
    value = as_tensor(value)
    g = v.groups[d]
    live = [a for a in g if not is_one(v.axes[a])]
    n = kt.dims()[0]
    if len(live) > 1 and not (value.ndim == 0 or all(is_one(s) for s in value.axes)): raise Unsupported("index assignment into factored dim")
    scalar = value.ndim == 0 or all(is_one(s) for s in value.axes)
    size = v.size(d)
    if len(n) == 1 and isc(n[0]) and cval(n[0]) <= 8:
        for q in range(int(cval(n[0]))):
            x = kt.at([C(q)])
            sub_v = select_dim(v, d, x)
            vv = value if scalar or value.ndim < v.ndim else select_dim(value, value.ndim - (v.ndim - d), C(q)) if not dim_is_one(value.dims()[value.ndim - (v.ndim - d)]) else value
            assign(sub_v, vv)
        return
    if scalar:
        e = value.item_term()
        vs0 = [fresh("k") for _ in n]
        base = cur.ctx
        if len(live) > 1:
            cur.ctx = base.child(*[x for v_, s in zip(vs0, n) for x in (le(ZERO, v_), lt(v_, s))])
            try: dec = decode_flat(kt.at(vs0), [v.axes[a] for a in live])
            finally: cur.ctx = base
            if dec is None: raise Unsupported("index assignment into factored dim")
        def cond(idx):
            vs = [fresh("k") for _ in n]
            if len(live) > 1: c = land(*[eq(T.subst(x, dict(zip(vs0, vs))), idx[a]) for x, a in zip(dec, live)])
            else: c = eq(kt.at(vs), idx[live[0]] if live else ZERO)
            for w, s in zip(reversed(vs), reversed(n)): c = exists_(w, ZERO, s, c)
            return c
        v.set_where(cond, lambda idx: cast_term(e, v.dtype))
        return
    raise Unsupported("index assignment")


def idx_multi_assign(t, key, adv, value):
    ks = [cur.eng.to_index_tensor(k) for _, k in adv]
    if any(k.dtype == "bool" and k.ndim != 1 for k in ks): raise Unsupported("multi mask assign")
    ks = [mask_positions(k) if k.dtype == "bool" else k for k in ks]
    lens = [cur.ctx.nterm(k.size(0)) if k.ndim == 1 else None for k in ks]
    pos = [i for i, _ in adv]
    if all(x is not None and isc(x) and cval(x) <= 12 for x in lens) and len({cval(x) for x in lens}) == 1 and pos == list(range(pos[0], pos[0] + len(pos))) \
            and all(isinstance(k, slice) and k == slice(None) for k in key[:pos[0]]) and Ellipsis not in [k for k in key if not isinstance(k, (Term, Tensor))]:
        value = as_tensor(value)
        for q in range(int(cval(lens[0]))):
            k2 = list(key)
            for i, k in zip(pos, ks): k2[i] = py(cur.ctx.nterm(select_dim(k, 0, C(q)).item_term()))
            sv = index(t, tuple(k2))
            j = value.ndim - (sv.ndim + 1) + pos[0]
            vv = value
            if value.ndim == sv.ndim + 1: vv = select_dim(value, pos[0], ZERO if dim_is_one(value.dims()[pos[0]]) else C(q))
            elif value.ndim > sv.ndim - pos[0] and pos[0]: raise Unsupported("multi index assign")
            assign(sv, vv)
        return
    if len(adv) != t.ndim or any(k.ndim != 1 for k in ks): raise Unsupported("multi index assign")
    value = as_tensor(value)
    dims, rds = broadcast(ks)
    if len(dims[0]) == 0:
        assign(index(t, tuple(select_scalar(k) for k in ks)), value); return
    # diagonal-like:  t[a(k), b(k)] = value(k) where a(k) = k
    n = dims[0]
    compact = len(n) == 1 and isinstance(n[0], CAxis)
    if compact and len(n[0].sizes) != 1: raise Unsupported("multi index assign over a compact axis")
    k0 = [(fresh("k"),)] if compact else [fresh("k") for _ in n]
    for q, r in enumerate(rds):
        e = r(k0)
        if len(n) == 1 and cur.ctx.nterm(e) is (k0[0][0] if compact else k0[0]):
            def solve(idx, q=q):
                x = idx[t.groups[q][0]]
                return [(x,) if compact else x]
            def cond(idx, q=q):
                kk = solve(idx)
                return land(n[0].at(kk[0]) if compact else TRUE, *[eq(rr(kk), idx[t.groups[p][0]]) for p, rr in enumerate(rds) if p != q])
            vt = value
            def fn(idx):
                kk = solve(idx)
                return cast_term(vt.at_dims([kk]) if vt.ndim == 1 and not dim_is_one(vt.dims()[0]) else vt.item_term(), t.dtype)
            if any(len(g) != 1 for g in t.groups): raise Unsupported("multi index assign grouped")
            t.set_where(cond, fn)
            return
    raise Unsupported("multi index assign")


def mask_positions(m):
    """indices at which a 1-d mask is true"""
    ca, _ = mask_axis(m, 0, m)
    return Tensor.build([[ca]], lambda idx: flat_of(list(idx[0]), ca.sizes) if len(ca.sizes) > 1 else idx[0][0], "int64")


def select_scalar(k): return k.item_term()
