"""AST interpreter (symbolic executor) over the real sources of /repo: mechanically extracts, on every run, the meaning
of the interpreted functions as terms.  Nothing is transcribed by hand: the statements executed are those of the file."""
import ast, os, itertools, math
from fractions import Fraction
from .terms import *
from . import terms as T
from . import norm as NM
from . import tensor as TS
from .tensor import Tensor, Storage, PyRaise, cur, py, CAxis

REPO = os.environ.get("PYVC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Missing:
    """library name without a model"""
    def __init__(self, name): self.name = name
    def __call__(self, *a, **k): raise Unsupported("no model of " + self.name)
    def __repr__(self): return f"<no model {self.name}>"


class Poison:
    def __init__(self, why): self.why = why


class NativeModule:
    def __init__(self, name, ns=None):
        self.name, self.ns = name, ns or {}
    def get(self, n):
        if n in self.ns: return self.ns[n]
        return Missing(self.name + "." + n)


class PyModule:
    def __init__(self, name, path): self.name, self.path, self.ns = name, path, {}


class PyClass:
    def __init__(self, name, bases, ns, module=None):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = [self] + self._merge([list(b.mro) for b in bases] + [list(bases)])

    @staticmethod
    def _merge(seqs):
        out = []
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in q[1:] for q in seqs): break
            else: raise Unsupported("mro")
            out.append(h)
            seqs = [[x for x in q if x is not h] for q in seqs]
            seqs = [q for q in seqs if q]
        return out

    def lookup(self, n):
        for c in self.mro:
            if n in c.ns: return c.ns[n], c
        return None, None

    def issub(self, o): return o in self.mro

    def __repr__(self): return f"<class {self.name}>"


class Obj:
    _n = itertools.count(1)
    def __init__(self, cls):
        self.cls, self.attrs, self.uid = cls, {}, next(Obj._n)
    def __repr__(self): return f"<{self.cls.name} object>"


class PyFunc:
    nograd = None
    def __init__(self, node, env, module, name, cls=None):
        self.node, self.env, self.module, self.name, self.cls = node, env, module, name, cls
        self.defaults, self.kw_defaults = [], []
        self.attrs = {}
    def __repr__(self): return f"<function {self.name}>"


class Bound:
    def __init__(self, self_, func): self.self_, self.func = self_, func


class Prop:
    def __init__(self, fget): self.fget, self.fset = fget, None


class Static:
    def __init__(self, f): self.f = f


class ClassM:
    def __init__(self, f): self.f = f


class SymStr:
    def __init__(self, parts): self.parts = tuple(parts)
    def __eq__(self, o): return isinstance(o, SymStr) and self.parts == o.parts
    def __hash__(self): return hash(self.parts)


class SymList:
    """list with symbolic length; fn(i Term) -> value"""
    def __init__(self, n, fn, kind="list"):
        self.n, self.fn, self.kind = lift(n), fn, kind
    def get(self, i): return self.fn(lift(i))


class SymRange:
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lift(lo), lift(hi), step


class LoopList:
    """a list being appended to inside an analysed loop body"""
    def __init__(self): self.items = []


class Super:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class ExcValue:
    def __init__(self, cls, args): self.cls, self.args_ = cls, args


class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass


class Env:
    __slots__ = ("vars", "parent", "module", "globals_", "nonlocals", "func", "selfobj", "cls")
    def __init__(self, parent=None, module=None):
        self.vars, self.parent, self.module = {}, parent, module
        self.globals_, self.nonlocals = set(), set()
        self.func = None
        self.selfobj = self.cls = None


# ------------------------------------------------------------------ journal of mutations
class Journal:
    def __init__(self): self.log = []

    def mark(self): return len(self.log)

    def rec_storage(self, st): self.log.append(("st", st, None, st.body))
    def rec_dict(self, d, k, tag): self.log.append((tag, d, k, d.get(k, _ABSENT)))
    def rec_list(self, l): self.log.append(("list", l, None, list(l)))
    def rec_dictall(self, d): self.log.append(("dictall", d, None, dict(d)))

    def diff(self, mark):
        """{key: (kind, container, name, old, new)}"""
        out = {}
        for kind, c, k, old in self.log[mark:]:
            key = (kind, id(c), k)
            if key in out: continue
            out[key] = [kind, c, k, old, None]
        for key, e in out.items():
            e[4] = self.current(e)
        return out

    @staticmethod
    def current(e):
        kind, c, k = e[0], e[1], e[2]
        if kind == "st": return c.body
        if kind in ("env", "attr", "dict"): return c.get(k, _ABSENT)
        if kind == "list": return list(c)
        if kind == "dictall": return dict(c)

    @staticmethod
    def put(e, v):
        kind, c, k = e[0], e[1], e[2]
        if kind == "st": c.body = v; c.version += 1
        elif kind in ("env", "attr", "dict"):
            if v is _ABSENT: c.pop(k, None)
            else: c[k] = v
        elif kind == "list": c[:] = v
        elif kind == "dictall":
            c.clear(); c.update(v)

    def undo(self, mark):
        while len(self.log) > mark:
            kind, c, k, old = self.log.pop()
            self.put((kind, c, k), old)

    def set(self, e, v):
        kind, c, k = e[0], e[1], e[2]
        if kind == "st": self.rec_storage(c)
        elif kind in ("env", "attr", "dict"): self.rec_dict(c, k, kind)
        elif kind == "list": self.rec_list(c)
        elif kind == "dictall": self.rec_dictall(c)
        self.put(e, v)


class _Absent:
    def __repr__(self): return "<absent>"
_ABSENT = _Absent()


class Frame:
    def __init__(self, prefix):
        self.prefix, self.pos, self.conds, self.alts, self.taken = prefix, 0, [], [], []


class PathLimit(Exception): pass


class SideFail:
    def __init__(self, name, cond, ctx, where): self.name, self.cond, self.ctx, self.where = name, cond, ctx, where


BUILTIN_EXC = {n: getattr(__import__("builtins"), n) for n in
               ("Exception", "ValueError", "TypeError", "RuntimeError", "NotImplementedError", "IndexError", "KeyError",
                "AttributeError", "AssertionError", "StopIteration", "FileNotFoundError", "ZeroDivisionError",
                "ArithmeticError", "OverflowError", "ImportError", "ModuleNotFoundError", "OSError", "KeyboardInterrupt",
                "BaseException", "UserWarning", "Warning", "DeprecationWarning", "NameError", "LookupError")}


def deep_subst(v, m):
    """substitute variables in an interpreted value"""
    if isinstance(v, Term): return subst(v, m)
    if isinstance(v, Tensor): return tensor_subst(v, m)
    if isinstance(v, (int, float, str, type(None), bool)): return v
    if isinstance(v, tuple): return tuple(deep_subst(x, m) for x in v)
    if isinstance(v, list): return [deep_subst(x, m) for x in v]
    if isinstance(v, SymStr): return SymStr([deep_subst(x, m) for x in v.parts])
    if isinstance(v, SymList): return SymList(subst(v.n, m), (lambda f: lambda i: deep_subst(f(i), m))(v.fn), v.kind)
    if isinstance(v, SymRange): return SymRange(subst(v.lo, m), subst(v.hi, m), v.step)
    if isinstance(v, dict): return {k: deep_subst(x, m) for k, x in v.items()}
    if isinstance(v, slice): return slice(deep_subst(v.start, m), deep_subst(v.stop, m), deep_subst(v.step, m))
    return v


def sub_size(s, m):
    if isinstance(s, CAxis):
        return CAxis([subst(z, m) for z in s.sizes], s.phs, subst(s.mask, m))
    return subst(s, m)


def tensor_fv(t):
    fv = set(t.st.body.fv)
    for s in t.axes:
        if isinstance(s, CAxis):
            fv |= s.mask.fv
            for z in s.sizes: fv |= z.fv
        else: fv |= s.fv
    return fv


def tensor_subst(t, m):
    # materialise the view, then substitute
    idx_t = t.contiguous_copy() if (t.wr is not None or t.base_view()) else t
    st = Storage([sub_size(s, m) for s in idx_t.st.sizes], idx_t.st.phs, subst(idx_t.st.body, m))
    r = Tensor(st, [sub_size(s, m) for s in idx_t.axes], idx_t.groups, None, None, t.dtype)
    if hasattr(t, "grad_of"): r.grad_of = t.grad_of
    return r


def _base_view(self):
    return getattr(self, "base", None) is not None or len(self.st.sizes) != len(self.axes)


Tensor.base_view = _base_view
Tensor.base = None


def _storage_write(self, body):
    if cur.eng is not None: cur.eng.journal.rec_storage(self)
    self.body = body
    self.version += 1


Storage.write = _storage_write


def is_sym(v): return isinstance(v, Term) and not isc(v)


class Engine:
    def __init__(self, root=None):
        self.native_stubs = {}
        self.root = root or NM.Root()
        self.journal = Journal()
        self.frames = []
        self.modules = {}
        self.native = {}
        self.side = []            # SideFail (unproved side conditions)
        self.side_ok = 0
        self.functions = {}       # interpreted functions: qualified name -> count
        self.stack = []
        self.invariants = {}      # (qualified name, local variable) -> loop invariant
        self.loop_specs = []      # loops decided by an invariant of the contract
        self.trainer = None       # ghost state of a training run
        self.loops = []           # enclosing symbolic loops: (function, counter)
        self.captures = {}        # qualified name -> locals at its last return
        self.stubs = {}           # qualified name -> python callable(engine, func, self, args, kwargs)
        self.lineno = 0
        self.max_paths = 400
        self.in_try = 0
        self.assumed = set()
        self.leaves, self.cfuns, self.backward_log = {}, {}, []
        self.nograd = False
        self.vmap_vars = []
        cur.eng = self
        from . import torchmodel, pylib
        self.tm = torchmodel
        self.native.update(torchmodel.modules(self))
        self.native.update(pylib.modules(self))
        self.builtins = pylib.builtins(self)
        from . import dfmodel
        self.native.update(dfmodel.install(self))

    # ------------------------------------------------ paths
    def fork(self, cond):
        if isinstance(cond, bool): return cond
        d = cur.ctx.decide(cond)
        if d is not None: return d
        if self.vmap_vars and any(v in cond.fv for v in self.vmap_vars): raise Unsupported("data dependent control flow under vmap")
        f = self.frames[-1]
        if f.pos < len(f.prefix): ch = f.prefix[f.pos]
        else:
            ch = True
            f.alts.append(f.taken + [False])
        f.pos += 1
        f.taken.append(ch)
        c = cond if ch else lnot(cond)
        f.conds.append(c)
        cur.ctx = cur.ctx.child(c)
        return ch

    def explore(self, fn, post=None):
        """run fn on every path; returns [(conds, kind, value, diff)] with mutations undone"""
        base = cur.ctx
        out, work = [], [[]]
        while work:
            prefix = work.pop()
            fr = Frame(prefix)
            self.frames.append(fr)
            mark = self.journal.mark()
            cur.ctx = base
            try:
                try:
                    val, kind = fn(), "ok"
                except PyRaise as e: val, kind = e, "raise"
                except Ret as e: val, kind = e.v, "return"
                except Brk: val, kind = None, "break"
                except Cont: val, kind = None, "ok"
                diff = self.journal.diff(mark)
                if post: post(diff)
            finally:
                self.frames.pop()
                self.journal.undo(mark)
                cur.ctx = base
            out.append((land(*fr.conds), kind, val, diff))
            work.extend(fr.alts)
            if len(out) > self.max_paths: raise Unsupported("too many paths")
        return out

    # ------------------------------------------------ side conditions
    def side_condition(self, name, cond):
        if cur.ctx.decide(cond) is True or cur.ctx.prove(cond):
            self.side_ok += 1
            return
        if cur.ctx.inconsistent():
            return
        self.side.append(SideFail(name, cond, cur.ctx, self.where()))

    def where(self):
        return (self.stack[-1] if self.stack else "?") + f":{self.lineno}"

    def index_value(self, v, size):
        """value used as an index inside a gather: in-range obligation (checked under the element context by callers)"""
        return

    # ------------------------------------------------ helpers for the tensor layer
    def range_bounds(self, r):
        if isinstance(r, range): return C(r.start), C(r.stop), r.step
        return r.lo, r.hi, r.step

    def to_index_tensor(self, k):
        if isinstance(k, Tensor): return k
        return self.tm.tensor_from_data(self, k)

    # ------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, Term):
            if v.sort == "B": return self.fork(v)
            return self.fork(lnot(eq(v, ZERO)))
        if v is None: return False
        if isinstance(v, (int, float, str)): return bool(v)
        if isinstance(v, (list, tuple, dict, set)): return len(v) > 0
        if isinstance(v, Tensor):
            return self.fork(TS.cast_term(v.item_term(), "bool"))
        if isinstance(v, SymList): return self.fork(lt(ZERO, v.n))
        if isinstance(v, SymRange): return self.fork(lt(v.lo, v.hi))
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__bool__")
            if f: return self.truth(self.call(Bound(v, f), [], {}))
            f, _ = v.cls.lookup("__len__")
            if f: return self.truth(self.call(Bound(v, f), [], {}))
            return True
        if isinstance(v, (Missing, Poison)): raise Unsupported(f"truth of {v!r}")
        if hasattr(v, "truth"): return v.truth()
        return True

    def truth_term(self, v):
        """boolean term without forking"""
        if isinstance(v, bool): return C(v)
        if isinstance(v, Term): return v if v.sort == "B" else lnot(eq(v, ZERO))
        if isinstance(v, Tensor): return TS.cast_term(v.item_term(), "bool")
        return C(self.truth(v))

    # ------------------------------------------------ modules
    def import_module(self, name):
        if name in self.modules: return self.modules[name]
        if name in self.native: return self.native[name]
        if name.split(".")[0] in ("irtorch", "fixtures"):
            # fixtures: user code of the contracts themselves (e.g. a scale somebody else wrote)
            p = os.path.join(REPO if name.split(".")[0] == "irtorch" else HERE, *name.split("."))
            path = os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"
            if not os.path.exists(path): raise PyRaise("ModuleNotFoundError", name)
            m = PyModule(name, path)
            m.is_pkg = os.path.isdir(p)
            self.modules[name] = m
            if "." in name:
                parent = self.import_module(name.rsplit(".", 1)[0])
                parent.ns.setdefault(name.rsplit(".", 1)[1], m)
            with open(path) as f: tree = ast.parse(f.read(), path)
            m.tree = tree
            env = Env(None, m)
            env.vars = m.ns
            m.ns["__name__"] = name
            m.ns["__file__"] = path
            # module level code runs once: its effects are not part of any path
            fr, jo, ctx, ln = self.frames, self.journal, cur.ctx, self.lineno
            self.frames, self.journal = [Frame([])], Journal()
            cur.ctx = NM.Ctx(self.root)
            try: self.exec_block(tree.body, env)
            finally: self.frames, self.journal, cur.ctx, self.lineno = fr, jo, ctx, ln
            return m
        self.native[name] = NativeModule(name)
        return self.native[name]

    # ------------------------------------------------ lookup
    def lookup(self, n, env):
        e = env
        while e is not None:
            if n in e.vars:
                v = e.vars[n]
                if isinstance(v, Poison): raise Unsupported("loop-carried variable " + n + " (" + v.why + ")")
                return v
            if e.parent is None: break
            e = e.parent
        if env.module is not None and n in env.module.ns: return env.module.ns[n]
        if n in self.builtins: return self.builtins[n]
        if n in BUILTIN_EXC: return BUILTIN_EXC[n]
        raise PyRaise("NameError", n)

    def setvar(self, n, v, env):
        if n in env.globals_: d = env.module.ns
        elif n in env.nonlocals:
            e = env.parent
            while e is not None and n not in e.vars: e = e.parent
            d = e.vars
        else: d = env.vars
        self.journal.rec_dict(d, n, "env")
        d[n] = v

    # ------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body: self.exec(s, env)

    def exec(self, s, env):
        if hasattr(s, "lineno"): self.lineno = s.lineno
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None: raise Unsupported("statement " + type(s).__name__)
        return m(s, env)

    def x_Pass(self, s, env): pass
    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant): return
        self.eval(s.value, env)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets: self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name): old = self.lookup(t.id, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            old = self.getitem(o, k)
        else: raise Unsupported("augassign")
        r = self.eval(s.value, env)
        if isinstance(old, Tensor):
            new = self.tm.binop(self, op, old, r)
            if old.dtype == "bool" and new.dtype != "bool": raise Unsupported("augassign dtype")
            if TS.RANK[new.dtype] > TS.RANK[old.dtype] and old.dtype in ("int64", "int32", "bool") and new.dtype.startswith("float"):
                raise PyRaise("RuntimeError", "result type can't be cast")
            if isinstance(t, ast.Subscript):
                self.setitem(o, k, new)
                return
            TS.assign(old, new)
            new = old
        elif isinstance(old, list):
            if isinstance(r, (list, tuple)):
                self.journal.rec_list(old)
                old.extend(r)
                new = old
            else: new = self.binop(op, old, r)
        else:
            new = self.binop(op, old, r)
        if isinstance(t, ast.Name): self.setvar(t.id, new, env)
        elif isinstance(t, ast.Attribute): self.setattr(o, t.attr, new)
        else: self.setitem(o, k, new)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name): self.setvar(t.id, v, env)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.as_list(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vs[:i]): self.assign(e, x, env)
                self.assign(t.elts[i].value, vs[i:len(vs) - n], env)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - n:]): self.assign(e, x, env)
                return
            if len(vs) != len(t.elts): raise PyRaise("ValueError", "unpack length")
            for e, x in zip(t.elts, vs): self.assign(e, x, env)
        elif isinstance(t, ast.Starred): raise Unsupported("starred target")
        else: raise Unsupported("target " + type(t).__name__)

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)): self.exec_block(s.body, env)
        else: self.exec_block(s.orelse, env)

    def x_Return(self, s, env): raise Ret(self.eval(s.value, env) if s.value else None)
    def x_Break(self, s, env): raise Brk()
    def x_Continue(self, s, env): raise Cont()

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)): raise PyRaise("AssertionError", ast.unparse(s.test))

    def x_Raise(self, s, env):
        if s.exc is None:
            raise getattr(self, "current_exc", None) or PyRaise("RuntimeError", "reraise")
        e = self.eval(s.exc, env)
        if isinstance(e, ExcValue): raise PyRaise(self.exc_name(e.cls), " ".join(str(a) for a in e.args_), e)
        if isinstance(e, type) and issubclass(e, BaseException): raise PyRaise(e.__name__, "", ExcValue(e, []))
        raise Unsupported("raise " + repr(e))

    def exc_name(self, c): return c.__name__ if isinstance(c, type) else c.name

    def x_Try(self, s, env):
        try:
            try:
                self.in_try += 1
                try: self.exec_block(s.body, env)
                finally: self.in_try -= 1
            except PyRaise as e:
                for h in s.handlers:
                    if self.exc_match(e, self.eval(h.type, env) if h.type else None):
                        if h.name: self.setvar(h.name, e.value or ExcValue(BUILTIN_EXC.get(e.kind, Exception), [e.msg]), env)
                        old = getattr(self, "current_exc", None)
                        self.current_exc = e
                        self.exec_block(h.body, env)
                        self.current_exc = old
                        break
                else: raise
            else: self.exec_block(s.orelse, env)
        finally:
            if s.finalbody: self.exec_block(s.finalbody, env)

    def exc_match(self, e, t):
        if t is None: return True
        if isinstance(t, tuple): return any(self.exc_match(e, x) for x in t)
        c = e.value.cls if e.value is not None else BUILTIN_EXC.get(e.kind)
        if c is None:
            # e.g. LinAlgError
            return getattr(t, "__name__", getattr(t, "name", "")) in (e.kind, "Exception", "RuntimeError")
        if isinstance(c, type) and isinstance(t, type): return issubclass(c, t)
        if isinstance(c, PyClass): return c.issub(t) if isinstance(t, PyClass) else True
        return False

    def x_With(self, s, env):
        exits = []
        for it in s.items:
            c = self.eval(it.context_expr, env)
            v = c
            if isinstance(c, Obj):
                v = self.call(self.getattr(c, "__enter__"), [], {})
                exits.append(lambda c=c: self.call(self.getattr(c, "__exit__"), [None, None, None], {}))
            elif hasattr(c, "ctx_enter"):
                v = c.ctx_enter()
                exits.append(c.ctx_exit)
            elif isinstance(c, (Missing,)): raise Unsupported("context manager " + c.name)
            if it.optional_vars is not None: self.assign(it.optional_vars, v, env)
        try: self.exec_block(s.body, env)
        finally:
            for f in reversed(exits): f()

    def x_Import(self, s, env):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname: self.setvar(a.asname, m, env)
            else: self.setvar(a.name.split(".")[0], self.import_module(a.name.split(".")[0]), env)

    def x_ImportFrom(self, s, env):
        name = s.module or ""
        if s.level:
            base = env.module.name.split(".")
            if not getattr(env.module, "is_pkg", False): base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == "__future__": return
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                for k, v in (m.ns.items()):
                    if not k.startswith("_"): env.vars[k] = v
                continue
            if isinstance(m, PyModule):
                if a.name in m.ns: v = m.ns[a.name]
                else:
                    sub = os.path.join(os.path.dirname(m.path), a.name)
                    if getattr(m, "is_pkg", False) and (os.path.isdir(sub) or os.path.exists(sub + ".py")):
                        v = self.import_module(name + "." + a.name)
                    else:
                        # circular import under TYPE_CHECKING or partially initialised module
                        v = Missing(name + "." + a.name)
            else:
                full = name + "." + a.name
                v = self.native[full] if full in self.native else m.get(a.name)
            self.setvar(a.asname or a.name, v, env)

    def x_Global(self, s, env): env.globals_.update(s.names)
    def x_Nonlocal(self, s, env): env.nonlocals.update(s.names)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in env.vars:
                    self.journal.rec_dict(env.vars, t.id, "env")
                    del env.vars[t.id]
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    self.journal.rec_dict(o.attrs, t.attr, "attr")
                    del o.attrs[t.attr]
                else: raise PyRaise("AttributeError", t.attr)
            elif isinstance(t, ast.Subscript):
                o, k = self.eval(t.value, env), self.eval(t.slice, env)
                if isinstance(o, dict):
                    self.journal.rec_dict(o, k, "dict"); o.pop(k)
                elif isinstance(o, list):
                    self.journal.rec_list(o); del o[k]
                else: raise Unsupported("del")

    def make_func(self, s, env, name):
        f = PyFunc(s, env, env.module, name, env.cls)
        a = s.args
        f.defaults = [self.eval(d, env) for d in a.defaults]
        f.kw_defaults = [None if d is None else self.eval(d, env) for d in a.kw_defaults]
        return f

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, (env.cls.__name__ + "." if False else "") + s.name)
        f.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(s))
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Attribute) and d.attr == "setter" and isinstance(d.value, ast.Name):
                p = self.lookup(d.value.id, env)
                q = Prop(p.fget); q.fset = f
                f = q
                continue
            dec = self.eval(d, env)
            f = self.call(dec, [f], {})
        self.setvar(s.name, f, env)
    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        bs = []
        for b in bases:
            if isinstance(b, PyClass): bs.append(b)
            elif isinstance(b, type) and issubclass(b, BaseException): bs.append(self.exc_class(b))
            elif isinstance(b, Missing): bs.append(PyClass(b.name, [], {"__missing__": b}))
            else: raise Unsupported("base class " + repr(b))
        e = Env(env, env.module)
        cls = PyClass(s.name, bs, {}, env.module)
        e.cls = None
        self.class_stack = getattr(self, "class_stack", [])
        e.cls = cls
        self.exec_block(s.body, e)
        cls.ns.update(e.vars)
        for f in e.vars.values():
            for g in (f, getattr(f, "f", None), getattr(f, "fget", None), getattr(f, "fset", None)):
                if isinstance(g, PyFunc): g.cls, g.env = cls, env
        for d in reversed(s.decorator_list):
            cls = self.call(self.eval(d, env), [cls], {})
        self.setvar(s.name, cls, env)

    def exc_class(self, b):
        if not hasattr(self, "_exc"): self._exc = {}
        if b not in self._exc: self._exc[b] = PyClass(b.__name__, [], {"__native_exc__": b})
        return self._exc[b]

    def x_While(self, s, env):
        n = 0
        while True:
            if not self.truth(self.eval(s.test, env)):
                self.exec_block(s.orelse, env)
                break
            n += 1
            if n > 300: raise Unsupported("while loop without a bound")
            try: self.exec_block(s.body, env)
            except Brk: break
            except Cont: continue

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        hook = getattr(self, "for_hook", None)
        if hook is not None:
            r = hook(self, s, env, it)
            if r is not None: return
        it = self.iterable(it)
        if isinstance(it, SymList):
            if self.loop_specs:
                from .loops import run_loop
                if run_loop(self, s, env, it): return
            self.sym_for(s, env, it)
            self.exec_block(s.orelse, env)
            return
        for x in it:
            self.assign(s.target, x, env)
            try: self.exec_block(s.body, env)
            except Brk: break
            except Cont: continue
        else: self.exec_block(s.orelse, env)

    # ------------------------------------------------ symbolic loops
    def iterable(self, it):
        """python list of values, or SymList"""
        if isinstance(it, list) and len(it) == 1 and isinstance(it[0], SymTail): it = self.untail(it)
        if isinstance(it, (list, tuple, range, set)): return list(it)
        if isinstance(it, dict): return list(it)
        if isinstance(it, str): return list(it)
        if isinstance(it, LoopList): raise Unsupported("iterating a list under construction")
        if isinstance(it, SymList):
            n = py(cur.ctx.nterm(it.n))
            if isinstance(n, int): return [it.fn(C(i)) for i in range(n)]
            return it
        if isinstance(it, SymRange):
            n = py(cur.ctx.nterm(sub(it.hi, it.lo)))
            if it.step != 1 and not isinstance(n, int): raise Unsupported("symbolic range step")
            if isinstance(n, int):
                return [py(cur.ctx.nterm(add(it.lo, C(i)))) for i in range(0, n, it.step)]
            lo = it.lo
            m = n
            if cur.ctx.decide(le(ZERO, lift(n))) is not True:
                m = T.maximum(ZERO, lift(n)) if cur.ctx.decide(lt(lift(n), ZERO)) is not True else 0
            if m == 0: return []
            return SymList(m, lambda i: py(add(lo, i)))
        if isinstance(it, Tensor):
            if it.ndim == 0: raise PyRaise("TypeError", "iteration over a 0-d tensor")
            n = py(cur.ctx.nterm(it.size(0)))
            if isinstance(n, int): return [TS.select_dim(it, 0, C(i)) for i in range(n)]
            return SymList(n, lambda i: TS.select_dim(it, 0, i))
        if isinstance(it, Obj):
            f, _ = it.cls.lookup("__iter__")
            if f is not None: return self.iterable(self.call(Bound(it, f), [], {}))
            if "_items_" in it.attrs: return self.iterable(it.attrs["_items_"])
            g, _ = it.cls.lookup("__getitem__")
            l, _ = it.cls.lookup("__len__")
            if g is not None and l is not None:
                n = py(lift(self.call(Bound(it, l), [], {})))
                if isinstance(n, int): return [self.call(Bound(it, g), [i], {}) for i in range(n)]
        if hasattr(it, "iterate"): return self.iterable(it.iterate())
        raise Unsupported(f"iteration over {type(it).__name__} {it!r}"[:100])

    def as_list(self, v):
        r = self.iterable(v)
        if isinstance(r, SymList): raise Unsupported("symbolic-length sequence used as concrete")
        return r

    def merge(self, items):
        """[(cond, value)] covering all cases -> value"""
        if len(items) == 1: return items[0][1]
        v0 = items[0][1]
        if all(v is v0 for _, v in items): return v0
        vs = [v for _, v in items]
        if all(isinstance(v, (bool, int, float, Term)) for v in vs):
            if all(type(v) == type(v0) and v == v0 for v in vs if not isinstance(v, Term)) and not any(isinstance(v, Term) for v in vs): return v0
            r = lift(vs[-1])
            for c, v in reversed(items[:-1]):
                v = lift(v)
                if v.sort == "B" and r.sort != "B": v = T.b2n(v)
                if r.sort == "B" and v.sort != "B": r = T.b2n(r)
                r = ite(c, v, r)
            return py(r)
        if all(isinstance(v, Tensor) for v in vs):
            ds = [t.dims() for t in vs]
            for d in ds[1:]:
                if len(d) != len(ds[0]): raise Unsupported("merge of tensors of different rank")
            dims, rds = TS.broadcast(vs)
            for k in range(len(dims)):
                for t in vs:
                    if not TS.same(TS.group_size(t.dims()[k]), TS.group_size(dims[k])): raise Unsupported("merge of tensors of different shape")
            def fn(idx):
                r = rds[-1](idx)
                for (c, _), rd in reversed(list(zip(items[:-1], rds[:-1]))): r = ite(c, rd(idx), r)
                return r
            return Tensor.build(dims, fn, TS.promote(*vs))
        if all(isinstance(v, (list, tuple)) for v in vs) and len({len(v) for v in vs}) == 1 and len({type(v) for v in vs}) == 1:
            out = [self.merge([(c, v[i]) for c, v in items]) for i in range(len(v0))]
            return tuple(out) if isinstance(v0, tuple) else out
        if all(isinstance(v, (str, type(None))) for v in vs) and all(v == v0 for v in vs): return v0
        if all(isinstance(v, SymStr) for v in vs) and all(v == v0 for v in vs): return v0
        if all(isinstance(v, SymList) for v in vs) and all(TS.same(v.n, v0.n) for v in vs):
            return SymList(v0.n, lambda i: self.merge([(c, v.fn(i)) for c, v in items]))
        if all(isinstance(v, PyFunc) for v in vs) and all(v.node is v0.node for v in vs): return v0
        raise Unsupported("merge of " + ", ".join(sorted({type(v).__name__ for v in vs})))

    def collapse(self, items, e):
        """paths whose values have the same normal form need no case distinction"""
        if len(items) < 2 or not all(isinstance(v, Term) and not v.special for _, v in items): return items
        c = cur.ctx
        if e[0] == "st":
            for p, s in zip(TS.group_idx(e[1].phs, e[1].sizes), e[1].sizes):
                if isinstance(s, Term): c = c.child(le(ZERO, p), lt(p, s))
        try: ns = [c.nterm(v) for _, v in items]
        except Unsupported: return items
        return [(TRUE, items[0][1])] if all(x is ns[0] for x in ns) else items

    def merged(self, fn):
        """run fn on all its paths and merge value and effects into the current state"""
        outs = self.explore(fn)
        return self.apply_outs(outs)

    def apply_outs(self, outs):
        raises = [o for o in outs if o[1] == "raise"]
        oks = [o for o in outs if o[1] == "ok"]
        if any(o[1] in ("return", "break") for o in outs): raise Unsupported("return/break under a merged condition")
        if not oks: raise raises[0][2]
        for c, _, e, _ in raises:
            if self.fork(c): raise e
        if len(oks) == 1:
            for e in oks[0][3].values(): self.journal.set(e, e[4])
            return oks[0][2]
        keys = {}
        for o in oks:
            for k, e in o[3].items(): keys.setdefault(k, e)
        for k, e in keys.items():
            items = [(o[0], o[3][k][4] if k in o[3] else e[3]) for o in oks]
            if any(v is _ABSENT for _, v in items):
                self.journal.set(e, Poison("defined on some paths only")); continue
            self.journal.set(e, self.merge(items))
        return self.merge([(o[0], o[2]) for o in oks])

    def sym_map(self, n, body, name="k"):
        """SymList of body(k) for 0<=k<n ; body must not mutate pre-existing state"""
        k = fresh(name)
        base = cur.ctx
        cur.ctx = base.child(le(ZERO, k), lt(k, n))
        try:
            outs = self.explore(lambda: body(k))
            for o in outs:
                for e in o[3].values():
                    if e[0] == "st" or e[0] == "list" or e[0] == "attr": raise Unsupported("effect inside a comprehension over a symbolic range")
            raises = [o for o in outs if o[1] == "raise"]
            oks = [o for o in outs if o[1] == "ok"]
            if not oks and raises:
                cur.ctx = base
                if self.fork(lt(ZERO, n)): raise raises[0][2]
                return []
            val = self.merge([(o[0], o[2]) for o in oks])
        finally:
            cur.ctx = base
        for o in raises: self.fork_exists(k, n, o)
        return SymList(n, lambda i: deep_subst(val, {k: i}) if i is not k else val)

    def fork_exists(self, k, n, o):
        c = exists_(k, ZERO, n, o[0])
        d = cur.ctx.decide(c)
        if d is None and cur.ctx.prove(lnot(c)): d = False
        if d is None:
            if self.fork(c): raise o[2]
        elif d: raise o[2]

    def sym_for(self, s, env, it):
        k = fresh("k")
        n = it.n
        base = cur.ctx
        if base.decide(lt(ZERO, n)) is None:
            pass
        # collect what exists before the loop
        def body():
            self.assign(s.target, it.fn(k), env)
            self.exec_block(s.body, env)
        loopctx = base.child(le(ZERO, k), lt(k, n))
        uid = next(Storage._n)
        def freeze(diff):
            """values that leave an iteration keep the contents of the tensors made in it"""
            changed = {e[1].uid for e in diff.values() if e[0] == "st"}
            def fz(v, lst=False):
                if isinstance(v, Tensor):
                    if v.st.uid not in changed: return v
                    if v.st.uid < uid:
                        if lst: raise Unsupported("a loop stores views of a tensor it modifies")
                        return v
                    return v.frozen()
                if isinstance(v, tuple): return tuple(fz(x, lst) for x in v)
                if type(v) is list: return [fz(x, lst) for x in v]
                return v
            for key in list(diff):
                e = diff[key]
                if e[0] == "st" and e[1].uid >= uid: del diff[key]
                elif e[0] == "list":
                    old = len(e[3]) if not (e[4] and isinstance(e[4][0], LoopPrefix)) else 1
                    e[4] = e[4][:old] + fz(e[4][old:], True)
                elif e[0] in ("env", "attr", "dict"): e[4] = fz(e[4])
        def run():
            cur.ctx = loopctx
            try:
                outs = self.explore(body, freeze)
            finally: cur.ctx = base
            if any(o[1] in ("return", "break") for o in outs): raise LoopEscape(outs)
            return outs
        targets = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        mark = self.journal.mark()
        havoc = {}      # key -> entry + symbolic old
        try:
            outs = run()
        except Poisoned: raise
        for rnd in range(6):
            keys = {}
            for o in outs:
                for kk, e in o[3].items(): keys.setdefault(kk, e)
            new = [e for kk, e in keys.items() if kk not in havoc and self.preexisting(e, mark) and not (e[0] == "env" and e[1] is env.vars and e[2] in targets)]
            if not new: break
            for e in new:
                havoc[(e[0], id(e[1]), e[2])] = self.make_havoc(e, self.invariant_of(e, env), k)
            # install and rerun
            m2 = self.journal.mark()
            for h in havoc.values(): self.journal.set(h.e, h.old)
            try: outs = run()
            finally: self.journal.undo(m2)
        else: raise Unsupported("loop effects do not stabilise")
        raises = [o for o in outs if o[1] == "raise"]
        oks = [o for o in outs if o[1] == "ok"]
        for o in raises:
            for h in havoc.values():
                if any(a in h.syms for a in T.subterms(o[0])) and h.syms: pass
            if self.mentions(o[0], havoc): raise Unsupported("raise condition depends on loop-carried state")
        if not oks and raises:
            if self.fork(lt(ZERO, n)): raise raises[0][2]
            return
        for o in raises: self.fork_exists(k, n, o)
        # merged per-iteration effect
        cur.ctx = loopctx
        finals = []
        try:
            keys = {}
            for o in oks:
                for kk, e in o[3].items(): keys.setdefault(kk, e)
            eff = []
            for kk, e in keys.items():
                h = havoc.get(kk)
                oldv = h.old if h else e[3]
                items = [(o[0], o[3][kk][4] if kk in o[3] else oldv) for o in oks]
                if h is not None and h.kind == "list":
                    eff.append((h, e, items)); continue
                if any(v is _ABSENT for _, v in items): eff.append((h, e, None)); continue
                items = self.collapse(items, e)
                try: v = self.merge(items)
                except Unsupported:
                    if h is None: v = None
                    else: raise
                eff.append((h, e, v))
        finally: cur.ctx = base
        for h, e, v in eff:
            finals.append((e, self.loop_result(h, e, v, k, n, havoc, loopctx)))
        for e, v in finals: self.journal.set(e, v)

    def preexisting(self, e, mark):
        if e[0] == "st": return True    # storages made in the loop are removed by freeze
        if e[0] == "env": return e[3] is not _ABSENT and not isinstance(e[3], Poison)
        return e[3] is not _ABSENT

    def invariant_of(self, e, env):
        if e[0] != "env" or e[1] is not env.vars or not self.invariants: return None
        return self.invariants.get((self.stack[-1], e[2]))

    def make_havoc(self, e, inv=None, k=None):
        kind, c, name, old = e[0], e[1], e[2], e[3]
        h = Havoc(e)
        n = next(_hv)
        if kind == "st":
            h.kind = "st"
            h.name = f"old!{n}"
            sort = "B" if old.sort == "B" else old.sort
            h.sort = sort
            h.old = h.symbol(old, c.phs)
            h.init = old
            h.phs = c.phs
        elif kind in ("env", "attr", "dict"):
            if isinstance(old, (int, float, Term)) and not isinstance(old, bool) or isinstance(old, Term) or isinstance(old, bool):
                t = lift(old)
                h.kind = "term"
                h.name = f"old!{n}"
                h.sort = t.sort
                h.old = py(h.symbol(t, ()))
                h.init, h.phs = t, ()
            elif isinstance(old, Tensor):
                h.kind = "tensor"
                h.name = f"old!{n}"
                tt = old.contiguous_copy()
                h.sort = tt.st.body.sort
                h.phs = tt.st.phs
                h.init = tt.st.body
                h.tensor = tt
                h.inv = inv
                st = Storage(tt.st.sizes, tt.st.phs, inv.state(k, h.phs) if inv else h.symbol(h.init, h.phs))
                h.old = Tensor(st, tt.axes, tt.groups, None, None, old.dtype)
            else:
                h.kind = "poison"
                h.old = Poison("rebound in a symbolic loop")
                h.name = None
        elif kind == "list":
            h.kind = "list"
            h.name = None
            h.prefix = list(old)
            h.old = [LoopPrefix()]
        else:
            raise Unsupported("loop effect on " + kind)
        return h

    def mentions(self, t, havoc):
        names = {x for h in havoc.values() for x in h.names()}
        return any(a.op == "app" and a.args[0] in names for a in T.subterms(t))

    def loop_result(self, h, e, v, k, n, havoc, loopctx):
        base = cur.ctx
        last = sub(n, ONE)
        if h is None:
            # variable first bound inside the loop: value of the last iteration
            if v is None: return Poison("defined in a symbolic loop")
            if base.decide(lt(ZERO, n)) is not True: return Poison("unbound if the loop is empty")
            for t in self.terms_of(v):
                if self.mentions(t, havoc): return Poison("depends on loop state")
            try: return deep_subst(v, {k: last})
            except Exception: return Poison("not substitutable")
        if h.kind == "list":
            tails = []
            for c, x in v:
                if not x or not isinstance(x[0], LoopPrefix): raise Unsupported("list rewritten in a symbolic loop")
                tails.append((c, x[1:]))
            m = {len(t) for _, t in tails}
            if m != {1}:
                if m == {0}: return h.prefix
                raise Unsupported("list grows irregularly in a symbolic loop")
            cur.ctx = loopctx
            val = self.merge([(c, t[0]) for c, t in tails])
            cur.ctx = base
            for t in self.terms_of(val):
                if self.mentions(t, havoc): raise Unsupported("appended value depends on loop-carried state")
            sl = SymList(n, lambda i: deep_subst(val, {k: i}))
            h.e[1].__class__ is list
            return [SymTail(h.prefix, sl)] if h.prefix else [SymTail([], sl)]
        if v is None: return Poison("defined on some paths only")
        if h.kind == "poison": 
            return Poison("rebound in a symbolic loop")
        if h.kind in ("term",):
            B = lift(v)
            if h.sort == "B" and B.sort != "B": raise Unsupported("loop-carried sort")
            return py(self.close(h, B, (), k, n, havoc, loopctx))
        if h.kind == "tensor":
            if not isinstance(v, Tensor): raise Unsupported("loop-carried value changes type")
            if len(v.groups) != len(h.old.groups): raise Unsupported("loop-carried tensor changes rank")
            dims, rds = TS.broadcast([h.old, v])
            for q in range(len(dims)):
                if not TS.same(TS.group_size(v.dims()[q]), TS.group_size(h.old.dims()[q])): raise Unsupported("loop-carried tensor changes shape")
            B = v.at_dims(TS_regroup(h.old, v, h.phs))
            if h.inv:
                rng = [c for p, z in zip(h.phs, flat_sizes(h.tensor.st.sizes)) for c in (le(ZERO, p), lt(p, z))]
                h.inv.check(self, base.child(*rng), "holds when the loop is entered", h.init, h.inv.state(ZERO, h.phs))
                h.inv.check(self, loopctx.child(*rng), "is maintained by an iteration", B, h.inv.next(k, h.phs))
                return Tensor(Storage(h.tensor.st.sizes, h.phs, h.inv.state(n, h.phs)), h.tensor.axes, h.tensor.groups, None, None, v.dtype)
            r = self.close(h, B, h.phs, k, n, havoc, loopctx, h.tensor.st.sizes)
            return Tensor(Storage(h.tensor.st.sizes, h.phs, r), h.tensor.axes, h.tensor.groups, None, None, v.dtype)
        return self.close(h, v, h.phs, k, n, havoc, loopctx, e[1].sizes)

    def terms_of(self, v):
        if isinstance(v, Term): yield v
        elif isinstance(v, Tensor): yield v.st.body
        elif isinstance(v, (list, tuple)):
            for x in v: yield from self.terms_of(x)
        elif isinstance(v, dict):
            for x in v.values(): yield from self.terms_of(x)

    def close(self, h, B, phs, k, n, havoc, loopctx, sizes=()):
        """closed form after n iterations of  S := B(phs, k, S)"""
        base = cur.ctx
        rng = []
        for p, s in zip(phs, flat_sizes(sizes)): rng += [le(ZERO, p), lt(p, s)]
        c = loopctx.child(*rng)
        oldt = app(h.name, phs, h.sort)
        olds = h.symbol(h.init, phs)
        others = {y for x in havoc.values() if x is not h for y in x.names()}
        def tidy(t):
            if t.op != "app" or t.args[0] not in h.names() or t.args[1:] == tuple(phs): return None
            return app(t.args[0], tuple(c.narg(x) for x in t.args[1:]), t.sort)
        B = T.rewrite(B, tidy)
        mine = [a for a in T.subterms(B) if a.op == "app" and a.args[0] in h.names()]
        other = [a for a in T.subterms(B) if a.op == "app" and a.args[0] in others]
        if B is olds: return h.init
        # 1. accumulation
        if not other and all(a is oldt for a in mine):
            if h.sort != "B" and B.sort != "B":
                ph = var("acc?", h.sort)
                B2 = T.rewrite(B, lambda t: ph if t is oldt else None)
                g = None
                if not B2.special and not h.init.special:
                    q = c.norm(sub(B2, ph))
                    if ph not in NM.pterm(q).fv: g = NM.pterm(q)
                if g is not None: return add(h.init, mksum(k, ZERO, n, g))
                if B2.special:
                    # additive on every leaf
                    g = self.additive(B2, ph)
                    if g is not None: return add(h.init, mksum(k, ZERO, n, g))
            elif h.sort == "B":
                ph = var("acc?", "B")
                B2 = T.rewrite(B, lambda t: ph if t is oldt else None)
                Bt, Bf = subst(B2, {ph: TRUE}), subst(B2, {ph: FALSE})
                if Bt is TRUE: return lor(h.init, exists_(k, ZERO, n, Bf))
                if Bf is FALSE: return land(h.init, T.forall_(k, ZERO, n, Bt))
            if not mine:
                # overwritten: last iteration wins
                if k not in B.fv:
                    return ite(lt(ZERO, n), B, h.init)
        # 2. slab: iteration k touches only positions p == k + off
        for a, p in enumerate(phs):
            for off in self.offsets(B, p, k, c):
                pos = add(k, off)
                outside = c.child(lnot(eq(p, pos)))
                if not self.same_term(outside, B, olds): continue
                inside = subst(B, {p: pos})
                ok = True
                for t in T.subterms(inside):
                    if t.op != "app": continue
                    for hh in havoc.values():
                        if t.args[0] in hh.names():
                            if hh is h:
                                if c.nterm(t.args[1 + a]) is not c.nterm(pos): ok = False
                            else: ok = False
                if not ok: continue
                # p = k+off  <=>  k = p-off
                sol = sub(p, off)
                val = subst(subst(B, {}), {k: sol})
                val = T.rewrite(val, lambda t: h.initial(t.args[0], dict(zip(phs, t.args[1:]))) if t.op == "app" and t.args[0] in h.names() else None)
                return ite(land(le(ZERO, sol), lt(sol, n)), val, h.init)
        if not mine and not other:
            r = subst(B, {k: sub(n, ONE)})
            return ite(lt(ZERO, n), r, h.init)
        raise Unsupported("loop effect without closed form: " + T.show(B)[:300])

    def additive(self, B, ph):
        if B.op == "ite":
            if ph in B.args[0].fv: return None
            x, y = self.additive(B.args[1], ph), self.additive(B.args[2], ph)
            return None if x is None or y is None else ite(B.args[0], x, y)
        if T.is_special_leaf(B): return B
        q = NM.pterm(cur.ctx.norm(sub(B, ph)))
        return None if ph in q.fv else q

    def same_term(self, ctx, a, b):
        a2 = ctx_simplify(ctx, a)
        if a2 is b: return True
        try:
            if a.sort == "B": return ctx.nb(a) is ctx.nb(b)
            if a.special or b.special: return ctx_simplify(ctx, a) is ctx_simplify(ctx, b)
            return ctx.prove(eq(a, b))
        except Unsupported: return False

    def offsets(self, B, p, k, ctx):
        out = [ZERO]
        for t in T.subterms(B):
            if t.op == "eq" and p in t.fv and k in t.fv:
                try: q = NM.pterm(ctx.norm(sub(t.args[0], t.args[1])))
                except Unsupported: continue
                # p - k - off == 0
                for s in (1, -1):
                    o = NM.pterm(ctx.norm(sub(sub(p, k), mul(C(s), q))))
                    if p not in o.fv and k not in o.fv and o not in out: out.append(o)
        return out

    # ------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression " + type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        if isinstance(e.value, (bytes, complex)): raise Unsupported("constant")
        return e.value

    def e_Name(self, e, env): return self.lookup(e.id, env)
    def e_Attribute(self, e, env): return self.getattr(self.eval(e.value, env), e.attr)

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.iterable(self.eval(x.value, env))
                if isinstance(v, SymList): raise Unsupported("star of symbolic sequence")
                out.extend(v)
            else: out.append(self.eval(x, env))
        return out

    def e_Tuple(self, e, env): return tuple(self.elts(e.elts, env))
    def e_List(self, e, env): return self.elts(e.elts, env)
    def e_Set(self, e, env): return set(self.elts(e.elts, env))

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.eval(v, env))
            else: d[self.eval(k, env)] = self.eval(v, env)
        return d

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval(e.slice, env))

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                try: x = self.eval(v.value, env)
                except Unsupported: x = "?"
                if isinstance(x, Term) and py(x) is not x: x = py(x)
                if isinstance(x, (Term, SymStr)): parts.append(x)
                elif isinstance(x, (Tensor, Obj, SymList, SymRange, list, tuple, dict, Missing, PyClass)): parts.append("?")
                else:
                    spec = self.eval(v.format_spec, env) if v.format_spec else ""
                    parts.append(format(x, spec) if isinstance(spec, str) and spec else str(x))
        if all(isinstance(p, str) for p in parts): return "".join(parts)
        return SymStr(parts)

    def e_IfExp(self, e, env):
        c = self.eval(e.test, env)
        if isinstance(c, Term) and not isc(c):
            t = self.truth_term(c)
            d = cur.ctx.decide(t)
            if d is None and self.pure(e.body) and self.pure(e.orelse):
                base = cur.ctx
                try:
                    cur.ctx = base.child(t); a = self.eval(e.body, env)
                    cur.ctx = base.child(lnot(t)); b = self.eval(e.orelse, env)
                    cur.ctx = base
                    return self.merge([(t, a), (lnot(t), b)])
                except (Unsupported, PyRaise): cur.ctx = base
        return self.eval(e.body if self.truth(c) else e.orelse, env)

    def pure(self, e):
        return not any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(e))

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        vals = e.values
        v = self.eval(vals[0], env)
        for nxt in vals[1:]:
            if isinstance(v, Term) and v.sort == "B" and cur.ctx.decide(v) is None and self.pure(nxt):
                # both sides symbolic: combine without forking when evaluation of the rest is pure
                base = cur.ctx
                try:
                    cur.ctx = base.child(v if isand else lnot(v))
                    w = self.eval(nxt, env)
                    cur.ctx = base
                    if isinstance(w, (bool, Term)) and lift(w).sort == "B":
                        v = py(land(v, lift(w)) if isand else lor(v, lift(w)))
                        continue
                except (Unsupported, PyRaise): pass
                finally: cur.ctx = base
            t = self.truth(v)
            if isand and not t: return v if not isinstance(v, Term) else False
            if not isand and t: return v if not isinstance(v, Term) else (True if v.sort == "B" else v)
            v = self.eval(nxt, env)
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if isinstance(v, Tensor): return self.tm.unop(self, op, v)
        if op == "Not":
            if isinstance(v, Term):
                return py(lnot(self.truth_term(v)))
            return not self.truth(v)
        if hasattr(v, "unop"): return v.unop(op)
        if op == "USub":
            return py(neg(v)) if isinstance(v, Term) else -v
        if op == "UAdd": return v
        if op == "Invert":
            if isinstance(v, Term) and v.sort == "B": return lnot(v)
            if isinstance(v, int): return ~v
        raise Unsupported("unary " + op)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            if isinstance(a, (Obj, Missing)) or isinstance(b, (Obj, Missing)): raise Unsupported("tensor op with object")
            return self.tm.binop(self, op, a, b)
        if hasattr(a, "binop"): return a.binop(op, b, False)
        if hasattr(b, "binop"): return b.binop(op, a, True)
        if isinstance(a, (Term,)) or isinstance(b, (Term,)):
            if isinstance(a, list) or isinstance(b, list):
                if op == "Mult":
                    l, n = (a, b) if isinstance(a, list) else (b, a)
                    if len(l) == 1: return SymList(n, lambda i: l[0])
                raise Unsupported("list op")
            if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)): raise Unsupported("string op")
            return py(num_binop(op, lift(a), lift(b), self))
        if isinstance(a, SymList) or isinstance(b, SymList):
            if op == "Add": return self.sym_concat(a, b)
            if op == "Mult":
                raise Unsupported("symbolic list repetition")
        if isinstance(a, (int, float, bool)) and isinstance(b, (int, float, bool)):
            try: return py_binop(op, a, b)
            except ZeroDivisionError: raise PyRaise("ZeroDivisionError", "division by zero")
        if isinstance(a, Obj):
            m = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "MatMult": "__matmul__", "Div": "__truediv__"}.get(op)
            f, _ = a.cls.lookup(m) if m else (None, None)
            if f is not None: return self.call(Bound(a, f), [b], {})
        if isinstance(a, (list, tuple, str)) and isinstance(b, (list, tuple, str, int, dict)):
            if isinstance(a, list) and isinstance(b, list) and op == "Add": return a + b
            if op == "Add": return a + b
            if op == "Mult": return a * b
            if op == "Mod" and isinstance(a, str): return a
        if op == "Mult" and isinstance(b, (list, tuple, str)) and isinstance(a, int): return a * b
        if op == "Mod" and isinstance(a, (str, SymStr)): return "?"
        if op == "Add" and isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            p = lambda x: x.parts if isinstance(x, SymStr) else (x,)
            return SymStr(p(a) + p(b))
        if op in ("BitOr",): return a      # type unions
        if isinstance(a, set) and isinstance(b, set):
            return {"Sub": a - b, "BitAnd": a & b, "BitOr": a | b}[op]
        raise Unsupported(f"binop {op} on {type(a).__name__},{type(b).__name__}")

    def sym_concat(self, a, b):
        def ln(x): return x.n if isinstance(x, SymList) else C(len(x))
        na, nb = ln(a), ln(b)
        def fn(i):
            d = cur.ctx.decide(lt(i, na))
            if d is True: return self.getitem(a, py(i))
            j = py(cur.ctx.nterm(sub(i, na)))
            if d is False: return self.getitem(b, j)
            base = cur.ctx
            try:
                cur.ctx = base.child(lt(i, na)); x = self.getitem(a, py(i))
                cur.ctx = base.child(le(na, i)); y = self.getitem(b, j)
            finally: cur.ctx = base
            return self.merge([(lt(i, na), x), (le(na, i), y)])
        r = SymList(add(na, nb), fn)
        r.parts_ = [y for x in (a, b) for y in getattr(x, "parts_", [x])]
        return r

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(type(op).__name__, left, right)
            if res is None: res = c
            else:
                if isinstance(res, bool) and not res: return False
                if isinstance(res, (bool, Term)) and isinstance(c, (bool, Term)): res = py(land(lift(res), lift(c)))
                else: res = c if self.truth(res) else False
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            if isinstance(a, Term) and isinstance(b, bool): r = a is C(b)
            elif a is b: r = True
            elif isinstance(a, (bool, int, str)) and type(a) == type(b): r = a == b
            else: r = False
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(a, b)
            if isinstance(r, Term): return py(r if op == "In" else lnot(r))
            return r if op == "In" else not r
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            if a is None or b is None: return op == "NotEq"
            if isinstance(a, str) or isinstance(b, str): return op == "NotEq"
            return self.tm.compare(self, op, a, b)
        if hasattr(a, "compare_"): return a.compare_(op, b)
        if hasattr(b, "compare_"): return b.compare_({"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op), a)
        if isinstance(a, Term) or isinstance(b, Term):
            if a is None or b is None or isinstance(a, (str, list, tuple, SymStr)) or isinstance(b, (str, list, tuple, SymStr)):
                if op == "Eq": return False
                if op == "NotEq": return True
                raise PyRaise("TypeError", "comparison")
            a, b = lift(a), lift(b)
            r = {"Eq": lambda: eq(a, b), "NotEq": lambda: lnot(eq(a, b)), "Lt": lambda: lt(a, b), "LtE": lambda: le(a, b),
                 "Gt": lambda: lt(b, a), "GtE": lambda: le(b, a)}[op]()
            d = cur.ctx.decide(r)
            return d if d is not None else r
        if isinstance(a, SymList) or isinstance(b, SymList):
            return self.symlist_cmp(op, a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in ("Eq", "NotEq"):
            if isinstance(a, tuple) != isinstance(b, tuple): r = FALSE
            elif len(a) != len(b): r = FALSE
            else: r = land(*[lift(self.compare("Eq", x, y)) for x, y in zip(a, b)])
            r = py(r if op == "Eq" else lnot(r))
            if isinstance(r, Term):
                d = cur.ctx.decide(r)
                return r if d is None else d
            return r
        if isinstance(a, (Obj, PyClass, PyFunc, Bound, Missing)) or isinstance(b, (Obj, PyClass, PyFunc, Bound, Missing)):
            if op == "Eq": return a is b
            if op == "NotEq": return a is not b
            raise Unsupported("comparison of objects")
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported("poison")
        try:
            return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b,
                    "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
        except TypeError as x: raise PyRaise("TypeError", str(x))

    def symlist_cmp(self, op, a, b):
        if op not in ("Eq", "NotEq"): raise Unsupported("ordering of lists")
        if not isinstance(a, (SymList, list)) or not isinstance(b, (SymList, list)): r = FALSE
        else:
            na = a.n if isinstance(a, SymList) else C(len(a))
            nb = b.n if isinstance(b, SymList) else C(len(b))
            k = fresh("q")
            r = land(eq(na, nb), T.forall_(k, ZERO, na, lift(self.compare("Eq", self.getitem(a, k), self.getitem(b, k)))))
        return py(r if op == "Eq" else lnot(r))

    def contains(self, x, c):
        if isinstance(c, str):
            if not isinstance(x, str): raise Unsupported("in str")
            return x in c
        if isinstance(c, (dict,)):
            if isinstance(x, (Term, Tensor)): raise Unsupported("symbolic key")
            return x in c
        if isinstance(c, set): return x in c
        if isinstance(c, SymRange):
            return py(land(le(c.lo, lift(x)), lt(lift(x), c.hi)))
        if isinstance(c, range) and isinstance(x, Term):
            return land(le(C(c.start), x), lt(x, C(c.stop)))
        if isinstance(c, SymList):
            k = fresh("q")
            return py(exists_(k, ZERO, c.n, lift(self.compare("Eq", x, c.fn(k)))))
        if isinstance(c, (list, tuple, range)):
            r = FALSE
            for y in c: r = lor(r, self.truth_term(self.compare("Eq", x, y)))
            return py(r)
        if hasattr(c, "contains_"): return c.contains_(x)
        if isinstance(c, Obj):
            f, _ = c.cls.lookup("__contains__")
            if f: return self.truth(self.call(Bound(c, f), [x], {}))
        raise Unsupported("in " + type(c).__name__)

    def e_Lambda(self, e, env):
        f = PyFunc(e, env, env.module, "<lambda>", env.cls)
        f.defaults = [self.eval(d, env) for d in e.args.defaults]
        f.kw_defaults = [None if d is None else self.eval(d, env) for d in e.args.kw_defaults]
        return f

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env): raise Unsupported("starred expression")
    def e_Await(self, e, env): raise Unsupported("await")

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value else None
        self.yields[-1].append(v)
        return None

    def comp(self, gens, env, leaf, nested=0):
        g = gens[0]
        it = self.iterable(self.eval(g.iter, env))
        if isinstance(it, SymList):
            if len(gens) > 1:
                return self.nested_comp(it, gens, env, leaf)
            if g.ifs: return self.filtered(it, g, env, leaf)
            def body(k):
                e2 = Env(env, env.module)
                e2.cls, e2.func, e2.selfobj = env.cls, env.func, env.selfobj
                self.assign(g.target, it.fn(k), e2)
                return leaf(e2)
            return self.sym_map(it.n, body)
        out = []
        for x in it:
            e2 = Env(env, env.module)
            e2.cls, e2.func, e2.selfobj = env.cls, env.func, env.selfobj
            self.assign(g.target, x, e2)
            if all(self.truth(self.eval(c, e2)) for c in g.ifs):
                if len(gens) > 1:
                    r = self.comp(gens[1:], e2, leaf)
                    if isinstance(r, SymList) or isinstance(out, SymList): out = self.sym_concat(out, r) if len_of(out) != 0 else r
                    else: out.extend(r)
                else: out.append(leaf(e2))
        return out

    def nested_comp(self, it, gens, env, leaf):
        """[leaf for x in it for y in it2] with a rectangular inner range: element p is (p // n2, p % n2)"""
        g = gens[0]
        if g.ifs or len(gens) != 2 or gens[1].ifs: raise Unsupported("nested comprehension over symbolic ranges")
        def env_of(k):
            e2 = Env(env, env.module)
            e2.cls, e2.func, e2.selfobj = env.cls, env.func, env.selfobj
            self.assign(g.target, it.fn(k), e2)
            return e2
        k = fresh("k")
        base = cur.ctx
        cur.ctx = base.child(le(ZERO, k), lt(k, it.n))
        try:
            inner = self.iterable(self.eval(gens[1].iter, env_of(k)))
            n2 = cur.ctx.nterm(lift(len_of(inner)))
        finally: cur.ctx = base
        if k in n2.fv: raise Unsupported("ragged nested comprehension")
        def fn(p):
            idx = TS.decode_flat(p, [it.n, n2])
            q, r = (floordiv(p, n2), modulo(p, n2)) if idx is None else idx
            e2 = env_of(q)
            i2 = self.iterable(self.eval(gens[1].iter, e2))
            e3 = Env(e2, env.module)
            e3.cls, e3.func, e3.selfobj = env.cls, env.func, env.selfobj
            self.assign(gens[1].target, i2.fn(lift(r)) if isinstance(i2, SymList) else self.getitem(i2, py(lift(r))), e3)
            return leaf(e3)
        return SymList(mul(it.n, n2), fn)

    def filtered(self, it, g, env, leaf):
        # filter over a symbolic sequence: decidable only when uniform
        k = fresh("k")
        base = cur.ctx
        cur.ctx = base.child(le(ZERO, k), lt(k, it.n))
        try:
            e2 = Env(env, env.module)
            e2.cls, e2.func, e2.selfobj = env.cls, env.func, env.selfobj
            self.assign(g.target, it.fn(k), e2)
            c = TRUE
            for i in g.ifs: c = land(c, self.truth_term(self.eval(i, e2)))
            d = cur.ctx.decide(c)
        finally: cur.ctx = base
        if d is True:
            def body(k):
                e2 = Env(env, env.module)
                e2.cls, e2.func, e2.selfobj = env.cls, env.func, env.selfobj
                self.assign(g.target, it.fn(k), e2)
                return leaf(e2)
            return self.sym_map(it.n, body)
        if d is False: return []
        # exactly one excluded index:  x for j,x in enumerate(l) if j != i
        raise Unsupported("filter over a symbolic sequence")

    def e_ListComp(self, e, env): return self.comp(e.generators, env, lambda e2: self.eval(e.elt, e2))
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        r = self.e_ListComp(e, env)
        if isinstance(r, SymList): raise Unsupported("symbolic set")
        return set(r)

    def e_DictComp(self, e, env):
        r = self.comp(e.generators, env, lambda e2: (self.eval(e.key, e2), self.eval(e.value, e2)))
        if isinstance(r, SymList): raise Unsupported("symbolic dict")
        return dict(r)

    def e_Call(self, e, env):
        f = self.eval(e.func, env) if not (isinstance(e.func, ast.Name) and e.func.id == "super") else None
        if f is None:
            if e.args:
                c, o = [self.eval(a, env) for a in e.args]
                return Super(c, o)
            x = env
            while x is not None and x.func is None: x = x.parent
            return Super(x.func.cls, x.selfobj)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                l = self.iterable(v)
                if isinstance(l, SymList):
                    args.append(StarSym(l)); continue
                args.extend(l)
            else: args.append(self.eval(a, env))
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None: kwargs.update(v)
            else: kwargs[k.arg] = v
        self.lineno = e.lineno
        return self.call(f, args, kwargs)

    # ------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + list(args), kwargs) if isinstance(f.func, PyFunc) else self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, PyFunc): return self.call_func(f, list(args), kwargs)
        if isinstance(f, PyClass): return self.instantiate(f, args, kwargs)
        if isinstance(f, (Static, ClassM)): return self.call(f.f, args, kwargs)
        if isinstance(f, Missing): raise Unsupported("no model of " + f.name)
        if isinstance(f, type) and issubclass(f, BaseException): return ExcValue(f, list(args))
        if isinstance(f, Obj):
            c, _ = f.cls.lookup("__call__")
            if c is None: raise PyRaise("TypeError", "object not callable")
            return self.call(Bound(f, c), args, kwargs)
        if isinstance(f, Poison): raise Unsupported("call of poisoned value")
        if callable(f):
            try: return f(*args, **kwargs)
            except TypeError as x:
                if os.environ.get("PYVC_DEBUG"): raise
                raise Unsupported(f"{getattr(f, '__name__', f)}: {x}")
        raise PyRaise("TypeError", f"{type(f).__name__} object is not callable")

    def qual(self, f):
        return (f.module.name if f.module else "?") + "." + (f.cls.name + "." if f.cls is not None else "") + f.name

    def call_func(self, f, args, kwargs):
        q = self.qual(f)
        if q in self.stubs:
            return self.stubs[q](self, f, args, kwargs)
        if f.cls is not None and args and isinstance(args[0], Obj):
            # contract stub registered for a method on the receiver's class
            pass
        return self.run_func(f, args, kwargs)

    def run_func(self, f, args, kwargs):
        q = self.qual(f)
        self.functions[q] = self.functions.get(q, 0) + 1
        env = Env(f.env, f.module)
        env.func, env.cls = f, None
        a = f.node.args
        pos = list(a.posonlyargs) + list(a.args)
        names = [p.arg for p in pos]
        vals = {}
        star = [x for x in args if isinstance(x, StarSym)]
        if star:
            if a.vararg is None or len(args) - 1 != len(names): raise Unsupported("star of symbolic sequence")
            for n, v in zip(names, args): vals[n] = v
            vals[a.vararg.arg] = star[0].l
        else:
            if len(args) > len(names) and a.vararg is None:
                raise PyRaise("TypeError", f"{f.name}() takes {len(names)} positional arguments but {len(args)} were given")
            for n, v in zip(names, args): vals[n] = v
            if a.vararg is not None: vals[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kwargs)
        for n in names + [k.arg for k in a.kwonlyargs]:
            if n in kw:
                if n in vals: raise PyRaise("TypeError", "multiple values for argument " + n)
                vals[n] = kw.pop(n)
        if a.kwarg is not None: vals[a.kwarg.arg] = kw
        elif kw: raise PyRaise("TypeError", f"{f.name}() got an unexpected keyword argument {list(kw)}")
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults): vals.setdefault(n, d)
        for k, d in zip(a.kwonlyargs, f.kw_defaults):
            if k.arg not in vals: vals[k.arg] = d
        for n in names:
            if n not in vals: raise PyRaise("TypeError", f"{f.name}() missing argument {n}")
        env.vars = vals
        if names and f.cls is not None: env.selfobj = vals[names[0]]
        self.stack.append(q)
        if len(self.stack) > 80: raise Unsupported("recursion depth")
        ln = self.lineno
        ng = self.nograd
        if f.nograd is not None: self.nograd = f.nograd
        try:
            if isinstance(f.node, ast.Lambda): return self.eval(f.node.body, env)
            if getattr(f, "isgen", False):
                self.yields = getattr(self, "yields", [])
                self.yields.append([])
                try:
                    try: self.exec_block(f.node.body, env)
                    except Ret: pass
                    return self.yields[-1]
                finally: self.yields.pop()
            try: self.exec_block(f.node.body, env)
            except Ret as r:
                if q in self.captures: self.captures[q] = dict(env.vars)
                return r.v
            if q in self.captures: self.captures[q] = dict(env.vars)
            return None
        finally:
            self.stack.pop()
            self.lineno = ln
            self.nograd = ng

    def instantiate(self, cls, args, kwargs):
        if "__native_exc__" in {k for c in cls.mro for k in c.ns}:
            return ExcValue(cls, list(args))
        for c in cls.mro:
            if "__new_native__" in c.ns: return c.ns["__new_native__"](cls, *args, **kwargs)
            if "__missing__" in c.ns: raise Unsupported("class derived from " + c.ns["__missing__"].name)
        # abstract methods
        for n in {n for c in cls.mro for n, v in c.ns.items() if getattr(v, "abstract", False) or (isinstance(v, PyFunc) and v.attrs.get("abstract"))}:
            v, _ = cls.lookup(n)
            if isinstance(v, PyFunc) and v.attrs.get("abstract"): raise PyRaise("TypeError", f"Can't instantiate abstract class {cls.name}")
        o = Obj(cls)
        init, _ = cls.lookup("__init__")
        if init is not None: self.call(Bound(o, init), args, kwargs)
        return o

    # ------------------------------------------------ attributes
    def getattr(self, o, n):
        if isinstance(o, Obj):
            if n in o.attrs:
                v = o.attrs[n]
                if isinstance(v, Poison): raise Unsupported("loop-carried attribute " + n)
                return v
            v, c = o.cls.lookup(n)
            if c is not None: return self.bind(v, o, o.cls)
            if n == "__class__": return o.cls
            if n == "__dict__": return o.attrs
            if n == "_modules":
                from . import nnmodel
                if nnmodel.is_module(o): return dict(nnmodel.children(o))
            g, _ = o.cls.lookup("__getattr__")
            if g is not None: return self.call(Bound(o, g), [n], {})
            raise PyRaise("AttributeError", f"{o.cls.name} has no attribute {n}")
        if isinstance(o, Tensor): return self.tm.tensor_attr(self, o, n)
        if isinstance(o, NativeModule):
            full = o.name + "." + n
            if n in o.ns: return o.ns[n]
            if full in self.native: return self.native[full]
            return o.get(n)
        if isinstance(o, PyModule):
            if n in o.ns: return o.ns[n]
            full = o.name + "." + n
            if full in self.modules: return self.modules[full]
            raise PyRaise("AttributeError", f"module {o.name} has no attribute {n}")
        if isinstance(o, PyClass):
            if n == "__name__": return o.name
            v, c = o.lookup(n)
            if c is None: raise PyRaise("AttributeError", f"{o.name}.{n}")
            if isinstance(v, Static): return v.f
            if isinstance(v, ClassM): return Bound(o, v.f)
            if n == "apply" and callable(v): return lambda *a, **k: v(o, *a, **k)
            return v
        if isinstance(o, Super):
            obj = o.obj
            cls = obj.cls if isinstance(obj, Obj) else obj
            i = cls.mro.index(o.cls)
            for c in cls.mro[i + 1:]:
                if n in c.ns: return self.bind(c.ns[n], obj, cls)
            if n == "__init__": return lambda *a, **k: None
            if n == "__setattr__": return lambda k, v: self.rawset(obj, k, v)
            raise PyRaise("AttributeError", "super: " + n)
        if isinstance(o, Missing): return Missing(o.name + "." + n)
        if isinstance(o, (tuple, list)) and hasattr(o, "attr_"): return o.attr_(n)
        if isinstance(o, (SymList, SymRange, list, tuple, dict, str, set, SymStr, int, float, Term, range, LoopList)):
            from . import pylib
            return pylib.value_attr(self, o, n)
        if isinstance(o, PyFunc):
            if n in o.attrs: return o.attrs[n]
            if n == "__name__": return o.name
            raise PyRaise("AttributeError", n)
        if isinstance(o, Bound) and n in ("__name__",): return o.func.name
        if isinstance(o, Bound) and n == "__self__": return o.self_
        if isinstance(o, type):
            if n == "__name__": return o.__name__
        if isinstance(o, ExcValue):
            if n == "args": return tuple(o.args_)
        if o is None: raise PyRaise("AttributeError", f"'NoneType' object has no attribute '{n}'")
        if hasattr(o, "attr_"): return o.attr_(n)
        if hasattr(o, n): return getattr(o, n)
        raise Unsupported(f"attribute {n} of {type(o).__name__}")

    def bind(self, v, o, cls):
        if isinstance(v, PyFunc): return Bound(o, v)
        if isinstance(v, Prop): return self.call(Bound(o, v.fget), [], {})
        if isinstance(v, Static): return v.f
        if isinstance(v, ClassM): return Bound(cls, v.f)
        if callable(v) and not isinstance(v, (PyClass, type, Missing)): return lambda *a, **k: v(o, *a, **k)
        return v

    def rawset(self, o, n, v):
        self.journal.rec_dict(o.attrs, n, "attr")
        o.attrs[n] = v

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            p, _ = o.cls.lookup(n)
            if isinstance(p, Prop):
                if p.fset is None: raise PyRaise("AttributeError", "can't set attribute " + n)
                return self.call(Bound(o, p.fset), [v], {})
            sa, _ = o.cls.lookup("__setattr__")
            if isinstance(sa, PyFunc): return self.call(Bound(o, sa), [n, v], {})
            self.rawset(o, n, v)
            return
        if isinstance(o, Tensor): return self.tm.tensor_setattr(self, o, n, v)
        if isinstance(o, PyFunc):
            o.attrs[n] = v
            return
        if isinstance(o, PyClass):
            self.journal.rec_dict(o.ns, n, "attr"); o.ns[n] = v
            return
        if isinstance(o, PyModule): o.ns[n] = v; return
        if hasattr(o, "setattr_"): return o.setattr_(n, v)
        if isinstance(o, (Missing, NativeModule)): return
        raise Unsupported(f"setattr on {type(o).__name__}")

    # ------------------------------------------------ items
    def getitem(self, o, k):
        if isinstance(o, Tensor): return self.tm.getitem(self, o, k)
        if isinstance(o, (list, tuple)):
            if len(o) == 1 and isinstance(o[0], SymTail): return self.getitem(self.untail(o), k)
            if isinstance(k, slice):
                f = lambda x: py(cur.ctx.nterm(x)) if isinstance(x, Term) else x
                s = slice(f(k.start), f(k.stop), f(k.step))
                if any(isinstance(x, Term) for x in (s.start, s.stop, s.step)): raise Unsupported("symbolic slice of list")
                return o[s]
            if isinstance(k, Tensor): k = py(k.item_term())
            if isinstance(k, Term):
                k = py(cur.ctx.nterm(k))
                if isinstance(k, Term):
                    items = []
                    for i in range(len(o)):
                        d = cur.ctx.decide(eq(k, C(i)))
                        if d is True: return o[i]
                        if d is None: items.append((eq(k, C(i)), o[i]))
                    if not items: raise PyRaise("IndexError", "list index out of range")
                    try: return self.merge(items)
                    except Unsupported:
                        for c, v in items[:-1]:
                            if self.fork(c): return v
                        return items[-1][1]
            if isinstance(k, bool): k = int(k)
            if not isinstance(k, int): raise PyRaise("TypeError", "list indices must be integers")
            if not -len(o) <= k < len(o): raise PyRaise("IndexError", "list index out of range")
            return o[k]
        if isinstance(o, SymList):
            if isinstance(k, slice):
                lo = ZERO if k.start is None else lift(k.start)
                if isc(lo) and T.cval(lo) < 0: lo = add(o.n, lo)
                hi = o.n if k.stop is None else lift(k.stop)
                if isc(hi) and T.cval(hi) < 0: hi = add(o.n, hi)
                if k.step == -1 and k.start is None and k.stop is None:
                    return SymList(o.n, lambda i: o.fn(cur.ctx.nterm(sub(sub(o.n, ONE), i))))
                if k.step not in (None, 1): raise Unsupported("strided slice of symbolic list")
                return SymList(cur.ctx.nterm(sub(hi, lo)), lambda i: o.fn(cur.ctx.nterm(add(lo, i))))
            if isinstance(k, Tensor): k = k.item_term()
            i = TS.norm_index(lift(k), o.n)
            TS.check_bounds(i, o.n)
            return o.fn(i)
        if isinstance(o, range):
            return o[k]
        if isinstance(o, SymRange): return py(add(o.lo, mul(C(o.step), lift(k))))
        if isinstance(o, dict):
            if isinstance(k, Term): k = py(cur.ctx.nterm(k))
            if k not in o: raise PyRaise("KeyError", str(k))
            return o[k]
        if isinstance(o, str): return o[k]
        if isinstance(o, Obj):
            f, _ = o.cls.lookup("__getitem__")
            if f is not None: return self.call(Bound(o, f), [k], {})
        if isinstance(o, (PyClass, type, Missing)): return o      # generics
        if hasattr(o, "getitem_"): return o.getitem_(k)
        raise Unsupported("subscript of " + type(o).__name__)

    def untail(self, l):
        t = l[0]
        r = self.sym_concat(t.prefix, t.sl) if t.prefix else t.sl
        return self.sym_concat(r, t.suffix) if t.suffix else r

    def setitem(self, o, k, v):
        if isinstance(o, Tensor): return self.tm.setitem(self, o, k, v)
        if isinstance(o, list):
            if isinstance(k, Term): k = py(cur.ctx.nterm(k))
            if isinstance(k, Term): raise Unsupported("list store at symbolic index")
            self.journal.rec_list(o)
            o[k] = v
            return
        if isinstance(o, dict):
            if isinstance(k, Term): k = py(cur.ctx.nterm(k))
            if isinstance(k, Term): raise Unsupported("dict store at symbolic key")
            self.journal.rec_dict(o, k, "dict")
            o[k] = v
            return
        if isinstance(o, Obj):
            f, _ = o.cls.lookup("__setitem__")
            if f is not None: return self.call(Bound(o, f), [k, v], {})
        if hasattr(o, "setitem_"): return o.setitem_(k, v)
        raise Unsupported("store into " + type(o).__name__)


class StarSym:
    def __init__(self, l): self.l = l


class SymTail:
    """content of a list: some elements, a symbolic number of elements, some more"""
    def __init__(self, prefix, sl, suffix=()): self.prefix, self.sl, self.suffix = list(prefix), sl, list(suffix)


class LoopPrefix: pass
class Poisoned(Exception): pass
class LoopEscape(Unsupported):
    def __init__(self, outs):
        super().__init__("return/break inside a loop over a symbolic range")
        self.outs = outs


_hv = itertools.count(1)


class Havoc:
    def __init__(self, e):
        self.e = e
        self.syms = set()
        self.name = None
        self.inv = None

    KINDS = ("nan", "pinf", "ninf")

    def symbol(self, init, phs):
        """the carried value at an arbitrary iteration; where the initial value may be nan or infinite, so may this"""
        v = app(self.name, tuple(phs), self.sort)
        if self.sort == "B" or not init.special: return v
        seen = {t.op for t in T.subterms(init) if T.is_special_leaf(t)}
        for kd in self.KINDS:
            if kd in seen: v = ite(app(f"{self.name}?{kd}", tuple(phs), "B"), {"nan": T.NAN, "pinf": T.PINF, "ninf": T.NINF}[kd], v)
        return v

    def names(self):
        if not self.name: return ()
        return (self.name,) + tuple(f"{self.name}?{kd}" for kd in self.KINDS)

    def initial(self, name, sub):
        """initial value of the symbol or of one of its flags"""
        i = subst(self.init, sub)
        if name == self.name: return T.finite_part(i) if self.sort != "B" else i
        return T.isnan(i) if name.endswith("?nan") else T.isinf(i, (name.rsplit("?", 1)[1],))


def flat_sizes(sizes):
    out = []
    for s in sizes:
        if isinstance(s, CAxis): out.extend(s.sizes)
        else: out.append(s)
    return out


def TS_regroup(old, new, phs):
    """placeholders of old (storage order = dims order) regrouped for the dims of new"""
    groups = []
    p = 0
    for k, g in enumerate(old.dims()):
        n = sum(TS.nph(s) for s in g)
        part = list(TS.group_idx(phs[p:p + n], g))
        p += n
        f = TS.match_groups(g, new.dims()[k])
        if f is None: raise Unsupported("loop-carried tensor changes factorisation")
        groups.append(f(part))
    return groups


def len_of(x): return x.n if isinstance(x, SymList) else len(x)


def ctx_simplify(ctx, t):
    """drop decided if-then-elses"""
    memo = {}
    def f(x):
        if x.op == "ite":
            d = ctx.decide(x.args[0])
            if d is True: return x.args[1]
            if d is False: return x.args[2]
        return None
    def walk(t):
        if t.op == "ite":
            d = ctx.decide(t.args[0])
            if d is True: return walk(t.args[1])
            if d is False: return walk(t.args[2])
            return ite(t.args[0], walk(t.args[1]), walk(t.args[2]))
        if t.sort == "B" and t.op in ("and", "or", "not", "eq", "lt", "le"):
            d = ctx.decide(t) if t.op in ("eq", "lt", "le") else None
            if d is not None: return C(d)
            if t.op == "not": return lnot(walk(t.args[0]))
            if t.op in ("and", "or"): return (land if t.op == "and" else lor)(*[walk(x) for x in t.args])
        return t
    return walk(t)


def walk_own(fn):
    """ast nodes of a function without nested functions"""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        st.extend(ast.iter_child_nodes(n))


def num_binop(op, a, b, eng=None):
    if op == "Add": return add(a, b)
    if op == "Sub": return sub(a, b)
    if op == "Mult": return mul(a, b)
    if op == "Div":
        eng and eng.side_condition("division by zero", lnot(eq(b, ZERO)))
        return T.div(a, b)
    if op == "FloorDiv": return floordiv(a, b)
    if op == "Mod": return modulo(a, b)
    if op == "Pow": return power(a, b)
    if op == "BitAnd" and a.sort == b.sort == "B": return land(a, b)
    if op == "BitOr" and a.sort == b.sort == "B": return lor(a, b)
    if op == "BitXor" and a.sort == b.sort == "B": return lnot(eq(a, b))
    raise Unsupported("numeric op " + op)


def floordiv(a, b):
    if isc(a) and isc(b): return C(T.cval(a) // T.cval(b))
    if isc(b) and T.cval(b) == 1: return a
    # exact division of a product
    p, q = cur.ctx.norm(a), cur.ctx.norm(b)
    if len(q) == 1:
        (qm, qc), = q.items()
        r = {}
        ok = True
        for m, c in p.items():
            mm = NM.mono_mul(m, tuple((x, -e) for x, e in qm))
            cc = c / qc
            if any(e < 0 for x, e in mm) or cc.denominator != 1: ok = False
            r[mm] = cc
        if ok and a.sort == b.sort == "I": return NM.pterm(r)
    # constant divisor: split the divisible part
    if isc(b) and a.sort == "I" and T.cval(b) > 0:
        d = T.cval(b)
        ip = {m: c for m, c in p.items() if (c / d).denominator == 1}
        rest = {m: c for m, c in p.items() if m not in ip}
        if ip and rest:
            base = NM.pterm({m: c / d for m, c in ip.items()})
            return add(base, floordiv_app(NM.pterm(rest), b))
    return floordiv_app(a, b)


def floordiv_app(a, b):
    if a.sort == b.sort == "I":
        d = cur.ctx.decide(land(le(ZERO, a), lt(a, b)))
        if d is True: return ZERO
        cur.eng.assume_div()
        return app("idiv", (cur.ctx.nterm(a), cur.ctx.nterm(b)), "I")
    raise Unsupported("floor division of reals")


def _assume_div(self):
    f = self.root.app_facts
    if "idiv" in f: return
    def facts(args):
        a, b = args
        q = app("idiv", (a, b), "I")
        return [lor(le(b, ZERO), land(le(mul(q, b), a), lt(a, add(mul(q, b), b))))]
    f["idiv"] = facts


Engine.assume_div = _assume_div


def modulo(a, b):
    if isc(a) and isc(b): return C(T.cval(a) % T.cval(b))
    return sub(a, mul(floordiv(a, b), b))


def py_binop(op, a, b):
    return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: exact_div(a, b),
            "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b, "BitAnd": lambda: a & b,
            "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "LShift": lambda: a << b, "RShift": lambda: a >> b,
            "MatMult": lambda: (_ for _ in ()).throw(Unsupported("matmul"))}[op]()


def exact_div(a, b):
    """int/int is kept exact (machine rounding of literals is not modelled)"""
    if b == 0: raise ZeroDivisionError
    if isinstance(a, int) and isinstance(b, int):
        f = Fraction(a, b)
        return C(f, "R")
    return a / b
