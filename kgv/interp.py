"""Abstract evaluator: builds the gated value graph of a function from its syntax tree.

Every statement is visited once per calling context; control flow joins merge states with
gates (ite nodes), early exits become guarded completions.  Nothing of the analysed package
is imported or executed.
"""
import ast
import os
from fractions import Fraction
from . import graph as g
from .graph import Node


class Unsupported(Exception):
    """construct the analysis has no transfer function for -> check error, never a verdict"""


class Dead(Exception):
    """the current path cannot continue (all completions recorded)"""


class _Unbound:
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


class Ref:
    __slots__ = ("id", "kind", "meta", "depth")
    _n = 0

    def __init__(self, kind, meta=None):
        Ref._n += 1
        self.id, self.kind, self.meta = Ref._n, kind, meta

    def __repr__(self):
        return f"<{self.kind}#{self.id}>"


class Gated:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f"Gated({self.cond}?{self.a}:{self.b})"


class Func:
    memo = None                 # heap dict of a functools cache around this function

    def __init__(self, node, module, scope, qual, defaults, kwdefaults, cls=None):
        self.node, self.module, self.scope, self.qual = node, module, scope, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[-1]

    def __repr__(self):
        return f"<fn {self.qual}>"


class PyFn:
    """analysis-side function value (cut closures, library models with state)"""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"<pyfn {self.name}>"


class LibFn:
    _cache = {}

    def __new__(cls, name):
        o = cls._cache.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._cache[name] = o
        return o

    def __repr__(self):
        return f"<lib {self.name}>"


class LibMod:
    _cache = {}

    def __new__(cls, name):
        o = cls._cache.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._cache[name] = o
        return o

    def __repr__(self):
        return f"<libmod {self.name}>"


class RepoMod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.scope = Ref("scope")
        self.loaded = False

    def __repr__(self):
        return f"<mod {self.name}>"


class ClassVal:
    def __init__(self, name, bases, ns, module, qual):
        self.name, self.bases, self.own, self.module, self.qual = name, bases, ns, module, qual
        self.fields = None       # dataclass / namedtuple fields
        self.kind = "class"
        self.ip = self.scope = None

    @property
    def ns(self):
        """attributes of the class itself in the current state"""
        return self.own if self.ip is None else self.ip.heap.get(self.scope.id, self.own)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"<class {self.qual}>"


class Bound:
    def __init__(self, func, self_, owner=None):
        self.func, self.self_, self.owner = func, self_, owner

    def __repr__(self):
        return f"<bound {self.func}>"


class Descr:
    def __init__(self, kind, func):
        self.kind, self.func = kind, func


class NT(tuple):
    """namedtuple instance"""
    cls = None


class Arr:
    """functional array: shape of ints / dimension nodes, element function over indices"""
    __slots__ = ("shape", "elem", "sorted", "tag")

    def __init__(self, shape, elem, sorted=False, tag=None):
        self.shape, self.elem, self.sorted, self.tag = tuple(shape), elem, sorted, tag

    @property
    def ndim(self):
        return len(self.shape)


class RangeVal:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Lazy:
    """eagerly-tupled iterator or symbolic iterator"""

    def __init__(self, items):
        self.items = items


class SymIter:
    """iteration over a symbolic number of items: n nodes, item(i) -> value"""

    def __init__(self, dims, item):
        self.dims, self.item = dims, item


class ExcVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<exc {self.name}>"


EXC_PARENTS = {
    "ValueError": ["Exception"], "TypeError": ["Exception"], "KeyError": ["LookupError", "Exception"],
    "IndexError": ["LookupError", "Exception"], "AttributeError": ["Exception"],
    "ZeroDivisionError": ["ArithmeticError", "Exception"], "NotImplementedError": ["RuntimeError", "Exception"],
    "RuntimeError": ["Exception"], "UnboundLocalError": ["NameError", "Exception"],
    "NameError": ["Exception"], "AssertionError": ["Exception"], "LookupError": ["Exception"],
    "ArithmeticError": ["Exception"], "OverflowError": ["ArithmeticError", "Exception"],
    "FloatingPointError": ["ArithmeticError", "Exception"], "Exception": ["BaseException"],
    "BaseException": [], "StopIteration": ["Exception"], "ImportError": ["Exception"],
    "Warning": ["Exception"], "UserWarning": ["Warning", "Exception"],
    "RuntimeWarning": ["Warning", "Exception"], "DeprecationWarning": ["Warning", "Exception"],
    "ModuleNotFoundError": ["ImportError", "Exception"], "LinAlgError": ["ValueError", "Exception"],
}


class Completion:
    __slots__ = ("guard", "kind", "value", "heap", "line")

    def __init__(self, guard, kind, value, heap, line):
        self.guard, self.kind, self.value, self.heap, self.line = guard, kind, value, heap, line


class Outcome:
    """result of analysing one call: ordered guarded completions"""

    def __init__(self, comps):
        self.comps = comps


SAFE_BUILTINS = {
    "abs", "min", "max", "len", "range", "enumerate", "zip", "tuple", "list", "dict", "set", "frozenset",
    "float", "int", "bool", "str", "sum", "any", "all", "map", "filter", "sorted", "reversed", "round",
    "isinstance", "callable", "print", "complex", "pow", "divmod", "getattr", "setattr", "hasattr", "super",
    "type", "repr", "format", "iter", "next", "vars", "id", "object", "property", "staticmethod",
    "classmethod", "slice", "hash", "issubclass", "NotImplemented", "Ellipsis", "globals", "locals", "__import__",
    "iter", "input", "open", "exec", "eval", "ord", "chr", "bytes", "memoryview", "bytearray",
}


class Interp:
    MAXDEPTH = 60

    def __init__(self, root, package="kerrgeopy", extra=None):
        self.root, self.package = root, package
        self.modules = {}
        self.extra = dict(extra or {})     # extra modules: name -> path
        self.heap = {}
        self.guard = []           # branch conditions since frame start
        self.simple = (None, 0, {})
        self.facts = {}           # node id -> bool known on the live path
        self.pend = []            # completions of the current collector
        self.cuts = {}
        self.events = []          # (guard conds, name, args)
        self.depth = 0
        self.active = []
        self.loops = []           # active symbolic loop index vars
        self.indices = set()     # open index variables
        self.roots = 0
        self.trace_calls = None
        self.analysed = {}        # qual -> set of lines visited
        self.notes = []
        self.mutations = []       # (kind, ref, description, line)
        self.gnames = []
        self.strict_scalar = False
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------------ modules
    def mod_path(self, name):
        if name in self.extra:
            return self.extra[name]
        parts = name.split(".")
        p = os.path.join(self.root, *parts)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def is_repo(self, name):
        return name.split(".")[0] == self.package or name in self.extra

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        else:
            parent = None
        if name in self.modules:
            return self.modules[name]
        path = self.mod_path(name)
        if path is None:
            raise Unsupported(f"module {name} not found")
        m = RepoMod(name, path)
        self.modules[name] = m
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(open(path, encoding="utf-8").read(), path)
        m.tree = tree
        self.heap[m.scope.id] = {"__name__": name}
        save = (self.guard, self.pend, self.facts)
        self.guard, self.pend, self.facts = [], [], {}
        fr = Frame(m, m.scope, None, name)
        try:
            self.block(tree.body, fr)
        except Dead:
            pass
        for c in self.pend:
            if c.kind == "raise":
                self.notes.append(("module-raise", name, c.value.name, c.line))
        self.guard, self.pend, self.facts = save
        m.loaded = True
        if parent is not None:
            self.setvar(parent.scope, name.rsplit(".", 1)[1], m)
        return m

    def modattr(self, m, name):
        sc = self.heap[m.scope.id]
        if name in sc:
            return sc[name]
        if self.mod_path(m.name + "." + name) is not None and m.path.endswith("__init__.py"):
            return self.load(m.name + "." + name)
        return UNBOUND

    def public(self, dotted):
        """resolve a dotted public name in the analysed package"""
        parts = dotted.split(".")
        m = self.load(parts[0])
        v = m
        for p in parts[1:]:
            if isinstance(v, RepoMod):
                sub = None
                v2 = self.heap[v.scope.id].get(p, UNBOUND)
                if v2 is UNBOUND and self.mod_path(v.name + "." + p):
                    v2 = self.load(v.name + "." + p)
                v = v2
            elif isinstance(v, ClassVal):
                v = v.lookup(p)[0]
                if isinstance(v, Descr):
                    v = v.func
            else:
                return None
            if v is UNBOUND or v is None:
                return None
        return v

    def imp(self, name):
        """import statement target"""
        if self.is_repo(name):
            return self.load(name)
        return LibMod(name)

    # ------------------------------------------------------------------ state
    def setvar(self, scope, name, v):
        d = dict(self.heap[scope.id])
        d[name] = v
        self.heap[scope.id] = d

    def new(self, kind, content, meta=None):
        r = Ref(kind, meta)
        r.depth = len(self.loops)
        self.heap[r.id] = content
        return r

    def content(self, r):
        if r.kind == "dict" and type(r.meta) is Ref:
            return {self.lib.key(k): (k, v) for k, v in self.heap[r.meta.id].items()}
        return self.heap[r.id]

    def write(self, r, content):
        if r.kind == "dict" and type(r.meta) is Ref:        # an instance's __dict__ is a view of its attributes
            self.heap[r.meta.id] = {k: v for k, v in content.values()}
            return
        self.heap[r.id] = content

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = dict(h2)
        for k, v1 in h1.items():
            if k not in h2:
                out[k] = v1
                continue
            v2 = h2[k]
            if v1 is v2:
                continue
            out[k] = self.merge_content(c, v1, v2)
        return out

    def merge_content(self, c, v1, v2):
        if isinstance(v1, dict) and isinstance(v2, dict):
            d = {}
            for k in list(v1) + [k for k in v2 if k not in v1]:
                a, b = v1.get(k, UNBOUND), v2.get(k, UNBOUND)
                if isinstance(k, tuple) and k and k[0] == "K":
                    # dict entry (key, value) pairs
                    if a is UNBOUND or b is UNBOUND:
                        kv = a if a is not UNBOUND else b
                        d[k] = (kv[0], self.gate(c, a[1] if a is not UNBOUND else UNBOUND,
                                                 b[1] if b is not UNBOUND else UNBOUND))
                    else:
                        d[k] = (a[0], self.gate(c, a[1], b[1]))
                else:
                    d[k] = a if a is b else self.gate(c, a, b)
            return d
        if isinstance(v1, list) and isinstance(v2, list) and len(v1) == len(v2):
            return [x if x is y else self.gate(c, x, y) for x, y in zip(v1, v2)]
        if isinstance(v1, Arr) and isinstance(v2, Arr) and same_shape(v1.shape, v2.shape):
            return Arr(v1.shape, lambda ix: self.gate(c, v1.elem(ix), v2.elem(ix)), v1.sorted and v2.sorted)
        return Gated(c, v1, v2)

    def gate(self, c, a, b):
        if a is b or c is g.TRUE:
            return a
        if c is g.FALSE:
            return b
        if isinstance(a, Node) and isinstance(b, Node):
            return g.ite(c, a, b)
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            return tuple(self.gate(c, x, y) for x, y in zip(a, b))
        if isinstance(a, NT) and isinstance(b, NT) and a.cls is b.cls:
            return mknt(a.cls, [self.gate(c, x, y) for x, y in zip(a, b)])
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if a is None and b is None:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "arr":
            x, y = self.content(a), self.content(b)
            if isinstance(x, Arr) and isinstance(y, Arr) and same_shape(x.shape, y.shape):
                return self.new("arr", Arr(x.shape, lambda ix: self.gate(c, x.elem(ix), y.elem(ix)),
                                           x.sorted and y.sorted))
        if isinstance(a, Arr) and isinstance(b, Arr) and same_shape(a.shape, b.shape):
            return Arr(a.shape, lambda ix: self.gate(c, a.elem(ix), b.elem(ix)))
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.self_ is b.self_:
            return a
        if isinstance(a, Gated) and a.cond is c:
            a = a.a
        if isinstance(b, Gated) and b.cond is c:
            b = b.b
        if a is b:
            return a
        if isinstance(a, ExcVal) and isinstance(b, ExcVal) and a.name == b.name:
            return a
        if isinstance(a, Gated) or isinstance(b, Gated):
            r = self.regroup(c, a, b)
            if r is not None:
                return r
        return Gated(c, a, b)

    REGROUP = 1

    def regroup(self, c, a, b):
        """a choice among few distinct leaves, reached many ways: one condition per leaf"""
        parts = {}
        order = []
        n = 0
        todo = [(g.lnot(c), b), (c, a)]
        while todo:
            cond, v = todo.pop()
            if cond is g.FALSE:
                continue
            if isinstance(v, Gated):
                todo.append((g.land(cond, g.lnot(v.cond)), v.b))
                todo.append((g.land(cond, v.cond), v.a))
                continue
            k = ("=", v) if v is None or type(v) in (str, bool) else (Node,) if isinstance(v, Node) else \
                (tuple, len(v)) if type(v) is tuple else (NT, v.cls) if isinstance(v, NT) else id(v)
            n += 1
            if n > 64:
                return None
            if k in parts:
                c0, v0 = parts[k]
                parts[k] = (g.lor(c0, cond), v if v is v0 else self.gate(cond, v, v0))
            else:
                parts[k] = (cond, v)
                order.append(k)
        if len(order) == n or n < self.REGROUP:
            return None
        r = parts[order[-1]][1]
        for k in reversed(order[:-1]):
            cond, v = parts[k]
            r = Gated(cond, v, r)
        return r

    # ------------------------------------------------------------------ control
    def known(self, c):
        if c is g.TRUE or c is g.FALSE:
            return c
        v = self.facts.get(c.id)
        if v is not None:
            return g.TRUE if v else g.FALSE
        if c.op == "not":
            v = self.facts.get(c.args[0].id)
            if v is not None:
                return g.FALSE if v else g.TRUE
        if c.op in ("and", "or", "not"):
            if self.simple[0] is not self.facts or self.simple[1] != len(self.facts):
                self.simple = (self.facts, len(self.facts), {})
            return self.simplify(c, self.simple[2])
        return c

    def simplify(self, c, memo):
        r = memo.get(c.id)
        if r is None:
            v = self.facts.get(c.id)
            r = c
            if v is not None:
                r = g.TRUE if v else g.FALSE
            elif c.op == "not":
                a = self.simplify(c.args[0], memo)
                if a is not c.args[0]:
                    r = g.lnot(a)
            elif c.op in ("and", "or"):
                a, b = (self.simplify(x, memo) for x in c.args)
                if a is not c.args[0] or b is not c.args[1]:
                    r = g.land(a, b) if c.op == "and" else g.lor(a, b)
            memo[c.id] = r
        return r

    def learn(self, c, val, facts):
        facts[c.id] = val
        if c.op == "not":
            self.learn(c.args[0], not val, facts)
        if c.op == "and" and val or c.op == "or" and not val:
            for x in c.args:
                self.learn(x, val, facts)

    def branch(self, c, fa, fb):
        """evaluate fa under c and fb under not c, merge heaps; returns gated value"""
        c = self.known(c)
        if c is g.TRUE:
            return fa()
        if c is g.FALSE:
            return fb()
        h0, gd, facts = self.heap, self.guard, self.facts
        res = []
        for val, f in ((True, fa), (False, fb)):
            self.heap = dict(h0)
            self.guard = gd + [c if val else g.lnot(c)]
            self.facts = dict(facts)
            self.learn(c, val, self.facts)
            try:
                v = f()
                res.append((v, self.heap))
            except Dead:
                res.append(None)
        self.guard, self.facts = gd, facts
        if res[0] is None and res[1] is None:
            self.heap = h0
            raise Dead()
        if res[0] is None:
            self.facts = dict(facts)
            self.learn(c, False, self.facts)
            self.heap = res[1][1]
            return res[1][0]
        if res[1] is None:
            self.facts = dict(facts)
            self.learn(c, True, self.facts)
            self.heap = res[0][1]
            return res[0][0]
        self.heap = self.merge_heap(c, res[0][1], res[1][1])
        return self.gate(c, res[0][0], res[1][0])

    def lift(self, f, v):
        """apply f to v, distributing over structural gates"""
        if isinstance(v, Gated):
            return self.branch(v.cond, lambda: self.lift(f, v.a), lambda: self.lift(f, v.b))
        if v is UNBOUND:
            self.complete("raise", ExcVal("UnboundLocalError"))
        return f(v)

    def liftn(self, f, vs):
        for i, v in enumerate(vs):
            if isinstance(v, Gated):
                return self.branch(v.cond, lambda: self.liftn(f, vs[:i] + [v.a] + vs[i + 1:]),
                                   lambda: self.liftn(f, vs[:i] + [v.b] + vs[i + 1:]))
            if v is UNBOUND:
                self.complete("raise", ExcVal("UnboundLocalError"))
        return f(*vs)

    def conj(self, cs):
        r = g.TRUE
        for c in cs:
            r = g.land(r, c)
        return r

    def complete(self, kind, value, cond=None):
        """record a guarded completion; if unconditional the path dies"""
        gd = self.guard + ([cond] if cond is not None else [])
        heap = self.heap if cond is None else dict(self.heap)
        self.pend.append(Completion(self.conj(gd), kind, value, heap, g.get_line()))
        if cond is None:
            raise Dead()
        self.facts = dict(self.facts)
        self.learn(cond, False, self.facts)

    def raise_if(self, cond, exc):
        cond = self.known(cond)
        if cond is g.FALSE:
            return
        if cond is g.TRUE:
            self.complete("raise", ExcVal(exc))
        self.complete("raise", ExcVal(exc), cond)

    def need(self, v, why=""):
        """split off UNBOUND leaves"""
        if v is UNBOUND:
            self.complete("raise", ExcVal("UnboundLocalError"))
        if isinstance(v, Gated):
            c = self.known(v.cond)
            if c is g.TRUE:
                return self.need(v.a)
            if c is g.FALSE:
                return self.need(v.b)
            if has_unbound(v):
                return self.branch(c, lambda: self.need(v.a), lambda: self.need(v.b))
        return v

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        g.set_line((fr.file, s.lineno, fr.qual))
        fr.seen.add(s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"{fr.file}:{s.lineno}: statement {type(s).__name__}")
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.imp(a.name)
            if a.asname:
                self.setvar(fr.scope, a.asname, m)
            else:
                self.setvar(fr.scope, a.name.split(".")[0], self.imp(a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        if s.level:
            base = fr.module.name if fr.module.path.endswith("__init__.py") else fr.module.name.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                base = base.rsplit(".", 1)[0]
            name = base + ("." + s.module if s.module else "")
        else:
            name = s.module
        if self.is_repo(name):
            m = self.load(name)
            for a in s.names:
                if a.name == "*":
                    sc = self.heap[m.scope.id]
                    al = sc.get("__all__")
                    if al is not None and isinstance(al, Ref):
                        names = list(self.content(al))
                    else:
                        names = [k for k in sc if not k.startswith("_")]
                    for k in names:
                        v = self.modattr(m, k)
                        if v is UNBOUND:
                            self.complete("raise", ExcVal("AttributeError"))
                        self.setvar(fr.scope, k, v)
                else:
                    v = self.modattr(m, a.name)
                    if v is UNBOUND:
                        self.complete("raise", ExcVal("ImportError"))
                    self.setvar(fr.scope, a.asname or a.name, v)
        else:
            for a in s.names:
                if a.name == "*":
                    if name in self.lib.STAR:
                        for k in self.lib.STAR[name]:
                            self.setvar(fr.scope, k, self.lib.libattr(name, k))
                        continue
                    raise Unsupported(f"star import from {name}")
                self.setvar(fr.scope, a.asname or a.name, self.lib.libattr(name, a.name))

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, fr), v)
        self.bind_name(s.name, v, fr)

    s_AsyncFunctionDef = None

    def mkfunc(self, s, fr, name=None):
        a = s.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [None if d is None else ("d", self.ev(d, fr)) for d in a.kw_defaults]
        name = name or getattr(s, "name", "<lambda>")
        qual = (fr.qual + "." if fr.qual else "") + name
        f = Func(s, fr.module, fr.closure_scope(), qual, defaults, kwd, fr.cls)
        if self.depth == 0:
            f.attrs = self.new("scope", {})
        return f

    def fattrs(self, f):
        """the attribute scope of a function object"""
        at = f.__dict__.get("attrs")
        if at is None or at.id not in self.heap:
            at = f.attrs = self.new("scope", {})
        return at

    def decorate(self, d, v):
        if isinstance(d, LibFn):
            n = d.name
            if n in ("functools.lru_cache", "functools.cache"):
                return self.lib.cached(self, v)
            if n in ("functools.wraps", "contextlib.contextmanager", "numba.njit", "numba.jit"):
                return v
            if n == "builtins.property":
                return Descr("property", v)
            if n == "builtins.staticmethod":
                return Descr("static", v)
            if n == "builtins.classmethod":
                return Descr("classm", v)
            if n == "functools.cached_property":
                return Descr("property", v)
            if n == "dataclasses.dataclass":
                return v
            if n == "numpy.vectorize":
                return self.call(d, [v], {})
        return self.call(d, [v], {})

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        sc = self.new("scope", {})
        f2 = Frame(fr.module, sc, fr, (fr.qual + "." if fr.qual else "") + s.name)
        f2.is_class = True
        cv = ClassVal(s.name, bases, {}, fr.module, f2.qual)
        f2.cls = cv
        ann = []
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ann.append((st.target.id, st.value is not None))
            self.stmt(st, f2)
        cv.own, cv.ip, cv.scope = dict(self.heap[sc.id]), self, sc
        dec = [self.ev(d, fr) for d in s.decorator_list]
        for d in dec:
            nm = d.name if isinstance(d, LibFn) else getattr(d, "libname", None)
            if nm == "dataclasses.dataclass":
                cv.fields = [(n, cv.ns.get(n, UNBOUND)) for n, _ in ann]
                cv.kind = "dataclass"
        if any(isinstance(b, LibFn) and b.name == "typing.NamedTuple" for b in bases):
            cv.fields = [(n, cv.ns.get(n, UNBOUND)) for n, _ in ann]
            cv.kind = "namedtuple"
        self.setvar(fr.scope, s.name, cv)

    def s_Return(self, s, fr):
        v = None if s.value is None else self.ev(s.value, fr)
        self.complete("return", v)

    def s_Raise(self, s, fr):
        if s.exc is None:
            v = fr.handling or ExcVal("Exception")
        else:
            v = self.ev(s.exc, fr)
        self.lift(self.throw, v)

    def throw(self, v):
        if isinstance(v, LibFn):
            v = ExcVal(v.name.rsplit(".", 1)[-1])
        elif isinstance(v, ClassVal):
            v = ExcVal(self.exc_of(v))
        elif isinstance(v, Ref) and v.kind == "inst":
            v = ExcVal(self.exc_of(v.meta))
        if not isinstance(v, ExcVal):
            # only exceptions can be raised
            v = ExcVal("Exception" if isinstance(v, Node) and v.op == "app" else "TypeError")
        self.complete("raise", v)

    def exc_of(self, cls):
        for b in cls.mro():
            for x in b.bases:
                if isinstance(x, LibFn):
                    n = x.name.rsplit(".", 1)[-1]
                    EXC_PARENTS.setdefault(cls.name, [n] + EXC_PARENTS.get(n, []))
        return cls.name

    def s_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        self.raise_if(g.lnot(c), "AssertionError")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(fr.scope, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
                self.lift(lambda o: self.lib.delitem(self, o, k), o)
            else:
                raise Unsupported("del target")

    def s_Global(self, s, fr):
        for n in s.names:
            fr.globals.add(n)

    def s_Nonlocal(self, s, fr):
        for n in s.names:
            fr.nonlocals.add(n)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, fr)
            cur = self.lift(lambda o: self.getattr(o, s.target.attr, fr), o)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, fr)
            k = self.ev_slice(s.target.slice, fr)
            cur = self.lift(lambda o: self.lib.getitem(self, o, k), o)
        else:
            raise Unsupported("augassign target")
        v = self.ev(s.value, fr)
        # in-place on mutable containers keeps identity
        if isinstance(cur, Ref) and cur.kind == "list" and isinstance(s.op, ast.Add):
            self.mut(cur, "+=")
            self.write(cur, list(self.content(cur)) + list(self.lib.iterate(self, v)))
            return
        r = self.binop(type(s.op).__name__, cur, v)
        if isinstance(cur, Ref) and cur.kind == "arr" and isinstance(r, Ref) and r.kind == "arr":
            self.mut(cur, "in-place array operator")
            self.write(cur, self.content(r))
            return
        if isinstance(s.target, ast.Name):
            self.bind_name(s.target.id, r, fr)
        elif isinstance(s.target, ast.Attribute):
            self.lift(lambda o: self.setattr(o, s.target.attr, r), o)
        else:
            self.lift(lambda o: self.lib.setitem(self, o, k, r), o)

    def bind_name(self, n, v, fr):
        if n in fr.globals:
            self.setvar(fr.module.scope, n, v)
            self.mutations.append(("global", fr.module.scope, n, g.get_line()))
            return
        if n in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if not f.is_class and n in self.heap[f.scope.id]:
                    self.setvar(f.scope, n, v)
                    self.mutations.append(("nonlocal", f.scope, n, g.get_line()))
                    return
                f = f.parent
            raise Unsupported("nonlocal " + n)
        self.setvar(fr.scope, n, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.lib.iterate(self, v)
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.complete("raise", ExcVal("ValueError"))
                parts = list(items[:i]) + [self.new("list", list(items[i:len(items) - after]))] + \
                    list(items[len(items) - after:])
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.lift(lambda o: self.setattr(o, t.attr, v), o)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            self.lift(lambda o: self.lib.setitem(self, o, k, v), o)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        def f(v):
            items = self.lib.iterate(self, v, n)
            if len(items) != n:
                self.complete("raise", ExcVal("ValueError"))
            return tuple(items)
        r = self.lift(f, v)
        if isinstance(r, Gated):
            raise Unsupported("unpack of gated value")
        return r

    def s_If(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        line = g.get_line()

        def run(b):
            def f():
                self.block(b, fr)
                return None
            return f
        self.branch(c, run(s.body), run(s.orelse))

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        seq = self.lib.iter_or_sym(self, it)
        if isinstance(seq, SymIter):
            self.symloop(s, seq, fr)
            return
        self.loop(len(seq), lambda i: self.assign(s.target, seq[i], fr), None, s, fr)

    def counting(self, s, fr):
        """`while i < n: ...; i += 1` as the range it runs through, when the trip count is symbolic"""
        t = s.test
        if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        left, op, right = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, ast.Gt) or (isinstance(op, ast.NotEq) and not isinstance(left, ast.Name)):
            left, right = right, left
        elif not isinstance(op, (ast.Lt, ast.NotEq)):
            return None
        if not isinstance(left, ast.Name):
            return None
        name, last = left.id, s.body[-1]

        def one(e):
            return isinstance(e, ast.Constant) and type(e.value) is int and e.value == 1

        def me(e):
            return isinstance(e, ast.Name) and e.id == name
        if isinstance(last, ast.AugAssign):
            ok = me(last.target) and isinstance(last.op, ast.Add) and one(last.value)
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and me(last.targets[0]):
            v = last.value
            ok = isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and \
                ((me(v.left) and one(v.right)) or (one(v.left) and me(v.right)))
        else:
            ok = False
        if not ok:
            return None
        body = s.body[:-1]
        stored, grown = set(), set()
        for n in [n for b in body for n in ast.walk(b)]:
            if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Global, ast.Nonlocal)):
                return None
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                stored.add(n.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                grown.add(n.func.value.id)
        if name in stored:
            return None
        for n in ast.walk(right):
            if isinstance(n, ast.Call):
                if not (isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1 and not n.keywords):
                    return None
            elif isinstance(n, ast.Attribute):
                if n.attr not in ("shape", "size"):
                    return None
            elif isinstance(n, ast.Name):
                if n.id in stored or n.id in grown or n.id == name:
                    return None
            elif not isinstance(n, (ast.Constant, ast.BinOp, ast.operator, ast.Subscript, ast.expr_context)):
                return None
        start, stop = self.ev(left, fr), self.ev(right, fr)
        for v in (start, stop):
            if not isinstance(v, g.Node):
                return None
        seq = self.lib.iter_or_sym(self, RangeVal(start, stop, g.const(1)))
        if not isinstance(seq, SymIter):
            return None
        return name, body, seq, stop

    def s_While(self, s, fr):
        c = self.counting(s, fr)
        if c:
            name, body, seq, stop = c
            f = ast.copy_location(ast.For(target=ast.Name(id=name, ctx=ast.Store()), iter=s.test, body=body, orelse=[],
                                          type_comment=None), s)
            ast.fix_missing_locations(f)
            self.symloop(f, seq, fr)
            self.setvar(fr.scope, name, stop)
            return

        def test():
            return self.truth(self.ev(s.test, fr))
        self.loop(4000, None, test, s, fr)

    def loop(self, n, pre, test, s, fr):
        # structured unrolling with guarded break/continue
        gd0 = self.guard
        breaks = []
        i = 0
        died = False
        nsym = 0
        while i < n:
            if test is not None:
                c = self.known(test())
                if c is g.FALSE:
                    break
                if c is not g.TRUE:
                    # loop left when c is false
                    nsym += 1
                    if nsym > 12:
                        raise Unsupported(f"{fr.file}:{s.lineno}: loop with symbolic trip count")
                    breaks.append((g.lnot(c), self.heap))
                    self.guard = self.guard + [c]
                    self.facts = dict(self.facts)
                    self.learn(c, True, self.facts)
            outer = self.pend
            self.pend = []
            hfall = None
            gbase = len(self.guard)
            try:
                if pre:
                    pre(i)
                self.block(s.body, fr)
                hfall = self.heap
            except Dead:
                pass
            body, self.pend = self.pend, outer
            conts = []
            dead_all = hfall is None
            h = hfall
            newguards = []
            for c in body:
                if c.kind in ("return", "raise"):
                    self.pend.append(c)
                elif c.kind == "break":
                    rel = c.guard
                    breaks.append((rel, c.heap))
                    newguards.append(g.lnot(rel))
                elif c.kind == "continue":
                    conts.append(c)
            for c in reversed(conts):
                h = c.heap if h is None else self.merge_heap(c.guard, c.heap, h)
            if h is None:
                died = True
                break
            self.heap = h
            self.guard = self.guard + newguards
            i += 1
        else:
            if test is not None:
                raise Unsupported(f"{fr.file}:{s.lineno}: loop bound")
        if not died and s.orelse:
            try:
                self.block(s.orelse, fr)
            except Dead:
                died = True
        self.guard = gd0
        h = None if died else self.heap
        for cond, bh in reversed(breaks):
            h = bh if h is None else self.merge_heap(cond, bh, h)
        if h is None:
            raise Dead()
        self.heap = h

    def s_Break(self, s, fr):
        self.complete("break", None)

    def s_Continue(self, s, fr):
        self.complete("continue", None)

    def symloop(self, s, seq, fr):
        """loop over a symbolic index space: element-wise array fills only"""
        seq = self.lib.product(seq)
        idx = self.lib.open_index(self, "#I", seq.dims)
        assigned = {n.id for b in s.body for n in ast.walk(b)
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in assigned:
            if n in self.heap[fr.scope.id]:
                cur = self.heap[fr.scope.id][n]
                # value from before the loop must not be read inside (loop-carried)
                self.setvar(fr.scope, n, Carried(n))
        self.loops = self.loops + list(zip(idx, seq.dims))
        npend = len(self.pend)
        try:
            self.assign(s.target, seq.item(idx), fr)
            self.block(s.body, fr)
        finally:
            self.loops = self.loops[:len(self.loops) - len(idx)]
            self.lib.close_index(self, idx)
        for c in self.pend[npend:]:
            if c.kind in ("break", "continue"):
                raise Unsupported(f"{fr.file}:{s.lineno}: break/continue in symbolic loop")
            if c.kind == "return":
                raise Unsupported(f"{fr.file}:{s.lineno}: return in symbolic loop")
        for n in assigned:
            self.setvar(fr.scope, n, Carried(n))

    def s_Try(self, s, fr):
        outer = self.pend
        self.pend = []
        gd0, facts0 = self.guard, self.facts
        fall = None
        try:
            self.block(s.body, fr)
            if s.orelse:
                self.block(s.orelse, fr)
            fall = self.heap
        except Dead:
            pass
        comps, self.pend = self.pend, outer
        self.guard, self.facts = gd0, facts0
        results = []   # (cond, heap) of handler fallthrough
        taken = g.TRUE
        for c in comps:
            h = None
            if c.kind == "raise":
                h = self.handler(s, c.value, fr)
            if h is None:
                self.pend.append(c)
                continue
            self.heap = c.heap
            self.guard = gd0 + [c.guard]
            self.facts = dict(facts0)
            try:
                if h.name:
                    self.setvar(fr.scope, h.name, c.value)
                old = fr.handling
                fr.handling = c.value
                self.block(h.body, fr)
                fr.handling = old
                results.append((c.guard, self.heap))
            except Dead:
                pass
            self.guard = gd0
        h = fall
        for cond, hh in reversed(results):
            h = hh if h is None else self.merge_heap(cond, hh, h)
        self.facts = facts0
        if h is None:
            if s.finalbody:
                pass
            raise Dead()
        self.heap = h
        if s.finalbody:
            self.block(s.finalbody, fr)

    def handler(self, s, exc, fr):
        names = [exc.name] + EXC_PARENTS.get(exc.name, ["Exception"])
        for h in s.handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, fr)
            ts = t if isinstance(t, tuple) else (t,)
            for x in ts:
                n = x.name.rsplit(".", 1)[-1] if isinstance(x, (LibFn, ClassVal)) else None
                if n in names or n == "BaseException":
                    return h
        return None

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(s.body, fr)

    def s_Match(self, s, fr):
        subj = self.ev(s.subject, fr)

        def run(cases):
            if not cases:
                return None
            c = cases[0]
            cond = self.pattern(c.pattern, subj, fr)
            if c.guard is not None:
                cond = g.land(cond, self.truth(self.ev(c.guard, fr)))
            return self.branch(cond, lambda: self.block(c.body, fr), lambda: run(cases[1:]))
        run(s.cases)

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("==", v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("is", v, p.value if p.value is None else g.const(p.value)))
        if isinstance(p, ast.MatchAs):
            c = g.TRUE if p.pattern is None else self.pattern(p.pattern, v, fr)
            if p.name:
                self.bind_name(p.name, v, fr)
            return c
        if isinstance(p, ast.MatchOr):
            c = g.FALSE
            for q in p.patterns:
                c = g.lor(c, self.pattern(q, v, fr))
            return c
        raise Unsupported("match pattern")

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"{fr.file}:{e.lineno}: expression {type(e).__name__}")
        if hasattr(e, "lineno"):
            g.set_line((fr.file, e.lineno, fr.qual))
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if v is None or isinstance(v, (str, bytes)):
            return v
        if isinstance(v, bool):
            return g.TRUE if v else g.FALSE
        if isinstance(v, int):
            return g.const(v)
        if isinstance(v, float):
            if v != v:
                return g.NAN
            if v in (float("inf"), float("-inf")):
                return g.INF if v > 0 else g.neg(g.INF)
            return g.const(Fraction(repr(v)))
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, complex):
            return g.mk("complex", (g.const(Fraction(repr(v.real))), g.const(Fraction(repr(v.imag)))))
        raise Unsupported(f"constant {v!r}")

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def name(self, n, fr):
        f = fr
        first = True
        if n in fr.globals:
            f = None
        while f is not None:
            if (first or not f.is_class):
                d = self.heap[f.scope.id]
                if n in d:
                    v = d[n]
                    if isinstance(v, Carried):
                        raise Unsupported(f"{fr.file}: loop-carried variable {n}")
                    return self.need(v)
                if f.locals is not None and n in f.locals and not f.is_class and n not in f.globals \
                        and n not in f.nonlocals:
                    self.complete("raise", ExcVal("UnboundLocalError"))
            first = False
            f = f.parent
        d = self.heap[fr.module.scope.id]
        if n in d:
            return self.need(d[n])
        if n in ("True", "False", "None"):
            return {"True": g.TRUE, "False": g.FALSE, "None": None}[n]
        if n in SAFE_BUILTINS or n in EXC_PARENTS:
            return LibFn("builtins." + n)
        if n == "__file__":
            return "<file>"
        self.notes.append(("undefined-name", n, g.get_line()))
        self.complete("raise", ExcVal("NameError"))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.new("list", self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.new("set", self.elts(e.elts, fr))

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                out.extend(self.lib.iterate(self, v))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        r = self.new("dict", {})
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                d = dict(self.content(r))
                d.update(self.content(o))
                self.write(r, d)
                continue
            kk = self.ev(k, fr)
            vv = self.ev(v, fr)
            d = dict(self.content(r))
            d[self.lib.key(kk)] = (kk, vv)
            self.write(r, d)
        return r

    def e_JoinedStr(self, e, fr):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, fr)
        return "<fstring>"

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.bind_name(e.target.id, v, fr)
        return v

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr)

    def e_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        return self.branch(c, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(vals):
            v = self.ev(vals[0], fr)
            if len(vals) == 1:
                return v
            t = self.truth(v)
            if isinstance(v, Node) and (g.is_bool(v) or v in (g.TRUE, g.FALSE)):
                # boolean result: keep and/or shape
                if isand:
                    r = self.branch(t, lambda: go(vals[1:]), lambda: g.FALSE)
                    if isinstance(r, Node) and r.op == "ite" and r.args[2] is g.FALSE and r.args[0] is t:
                        return g.land(t, r.args[1])
                    return r
                r = self.branch(t, lambda: g.TRUE, lambda: go(vals[1:]))
                if isinstance(r, Node) and r.op == "ite" and r.args[1] is g.TRUE and r.args[0] is t:
                    return g.lor(t, r.args[2])
                return r
            if isand:
                return self.branch(t, lambda: go(vals[1:]), lambda: v)
            return self.branch(t, lambda: v, lambda: go(vals[1:]))
        return go(e.values)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        n = type(e.op).__name__
        if n == "Not":
            return g.lnot(self.truth(v))
        return self.lift(lambda v: self.unop(n, v), v)

    def unop(self, n, v):
        if n == "USub":
            return self.lib.elementwise(self, g.neg, v)
        if n == "UAdd":
            return v
        if n == "Invert":
            return self.lib.elementwise(self, lambda x: g.lnot(x) if isb(x) else g.app("invert", x), v)
        raise Unsupported(n)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        g.set_line((fr.file, e.lineno, fr.qual))
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.liftn(lambda a, b: self.lib.binop(self, op, a, b), [a, b])

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        ops = list(zip(e.ops, e.comparators))

        def go(left, ops):
            op, rhs = ops[0]
            r = self.ev(rhs, fr)
            c = self.compare(OPS[type(op).__name__], left, r)
            if len(ops) == 1:
                return c
            t = self.truth(c)
            rest = self.branch(t, lambda: go(r, ops[1:]), lambda: g.FALSE)
            if isinstance(rest, Node) and rest.op == "ite" and rest.args[0] is t and rest.args[2] is g.FALSE:
                return g.land(t, rest.args[1])
            return rest
        return go(left, ops)

    def compare(self, op, a, b):
        return self.liftn(lambda a, b: self.lib.compare(self, op, a, b), [a, b])

    def truth(self, v):
        return self.lift(lambda v: self.lib.truth(self, v), v)

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and f.func is None:
                f = f.parent
            ff = f
            while ff is not None and (ff.func is None or ff.func.cls is None):
                ff = ff.parent
            return SuperVal(ff.func.cls, self.heap[ff.scope.id][ff.selfname])
        fn = self.ev(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.lib.iterate(self, self.ev(x.value, fr)))
            else:
                args.append(self.ev(x, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                for kk, (kv, vv) in self.content(d).items():
                    kw[kv] = vv
            else:
                kw[k.arg] = self.ev(k.value, fr)
        g.set_line((fr.file, e.lineno, fr.qual))
        r = self.lift(lambda fn: self.call(fn, args, kw), fn)
        g.set_line((fr.file, e.lineno, fr.qual))
        return r

    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        return self.lift(lambda o: self.getattr(o, e.attr, fr), o)

    def ev_slice(self, s, fr):
        return self.ev(s, fr)

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev_slice(e.slice, fr)
        return self.liftn(lambda o, k: self.lib.getitem(self, o, k), [o, k])

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def comp(self, e, fr, leaf):
        sc = self.new("scope", {})
        f2 = Frame(fr.module, sc, fr, fr.qual)
        f2.cls = fr.cls
        f2.locals = None
        return self.rest(e.generators, leaf, f2, fr)

    def rest(self, generators, leaf, f2, fr):
        out = []

        def rec(gens):
            if not gens:
                out.append(leaf(f2))
                return
            gen = gens[0]
            seq = self.lib.iter_or_sym(self, self.ev(gen.iter, f2))
            if isinstance(seq, SymIter):
                if gen.ifs:
                    raise Unsupported("filtered comprehension over a symbolic array")
                two = self.lib.product(seq)
                if len(two.dims) > 2:
                    raise Unsupported("comprehension over symbolic product")

                def item(ix):
                    f3 = Frame(fr.module, self.new("scope", {}), f2, fr.qual)
                    f3.cls = fr.cls
                    self.assign(gen.target, two.item(ix), f3)
                    if not gens[1:]:
                        return leaf(f3)
                    return self.lib.toarr(self, self.compres(self.rest(gens[1:], leaf, f3, fr)))
                tab = self.lib.tabulate(self, list(two.dims), item)
                for _ in range(len(two.dims) - 1 + bool(gens[1:])):
                    tab = self.lib.flatrows(self, tab)
                out.append(SymOut(tab))
                return
            for x in seq:
                self.assign(gen.target, x, f2)
                cond = g.TRUE
                for c in gen.ifs:
                    cond = g.land(cond, self.truth(self.ev(c, f2)))
                cond = self.known(cond)
                if cond is g.FALSE:
                    continue
                if cond is not g.TRUE:
                    out.append(Filt(cond, self._one(gens[1:], leaf, f2, rec, out)))
                    continue
                rec(gens[1:])
        rec(generators)
        return out

    def _one(self, gens, leaf, f2, rec, out):
        if gens:
            raise Unsupported("filtered nested comprehension")
        return leaf(f2)

    def compres(self, out):
        if len(out) == 1 and isinstance(out[0], SymOut):
            return self.new("arr", out[0].arr)
        if any(isinstance(x, Filt) for x in out):
            conds = [x.cond if isinstance(x, Filt) else g.TRUE for x in out]
            vals = [x.value if isinstance(x, Filt) else x for x in out]
            return self.lib.select(self, conds, vals)
        return self.new("list", out)

    def e_ListComp(self, e, fr):
        return self.compres(self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def e_GeneratorExp(self, e, fr):
        return self.compres(self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def e_SetComp(self, e, fr):
        return self.new("set", self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def e_DictComp(self, e, fr):
        pairs = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        return self.new("dict", {self.lib.key(k): (k, v) for k, v in pairs})

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, n, fr=None):
        return self.lib.getattr(self, o, n)

    def setattr(self, o, n, v):
        if isinstance(o, Ref) and o.kind == "inst":
            self.mut(o, n)
            d, cls = o.meta.lookup("__setattr__")
            dd, _ = o.meta.lookup(n)
            if isinstance(dd, Descr) and dd.kind == "propset":
                self.call(dd.setter, [o, v], {})
                return
            d = dict(self.content(o))
            d[n] = v
            self.write(o, d)
            return
        if isinstance(o, (Func, PyFn)):
            self.setvar(self.fattrs(o), n, v)
            self.mutations.append(("funcattr", o.attrs, n, g.get_line()))
            return
        if isinstance(o, RepoMod):
            self.setvar(o.scope, n, v)
            self.mutations.append(("global", o.scope, n, g.get_line()))
            return
        if isinstance(o, ClassVal):
            if o.scope is None:
                raise Unsupported("class attribute store")
            self.write(o.scope, {**o.ns, n: v})
            self.mutations.append(("class", o, n, g.get_line()))
            return
        if isinstance(o, Node):
            self.event("setattr:" + n, [o, v])
            return
        raise Unsupported(f"setattr on {o!r}")

    def mut(self, ref, what):
        self.mutations.append(("obj", ref, what, g.get_line()))

    def event(self, name, args, kw=None):
        self.events.append(([c for fr in self.gnames for c in fr] + list(self.guard), name, args, kw or {}, g.get_line()))

    # ------------------------------------------------------------------ calls
    def call(self, fn, args, kw):
        if isinstance(fn, Gated):
            return self.lift(lambda f: self.call(f, args, kw), fn)
        if isinstance(fn, Func):
            if fn.memo is not None:
                return self.lib.call_cached(self, fn, args, kw)
            cut = self.cuts.get(fn.qual) if self.depth > 0 else None
            if cut is not None:
                b = self.bindargs(fn, args, kw)
                if b is None:
                    self.complete("raise", ExcVal("TypeError"))
                return cut(self, b)
            return self.call_func(fn, args, kw)
        if isinstance(fn, Bound):
            return self.call(fn.func, [fn.self_] + list(args), kw)
        if isinstance(fn, PyFn):
            return fn.f(self, args, kw)
        if isinstance(fn, LibFn):
            return self.lib.call(self, fn.name, args, kw)
        if isinstance(fn, ClassVal):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, Ref) and fn.kind == "inst":
            m, _ = fn.meta.lookup("__call__")
            if m is None:
                self.complete("raise", ExcVal("TypeError"))
            return self.call(m, [fn] + list(args), kw)
        if isinstance(fn, Node):
            return self.lib.call_opaque(self, fn, args, kw)
        if fn is None or isinstance(fn, (tuple, str)):
            self.complete("raise", ExcVal("TypeError"))
        if fn is UNBOUND:
            self.complete("raise", ExcVal("UnboundLocalError"))
        if isinstance(fn, Ref) or isinstance(fn, (RepoMod, LibMod)):
            self.complete("raise", ExcVal("TypeError"))
        raise Unsupported(f"call of {fn!r}")

    def instantiate(self, cls, args, kw):
        if cls.kind == "namedtuple":
            vals = self.fields(cls, args, kw)
            return mknt(cls, vals)
        if any(isinstance(b, LibFn) and (b.name.rsplit(".", 1)[-1] in EXC_PARENTS) for c in cls.mro() for b in c.bases):
            return ExcVal(self.exc_of(cls))
        r = self.new("inst", {}, cls)
        init, _ = cls.lookup("__init__")
        if init is not None:
            self.call(init, [r] + list(args), kw)
        elif cls.kind == "dataclass":
            for (n, _), v in zip(cls.fields, self.fields(cls, args, kw)):
                d = dict(self.content(r))
                d[n] = v
                self.write(r, d)
            post, _ = cls.lookup("__post_init__")
            if post is not None:
                self.call(post, [r], {})
        elif args or kw:
            self.complete("raise", ExcVal("TypeError"))
        return r

    def fields(self, cls, args, kw):
        names = [n for n, _ in cls.fields]
        vals = dict(zip(names, args))
        if len(args) > len(names):
            self.complete("raise", ExcVal("TypeError"))
        for k, v in kw.items():
            if k not in names:
                self.complete("raise", ExcVal("TypeError"))
            vals[k] = v
        out = []
        for n, d in cls.fields:
            if n in vals:
                out.append(vals[n])
            elif d is not UNBOUND:
                out.append(d)
            else:
                self.complete("raise", ExcVal("TypeError"))
        return out

    def bindargs(self, fn, args, kw):
        """bind call arguments to parameters; None when the call does not match the signature"""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        if len(args) > len(pos) and a.vararg is None:
            return None
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(pos):])
        for i, n in enumerate(pos):
            if n in kw:
                if n in env:
                    return None
                env[n] = kw.pop(n)
        nd = len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                if j < 0:
                    return None
                env[n] = fn.defaults[j]
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = d[1]
            else:
                return None
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new("dict", {self.lib.key(k): (k, v) for k, v in kw.items()})
        elif kw:
            return None
        return env

    def call_func(self, fn, args, kw):
        env = self.bindargs(fn, args, kw)
        if env is None:
            self.complete("raise", ExcVal("TypeError"))
        if self.depth > self.MAXDEPTH:
            raise Unsupported("recursion depth at " + fn.qual)
        sc = self.new("scope", env)
        fr = Frame(fn.module, sc, fn.scope, fn.qual)
        fr.func = fn
        fr.cls = fn.cls
        a = fn.node.args
        allp = [x.arg for x in a.posonlyargs + a.args]
        fr.selfname = allp[0] if allp else None
        if isinstance(fn.node, ast.Lambda):
            self.depth += 1
            try:
                return self.ev(fn.node.body, fr)
            finally:
                self.depth -= 1
        fr.locals = local_names(fn.node)
        if has_yield(fn.node):
            raise Unsupported("generator function " + fn.qual)
        save = (self.guard, self.pend, self.facts)
        saved_guard = self.guard
        self.pend = []
        self.depth += 1
        line0 = g.get_line()
        seen = self.analysed.setdefault((fr.file, fn.qual), set())
        fr.seen = seen
        gstart = len(self.guard)
        # completions inside the callee are recorded relative to its own guards
        self.guard = []
        self.gnames.append(saved_guard)
        try:
            self.block(fn.node.body, fr)
            self.pend.append(Completion(g.TRUE, "return", None, self.heap, g.get_line()))
        except Dead:
            pass
        finally:
            comps = self.pend
            self.guard, self.pend, self.facts = save
            self.depth -= 1
            self.gnames.pop()
        return self.absorb(comps, line0)

    def absorb(self, comps, line0):
        """turn a callee's completions into a gated value in the caller"""
        facts0 = self.facts
        prior = g.TRUE
        value = heap = None
        first = True
        rets = []
        for c in comps:
            gd = c.guard
            if gd is g.FALSE:
                continue
            if c.kind == "raise":
                cond = g.land(prior, gd) if prior is not g.TRUE else gd
                cond = self.known(cond)
                if cond is not g.FALSE:
                    gg = self.guard + ([cond] if cond is not g.TRUE else [])
                    self.pend.append(Completion(self.conj(gg), "raise", c.value, c.heap, c.line))
                    if cond is g.TRUE and not rets:
                        raise Dead()
                    self.facts = dict(self.facts)
                    self.learn(cond, False, self.facts)
            else:
                rets.append(c)
            if gd is g.TRUE:
                break
            prior = g.land(prior, g.lnot(gd))
        if not rets:
            raise Dead()
        value, heap = rets[-1].value, rets[-1].heap
        for c in reversed(rets[:-1]):
            heap = self.merge_heap(c.guard, c.heap, heap)
            self.heap = heap
            value = self.gate(c.guard, c.value, value)
            heap = self.heap
        self.heap = heap
        return value

    # top-level entry
    def outcome(self, fn, args, kw=None, heap=None):
        """analyse a call; returns (completions) as list of (guard, kind, value, line)"""
        self.guard, self.pend, self.facts = [], [], {}
        before = self.heap
        self.heap = dict(before)
        try:
            v = self.call(fn, list(args), kw or {})
            self.pend.append(Completion(g.TRUE, "return", v, self.heap, None))
        except Dead:
            pass
        comps, self.pend = self.pend, []
        self.guard, self.facts = [], {}
        # the next analysis starts from the state this one started from (modules imported meanwhile stay)
        after = {}
        for h in [c.heap for c in comps if c.heap is not None] + [self.heap, before]:
            after.update(h)
        self.heap = after
        return comps


class Carried:
    def __init__(self, n):
        self.n = n


class SuperVal:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SymOut:
    def __init__(self, arr):
        self.arr = arr


class Filt:
    def __init__(self, cond, value):
        self.cond, self.value = cond, value


class Frame:
    def __init__(self, module, scope, parent, qual):
        self.module, self.scope, self.parent, self.qual = module, scope, parent, qual
        self.is_class = False
        self.cls = None
        self.func = None
        self.locals = None
        self.globals, self.nonlocals = set(), set()
        self.handling = None
        self.selfname = None
        self.seen = set()
        self.file = os.path.basename(os.path.dirname(module.path)) + "/" + os.path.basename(module.path)

    def closure_scope(self):
        """frame captured by a function defined here (module level functions capture nothing)"""
        if self.parent is None and self.func is None and not self.is_class:
            return None
        return self


def local_names(node):
    out = set()
    gl = set()

    def visit(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                out.add(ch.name)
                continue
            if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(ch):
                    if isinstance(w, ast.NamedExpr):
                        out.add(w.target.id)
                continue
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, ast.Store):
                out.add(ch.id)
            if isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names:
                    out.add((a.asname or a.name).split(".")[0])
            if isinstance(ch, ast.ExceptHandler) and ch.name:
                out.add(ch.name)
            if isinstance(ch, (ast.Global, ast.Nonlocal)):
                gl.update(ch.names)
            visit(ch)
    for s in node.body:
        visit(ast.Module(body=[s], type_ignores=[]))
    return out - gl


def has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def has_unbound(v):
    if v is UNBOUND:
        return True
    if isinstance(v, Gated):
        return has_unbound(v.a) or has_unbound(v.b)
    return False


def same_shape(s1, s2):
    return len(s1) == len(s2) and all(x is y or (isinstance(x, int) and isinstance(y, int) and x == y)
                                      for x, y in zip(s1, s2))


def mknt(cls, vals):
    t = NT(vals)
    t.cls = cls
    return t


def isb(x):
    return isinstance(x, Node) and (g.is_bool(x) or (x.op == "ite" and isb(x.args[1]) and isb(x.args[2])))


OPS = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!=", "Is": "is",
       "IsNot": "is not", "In": "in", "NotIn": "not in"}
