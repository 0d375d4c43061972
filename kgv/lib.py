"""Transfer functions for builtins, numpy, scipy.special, and container operations."""
import copy
from fractions import Fraction
from . import graph as g
from .graph import Node


def _I():
    from . import interp
    return interp


STAR = {
    "numpy": ["sin", "cos", "tan", "sqrt", "pi", "arcsin", "arccos", "arctan", "arctan2", "floor", "where", "sign",
              "copysign", "log", "exp", "array", "nan", "inf", "linspace", "abs", "zeros", "ones", "dot"],
    "math": ["sin", "cos", "tan", "sqrt", "pi", "asin", "acos", "atan", "atan2", "floor", "copysign", "log", "exp",
             "nan", "inf"],
    "scipy.special": ["ellipk", "ellipe", "elliprj", "elliprf", "elliprd", "ellipj", "ellipkinc", "ellipeinc"],
}

SUBMODS = {
    "numpy.linalg", "numpy.polynomial", "numpy.polynomial.polynomial", "numpy.random", "numpy.ma", "scipy.special",
    "scipy.optimize", "scipy.interpolate", "scipy.integrate", "scipy.constants", "scipy.linalg", "matplotlib.pyplot", "matplotlib.animation",
    "matplotlib.collections", "mpl_toolkits.mplot3d", "mpl_toolkits.mplot3d.art3d", "collections.abc",
    "os.path", "concurrent.futures", "numpy.testing",
}

CANON = {}
for a, b in {
    "asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2", "absolute": "abs", "fabs": "abs",
    "asinh": "arcsinh", "acosh": "arccosh", "atanh": "arctanh", "pow": "power",
}.items():
    CANON["numpy." + a] = "numpy." + b
    CANON["math." + a] = "numpy." + b
for n in ("sin cos tan sqrt arcsin arccos arctan arctan2 floor ceil log exp copysign isnan isinf isfinite hypot "
          "sinh cosh tanh log2 log10 log1p expm1 prod trunc cbrt degrees radians power").split():
    CANON.setdefault("math." + n, "numpy." + n)
CANON["math.fmod"] = "numpy.fmod"
CANON["numpy.conj"] = "numpy.conjugate"
CANON["numpy.row_stack"] = "numpy.vstack"
CANON["numpy.deg2rad"] = "numpy.radians"
CANON["numpy.rad2deg"] = "numpy.degrees"
CANON["numpy.asanyarray"] = "numpy.asarray"
CANON["numpy.float64"] = "builtins.float"
CANON["numpy.float32"] = "builtins.float"
CANON["numpy.amax"] = "numpy.max"
CANON["numpy.amin"] = "numpy.min"
CANON["numpy.polynomial.polynomial.Polynomial"] = "numpy.polynomial.Polynomial"
CANON["numpy.polynomial.polynomial.polyroots"] = "polyroots"
CANON["operator.add"] = "op.add"
CANON["numpy.divide"] = "numpy.true_divide"
CANON["numpy.bitwise_and"] = "numpy.logical_and"
CANON["numpy.bitwise_or"] = "numpy.logical_or"
CANON["scipy.optimize.brenth"] = "scipy.optimize.brentq"
CANON["scipy.optimize._root_scalar.root_scalar"] = "scipy.optimize.root_scalar"


def libattr(mod, attr):
    I = _I()
    full = f"{mod}.{attr}"
    if full in ("numpy.pi", "math.pi", "scipy.pi", "scipy.constants.pi"):
        return g.PI
    if full in ("math.tau",):
        return g.mul(g.const(2), g.PI)
    if full in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.infty"):
        return g.INF
    if full in ("numpy.nan", "math.nan", "numpy.NaN"):
        return g.NAN
    if full == "numpy.newaxis":
        return None
    if full in SUBMODS or mod in ("concurrent",):
        return I.LibMod(full)
    return I.LibFn(CANON.get(full, full))


# ---------------------------------------------------------------- containers
class PolyVal:
    def __init__(self, coef):
        self.coef = coef


class Obj:
    """small immutable record with named attributes (root_scalar results, ...)"""

    def __init__(self, name, **kw):
        self.name, self.d = name, kw

    def __repr__(self):
        return f"<obj {self.name}>"


def key(k):
    I = _I()
    if isinstance(k, Node):
        if k.op == "const":
            return ("K", "c", k.data)
        return ("K", "n", k.id)
    if isinstance(k, str):
        return ("K", "s", k)
    if k is None:
        return ("K", "none")
    if isinstance(k, tuple):
        return ("K", "t") + tuple(key(x) for x in k)
    if isinstance(k, I.Func):
        return ("K", "f", id(k))
    if isinstance(k, I.LibFn):
        return ("K", "l", k.name)
    if isinstance(k, I.ClassVal):
        return ("K", "cls", k.qual)
    if isinstance(k, I.Ref):
        if k.kind in ("list", "dict", "arr", "set"):
            return ("K", "unhashable", k.id)
        return ("K", "r", k.id)
    if isinstance(k, I.Gated):
        return ("K", "g", k.cond.id, key(k.a), key(k.b))
    if isinstance(k, I.Bound):
        return ("K", "b", key(k.func), key(k.self_))
    raise I.Unsupported(f"dict key {k!r}")


def eqkeys(ip, k1, k2):
    """boolean node: are two dict keys equal"""
    if isinstance(k1, Node) and isinstance(k2, Node):
        if k1 is k2:
            return g.TRUE
        return g.cmp("==", k1, k2)
    if isinstance(k1, tuple) and isinstance(k2, tuple):
        if len(k1) != len(k2):
            return g.FALSE
        r = g.TRUE
        for a, b in zip(k1, k2):
            r = g.land(r, eqkeys(ip, a, b))
        return r
    if type(k1) is type(k2) and key(k1) == key(k2):
        return g.TRUE
    return g.FALSE


def is_arr(v):
    I = _I()
    return isinstance(v, I.Arr) or (isinstance(v, I.Ref) and v.kind == "arr")


def unbox(ip, v):
    I = _I()
    if isinstance(v, I.Ref) and v.kind == "arr":
        return ip.content(v)
    return v


def box(ip, a):
    return ip.new("arr", a)


def dimnode(d):
    return g.const(d) if isinstance(d, int) else d


def mkdim(n):
    if isinstance(n, int):
        return n
    if n.op == "const" and n.data.denominator == 1:
        return int(n.data)
    return n


def toarr(ip, v):
    """array view of nested sequences / scalars"""
    I = _I()
    v = unbox(ip, v)
    if isinstance(v, I.Arr):
        return v
    if isinstance(v, Node):
        return I.Arr((), lambda ix: v)
    if isinstance(v, PolyVal):
        return toarr(ip, tuple(v.coef))
    if isinstance(v, I.Gated):
        a, b = toarr(ip, v.a), toarr(ip, v.b)
        return I.Arr(a.shape, lambda ix: ip.gate(v.cond, a.elem(ix), b.elem(ix)))
    if isinstance(v, I.RangeVal):
        return rangearr(v)
    if isinstance(v, (tuple, I.Lazy)) or (isinstance(v, I.Ref) and v.kind == "list"):
        items = iterate(ip, v)
        if not items:
            return I.Arr((0,), lambda ix: g.NAN)
        subs = [toarr(ip, x) for x in items]
        sh = max((s.shape for s in subs), key=len)

        def elem(ix):
            i = ix[0]
            if isinstance(i, Node) and i.op == "const":
                i = int(i.data)
            if isinstance(i, int):
                return subs[i].elem(ix[1:])
            r = subs[-1].elem(ix[1:])
            for k in range(len(subs) - 2, -1, -1):
                r = ip.gate(g.cmp("==", i, g.const(k)), subs[k].elem(ix[1:]), r)
            return r
        return I.Arr((len(items),) + sh, elem)
    if v is None or isinstance(v, str):
        return I.Arr((), lambda ix: v)
    raise I.Unsupported(f"array from {v!r}")


def rangearr(v):
    I = _I()
    n = mkdim(rangelen(v))
    return I.Arr((n,), lambda ix: g.add(v.start, g.mul(v.step, idx(ix[0]))))


def constpart(n):
    """n as (node, constant) with n = node + constant"""
    if n.op == "const":
        return g.const(0), n.data
    if n.op == "add":
        (x, c), (y, d) = constpart(n.args[0]), constpart(n.args[1])
        return g.add(x, y), c + d
    if n.op == "neg":
        x, c = constpart(n.args[0])
        return g.neg(x), -c
    return n, 0


class Refactor(Exception):
    """a loop over n*m steps splits its counter by rows of another length: analyse again with that split"""


FACTOR = {}     # length -> (rows, columns), where the code tells
OPENED = {}     # id of a flat counter -> its length


def want_rows(a, b):
    d = BOUND.get(a.data) if a.op == "var" else OPENED.get(a.id)
    if d is None or d in FACTOR and FACTOR[d][1] is b:
        return
    n, m = g.cval(d), g.cval(b)
    if n is not None and m is not None and m.denominator == 1 and m > 1 and n % m == 0 and n != m:
        FACTOR[d] = (g.const(n / m), b)
    elif d.op == "mul" and b in d.args:
        FACTOR[d] = (d.args[1] if d.args[0] is b else d.args[0], b)
    else:
        return
    raise Refactor()


def factors(d):
    """a length n*m as the lengths (n, m) of the rows and columns it runs through"""
    if dimnode(d) in FACTOR:
        return FACTOR[dimnode(d)]
    if isinstance(d, Node) and d.op == "mul" and not any(a.op == "const" for a in d.args):
        return d.args
    return None


def flatidx(i, j, m):
    return g.add(g.mul(i, m), j)


def unflat(k, m):
    """(row, column) of the flat index k over rows of length m, if k is written as row*m + column"""
    k = idx(k)
    rows, rest = [], []
    todo, c = [k], 0
    mc = g.cval(m)
    while todo:
        t = todo.pop()
        if t.op == "add":
            todo.extend(t.args)
        elif t.op == "mul" and m in t.args:
            rows.append(t.args[1] if t.args[0] is m else t.args[0])
        elif t is m:
            rows.append(g.const(1))
        elif t.op == "const" and mc is not None:
            c += t.data
        else:
            rest.append(t)
    if len(rest) > 1:
        return None
    if c:
        if not rest and c.denominator == 1:
            rest = [g.const(c % mc)]
            c -= c % mc
        if c % mc or c < 0:
            return None
        rows.append(g.const(c / mc))
    col = rest[0] if rest else g.const(0)
    if not (col.op == "const" and (col.data == 0 or mc is not None) and (rows or mc is not None) or col.op == "var" and BOUND.get(col.data) is m):
        return None
    row = g.const(0)
    for r in rows:
        row = g.add(row, r)
    return row, col


def flatrows(ip, c, size=None):
    """an (n, m, ...) table as its n*m rows"""
    I = _I()
    if size is None:
        size = mkdim(g.mul(dimnode(c.shape[0]), dimnode(c.shape[1])))
    FACTOR.setdefault(dimnode(size), (dimnode(c.shape[0]), dimnode(c.shape[1])))
    m = dimnode(c.shape[1])

    def elem(ix):
        u = unflat(ix[0], m) or (g.fn("floor", g.div(idx(ix[0]), m)), g.fn("mod", idx(ix[0]), m))
        return c.elem(tuple(fixint(i) for i in u) + tuple(ix[1:]))
    return I.Arr((size,) + tuple(c.shape[2:]), elem)


def product(seq):
    """a sequence over a flattened table runs through its rows and columns"""
    I = _I()
    f = factors(seq.dims[0]) if len(seq.dims) == 1 else None
    if f is None:
        return seq
    d = dimnode(seq.dims[0])

    def item(ix):
        k = flatidx(idx(ix[0]), idx(ix[1]), f[1])
        OPENED[k.id] = d
        return seq.item((k,))
    return I.SymIter([mkdim(x) for x in f], item)


def rangelen(v):
    if v.step.op == "const" and v.step.data == 1:
        return g.sub(v.stop, v.start)
    if v.step.op == "const" and v.step.data == -1:
        (x, c), (y, d) = constpart(v.start), constpart(v.stop)
        return g.add(g.sub(x, y), g.const(c - d))
    d = g.div(g.sub(v.stop, v.start), v.step)
    return g.fn("ceil", d) if d.op != "const" else g.const(-((-d.data.numerator) // d.data.denominator))


def idx(i):
    return g.const(i) if isinstance(i, int) else i


def reify(ip, v, lvl=0):
    """single node standing for an arbitrary analysis value (arguments of opaque calls)"""
    I = _I()
    v = unbox(ip, v)
    if isinstance(v, Node):
        return v
    if v is None:
        return g.mk("none")
    if isinstance(v, str):
        return g.mk("str", (), v)
    if isinstance(v, I.Arr):
        if all(isinstance(d, int) for d in v.shape):
            def nest(pre, sh):
                if not sh:
                    return reify(ip, v.elem(pre), lvl)
                return g.mk("tuple", tuple(nest(pre + (k,), sh[1:]) for k in range(sh[0])))
            n = 1
            for d in v.shape:
                n *= d
            if n <= 64:
                return nest((), v.shape)
        ixs = []
        for k, d in enumerate(v.shape):
            n = f"#Ia{lvl + k}:{d if isinstance(d, int) else 'n%d' % d.id}"
            BOUND[n] = dimnode(d)
            ixs.append(g.var(n))
        ixs = tuple(ixs)
        e = reify(ip, v.elem(ixs), lvl + v.ndim)
        return g.mk("arr", tuple(dimnode(d) for d in v.shape) + (e,))
    if isinstance(v, (tuple, I.Lazy)):
        return g.mk("tuple", tuple(reify(ip, x, lvl) for x in (v if isinstance(v, tuple) else v.items)))
    if isinstance(v, I.Ref):
        if v.kind == "list":
            return g.mk("tuple", tuple(reify(ip, x, lvl) for x in ip.content(v)))
        if v.kind == "dict":
            return g.mk("dict", tuple(reify(ip, x, lvl) for kv in ip.content(v).values() for x in kv))
        if v.kind == "inst":
            return g.mk("inst", (), v.id)
        if v.kind == "set":
            return g.mk("set", tuple(reify(ip, x, lvl) for x in ip.content(v)))
    if isinstance(v, I.Gated):
        return g.mk("ite", (v.cond, reify(ip, v.a, lvl), reify(ip, v.b, lvl)))
    if isinstance(v, I.LibFn):
        return g.mk("str", (), "lib:" + v.name)
    if isinstance(v, I.Func):
        return g.mk("str", (), "func:" + v.name)
    if isinstance(v, I.PyFn):
        return g.mk("str", (), "func:" + v.name)
    if isinstance(v, slice):
        return g.mk("slice", tuple(reify(ip, x, lvl) for x in (v.start, v.stop, v.step)))
    if isinstance(v, PolyVal):
        return g.mk("poly", tuple(v.coef))
    if isinstance(v, I.RangeVal):
        return g.mk("range", (v.start, v.stop, v.step))
    return g.mk("str", (), "obj:" + type(v).__name__)


def iterate(ip, v, n=None):
    """list of items of a concrete-length iterable (n: expected length for symbolic ones)"""
    I = _I()
    v = unbox(ip, v)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, I.Lazy):
        return list(v.items)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, I.Ref):
        if v.kind in ("list", "set"):
            c = ip.content(v)
            if isinstance(c, I.Gated):
                raise I.Unsupported("list of path-dependent length")
            return list(c)
        if v.kind == "dict":
            return [kv[0] for kv in ip.content(v).values()]
        if v.kind == "inst":
            it, _ = v.meta.lookup("__iter__")
            if it is not None:
                return iterate(ip, ip.call(it, [v], {}))
            if v.meta.lookup("__getitem__")[0] is None and all(isinstance(b, I.ClassVal) for c in v.meta.mro() for b in c.bases):
                ip.complete("raise", I.ExcVal("TypeError"))
    if isinstance(v, (I.Func, I.PyFn, I.Bound)):
        ip.complete("raise", I.ExcVal("TypeError"))
    if isinstance(v, I.RangeVal):
        ln = rangelen(v)
        if ln.op == "const":
            return [g.add(v.start, g.mul(v.step, g.const(k))) for k in range(max(0, int(ln.data)))]
        raise I.Unsupported("iteration over a symbolic range")
    if isinstance(v, I.Arr):
        if v.ndim == 0:
            ip.complete("raise", I.ExcVal("TypeError"))
        d = v.shape[0]
        if not isinstance(d, int):
            known = known_length(ip, d)
            if known is not None:
                n, d = known, g.const(known)
            if n is None:
                raise I.Unsupported("iteration over a symbolic-length array")
            ip.raise_if(g.cmp("!=", d, g.const(n)), "ValueError")
            d = n
        if v.ndim == 1:
            return [v.elem((k,)) for k in range(d)]
        return [box(ip, I.Arr(v.shape[1:], (lambda k: lambda ix: v.elem((k,) + tuple(ix)))(k))) for k in range(d)]
    if isinstance(v, Node):
        if n is not None and v.op == "app":
            return [g.mk("app", (v, g.const(k)), "item") for k in range(n)]
        ip.complete("raise", I.ExcVal("TypeError"))
    if v is None:
        ip.complete("raise", I.ExcVal("TypeError"))
    raise I.Unsupported(f"iteration over {v!r}")


def known_length(ip, d):
    """the length a path condition pins down: directly, or through a linear relation to a length it pins down"""
    for m in range(9):
        if ip.known(g.cmp("==", d, g.const(m))) is g.TRUE:
            return m
    for fact in ip.guard:
        if fact.op != "cmp" or fact.data != "==" or sum(x.op == "const" for x in fact.args) != 1:
            continue
        other = next(x for x in fact.args if x.op != "const")
        val = next(x for x in fact.args if x.op == "const").data
        for sgn in (1, -1):
            c = linear_const(g.add(d, g.mul(g.const(sgn), other)))
            if c is not None and (c - sgn * val).denominator == 1:
                return int(c - sgn * val)
    return None


def iter_or_sym(ip, v):
    I = _I()
    if isinstance(v, I.SymIter):
        return v
    u = unbox(ip, v)
    if isinstance(u, I.RangeVal):
        ln = rangelen(u)
        if ln.op != "const" or ln.data > 64:
            return I.SymIter([mkdim(ln)], lambda ix: g.add(u.start, g.mul(u.step, ix[0])))
    if isinstance(u, I.Arr) and u.ndim and (not isinstance(u.shape[0], int) or u.shape[0] > 64):
        if u.ndim == 1:
            return I.SymIter([u.shape[0]], lambda ix: u.elem((ix[0],)))
        return I.SymIter([u.shape[0]], lambda ix: box(ip, I.Arr(u.shape[1:], lambda jx: u.elem((ix[0],) + tuple(jx)))))
    return iterate(ip, u)


def broadcast(ip, arrs):
    I = _I()
    nd = max(a.ndim for a in arrs)
    shape = []
    for k in range(nd):
        d = 1
        for a in arrs:
            j = k - (nd - a.ndim)
            if j < 0:
                continue
            x = a.shape[j]
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = x
            elif isinstance(d, int) and isinstance(x, int) and d != x:
                ip.complete("raise", I.ExcVal("ValueError"))
            elif isinstance(x, int) and not isinstance(d, int):
                d = x
        shape.append(d)

    def sub(a, ix):
        off = nd - a.ndim
        return a.elem(tuple(0 if isinstance(a.shape[j], int) and a.shape[j] == 1 else ix[j + off]
                            for j in range(a.ndim)))
    return tuple(shape), sub


def elementwise(ip, f, *vals):
    I = _I()
    vals = [unbox(ip, v) for v in vals]
    if not any(isinstance(v, I.Arr) for v in vals):
        for v in vals:
            if not isinstance(v, Node):
                if isinstance(v, (tuple,)) or isinstance(v, I.Ref) and v.kind == "list":
                    return elementwise(ip, f, *[toarr(ip, x) if not isinstance(x, Node) else x for x in vals])
                if isinstance(v, I.Gated):
                    return ip.liftn(lambda *vs: elementwise(ip, f, *vs), list(vals))
                ip.complete("raise", I.ExcVal("TypeError"))
        return f(*vals)
    arrs = [toarr(ip, v) for v in vals]
    shape, sub = broadcast(ip, arrs)

    def elem(ix):
        xs = [sub(a, ix) for a in arrs]
        return ip.liftn(lambda *ys: f(*[y if isinstance(y, Node) else _bad(ip, y) for y in ys]), xs)
    return box(ip, I.Arr(shape, elem))


def _bad(ip, y):
    I = _I()
    raise I.Unsupported(f"array element {y!r}")


# ---------------------------------------------------------------- operators
def modop(a, b):
    x, y = g.cval(a), g.cval(b)
    if x is not None and y is not None and y != 0:
        return g.const(x - y * (x / y).__floor__())
    u = unflat(a, b) if isinstance(a, Node) and isinstance(b, Node) else None
    if u:
        return u[1]
    if isinstance(a, Node) and isinstance(b, Node):
        want_rows(a, b)
    return g.fn("mod", a, b)


def floordiv(a, b):
    x, y = g.cval(a), g.cval(b)
    if x is not None and y is not None and y != 0:
        return g.const((x / y).__floor__())
    u = unflat(a, b) if isinstance(a, Node) and isinstance(b, Node) else None
    if u:
        return u[0]
    if isinstance(a, Node) and isinstance(b, Node):
        want_rows(a, b)
    return g.fn("floor", g.div(a, b))


def boolop2(f, name):
    I = _I()

    def h(a, b):
        if I.isb(a) and I.isb(b):
            return f(a, b)
        return g.app(name, g.num(a), g.num(b))
    return h


def lxor(a, b):
    return g.ite(g.truth(a), g.lnot(b), g.truth(b))


BIN = {
    "Add": g.add, "Sub": g.sub, "Mult": g.mul, "Div": g.div, "Pow": g.power, "Mod": modop, "FloorDiv": floordiv,
}


def binop(ip, op, a, b):
    I = _I()
    if op in ("BitAnd", "BitOr", "BitXor"):
        f = {"BitAnd": boolop2(g.land, "band"), "BitOr": boolop2(g.lor, "bor"), "BitXor": boolop2(lxor, "bxor")}[op]
        if isinstance(a, I.Ref) and a.kind in ("dict", "set"):
            d = dict(ip.content(a)) if a.kind == "dict" else list(ip.content(a))
            if a.kind == "dict":
                d.update(ip.content(b))
            return ip.new(a.kind, d)
        return elementwise(ip, f, a, b)
    # sequences
    if op == "Add":
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(a) + tuple(b)
        if isinstance(a, I.Ref) and a.kind == "list" and isinstance(b, I.Ref) and b.kind == "list":
            return ip.new("list", list(ip.content(a)) + list(ip.content(b)))
        if isinstance(a, str) and isinstance(b, str):
            return a + b
    if op == "Mult":
        for s, n in ((a, b), (b, a)):
            if isinstance(n, Node) and n.op == "const":
                if isinstance(s, str):
                    return s * int(n.data)
                if isinstance(s, tuple):
                    return s * int(n.data)
                if isinstance(s, I.Ref) and s.kind == "list":
                    return ip.new("list", list(ip.content(s)) * int(n.data))
        for s, n in ((a, b), (b, a)):
            if isinstance(s, I.Ref) and s.kind == "list" and isinstance(n, Node) and not is_arr(n):
                it = list(ip.content(s))
                if len(it) == 1:
                    return box(ip, I.Arr((mkdim(n),), lambda ix: it[0]))
    if op == "Mod" and isinstance(a, str):
        return "<fstring>"
    if isinstance(a, I.Ref) and a.kind == "inst" or isinstance(b, I.Ref) and b.kind == "inst":
        nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "MatMult": "matmul"}.get(op)
        if isinstance(a, I.Ref) and a.kind == "inst":
            m, _ = a.meta.lookup(f"__{nm}__")
            if m is not None:
                return ip.call(m, [a, b], {})
        if isinstance(b, I.Ref) and b.kind == "inst":
            m, _ = b.meta.lookup(f"__r{nm}__")
            if m is not None:
                return ip.call(m, [b, a], {})
        ip.complete("raise", I.ExcVal("TypeError"))
    if op == "MatMult":
        return dot(ip, a, b)
    if isinstance(a, PolyVal) or isinstance(b, PolyVal):
        return polyop(ip, op, a, b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        ip.complete("raise", I.ExcVal("TypeError"))
    if not is_arr(a) and not is_arr(b):
        for v in (a, b):
            if isinstance(v, (tuple, I.Func, I.PyFn, I.LibFn, I.Bound)) or isinstance(v, I.Ref):
                ip.complete("raise", I.ExcVal("TypeError"))
    f = BIN.get(op)
    if f is None:
        raise I.Unsupported("operator " + op)
    return elementwise(ip, f, a, b)


def polyop(ip, op, a, b):
    I = _I()
    ca = a.coef if isinstance(a, PolyVal) else [a]
    cb = b.coef if isinstance(b, PolyVal) else [b]
    if op in ("Add", "Sub"):
        n = max(len(ca), len(cb))
        f = BIN[op]
        z = g.const(0)
        return PolyVal([f(ca[i] if i < len(ca) else z, cb[i] if i < len(cb) else z) for i in range(n)])
    if op == "Mult":
        out = [g.const(0)] * (len(ca) + len(cb) - 1)
        for i, x in enumerate(ca):
            for j, y in enumerate(cb):
                out[i + j] = g.add(out[i + j], g.mul(x, y))
        return PolyVal(out)
    if op == "Div" and not isinstance(b, PolyVal):
        return PolyVal([g.div(x, b) for x in ca])
    if op == "Pow" and isinstance(b, Node) and b.op == "const":
        r = PolyVal([g.const(1)])
        for _ in range(int(b.data)):
            r = polyop(ip, "Mult", r, a)
        return r
    raise I.Unsupported("polynomial operator " + op)


def compare(ip, op, a, b):
    I = _I()
    if op in ("is", "is not"):
        r = is_same(ip, a, b)
        return r if op == "is" else g.lnot(r)
    if op in ("in", "not in"):
        r = contains(ip, b, a)
        return r if op == "in" else g.lnot(r)
    if is_arr(a) or is_arr(b):
        return elementwise(ip, lambda x, y: g.cmp(op, x, y), a, b)
    if isinstance(a, Node) and isinstance(b, Node):
        return g.cmp(op, a, b)
    if op in ("==", "!="):
        if isinstance(a, str) and isinstance(b, str):
            r = g.TRUE if a == b else g.FALSE
        elif isinstance(a, tuple) and isinstance(b, tuple):
            r = g.TRUE if len(a) == len(b) else g.FALSE
            if r is g.TRUE:
                for x, y in zip(a, b):
                    r = g.land(r, g.truth(ip.compare("==", x, y)))
        elif isinstance(a, I.Ref) and isinstance(b, I.Ref) and a.kind == b.kind == "list":
            return compare(ip, op, tuple(ip.content(a)), tuple(ip.content(b)))
        elif a is b:
            r = g.TRUE
        elif a is None or b is None or isinstance(a, str) or isinstance(b, str):
            r = g.FALSE
        elif isinstance(a, (I.Func, I.LibFn, I.ClassVal)) or isinstance(b, (I.Func, I.LibFn, I.ClassVal)):
            r = g.TRUE if a is b else g.FALSE
        elif isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, I.Ref) or isinstance(b, I.Ref):
            r = g.FALSE
        else:
            raise I.Unsupported(f"comparison {a!r} == {b!r}")
        return r if op == "==" else g.lnot(r)
    if isinstance(a, tuple) and isinstance(b, tuple):
        raise I.Unsupported("tuple ordering")
    ip.complete("raise", I.ExcVal("TypeError"))


def is_same(ip, a, b):
    I = _I()
    if a is None or b is None:
        return g.TRUE if a is b else g.FALSE
    if isinstance(a, Node) and isinstance(b, Node):
        if a is b:
            return g.TRUE
        if I.isb(a) and b in (g.TRUE, g.FALSE):
            return a if b is g.TRUE else g.lnot(a)
        if I.isb(b) and a in (g.TRUE, g.FALSE):
            return b if a is g.TRUE else g.lnot(b)
        return g.FALSE
    return g.TRUE if a is b else g.FALSE


def contains(ip, c, x):
    I = _I()
    if isinstance(c, str) and isinstance(x, str):
        return g.TRUE if x in c else g.FALSE
    if isinstance(c, I.Ref) and c.kind == "dict":
        r = g.FALSE
        for k, (kv, vv) in ip.content(c).items():
            e = eqkeys(ip, kv, x)
            # entry may exist only on some paths
            r = g.lor(r, g.land(e, present(ip, vv)))
        return r
    if isinstance(c, I.RangeVal):
        raise I.Unsupported("in range")
    r = g.FALSE
    for y in iterate(ip, c):
        r = g.lor(r, g.truth(ip.truth(ip.compare("==", x, y))))
    return r


def present(ip, v, memo=None):
    I = _I()
    if v is I.UNBOUND:
        return g.FALSE
    if isinstance(v, I.Gated):
        memo = {} if memo is None else memo
        r = memo.get(id(v))
        if r is None:
            r = memo[id(v)] = g.ite(v.cond, present(ip, v.a, memo), present(ip, v.b, memo))
        return r
    return g.TRUE


def truth(ip, v):
    I = _I()
    if isinstance(v, Node):
        if v.op == "app" and (v.data or "").startswith(("attr.", "call.")):
            return g.bapp("truth", v)
        return g.truth(v)
    if v is None:
        return g.FALSE
    if isinstance(v, (str, tuple)):
        return g.TRUE if len(v) else g.FALSE
    if isinstance(v, I.Ref):
        if v.kind in ("list", "dict", "set"):
            return g.TRUE if len(ip.content(v)) else g.FALSE
        if v.kind == "arr":
            a = ip.content(v)
            if a.ndim == 0:
                return truth(ip, a.elem(()))
            ip.complete("raise", I.ExcVal("ValueError"))
        if v.kind == "inst":
            m, _ = v.meta.lookup("__bool__")
            if m is not None:
                return truth(ip, ip.call(m, [v], {}))
            m, _ = v.meta.lookup("__len__")
            if m is not None:
                return g.cmp("!=", ip.call(m, [v], {}), g.const(0))
        return g.TRUE
    if isinstance(v, I.RangeVal):
        return g.cmp(">", rangelen(v), g.const(0))
    return g.TRUE


# ---------------------------------------------------------------- indexing
def cint(k):
    return int(k.data) if isinstance(k, Node) and k.op == "const" and k.data.denominator == 1 else None


def boolidx(k):
    return k


def slice_bounds(ip, s, n):
    """(start, step, length) of slice s over length n"""
    I = _I()
    step = g.const(1) if s.step is None else s.step
    st = cint(step)
    if st is None:
        raise I.Unsupported("symbolic slice step")
    nn = dimnode(n)

    def fix(x, dflt):
        if x is None:
            return dflt
        c = cint(x)
        if c is not None and c < 0:
            return g.add(nn, x)
        if x.op == "neg":
            return g.add(nn, x)
        if c is not None and isinstance(n, int):
            return g.const(min(c, n))
        return x
    if st > 0:
        a, b = fix(s.start, g.const(0)), fix(s.stop, nn)
        ln = g.sub(b, a)
        if a.op == "const" and a.data == 0:
            ln = b
    else:
        a, b = fix(s.start, g.sub(nn, g.const(1))), fix(s.stop, g.const(-1))
        ln = g.sub(a, b)
        if s.start is None and s.stop is None:
            ln = nn
    if abs(st) != 1:
        if ln.op != "const":
            raise I.Unsupported("symbolic strided slice")
        ln = g.const(-(-int(ln.data) // abs(st)))
    if ln.op == "const" and ln.data < 0:
        ln = g.const(0)
    return a, g.const(st), mkdim(ln)


def posidx(k, n):
    c = cint(k)
    if c is not None:
        if c < 0:
            if isinstance(n, int):
                return n + c
            return g.add(n, k)
        return c
    if k.op == "neg":
        return g.add(dimnode(n), k)
    return k


def arr_get(ip, a, k):
    I = _I()
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [unbox(ip, x) for x in ks]
    # boolean mask
    if len(ks) == 1 and isinstance(ks[0], I.Arr) and ks[0].ndim >= 1:
        m = ks[0]
        probe = m.elem(tuple(0 if isinstance(d, int) else g.var("#p") for d in m.shape)) if all(
            not (isinstance(d, int) and d == 0) for d in m.shape) else None
        if probe is not None and I.isb(probe):
            if a.ndim == 1 and isinstance(a.shape[0], int):
                n = a.shape[0]
                return select(ip, [m.elem((i,)) for i in range(n)], [a.elem((i,)) for i in range(n)], a.sorted)
            cnt = g.app("maskcount", reify(ip, m))
            ra, rm = reify(ip, a), reify(ip, m)
            return box(ip, I.Arr((cnt,) + a.shape[m.ndim:], lambda ix: g.app("masked", ra, rm, *[idx(i) for i in ix])))
        # integer fancy index
        return box(ip, I.Arr(m.shape + a.shape[1:], lambda ix: a.elem((fixint(m.elem(ix[:m.ndim])),) + tuple(ix[m.ndim:]))))
    if len(ks) == 1 and isinstance(ks[0], I.Ref) and ks[0].kind == "list":
        return arr_get(ip, a, (toarr(ip, ks[0]),))
    # Ellipsis
    if any(x is Ellipsis for x in ks):
        i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
        used = sum(1 for x in ks if x is not None and x is not Ellipsis)
        ks = ks[:i] + [slice(None)] * (a.ndim - used) + ks[i + 1:]
    used = sum(1 for x in ks if x is not None)
    if used > a.ndim:
        ip.complete("raise", I.ExcVal("IndexError"))
    ks = ks + [slice(None)] * (a.ndim - used)
    shape, plan = [], []     # plan per source axis: function of output ix
    ax = 0
    for x in ks:
        if x is None:
            shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                plan.append(("out", len(shape), None, None))
                shape.append(n)
            else:
                st, step, ln = slice_bounds(ip, x, n)
                plan.append(("out", len(shape), st, step))
                shape.append(ln)
        elif isinstance(x, Node):
            p = posidx(x, n)
            if isinstance(p, int) and isinstance(n, int) and not 0 <= p < n:
                ip.complete("raise", I.ExcVal("IndexError"))
            plan.append(("fix", p))
        else:
            raise I.Unsupported(f"index {x!r}")
        ax += 1

    def elem(ix):
        src = []
        for p in plan:
            if p[0] == "fix":
                src.append(p[1])
            else:
                i = ix[p[1]]
                if p[2] is not None:
                    i = fixint(g.add(p[2], g.mul(p[3], idx(i))))
                src.append(i)
        return a.elem(tuple(src))
    if not shape:
        return elem(())
    return box(ip, I.Arr(shape, elem, a.sorted and len(shape) == 1))


def fixint(n):
    c = cint(n) if isinstance(n, Node) else n
    return n if c is None else c


def linear_const(n):
    """the constant a sum reduces to once opposite terms cancel, or None"""
    terms, total, st = {}, g.const(0).data, [(n, 1)]
    while st:
        x, s = st.pop()
        if x.op == "const":
            total += s * x.data
        elif x.op == "add":
            st.extend((y, s) for y in x.args)
        elif x.op == "neg":
            st.append((x.args[0], -s))
        elif x.op == "mul" and any(y.op == "const" for y in x.args) and len(x.args) == 2:
            c, y = x.args if x.args[0].op == "const" else x.args[::-1]
            st.append((y, s * c.data))
        elif x.op == "ite" and x.args[1].op == "const" and x.args[2].op == "const":
            c, u, v = x.args[0], x.args[1].data, x.args[2].data
            if c.op == "not":
                c, u, v = c.args[0], v, u
            if c.op == "cmp" and c.data == "!=":
                c, u, v = g.cmp("==", *c.args), v, u
            total += s * v
            terms[c.id, "ite"] = terms.get((c.id, "ite"), 0) + s * (u - v)
        else:
            terms[x.id] = terms.get(x.id, 0) + s
    return total if not any(terms.values()) else None


def ascending(vals):
    """real parts of roots of one polynomial, in numpy's order of roots"""
    last = None
    for v in vals:
        if not isinstance(v, Node):
            return False
        if v.op == "fn" and v.data == "real" or v.op == "real":
            v = v.args[0]
        if v.op != "polyroot" and not (v.op == "app" and v.data == "polyroot"):
            return False
        k, rest = v.args[0], v.args[1:]
        if k.op != "const" or last is not None and (rest != last[1] or k.data <= last[0]):
            return False
        last = k.data, rest
    return last is not None


def select(ip, conds, vals, srt=False):
    """subsequence of vals where conds hold, as an array of path-dependent length"""
    I = _I()
    n = len(conds)
    conds = [g.truth(c) if isinstance(c, Node) else c for c in conds]
    count = g.const(0)
    for c in conds:
        count = g.add(count, g.num(c))
    srt = srt or ascending(vals)

    def elem(ix):
        k = ix[0]
        if isinstance(k, Node):
            off = None
            # index relative to the end (count - m)
            if k.op == "const":
                k = int(k.data)
            else:
                off = linear_const(g.sub(count, k))
                if off is None or off.denominator != 1:
                    out = g.NAN
                    for m in reversed(range(n)):
                        out = ip.gate(g.cmp("==", k, g.const(m)), pick(m), out)
                    return out
                return pick_last(int(off)) if off > 0 else g.NAN
        return pick(k)

    def pick(k):
        # value of the k-th selected element
        def rec(i, r):
            if i == n:
                return g.NAN
            hit = vals[i] if r == 0 else rec(i + 1, r - 1)
            if conds[i] is g.TRUE:
                return hit
            return ip.gate(conds[i], hit, rec(i + 1, r))
        return rec(0, k)

    def pick_last(m):
        def rec(i, r):
            if i < 0:
                return g.NAN
            hit = vals[i] if r == 0 else rec(i - 1, r - 1)
            if conds[i] is g.TRUE:
                return hit
            return ip.gate(conds[i], hit, rec(i - 1, r))
        return rec(n - 1, m - 1)
    return box(ip, I.Arr((mkdim(count),), elem, srt))


def getitem(ip, o, k):
    I = _I()
    if isinstance(o, I.Ref):
        if o.kind == "dict":
            return dict_get(ip, o, k, None, True)
        if o.kind == "arr":
            return arr_get(ip, ip.content(o), k)
        if o.kind == "list":
            c = ip.content(o)
            if isinstance(c, I.Gated):
                raise I.Unsupported("list of path-dependent length")
            return seq_get(ip, list(c), k, lambda x: ip.new("list", x))
        if o.kind == "inst":
            m, _ = o.meta.lookup("__getitem__")
            if m is None:
                ip.complete("raise", I.ExcVal("TypeError"))
            return ip.call(m, [o, k], {})
    if isinstance(o, I.Arr):
        return arr_get(ip, o, k)
    if isinstance(o, I.Lazy):
        return seq_get(ip, list(o.items), k, lambda x: ip.new("list", x))
    if isinstance(o, tuple):
        return seq_get(ip, list(o), k, tuple)
    if isinstance(o, str):
        c = cint(k) if isinstance(k, Node) else None
        if c is not None:
            return o[c]
        return "<str>"
    if isinstance(o, I.RangeVal):
        return getitem(ip, rangearr(o), k)
    if isinstance(o, Node):
        if o.op == "app":
            return g.app("item", o, reify(ip, k))
        ip.complete("raise", I.ExcVal("TypeError"))
    if o is None or isinstance(o, (I.Func, I.PyFn, I.Bound)):
        ip.complete("raise", I.ExcVal("TypeError"))
    if isinstance(o, (I.LibFn, I.ClassVal)):
        return o      # typing subscripts
    if isinstance(o, PolyVal):
        return seq_get(ip, list(o.coef), k, tuple)
    raise I.Unsupported(f"subscript of {o!r}")


def seq_get(ip, items, k, wrap):
    I = _I()
    if isinstance(k, slice):
        cs = []
        for x in (k.start, k.stop, k.step):
            if x is None:
                cs.append(None)
            else:
                c = cint(x)
                if c is None:
                    raise I.Unsupported("symbolic slice of a sequence")
                cs.append(c)
        return wrap(items[slice(*cs)])
    if isinstance(k, Node):
        c = cint(k)
        if c is not None:
            if not -len(items) <= c < len(items):
                ip.complete("raise", I.ExcVal("IndexError"))
            return items[c]
        if I.isb(k):
            return ip.branch(g.truth(k), lambda: seq_get(ip, items, g.const(1), wrap),
                             lambda: seq_get(ip, items, g.const(0), wrap))
        # symbolic index: gate over positions
        def go(i):
            if i == len(items):
                ip.complete("raise", I.ExcVal("IndexError"))
            return ip.branch(g.cmp("==", k, g.const(i)), lambda: items[i], lambda: go(i + 1))
        return go(0)
    ip.complete("raise", I.ExcVal("TypeError"))


def dict_get(ip, o, k, default, strict):
    I = _I()
    items = list(ip.content(o).values())
    kk = key(k)
    if kk[1] == "unhashable":
        ip.complete("raise", I.ExcVal("TypeError"))
    if isinstance(k, str) or k is None:
        items = [kv for kv in items if not isinstance(kv[0], Node)]

    def go(i):
        if i == len(items):
            if strict:
                ip.complete("raise", I.ExcVal("KeyError"))
            return default
        kv, vv = items[i]
        c = g.land(eqkeys(ip, kv, k), present(ip, vv))
        return ip.branch(c, lambda: ip.need(vv), lambda: go(i + 1))
    return go(0)


def setitem(ip, o, k, v):
    I = _I()
    if isinstance(o, I.Ref):
        if o.kind == "dict":
            kk = key(k)
            if kk[1] == "unhashable":
                ip.complete("raise", I.ExcVal("TypeError"))
            ip.mut(o, "dict store")
            d = dict(ip.content(o))
            # symbolic keys: earlier entries may be overwritten
            if isinstance(k, (Node, tuple)):
                for k2, (kv, vv) in list(d.items()):
                    if k2 != kk:
                        c = eqkeys(ip, kv, k)
                        if c is not g.FALSE:
                            d[k2] = (kv, ip.gate(ip.known(c), v, vv))
            d[kk] = (k, v)
            ip.write(o, d)
            return
        if o.kind == "list":
            ip.mut(o, "list store")
            c = cint(k) if isinstance(k, Node) else None
            items = list(ip.content(o))
            if c is None:
                raise I.Unsupported("symbolic list store")
            if not -len(items) <= c < len(items):
                ip.complete("raise", I.ExcVal("IndexError"))
            items[c] = v
            ip.write(o, items)
            return
        if o.kind == "arr":
            ip.mut(o, "array store")
            ip.write(o, arr_set(ip, ip.content(o), k, v))
            return
        if o.kind == "inst":
            m, _ = o.meta.lookup("__setitem__")
            if m is not None:
                ip.call(m, [o, k, v], {})
                return
    if isinstance(o, tuple) or o is None:
        ip.complete("raise", I.ExcVal("TypeError"))
    raise I.Unsupported(f"item store on {o!r}")


def delitem(ip, o, k):
    I = _I()
    if isinstance(o, I.Ref) and o.kind == "dict":
        d = dict(ip.content(o))
        d.pop(key(k), None)
        ip.write(o, d)
        ip.mut(o, "dict delete")
        return
    raise I.Unsupported("del item")


def subst(n, m, memo=None):
    """substitute variables by nodes"""
    if memo is None:
        memo = {}
    if n.id in memo:
        return memo[n.id]
    if n.op == "var" and n.data in m:
        r = m[n.data]
    elif not n.args:
        r = n
    else:
        args = [subst(a, m, memo) for a in n.args]
        if all(x is y for x, y in zip(args, n.args)):
            r = n
        else:
            r = rebuild(n, args)
    memo[n.id] = r
    return r


def substval(v, m, memo):
    I = _I()
    if isinstance(v, Node):
        return subst(v, m, memo)
    if isinstance(v, I.Gated):
        return I.Gated(subst(v.cond, m, memo), substval(v.a, m, memo), substval(v.b, m, memo))
    if isinstance(v, I.NT):
        return I.mknt(v.cls, [substval(x, m, memo) for x in v])
    if type(v) is tuple:
        return tuple(substval(x, m, memo) for x in v)
    return v


BOUND = {}      # index variable -> number of its values


def open_index(ip, kind, dims):
    """fresh index variables, named after their ranges so that loops written differently share names"""
    out = []
    for d in dims:
        k = 0
        while True:
            name = f"{kind}{k}:{d if isinstance(d, int) else 'n%d' % d.id}"
            if name not in ip.indices:
                break
            k += 1
        ip.indices.add(name)
        BOUND[name] = dimnode(d)
        out.append(g.var(name))
    return out


def close_index(ip, vs):
    for v in vs:
        ip.indices.discard(v.data)


def tabulate(ip, dims, f):
    """array whose elements f computes: f is analysed once, at a symbolic index"""
    I = _I()
    bs = open_index(ip, "#I", dims)
    try:
        probe = f(list(bs))
    finally:
        close_index(ip, bs)
    memos = {}

    def at(ix, v):
        ix = tuple(idx(i) for i in ix)
        if all(i is b for i, b in zip(ix, bs)):
            return v
        memo = memos.setdefault(tuple(i.id for i in ix), {})
        return substval(v, {b.data: i for b, i in zip(bs, ix)}, memo)
    if isinstance(probe, (tuple, I.Arr)) or isinstance(probe, I.Ref) and probe.kind in ("list", "arr"):
        inner, heap = toarr(ip, probe), ip.heap

        def elem(ix):
            now, ip.heap = ip.heap, heap
            try:
                v = inner.elem(tuple(ix[len(dims):]))
            finally:
                new, ip.heap = ip.heap, now
                if new is not heap:
                    for k in new:
                        if k not in now:
                            now[k] = new[k]
            return at(ix[:len(dims)], v)
        return I.Arr(tuple(dims) + tuple(inner.shape), elem)
    return I.Arr(tuple(dims), lambda ix: at(ix, probe))


def rebuild(n, a):
    o = n.op
    if o == "add":
        return g.add(*a)
    if o == "mul":
        return g.mul(*a)
    if o == "div":
        return g.div(*a)
    if o == "neg":
        return g.neg(*a)
    if o == "pow":
        return g.power(a[0], g.const(n.data))
    if o == "sqrt":
        return g.sqrt(*a)
    if o == "abs":
        return g.absv(*a)
    if o == "cmp":
        return g.cmp(n.data, *a)
    if o == "and":
        return g.land(*a)
    if o == "or":
        return g.lor(*a)
    if o == "not":
        return g.lnot(*a)
    if o == "ite":
        return g.ite(*a)
    return g.mk(o, tuple(a), n.data)


def subval(ip, v, m):
    I = _I()
    if isinstance(v, Node):
        return subst(v, m)
    if isinstance(v, I.Gated):
        return I.Gated(subst(v.cond, m), subval(ip, v.a, m), subval(ip, v.b, m))
    if isinstance(v, tuple):
        return tuple(subval(ip, x, m) for x in v)
    if v is None:
        return g.NAN        # numpy stores None into a float array as NaN
    raise I.Unsupported("array store of a non-scalar")


def loopflat(x, loopvars, d):
    """names (row, column) when x = row*m + column runs through a flattened table of length d = n*m"""
    f = factors(d)
    u = unflat(x, f[1]) if f else None
    if u and all(w.op == "var" and w.data in loopvars and dimnode(loopvars[w.data][1]) is n for w, n in zip(u, f)):
        return u[0].data, u[1].data
    return None


def looprev(x, loopvars, d):
    """name of the loop variable i when x = d-1-i runs backwards through an axis of length d"""
    terms, todo, c = [], [(x, 1)], 0
    while todo:
        t, sg = todo.pop()
        if t.op == "const":
            c += sg * t.data
        elif t.op == "add":
            todo.extend((w, sg) for w in t.args)
        elif t.op == "neg":
            todo.append((t.args[0], -sg))
        elif t.op == "mul" and t.args[0].op == "const" and t.args[0].data == -1:
            todo.append((t.args[1], -sg))
        else:
            terms.append((t, sg))
    if isinstance(d, int):
        t, sg = terms[0] if len(terms) == 1 else (x, 0)
        if c == d - 1 and sg == -1 and t.op == "var" and t.data in loopvars and loopvars[t.data][1] == d:
            return t.data
        return None
    if c != -1 or len(terms) != 2:
        return None
    for (t, s1), (w, s2) in (terms, terms[::-1]):
        if t is d and s1 == 1 and s2 == -1 and w.op == "var" and w.data in loopvars and dimnode(loopvars[w.data][1]) is d:
            return w.data
    return None


def arr_set(ip, a, k, v):
    I = _I()
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [unbox(ip, x) for x in ks]
    if len(ks) == 1 and isinstance(ks[0], I.Arr):
        m = ks[0]
        va = toarr(ip, v)

        def elem(ix):
            c = m.elem(ix[:m.ndim])
            return ip.gate(g.truth(c), va.elem(()) if va.ndim == 0 else g.app("maskval", reify(ip, va)), a.elem(ix))
        return I.Arr(a.shape, elem)
    if any(x is Ellipsis for x in ks):
        i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
        ks = ks[:i] + [slice(None)] * (a.ndim - len(ks) + 1) + ks[i + 1:]
    ks = ks + [slice(None)] * (a.ndim - len(ks))
    va = toarr(ip, v)
    loopvars = {n.data: (n, d) for n, d in ip.loops}
    fixed = []      # per axis: ("loop", var) | ("const", int/Node) | ("all",)
    for ax, x in enumerate(ks):
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                fixed.append(("all",))
            else:
                st, step, ln = slice_bounds(ip, x, a.shape[ax])
                fixed.append(("slice", st, step, ln))
        elif isinstance(x, Node):
            if x.op == "var" and x.data in loopvars:
                fixed.append(("loop", x.data, loopvars[x.data][1], a.shape[ax]))
            elif loopflat(x, loopvars, a.shape[ax]):
                fixed.append(("flat",) + loopflat(x, loopvars, a.shape[ax]) + (factors(a.shape[ax])[1],))
            elif looprev(x, loopvars, a.shape[ax]):
                fixed.append(("rev", looprev(x, loopvars, a.shape[ax]), a.shape[ax]))
            elif any(w.op == "var" and w.data in loopvars for w in g.walk([x])):
                raise I.Unsupported("array store at a computed loop index")
            else:
                fixed.append(("const", posidx(x, a.shape[ax])))
        else:
            raise I.Unsupported("array store index")
    nall = sum(1 for f in fixed if f[0] in ("all", "slice"))

    def elem(ix):
        cond = g.TRUE
        m, rest = {}, []
        for f, i in zip(fixed, ix):
            if f[0] == "loop":
                m[f[1]] = idx(i)
                dl, da = f[2], f[3]
                if not (dl is da or (isinstance(dl, int) and isinstance(da, int) and dl == da)):
                    if isinstance(i, int) and isinstance(dl, int):
                        cond = g.land(cond, g.TRUE if i < dl else g.FALSE)
                    else:
                        cond = g.land(cond, g.cmp("<", idx(i), dimnode(dl)))
            elif f[0] == "flat":
                mm = f[3]
                m[f[1]], m[f[2]] = unflat(i, mm) or (g.fn("floor", g.div(idx(i), mm)), g.fn("mod", idx(i), mm))
            elif f[0] == "rev":
                m[f[1]] = g.sub(g.sub(dimnode(f[2]), g.const(1)), idx(i))
            elif f[0] == "const":
                if isinstance(i, int) and isinstance(f[1], int):
                    cond = g.land(cond, g.TRUE if i == f[1] else g.FALSE)
                else:
                    cond = g.land(cond, g.cmp("==", idx(i), idx(f[1])))
            elif f[0] == "slice":
                j = g.div(g.sub(idx(i), f[1]), f[2])
                cond = g.land(cond, g.land(g.cmp(">=", j, g.const(0)), g.cmp("<", j, dimnode(f[3]))))
                rest.append(fixint(j))
            else:
                rest.append(i)
        off = len(rest) - va.ndim
        src = [0 if isinstance(va.shape[j], int) and va.shape[j] == 1 and nall else rest[j + off]
               for j in range(va.ndim)]
        val = va.elem(tuple(src)) if cond is not g.FALSE else g.NAN
        if m:
            val = subval(ip, val, m)
            if any(w.op == "var" and w.data in loopvars for w in (g.walk([val]) if isinstance(val, Node) else [])):
                raise I.Unsupported("array fill depends on an enclosing loop index")
        if cond is g.TRUE:
            return val
        if cond is g.FALSE:
            return a.elem(ix)
        return ip.gate(cond, val, a.elem(ix))
    return I.Arr(a.shape, elem)


# ---------------------------------------------------------------- attributes
LISTM = {"append", "extend", "insert", "pop", "copy", "index", "count", "sort", "reverse", "clear", "remove"}
DICTM = {"get", "items", "keys", "values", "pop", "update", "setdefault", "copy", "clear", "popitem"}
SETM = {"add", "discard", "union", "remove"}
ARRM = {"copy", "sum", "dot", "flatten", "ravel", "reshape", "transpose", "min", "max", "any", "all", "item",
        "tolist", "astype", "mean", "squeeze", "conj", "conjugate", "swapaxes", "prod", "argsort", "sort", "fill", "nonzero"}
NODEM = {"item", "copy", "conj", "conjugate", "sum", "astype", "tolist", "is_integer", "any", "all", "flatten", "ravel",
         "min", "max", "reshape", "squeeze"}


def unmodelled(n):
    """special attributes exist on every object: those without a model are unknown, not missing"""
    if n.startswith("__") and n.endswith("__"):
        raise _I().Unsupported("attribute " + n)


def getattr(ip, o, n):
    I = _I()
    if isinstance(o, I.LibMod):
        return libattr(o.name, n)
    if isinstance(o, I.RepoMod):
        v = ip.modattr(o, n)
        if v is I.UNBOUND:
            ip.notes.append(("undefined-attr", f"{o.name}.{n}", g.get_line()))
            ip.complete("raise", I.ExcVal("AttributeError"))
        return v
    if isinstance(o, I.SuperVal):
        mro = ([o.self_] if isinstance(o.self_, I.ClassVal) else [o.self_.meta])[0].mro()
        i = mro.index(o.cls)
        for c in mro[i + 1:]:
            if n in c.ns:
                return bind(ip, c.ns[n], o.self_, c)
        if n in ("__init__", "__init_subclass__"):
            return I.PyFn(n, lambda ip, a, k: None)
        unmodelled(n)
        ip.complete("raise", I.ExcVal("AttributeError"))
    if isinstance(o, I.Ref) and o.kind == "inst":
        d = ip.content(o)
        m, c = o.meta.lookup(n)
        if isinstance(m, I.Descr) and m.kind in ("property", "propset"):
            return ip.call(m.func, [o], {})
        if n in d:
            v = d[n]
            if c is not None and I.has_unbound(v):
                return ip.branch(present(ip, v), lambda: ip.need(v), lambda: bind(ip, ip.need(m), o, c))
            return ip.need(v)
        if c is not None:
            return bind(ip, ip.need(m), o, c)
        if n == "__class__":
            return o.meta
        if n == "__dict__":
            return ip.new("dict", {}, o)
        ga, _ = o.meta.lookup("__getattr__")
        if ga is not None:
            return ip.call(ga, [o, n], {})
        unmodelled(n)
        ip.notes.append(("harness-attr" if o.meta.name == "Made" else "missing-attr", n, g.get_line()))
        ip.complete("raise", I.ExcVal("AttributeError"))
    if isinstance(o, I.NT):
        names = [x for x, _ in o.cls.fields]
        if n in names:
            return o[names.index(n)]
        if n == "_replace":
            def rep(ip, a, k):
                return I.mknt(o.cls, [k.get(x, y) for x, y in zip(names, o)])
            return I.PyFn("_replace", rep)
        if n == "_asdict":
            return I.PyFn("_asdict", lambda ip, a, k: ip.new("dict", {key(x): (x, y) for x, y in zip(names, o)}))
        m, c = o.cls.lookup(n)
        if c is not None:
            return bind(ip, m, o, c)
    if isinstance(o, I.ClassVal):
        m, c = o.lookup(n)
        if c is not None:
            m = ip.need(m)
            if isinstance(m, I.Descr):
                if m.kind == "classm":
                    return I.Bound(m.func, o)
                return m.func
            return m
        if n in ("__name__", "__qualname__"):
            return o.name
        unmodelled(n)
        ip.complete("raise", I.ExcVal("AttributeError"))
    if isinstance(o, I.Ref):
        M = {"list": LISTM, "dict": DICTM, "arr": ARRM, "set": SETM}.get(o.kind, set())
        if n in M:
            return I.PyFn(f"{o.kind}.{n}", lambda ip, a, k: method(ip, o, n, a, k))
        if o.kind == "arr":
            return arr_attr(ip, o, n)
        unmodelled(n)
        ip.complete("raise", I.ExcVal("AttributeError"))
    if isinstance(o, I.Lazy):
        raise I.Unsupported("attribute of iterator")
    if isinstance(o, I.Arr):
        return getattr(ip, box(ip, o), n)
    if isinstance(o, Obj):
        if n in o.d:
            return o.d[n]
        ip.complete("raise", I.ExcVal("AttributeError"))
    if isinstance(o, PolyVal):
        return poly_attr(ip, o, n)
    if isinstance(o, str):
        if n in ("format", "join", "upper", "strip", "replace"):
            return I.PyFn(n, lambda ip, a, k: "<str>")
        if n == "lower":
            return I.PyFn(n, lambda ip, a, k: o.lower())
        if n in ("startswith", "endswith"):
            return I.PyFn(n, lambda ip, a, k: g.TRUE if (o.startswith if n == "startswith" else o.endswith)(a[0]) else g.FALSE)
        raise I.Unsupported("string method " + n)
    if isinstance(o, Node):
        if o.op == "app" and (o.data or "").startswith(("attr.", "call.")):
            return g.app("attr." + n, o)
        if n == "real":
            return g.fn("real", o)
        if n == "imag":
            return g.fn("imag", o)
        if n == "shape":
            return ()
        if n == "ndim":
            return g.const(0)
        if n == "size":
            return g.const(1)
        if n == "T":
            return o
        if n in NODEM:
            return I.PyFn("scalar." + n, lambda ip, a, k: g.fn("conj", o) if n.startswith("conj") else o)
        return g.app("attr." + n, o)
    if isinstance(o, tuple):
        if n in ("index", "count"):
            return I.PyFn("tuple." + n, lambda ip, a, k: seq_index(ip, list(o), a[0], n))
        unmodelled(n)
        ip.complete("raise", I.ExcVal("AttributeError"))
    if isinstance(o, (I.Func, I.PyFn)):
        if n == "__wrapped__":
            return o
        at = ip.fattrs(o)
        if n in ip.heap[at.id]:
            return ip.need(ip.heap[at.id][n])
        if n == "__dict__":
            return ip.new("dict", {}, at)
        if n in ("__name__", "__doc__", "__qualname__", "__module__"):
            return o.name
        if n in ("cache_clear", "cache_info"):
            return I.PyFn(n, lambda ip, a, k: None)
        unmodelled(n)
        ip.complete("raise", I.ExcVal("AttributeError"))
    if isinstance(o, I.LibFn):
        return libattr(o.name, n)
    if isinstance(o, I.Bound):
        return getattr(ip, o.func, n)
    if o is None:
        ip.complete("raise", I.ExcVal("AttributeError"))
    if isinstance(o, I.Descr):
        if n == "setter":
            def setter(ip, a, k):
                d = I.Descr("propset", o.func)
                d.setter = a[0]
                return d
            return I.PyFn("setter", setter)
    if isinstance(o, I.ExcVal):
        return "<exc>"
    raise I.Unsupported(f"attribute {n} of {o!r}")


def bind(ip, m, o, cls):
    I = _I()
    if isinstance(m, I.Descr):
        if m.kind in ("property", "propset"):
            return ip.call(m.func, [o], {})
        if m.kind == "static":
            return m.func
        return I.Bound(m.func, cls if not isinstance(o, I.Ref) else o.meta)
    if isinstance(m, I.Func):
        return I.Bound(m, o)
    return m


def seq_index(ip, items, x, n):
    I = _I()
    if n == "count":
        r = g.const(0)
        for y in items:
            r = g.add(r, g.num(g.truth(ip.truth(ip.compare("==", x, y)))))
        return r
    for i, y in enumerate(items):
        c = ip.truth(ip.compare("==", x, y))
        if c is g.TRUE:
            return g.const(i)
        if c is not g.FALSE:
            raise I.Unsupported("symbolic index()")
    ip.complete("raise", I.ExcVal("ValueError"))


def arr_attr(ip, o, n):
    I = _I()
    a = ip.content(o)
    if n == "T":
        return box(ip, transpose(a))
    if n == "shape":
        return tuple(dimnode(d) for d in a.shape)
    if n == "ndim":
        return g.const(a.ndim)
    if n == "size":
        r = g.const(1)
        for d in a.shape:
            r = g.mul(r, dimnode(d))
        return r
    if n == "real":
        return elementwise_s(ip, lambda x: g.fn("real", x), a)
    if n == "imag":
        return elementwise_s(ip, lambda x: g.fn("imag", x), a)
    if n == "dtype":
        return "<dtype>"
    raise I.Unsupported("array attribute " + n)


def elementwise_s(ip, f, a):
    """monotone-preserving elementwise op (keeps the sorted mark)"""
    I = _I()
    srt = a.sorted
    return box(ip, I.Arr(a.shape, lambda ix: ip.lift(lambda x: f(x), a.elem(ix)), srt))


def transpose(a, axes=None):
    I = _I()
    n = a.ndim
    ax = list(range(n))[::-1] if axes is None else axes
    inv = [ax.index(i) for i in range(n)]
    return I.Arr([a.shape[i] for i in ax], lambda ix: a.elem(tuple(ix[inv[i]] for i in range(n))))


def poly_attr(ip, o, n):
    I = _I()
    if n == "roots":
        return I.PyFn("roots", lambda ip, a, k: polyroots(ip, o.coef))
    if n == "coef":
        return box(ip, toarr(ip, tuple(o.coef)))
    if n == "degree":
        return I.PyFn("degree", lambda ip, a, k: g.const(len(o.coef) - 1))
    if n == "deriv":
        return I.PyFn("deriv", lambda ip, a, k: PolyVal([g.mul(g.const(i), c) for i, c in enumerate(o.coef)][1:]))
    if n == "__call__":
        return I.PyFn("polyval", lambda ip, a, k: polyval(ip, o, a[0]))
    raise I.Unsupported("polynomial attribute " + n)


def polyval(ip, o, x):
    def f(x):
        r = g.const(0)
        for c in reversed(o.coef):
            r = g.add(g.mul(r, x), c)
        return r
    return elementwise(ip, f, x)


def polyroots(ip, coef, sorted_=True):
    I = _I()
    coef = [g.num(c) for c in coef]
    lead = coef[-1]
    args = tuple(g.div(c, lead) for c in coef[:-1])
    n = len(coef) - 1
    name = "polyroot" if sorted_ else "nproot"

    def elem(ix):
        return g.mk("app", (idx(ix[0]),) + args, name)
    return box(ip, I.Arr((n,), elem, sorted_, tag=("roots", tuple(coef))))


def method(ip, o, n, a, k):
    I = _I()
    c = ip.content(o)
    if o.kind == "list":
        if isinstance(c, I.Gated) and n != "copy":
            raise I.Unsupported("list of path-dependent length")
        inside = o.depth == len(ip.loops)        # created in this very iteration
        if n == "append" and ip.loops and len(c) == 0 and not inside:
            # list built by a symbolic loop: becomes an array over the loop index
            lv, d = ip.loops[-1]
            v = a[0]
            if len(ip.loops) - o.depth > 2:
                raise I.Unsupported("list built by more than two nested symbolic loops")
            ip.mut(o, "append")
            if len(ip.loops) - o.depth == 2:
                (lv, d), (lw, e) = ip.loops[-2:]
                size = mkdim(g.mul(dimnode(d), dimnode(e)))
                va = toarr(ip, v)
                arr = flatrows(ip, I.Arr((d, e) + va.shape, lambda ix: subval(
                    ip, va.elem(tuple(ix[2:])), {lv.data: idx(ix[0]), lw.data: idx(ix[1])})), size)
            elif isinstance(v, I.Ref) or isinstance(v, I.Arr):
                va = toarr(ip, v)
                arr = I.Arr((d,) + va.shape, lambda ix: subval(ip, va.elem(tuple(ix[1:])), {lv.data: idx(ix[0])}))
            else:
                arr = I.Arr((d,), lambda ix: subval(ip, v, {lv.data: idx(ix[0])}))
            o.kind = "arr"
            ip.write(o, arr)
            return None
        if n in ("append", "extend", "insert", "pop", "sort", "reverse", "clear", "remove"):
            if ip.loops and not inside:
                raise I.Unsupported("list mutation in a symbolic loop")
            ip.mut(o, n)
        l = list(c)
        if n == "append":
            l.append(a[0])
        elif n == "extend":
            l.extend(iterate(ip, a[0]))
        elif n == "insert":
            l.insert(cint(a[0]), a[1])
        elif n == "pop":
            if not l:
                ip.complete("raise", I.ExcVal("IndexError"))
            r = l.pop(cint(a[0]) if a else -1)
            ip.write(o, l)
            return r
        elif n == "copy":
            return ip.new("list", l)
        elif n == "reverse":
            l.reverse()
        elif n == "clear":
            l = []
        elif n == "sort":
            s = sort_arr(ip, toarr(ip, tuple(l)))
            r = iterate(ip, s)
            l = r[::-1] if truthy(k.get("reverse")) else r
        elif n in ("index", "count"):
            return seq_index(ip, l, a[0], n)
        else:
            raise I.Unsupported("list." + n)
        ip.write(o, l)
        return None
    if o.kind == "set":
        if n == "add":
            ip.mut(o, n)
            ip.write(o, list(c) + [a[0]])
            return None
        raise I.Unsupported("set." + n)
    if o.kind == "dict":
        if n == "get":
            return dict_get(ip, o, a[0], a[1] if len(a) > 1 else k.get("default"), False)
        if n == "items":
            return I.Lazy([(kv, vv) for kv, vv in c.values()])
        if n == "keys":
            return I.Lazy([kv for kv, vv in c.values()])
        if n == "values":
            return I.Lazy([vv for kv, vv in c.values()])
        if n == "copy":
            return ip.new("dict", dict(c))
        if n == "clear":
            ip.mut(o, n)
            ip.write(o, {})
            return None
        if n == "update":
            ip.mut(o, n)
            d = dict(c)
            if a:
                d.update(ip.content(a[0]))
            for kk, vv in k.items():
                d[key(kk)] = (kk, vv)
            ip.write(o, d)
            return None
        if n == "setdefault":
            ct = contains(ip, o, a[0])
            dv = a[1] if len(a) > 1 else None

            def store():
                setitem(ip, o, a[0], dv)
                return dv
            return ip.branch(ct, lambda: dict_get(ip, o, a[0], None, True), store)
        if n == "pop":
            r = dict_get(ip, o, a[0], a[1] if len(a) > 1 else None, len(a) < 2)
            ip.mut(o, n)
            d = dict(ip.content(o))
            d.pop(key(a[0]), None)
            ip.write(o, d)
            return r
        raise I.Unsupported("dict." + n)
    if n == "copy":
        return box(ip, I.Arr(c.shape, c.elem, c.sorted, c.tag))
    if n in ("sort", "fill"):
        ip.mut(o, n)
        ip.write(o, ip.content(sort_arr(ip, c)) if n == "sort" else I.Arr(c.shape, lambda ix: a[0]))
        return None
    if n in ("flatten", "ravel", "astype", "squeeze", "tolist"):
        if n == "tolist" and all(isinstance(d, int) for d in c.shape):
            def nest(v):
                if is_arr(v):
                    return ip.new("list", [nest(x) for x in iterate(ip, v)])
                return v
            return nest(o)
        if n in ("flatten", "ravel") and c.ndim > 1:
            return flatten(ip, c)
        return box(ip, I.Arr(c.shape, c.elem, c.sorted))
    if n == "item":
        if c.ndim == 0:
            return c.elem(())
        raise I.Unsupported("item()")
    return call(ip, "numpy." + n, [o] + list(a), k)


def flatten(ip, c):
    I = _I()
    if all(isinstance(d, int) for d in c.shape):
        items = []

        def rec(pre, sh):
            if not sh:
                items.append(c.elem(pre))
                return
            for i in range(sh[0]):
                rec(pre + (i,), sh[1:])
        n = 1
        for d in c.shape:
            n *= d
        if n <= 4096:
            rec((), c.shape)
            return box(ip, toarr(ip, tuple(items)))
    size = g.const(1)
    for d in c.shape:
        size = g.mul(size, dimnode(d))
    r = reify(ip, c)
    if c.ndim == 2 and dimnode(mkdim(size)) not in FACTOR:
        FACTOR[dimnode(mkdim(size))] = tuple(dimnode(d) for d in c.shape)

    def elem(ix):
        if c.ndim == 2:
            u = unflat(ix[0], dimnode(c.shape[1]))
            if u:
                return c.elem(tuple(fixint(i) for i in u))
        return g.app("flat", r, idx(ix[0]))
    return box(ip, I.Arr((mkdim(size),), elem))


def truthy(v):
    return v is g.TRUE


def sort_arr(ip, a):
    I = _I()
    if a.sorted:
        return box(ip, I.Arr(a.shape, a.elem, True))
    if a.tag and a.tag[0] == "roots":
        return polyroots(ip, a.tag[1])
    if a.ndim == 1 and isinstance(a.shape[0], int):
        n = a.shape[0]
        items = [a.elem((i,)) for i in range(n)]
        if all(isinstance(x, Node) and x.op == "const" for x in items):
            items = sorted(items, key=lambda x: x.data)
            return box(ip, toarr(ip, tuple(items)))
        items = [reify(ip, x) for x in items]
        # order statistics are symmetric functions: canonicalised at fingerprint time
        return box(ip, I.Arr((n,), lambda ix: g.mk("app", (idx(ix[0]),) + tuple(items), "orderstat"), True))
    r = reify(ip, a)
    return box(ip, I.Arr(a.shape, lambda ix: g.app("sorted", r, *[idx(i) for i in ix]), True))


# ---------------------------------------------------------------- library calls
def dot(ip, a, b):
    I = _I()
    a, b = toarr(ip, a), toarr(ip, b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(ip, g.mul, a, b)
    ka = a.ndim - 1
    kb = 0 if b.ndim == 1 else b.ndim - 2
    n = a.shape[ka]
    if not isinstance(n, int):
        n = b.shape[kb]
    if isinstance(a.shape[ka], int) and isinstance(b.shape[kb], int) and a.shape[ka] != b.shape[kb]:
        ip.complete("raise", I.ExcVal("ValueError"))
    shape = a.shape[:-1] + b.shape[:kb] + b.shape[kb + 1:]

    def elem(ix):
        ia, ib = ix[:a.ndim - 1], ix[a.ndim - 1:]

        def term(t):
            return g.mul(a.elem(tuple(ia) + (t,)), b.elem(tuple(ib[:kb]) + (t,) + tuple(ib[kb:])))
        return reduce_sum(ip, n, term)
    if not shape:
        return elem(())
    return box(ip, I.Arr(shape, elem))


def reduce_sum(ip, n, term):
    I = _I()
    if isinstance(n, int):
        r = g.const(0)
        for t in range(n):
            x = term(t)
            if isinstance(x, I.Gated):
                raise I.Unsupported("sum of gated values")
            r = g.add(r, x)
        return r
    b, = open_index(ip, "#R", [n])
    try:
        return g.mk("reduce", (dimnode(n), g.num(term(b))), "sum")
    finally:
        close_index(ip, [b])


def reduce_axis(ip, a, axis, f, keepdims=False):
    """f(n, term) reduces one axis; axis None reduces all"""
    I = _I()
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = [cint(x) for x in axis]
    else:
        c = cint(axis)
        if c is None:
            raise I.Unsupported("symbolic axis")
        axes = [c]
    axes = sorted([x % a.ndim if a.ndim else 0 for x in axes], reverse=True)
    cur = a
    for ax in axes:
        prev = cur

        def elem(ix, prev=prev, ax=ax):
            return f(prev.shape[ax], lambda t: prev.elem(tuple(ix[:ax]) + (t,) + tuple(ix[ax:])))
        cur = I.Arr(prev.shape[:ax] + prev.shape[ax + 1:], elem)
    if keepdims:
        full = [1 if i in axes else d for i, d in enumerate(a.shape)]
        inner = cur
        cur = I.Arr(full, lambda ix: inner.elem(tuple(i for j, i in enumerate(ix) if j not in axes)))
    if cur.ndim == 0:
        return cur.elem(())
    return box(ip, cur)


def red(name, f2, unit):
    I = _I()

    def h(ip):
        def f(n, term):
            if isinstance(n, int):
                r = unit
                for t in range(n):
                    x = term(t)
                    r = x if r is None else f2(r, x)
                return r
            b, = open_index(ip, "#R", [n])
            try:
                return g.mk("reduce", (dimnode(n), term(b)), name)
            finally:
                close_index(ip, [b])
        return f
    return h


def fmin(a, b):
    x, y = g.cval(a), g.cval(b)
    if x is not None and y is not None:
        return g.const(min(x, y))
    return g.mk("app", tuple(sorted((g.num(a), g.num(b)), key=lambda n: n.id)), "min")


def fmax(a, b):
    x, y = g.cval(a), g.cval(b)
    if x is not None and y is not None:
        return g.const(max(x, y))
    return g.mk("app", tuple(sorted((g.num(a), g.num(b)), key=lambda n: n.id)), "max")


UNARY = {
    "sin": lambda x: g.fn("sin", x), "cos": lambda x: g.fn("cos", x), "tan": lambda x: g.div(g.fn("sin", x), g.fn("cos", x)),
    "sqrt": g.sqrt, "abs": g.absv, "sign": lambda x: sgn(x), "exp": lambda x: g.fn("exp", x),
    "square": lambda x: g.power(x, g.const(2)), "negative": g.neg, "positive": lambda x: x,
    "reciprocal": lambda x: g.div(g.const(1), x), "conjugate": lambda x: g.fn("conj", x),
    "real": lambda x: g.fn("real", x), "imag": lambda x: g.fn("imag", x),
    "isreal": lambda x: g.mk("isreal", (g.num(x),)), "iscomplex": lambda x: g.lnot(g.mk("isreal", (g.num(x),))),
    "isnan": lambda x: g.mk("cmp", (g.num(x), g.num(x)), "!="), "floor": lambda x: floordiv(x, g.const(1)),
    "logical_not": lambda x: g.lnot(g.truth(x)), "cbrt": lambda x: g.app("cbrt", g.num(x)),
    "degrees": lambda x: g.div(g.mul(x, g.const(180)), g.PI), "radians": lambda x: g.div(g.mul(x, g.PI), g.const(180)),
    "nan_to_num": lambda x: g.app("nan_to_num", g.num(x)), "ceil": lambda x: g.neg(floordiv(g.neg(x), g.const(1))),
    "isfinite": lambda x: g.bapp("isfinite", g.num(x)), "isinf": lambda x: g.bapp("isinf", g.num(x)),
    "copy": lambda x: x, "float64": lambda x: x, "signbit": lambda x: g.cmp("<", g.mk("copysign1", (g.num(x),)), g.const(0)),
    "log": lambda x: g.fn("log", x),
}
for _n in "arcsin arccos arctan sinh cosh tanh log1p expm1 log2 log10 trunc round rint arcsinh arccosh arctanh".split():
    UNARY[_n] = (lambda n: lambda x: g.app(n, g.num(x)))(_n)


def sgn(x):
    x = g.num(x)
    c = g.cval(x)
    if c is not None:
        return g.const((c > 0) - (c < 0))
    return g.mk("sign", (x,))


def csign(x, y):
    x, y = g.num(x), g.num(y)
    cx, cy = g.cval(x), g.cval(y)
    if cx is not None and cy is not None and cy != 0:
        return g.const(abs(cx) if cy > 0 else -abs(cx))
    return g.mul(g.absv(x), g.mk("copysign1", (y,)))


BINARY = {
    "copysign": csign, "power": g.power, "add": g.add, "subtract": g.sub, "multiply": g.mul, "true_divide": g.div,
    "arctan2": lambda y, x: g.app("arctan2", g.num(y), g.num(x)), "mod": modop, "remainder": modop, "floor_divide": floordiv,
    "minimum": fmin, "maximum": fmax, "hypot": lambda a, b: g.sqrt(g.add(g.power(a, g.const(2)), g.power(b, g.const(2)))),
    "logical_and": lambda a, b: g.land(a, b), "logical_or": lambda a, b: g.lor(a, b), "logical_xor": lxor,
    "fmod": lambda a, b: g.app("fmod", g.num(a), g.num(b)), "float_power": g.power, "fmin": fmin, "fmax": fmax,
    "less": lambda a, b: g.cmp("<", a, b), "less_equal": lambda a, b: g.cmp("<=", a, b),
    "greater": lambda a, b: g.cmp(">", a, b), "greater_equal": lambda a, b: g.cmp(">=", a, b),
    "equal": lambda a, b: g.cmp("==", a, b), "not_equal": lambda a, b: g.cmp("!=", a, b),
    "heaviside": lambda a, b: g.app("heaviside", g.num(a), g.num(b)),
}


def special(name):
    def f(*a):
        return g.mk("app", tuple(g.num(x) for x in a), name)
    return f


SPECIAL = {"ellipk": 1, "ellipe": 1, "ellipkinc": 2, "ellipeinc": 2, "elliprf": 3, "elliprd": 3, "elliprj": 4,
           "elliprc": 2, "elliprg": 3, "ellipkm1": 1}


def arg(a, k, i, name, dflt=None):
    if len(a) > i:
        return a[i]
    return k.get(name, dflt)


def call(ip, name, a, k):
    I = _I()
    for i, v in enumerate(a):
        if isinstance(v, I.Gated) and not name.startswith(("functools.", "builtins.isinstance")):
            return ip.branch(v.cond, lambda: call(ip, name, a[:i] + [v.a] + a[i + 1:], k),
                             lambda: call(ip, name, a[:i] + [v.b] + a[i + 1:], k))
    for kk, v in k.items():
        if isinstance(v, I.Gated):
            return ip.branch(v.cond, lambda: call(ip, name, a, {**k, kk: v.a}), lambda: call(ip, name, a, {**k, kk: v.b}))
    a = list(a)
    if name.startswith("numpy."):
        n = name[6:]
        if n in UNARY and len(a) == 1 and not (set(k) - {"dtype", "decimals", "copy"}):
            if n in ("real", "copy") and is_arr(a[0]):
                return elementwise_s(ip, UNARY[n], toarr(ip, a[0]))
            return elementwise(ip, UNARY[n], a[0])
        if n in BINARY and len(a) == 2 and not k:
            return elementwise(ip, BINARY[n], a[0], a[1])
        h = NP.get(n)
        if h is not None:
            return h(ip, a, k)
        if n == "linalg.LinAlgError":
            return I.ExcVal("LinAlgError")
        return opaque(ip, name, a, k)
    if name.startswith("scipy.special."):
        n = name[14:]
        if n in SPECIAL:
            if len(a) != SPECIAL[n]:
                ip.complete("raise", I.ExcVal("TypeError"))
            return elementwise(ip, special(n), *a)
        if n == "ellipj":
            return tuple(elementwise(ip, (lambda c: lambda u, m: g.mk("ellipj", (g.num(u), g.num(m)), c))(c), *a)
                         for c in ("sn", "cn", "dn", "am"))
    if name.startswith("builtins."):
        n = name[9:]
        h = BI.get(n)
        if h is not None:
            return h(ip, a, k)
        if n in I.EXC_PARENTS:
            return I.ExcVal(n)
        raise I.Unsupported("builtin " + n)
    h = OTHER.get(name)
    if h is not None:
        return h(ip, a, k)
    if name.startswith("math."):
        if all(isinstance(x, Node) for x in a):
            return g.app(name, *[g.num(x) for x in a])
    if name.rsplit(".", 1)[-1] in I.EXC_PARENTS:
        return I.ExcVal(name.rsplit(".", 1)[-1])
    return opaque(ip, name, a, k)


def freeze(ip, v):
    I = _I()
    v = unbox(ip, v)
    if isinstance(v, I.Ref) and v.kind == "list":
        return tuple(freeze(ip, x) for x in ip.content(v))
    if isinstance(v, tuple):
        return tuple(freeze(ip, x) for x in v)
    return v


PURE_PREFIX = ("numpy.", "scipy.", "math.")


def drawn(ip, a, k):
    """spec only: run a thunk and list what it handed to the library calls of the given name, in call order:
    (condition, positional arguments, keyword arguments)"""
    I = _I()
    n0 = len(ip.events)
    ip.call(a[0], [], {})
    out = []
    for guard, name, args, kw, line in ip.events[n0:]:
        if name.split(".")[-1] == a[1]:
            c = g.TRUE
            for x in guard:
                c = g.land(c, x)
            args = args[1:] if name.startswith((".", "setattr:")) else args
            d = ip.new("dict", {key(kk): (kk, v) for kk, v in kw.items()})
            out.append((c, tuple(args), d))
    return ip.new("list", out)


def opaque(ip, name, a, k):
    """uninterpreted library call"""
    fa = [freeze(ip, x) for x in a]
    fk = {kk: freeze(ip, v) for kk, v in k.items()}
    if not name.startswith(PURE_PREFIX):
        ip.event(name, fa, fk)
    args = [reify(ip, x) for x in a] + [g.mk("kw", (reify(ip, v),), kk) for kk, v in sorted(k.items())]
    return g.mk("app", tuple(args), "call." + name)


def call_opaque(ip, fn, a, k):
    I = _I()
    if fn.op == "app" and (fn.data or "").startswith("attr."):
        nm = fn.data[5:]
        fa = [freeze(ip, x) for x in a]
        fk = {kk: freeze(ip, v) for kk, v in k.items()}
        ip.event("." + nm, [fn.args[0]] + fa, fk)
        args = [fn.args[0]] + [reify(ip, x) for x in a] + [g.mk("kw", (reify(ip, v),), kk) for kk, v in sorted(k.items())]
        return g.mk("app", tuple(args), "call." + nm)
    if fn.op == "var" and fn.data.startswith("fn:") or fn.op == "app":
        args = [fn] + [reify(ip, x) for x in a]
        if all(isinstance(unbox(ip, x), (Node, I.Arr)) for x in a) and any(is_arr(x) for x in a):
            return elementwise(ip, lambda *xs: g.mk("app", (fn,) + tuple(xs), "apply"), *a)
        return g.mk("app", tuple(args), "apply")
    ip.complete("raise", I.ExcVal("TypeError"))


# numpy array functions -------------------------------------------------------
def np_array(ip, a, k):
    I = _I()
    v = a[0]
    if isinstance(v, Node) or v is None or isinstance(v, str):
        return v
    x = toarr(ip, v)
    if x.ndim == 0:
        return x.elem(())
    return box(ip, I.Arr(x.shape, x.elem, x.sorted, x.tag))


def np_asarray(ip, a, k):
    if is_arr(a[0]):
        return a[0]
    return np_array(ip, a, k)


def np_linspace(ip, a, k):
    I = _I()
    lo, hi = a[0], a[1]
    n = arg(a, k, 2, "num", g.const(50))
    ip.raise_if(g.cmp("<", n, g.const(0)), "ValueError")
    d = mkdim(n)
    end = k.get("endpoint", g.TRUE)
    den = g.sub(n, g.const(1)) if end is not g.FALSE else n
    return box(ip, I.Arr((d,), lambda ix: lo if isinstance(ix[0], int) and ix[0] == 0 else
                         g.add(lo, g.div(g.mul(g.sub(hi, lo), idx(ix[0])), den)), tag=("linspace", lo, hi, d)))


def np_arange(ip, a, k):
    if len(a) == 1:
        s, e, st = g.const(0), a[0], g.const(1)
    else:
        s, e = a[0], a[1]
        st = arg(a, k, 2, "step", g.const(1))
    return box(ip, rangearr(_I().RangeVal(s, e, st)))


def shape_of(ip, v):
    if isinstance(v, Node):
        return (mkdim(v),)
    return tuple(mkdim(x) for x in iterate(ip, v))


def np_fill(val):
    def f(ip, a, k):
        I = _I()
        sh = shape_of(ip, arg(a, k, 0, "shape"))
        x = val if val is not None else arg(a, k, 1, "fill_value")
        return box(ip, I.Arr(sh, lambda ix: x))
    return f


def np_like(val):
    def f(ip, a, k):
        I = _I()
        s = toarr(ip, a[0])
        x = val if val is not None else arg(a, k, 1, "fill_value")
        if s.ndim == 0:
            return x
        return box(ip, I.Arr(s.shape, lambda ix: x))
    return f


def np_meshgrid(ip, a, k):
    I = _I()
    xs = [toarr(ip, v) for v in a]
    ij = k.get("indexing", "xy") == "ij"
    n = len(xs)
    order = list(range(n))
    if not ij and n >= 2:
        order[0], order[1] = 1, 0
    shape = [xs[i].shape[0] for i in order]
    out = []
    for j, x in enumerate(xs):
        pos = order.index(j)
        out.append(box(ip, I.Arr(shape, (lambda x, pos: lambda ix: x.elem((ix[pos],)))(x, pos))))
    return ip.new("list", out)


def np_norm(ip, a, k):
    x = toarr(ip, a[0])
    axis = arg(a, k, 2, "axis")
    if len(a) > 1 and a[1] is not None or k.get("ord") is not None:
        o = arg(a, k, 1, "ord")
        if cint(o) != 2:
            return opaque(ip, "numpy.linalg.norm", a, k)
    I = _I()
    sq = I.Arr(x.shape, lambda ix: g.power(x.elem(ix), g.const(2)))
    r = reduce_axis(ip, sq, axis, lambda n, t: reduce_sum(ip, n, t), truthy(k.get("keepdims")))
    return elementwise(ip, g.sqrt, r)


def np_sum(ip, a, k):
    x = unbox(ip, a[0])
    if isinstance(x, Node):
        return g.num(x)
    x = toarr(ip, a[0])
    return reduce_axis(ip, x, arg(a, k, 1, "axis"), lambda n, t: reduce_sum(ip, n, t), truthy(k.get("keepdims")))


def np_red(name, f2, unit):
    def f(ip, a, k):
        x = unbox(ip, a[0])
        if isinstance(x, Node):
            return x
        x = toarr(ip, a[0])
        return reduce_axis(ip, x, arg(a, k, 1, "axis"), red(name, f2, unit)(ip), truthy(k.get("keepdims")))
    return f


def np_where(ip, a, k):
    I = _I()
    if len(a) == 1:
        return opaque(ip, "numpy.where", a, k)

    def f(c, x, y):
        return g.ite(g.truth(c), x, y)
    c = unbox(ip, a[0])
    if isinstance(c, Node) and not any(is_arr(x) for x in a):
        return ip.gate(g.truth(c), a[1], a[2])
    return elementwise(ip, f, *a)


def np_solve(ip, a, k):
    I = _I()
    A, b = toarr(ip, a[0]), toarr(ip, a[1])
    n = A.shape[0]
    if n == 2 and b.ndim == 1:
        a11, a12, a21, a22 = (A.elem((0, 0)), A.elem((0, 1)), A.elem((1, 0)), A.elem((1, 1)))
        b1, b2 = b.elem((0,)), b.elem((1,))
        det = g.sub(g.mul(a11, a22), g.mul(a12, a21))
        x = g.div(g.sub(g.mul(b1, a22), g.mul(a12, b2)), det)
        y = g.div(g.sub(g.mul(a11, b2), g.mul(a21, b1)), det)
        return box(ip, toarr(ip, (x, y)))
    return opaque(ip, "numpy.linalg.solve", a, k)


def np_inv(ip, a, k):
    A = toarr(ip, a[0])
    if A.ndim == 2 and A.shape[0] == 2:
        a11, a12, a21, a22 = (A.elem((0, 0)), A.elem((0, 1)), A.elem((1, 0)), A.elem((1, 1)))
        det = g.sub(g.mul(a11, a22), g.mul(a12, a21))
        return box(ip, toarr(ip, ((g.div(a22, det), g.neg(g.div(a12, det))), (g.neg(g.div(a21, det)), g.div(a11, det)))))
    return opaque(ip, "numpy.linalg.inv", a, k)


def np_det(ip, a, k):
    A = toarr(ip, a[0])

    def det(rows, cols):
        if len(rows) == 1:
            return A.elem((rows[0], cols[0]))
        r = g.const(0)
        for j, c in enumerate(cols):
            t = g.mul(A.elem((rows[0], c)), det(rows[1:], cols[:j] + cols[j + 1:]))
            r = g.add(r, t) if j % 2 == 0 else g.sub(r, t)
        return r
    n = A.shape[0]
    return det(list(range(n)), list(range(n)))


def np_concat(ip, a, k):
    I = _I()
    xs = [toarr(ip, v) for v in iterate(ip, a[0])]
    ax = arg(a, k, 1, "axis", g.const(0))
    ax = cint(ax) % xs[0].ndim
    if all(isinstance(x.shape[ax], int) for x in xs):
        offs, tot = [], 0
        for x in xs:
            offs.append(tot)
            tot += x.shape[ax]

        def elem(ix):
            i = fixint(ix[ax])
            if isinstance(i, int):
                for x, o in zip(xs, offs):
                    if o <= i < o + x.shape[ax]:
                        return x.elem(tuple(ix[:ax]) + (i - o,) + tuple(ix[ax + 1:]))
            r = None
            for x, o in reversed(list(zip(xs, offs))):
                for t in reversed(range(x.shape[ax])):
                    v = x.elem(tuple(ix[:ax]) + (t,) + tuple(ix[ax + 1:]))
                    r = v if r is None else ip.gate(g.cmp("==", i, g.const(o + t)), v, r)
            return r
        return box(ip, I.Arr(xs[0].shape[:ax] + (tot,) + xs[0].shape[ax + 1:], elem))
    tot = g.const(0)
    for x in xs:
        tot = g.add(tot, dimnode(x.shape[ax]))

    def elem2(ix):
        i = idx(ix[ax])
        off = g.const(0)
        spans = []
        for x in xs:
            spans.append((x, off))
            off = g.add(off, dimnode(x.shape[ax]))
        r = None
        for x, o in reversed(spans):
            v = x.elem(tuple(ix[:ax]) + (fixint(g.sub(i, o)),) + tuple(ix[ax + 1:]))
            r = v if r is None else ip.gate(g.cmp("<", i, g.add(o, dimnode(x.shape[ax]))), v, r)
        return r
    return box(ip, I.Arr(xs[0].shape[:ax] + (mkdim(tot),) + xs[0].shape[ax + 1:], elem2))


def longtable(ip, v):
    """a sequence of arrays that already is one table with a long or symbolic first axis"""
    I = _I()
    u = unbox(ip, v)
    if isinstance(u, I.Arr) and u.ndim > 1 and (not isinstance(u.shape[0], int) or u.shape[0] > 64):
        return u
    return None


def np_stack(ip, a, k, axis=None):
    I = _I()
    ax = axis if axis is not None else cint(arg(a, k, 1, "axis", g.const(0)))
    whole = longtable(ip, a[0])
    if whole is not None and whole.ndim > 1:
        ax %= whole.ndim
        sh = whole.shape[1:]
        return box(ip, I.Arr(sh[:ax] + (whole.shape[0],) + sh[ax:],
                             lambda ix: whole.elem((ix[ax],) + tuple(ix[:ax]) + tuple(ix[ax + 1:]))))
    items = [toarr(ip, v) for v in iterate(ip, a[0])]
    nd = items[0].ndim + 1
    ax %= nd

    def elem(ix):
        i = fixint(ix[ax])
        rest = tuple(ix[:ax]) + tuple(ix[ax + 1:])
        if isinstance(i, int):
            return items[i].elem(rest)
        r = items[-1].elem(rest)
        for t in range(len(items) - 2, -1, -1):
            r = ip.gate(g.cmp("==", i, g.const(t)), items[t].elem(rest), r)
        return r
    sh = items[0].shape
    return box(ip, I.Arr(sh[:ax] + (len(items),) + sh[ax:], elem))


def np_column_stack(ip, a, k):
    whole = longtable(ip, a[0])
    if whole is not None and whole.ndim == 2:
        return np_stack(ip, a, k, axis=1)
    items = [toarr(ip, v) for v in iterate(ip, a[0])]
    if all(x.ndim == 1 for x in items):
        return np_stack(ip, a, k, axis=1)
    return opaque(ip, "numpy.column_stack", a, k)


def np_vstack(ip, a, k):
    whole = longtable(ip, a[0])
    if whole is not None and whole.ndim == 2:
        return box(ip, whole)
    items = [toarr(ip, v) for v in iterate(ip, a[0])]
    if all(x.ndim == 1 for x in items):
        return np_stack(ip, a, k, axis=0)
    return np_concat(ip, [a[0], g.const(0)], {})


def np_outer(ip, a, k):
    I = _I()
    x, y = toarr(ip, a[0]), toarr(ip, a[1])
    return box(ip, I.Arr(x.shape + y.shape, lambda ix: g.mul(x.elem(ix[:x.ndim]), y.elem(ix[x.ndim:]))))


def np_transpose(ip, a, k):
    if not is_arr(a[0]) and not isinstance(a[0], (tuple, _I().Ref)):
        return a[0]
    x = toarr(ip, a[0])
    axes = arg(a, k, 1, "axes")
    if axes is not None:
        axes = [cint(z) for z in iterate(ip, axes)]
    return box(ip, transpose(x, axes))


def np_broadcast_to(ip, a, k):
    I = _I()
    x = toarr(ip, a[0])
    sh = shape_of(ip, a[1] if len(a) > 1 else k["shape"])
    off = len(sh) - x.ndim
    return box(ip, I.Arr(sh, lambda ix: x.elem(tuple(0 if isinstance(x.shape[j], int) and x.shape[j] == 1 else ix[j + off]
                                                     for j in range(x.ndim)))))


def np_tile(ip, a, k):
    I = _I()
    x = toarr(ip, a[0])
    reps = shape_of(ip, a[1])
    if x.ndim == 1 and len(reps) == 2 and reps[1] == 1:
        return box(ip, I.Arr((reps[0], x.shape[0]), lambda ix: x.elem((ix[1],))))
    return opaque(ip, "numpy.tile", a, k)


def np_flip(ip, a, k):
    I = _I()
    x = toarr(ip, a[0])
    if x.ndim != 1:
        return opaque(ip, "numpy.flip", a, k)
    n = x.shape[0]
    return box(ip, I.Arr(x.shape, lambda ix: x.elem((fixint(g.sub(g.sub(dimnode(n), g.const(1)), idx(ix[0]))),))))


def np_isscalar(ip, a, k):
    I = _I()
    return g.TRUE if isinstance(a[0], (Node, str)) else g.FALSE


def np_ravel(ip, a, k):
    x = toarr(ip, a[0])
    if x.ndim <= 1:
        return box(ip, x) if x.ndim else a[0]
    return flatten(ip, x)


def np_size(ip, a, k):
    x = toarr(ip, a[0])
    r = g.const(1)
    if len(a) > 1:
        return dimnode(x.shape[cint(a[1])])
    for d in x.shape:
        r = g.mul(r, dimnode(d))
    return r


def np_shape(ip, a, k):
    return tuple(dimnode(d) for d in toarr(ip, a[0]).shape)


def np_reshape(ip, a, k):
    I = _I()
    x = toarr(ip, a[0])
    sh = a[1:] if len(a) > 2 else iterate(ip, a[1]) if not isinstance(a[1], Node) else [a[1]]
    c = [cint(s) for s in sh]
    # only insertion/removal of unit axes and leading -1
    dims = [d for d in x.shape if not (isinstance(d, int) and d == 1)]
    want = [s for s in c if s != 1]
    if len(dims) == len(want) and all(w == -1 or w is None or w == d for w, d in zip(want, dims)):
        src = [i for i, d in enumerate(x.shape) if not (isinstance(d, int) and d == 1)]
        out, m = [], []
        j = 0
        for s in c:
            if s == 1:
                out.append(1)
            else:
                out.append(dims[j])
                m.append(len(out) - 1)
                j += 1

        def elem(ix):
            full = [0] * x.ndim
            for s, o in zip(src, m):
                full[s] = ix[o]
            return x.elem(tuple(full))
        return box(ip, I.Arr(out, elem))
    if x.ndim == 1 and len(sh) == 2 and isinstance(x.shape[0], int) and x.shape[0] > 64 and \
            isinstance(c[0], int) and isinstance(c[1], int) and c[0] * c[1] == x.shape[0]:
        m = g.const(c[1])
        return box(ip, I.Arr(tuple(c), lambda ix: x.elem((fixint(flatidx(idx(ix[0]), idx(ix[1]), m)),))))
    if x.ndim == 1 and len(sh) == 2 and factors(x.shape[0]):
        n, m = factors(x.shape[0])
        lens = [s if isinstance(s, Node) else g.const(s) for s in sh]
        if all(w is d or (w.op == "const" and w.data == -1) for w, d in zip(lens, (n, m))):
            return box(ip, I.Arr((mkdim(n), mkdim(m)), lambda ix: x.elem((flatidx(idx(ix[0]), idx(ix[1]), m),))))
    if c == [-1] and x.ndim == 2 and not k:
        return flatten(ip, x)
    return opaque(ip, "numpy.reshape", a, k)


def np_expand(ip, a, k):
    I = _I()
    x = toarr(ip, a[0])
    ax = cint(arg(a, k, 1, "axis")) % (x.ndim + 1)
    return box(ip, I.Arr(x.shape[:ax] + (1,) + x.shape[ax:], lambda ix: x.elem(tuple(ix[:ax]) + tuple(ix[ax + 1:]))))


def np_einsum(ip, a, k):
    I = _I()
    sp = a[0]
    if not isinstance(sp, str):
        return opaque(ip, "numpy.einsum", a, k)
    ops = [toarr(ip, v) for v in a[1:]]
    sp = sp.replace(" ", "")
    if "->" in sp:
        ins, out = sp.split("->")
    else:
        ins = sp
        allc = ins.replace(",", "")
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            if c not in dims or not isinstance(dims[c], int):
                dims[c] = d
    summed = [c for c in dims if c not in out]

    def elem(ix):
        env = dict(zip(out, ix))

        def rec(cs, env):
            if not cs:
                r = g.const(1)
                for s, o in zip(ins, ops):
                    r = g.mul(r, o.elem(tuple(env[c] for c in s)))
                return r
            return reduce_sum(ip, dims[cs[0]], lambda t: rec(cs[1:], {**env, cs[0]: t}))
        return rec(summed, env)
    if not out:
        return elem(())
    return box(ip, I.Arr([dims[c] for c in out], elem))


def np_vectorize(ip, a, k):
    I = _I()
    f = a[0]

    def call_(ip, args, kw):
        if not any(is_arr(x) for x in args):
            return elementwise(ip, lambda *xs: ip.call(f, list(xs), kw), *args)
        shape, sub = broadcast(ip, [toarr(ip, x) for x in args])
        arrs = [toarr(ip, x) for x in args]
        return box(ip, tabulate(ip, shape, lambda ix: ip.call(f, [sub(x, tuple(ix)) for x in arrs], kw)))
    return I.PyFn("vectorized", call_)


def np_poly(ip, a, k):
    x = toarr(ip, a[0])
    return PolyVal([g.num(v) for v in iterate(ip, box(ip, x))])


def np_roots(ip, a, k):
    x = iterate(ip, box(ip, toarr(ip, a[0])))
    return polyroots(ip, x[::-1], sorted_=False)


def np_polyval(ip, a, k):
    x = iterate(ip, box(ip, toarr(ip, a[0])))
    return polyval(ip, PolyVal(x[::-1]), a[1])


def np_diag(ip, a, k):
    I = _I()
    x = toarr(ip, a[0])
    if x.ndim == 1 and isinstance(x.shape[0], int):
        n = x.shape[0]
        return box(ip, toarr(ip, tuple(tuple(x.elem((i,)) if i == j else g.const(0) for j in range(n)) for i in range(n))))
    return opaque(ip, "numpy.diag", a, k)


def np_eye(ip, a, k):
    n = cint(a[0])
    return box(ip, toarr(ip, tuple(tuple(g.const(int(i == j)) for j in range(n)) for i in range(n))))


def np_clip(ip, a, k):
    return elementwise(ip, lambda x, lo, hi: g.app("clip", g.num(x), g.num(lo), g.num(hi)),
                       a[0], arg(a, k, 1, "a_min"), arg(a, k, 2, "a_max"))


def np_isclose(ip, a, k):
    rt = arg(a, k, 2, "rtol", g.const(Fraction("1e-5")))
    at = arg(a, k, 3, "atol", g.const(Fraction("1e-8")))
    return elementwise(ip, lambda x, y: g.cmp("<=", g.absv(g.sub(x, y)), g.add(at, g.mul(rt, g.absv(y)))), a[0], a[1])


def np_sort(ip, a, k):
    return sort_arr(ip, toarr(ip, a[0]))


def np_mean(ip, a, k):
    x = toarr(ip, a[0])
    s = np_sum(ip, a, k)
    ax = arg(a, k, 1, "axis")
    n = np_size(ip, [a[0]], {}) if ax is None else dimnode(x.shape[cint(ax)])
    return elementwise(ip, g.div, s, n)


def np_allany(conj):
    def f(ip, a, k):
        x = unbox(ip, a[0])
        if isinstance(x, Node):
            return g.truth(x)
        x = toarr(ip, a[0])
        f2 = (lambda p, q: g.land(p, q)) if conj else (lambda p, q: g.lor(p, q))
        return reduce_axis(ip, x, arg(a, k, 1, "axis"), red("all" if conj else "any", f2, None)(ip))
    return f


def np_cross(ip, a, k):
    x, y = toarr(ip, a[0]), toarr(ip, a[1])
    if x.shape == (3,) and y.shape == (3,):
        e = lambda v, i: v.elem((i,))
        return box(ip, toarr(ip, tuple(g.sub(g.mul(e(x, (i + 1) % 3), e(y, (i + 2) % 3)), g.mul(e(x, (i + 2) % 3), e(y, (i + 1) % 3))) for i in range(3))))
    return opaque(ip, "numpy.cross", a, k)


NP = {
    "array": np_array, "asarray": np_asarray, "atleast_1d": np_asarray, "linspace": np_linspace, "arange": np_arange,
    "zeros": np_fill(g.const(0)), "ones": np_fill(g.const(1)), "empty": np_fill(g.mk("undef")), "full": np_fill(None),
    "zeros_like": np_like(g.const(0)), "ones_like": np_like(g.const(1)), "full_like": np_like(None),
    "empty_like": np_like(g.mk("undef")), "cross": np_cross,
    "meshgrid": np_meshgrid, "linalg.norm": np_norm, "sum": np_sum, "where": np_where, "linalg.solve": np_solve,
    "linalg.inv": np_inv, "linalg.det": np_det, "dot": lambda ip, a, k: dot(ip, a[0], a[1]), "vdot": lambda ip, a, k: dot(ip, a[0], a[1]),
    "matmul": lambda ip, a, k: dot(ip, a[0], a[1]), "inner": lambda ip, a, k: dot(ip, a[0], a[1]), "concatenate": np_concat,
    "stack": np_stack, "column_stack": np_column_stack, "vstack": np_vstack, "outer": np_outer, "transpose": np_transpose,
    "broadcast_to": np_broadcast_to, "flip": np_flip, "isscalar": np_isscalar, "ravel": np_ravel, "size": np_size,
    "shape": np_shape, "reshape": np_reshape, "expand_dims": np_expand, "einsum": np_einsum, "vectorize": np_vectorize,
    "polynomial.Polynomial": np_poly, "roots": np_roots, "polyval": np_polyval, "diag": np_diag, "eye": np_eye,
    "identity": np_eye, "clip": np_clip, "isclose": np_isclose, "sort": np_sort, "mean": np_mean, "all": np_allany(True),
    "any": np_allany(False), "min": np_red("min", fmin, None), "max": np_red("max", fmax, None),
    "nanmin": np_red("nanmin", lambda x, y: g.app("nanmin", x, y), None), "nanmax": np_red("nanmax", lambda x, y: g.app("nanmax", x, y), None),
    "prod": np_red("prod", g.mul, g.const(1)), "tile": np_tile, "float": lambda ip, a, k: a[0], "ndim": lambda ip, a, k: g.const(toarr(ip, a[0]).ndim),
    "errstate": lambda ip, a, k: g.mk("app", (), "call.errstate"), "seterr": lambda ip, a, k: None,
    "hstack": np_concat, "bool_": lambda ip, a, k: g.truth(a[0]), "complex128": lambda ip, a, k: a[0],
    "count_nonzero": lambda ip, a, k: np_sum(ip, [elementwise(ip, lambda x: g.num(g.truth(x)), a[0])] + a[1:], k),
    "moveaxis": lambda ip, a, k: opaque(ip, "numpy.moveaxis", a, k),
    "sqrt": lambda ip, a, k: elementwise(ip, g.sqrt, a[0]),
}


# builtins --------------------------------------------------------------------
def bi_abs(ip, a, k):
    return elementwise(ip, g.absv, a[0])


def bi_minmax(f, name):
    def h(ip, a, k):
        I = _I()
        if len(a) == 1:
            x = unbox(ip, a[0])
            if isinstance(x, I.Arr) and not all(isinstance(d, int) for d in x.shape):
                return np_red(name, f, None)(ip, a, {})
            items = iterate(ip, a[0])
        else:
            items = a
        if k.get("key") is not None:
            # extremum by key: opaque symmetric selection
            return g.mk("app", tuple(g.num(ip.call(k["key"], [x], {})) for x in items) + tuple(g.num(x) for x in items), name + "_by")
        if not items:
            ip.complete("raise", I.ExcVal("ValueError"))
        r = items[0]
        for x in items[1:]:
            r = ip.liftn(f, [r, x])
        return r
    return h


def bi_len(ip, a, k):
    I = _I()
    v = unbox(ip, a[0])
    if isinstance(v, I.Arr):
        if v.ndim == 0:
            ip.complete("raise", I.ExcVal("TypeError"))
        return dimnode(v.shape[0])
    if isinstance(v, (tuple, str)):
        return g.const(len(v))
    if isinstance(v, I.Lazy):
        ip.complete("raise", I.ExcVal("TypeError"))
    if isinstance(v, I.Ref):
        if v.kind == "inst":
            m, _ = v.meta.lookup("__len__")
            return ip.call(m, [v], {})
        return g.const(len(ip.content(v)))
    if isinstance(v, I.RangeVal):
        return rangelen(v)
    if isinstance(v, Node) and v.op == "app":
        return g.app("len", v)
    ip.complete("raise", I.ExcVal("TypeError"))


def bi_range(ip, a, k):
    I = _I()
    if len(a) == 1:
        return I.RangeVal(g.const(0), a[0], g.const(1))
    return I.RangeVal(a[0], a[1], a[2] if len(a) > 2 else g.const(1))


def bi_enumerate(ip, a, k):
    I = _I()
    s = arg(a, k, 1, "start", g.const(0))
    seq = iter_or_sym(ip, a[0])
    if isinstance(seq, I.SymIter):
        return I.SymIter(seq.dims, lambda ix: (g.add(ix[0], s), seq.item(ix)))
    return I.Lazy([(g.add(g.const(i), s), x) for i, x in enumerate(seq)])


def bi_zip(ip, a, k):
    I = _I()
    seqs = [iter_or_sym(ip, x) for x in a]
    sy = [s for s in seqs if isinstance(s, I.SymIter)]
    if sy:
        def item(ix):
            out = []
            for s in seqs:
                if isinstance(s, I.SymIter):
                    out.append(s.item(ix))
                else:
                    raise I.Unsupported("zip of symbolic and concrete")
            return tuple(out)
        return I.SymIter(sy[0].dims, item)
    return I.Lazy(list(zip(*seqs)))


def bi_tuple(ip, a, k):
    return tuple(iterate(ip, a[0])) if a else ()


def bi_list(ip, a, k):
    I = _I()
    if a:
        u = unbox(ip, a[0])
        if isinstance(u, I.Arr) and not isinstance(u.shape[0], int):
            return box(ip, u)
        if isinstance(u, I.SymIter):
            raise I.Unsupported("list of symbolic iterator")
    return ip.new("list", iterate(ip, a[0]) if a else [])


def bi_dict(ip, a, k):
    d = {}
    if a:
        I = _I()
        if isinstance(a[0], I.Ref) and a[0].kind == "dict":
            d.update(ip.content(a[0]))
        else:
            for it in iterate(ip, a[0]):
                kv, vv = iterate(ip, it, 2)
                d[key(kv)] = (kv, vv)
    for kk, vv in k.items():
        d[key(kk)] = (kk, vv)
    return ip.new("dict", d)


def bi_float(ip, a, k):
    I = _I()
    if not a:
        return g.const(0)
    v = unbox(ip, a[0])
    if isinstance(v, str):
        t = v.strip().lower()
        if t in ("nan",):
            return g.NAN
        if t in ("inf", "+inf", "infinity"):
            return g.INF
        if t == "-inf":
            return g.neg(g.INF)
        try:
            return g.const(Fraction(v))
        except ValueError:
            ip.complete("raise", I.ExcVal("ValueError"))
    if isinstance(v, Node):
        return g.num(v)
    if isinstance(v, I.Arr) and v.ndim == 0:
        return v.elem(())
    if isinstance(v, I.Arr):
        if ip.strict_scalar:
            ip.complete("raise", I.ExcVal("TypeError"))
        return box(ip, v)
    ip.complete("raise", I.ExcVal("TypeError"))


def bi_int(ip, a, k):
    v = unbox(ip, a[0])
    if isinstance(v, Node):
        c = g.cval(g.num(v))
        if c is not None:
            return g.const(int(c))
        if v.op == "app" and v.data == "int":
            return v
        return g.app("int", g.num(v))
    raise _I().Unsupported("int()")


def bi_round(ip, a, k):
    return g.app("round", *[g.num(x) for x in a])


def bi_sum(ip, a, k):
    I = _I()
    u = unbox(ip, a[0])
    start = arg(a, k, 1, "start", g.const(0))
    if isinstance(u, I.Arr) and not all(isinstance(d, int) for d in u.shape[:1]):
        return ip.binop("Add", start, reduce_axis(ip, u, g.const(0), lambda n, t: reduce_sum(ip, n, t)))
    r = start
    for x in iterate(ip, a[0]):
        r = ip.binop("Add", r, x)
    return r


def bi_any(conj):
    def f(ip, a, k):
        I = _I()
        u = unbox(ip, a[0])
        if isinstance(u, I.Arr) and not isinstance(u.shape[0], int):
            return np_allany(conj)(ip, a, k)
        r = g.TRUE if conj else g.FALSE
        for x in iterate(ip, a[0]):
            t = ip.truth(x)
            r = g.land(r, t) if conj else g.lor(r, t)
        return r
    return f


def bi_map(ip, a, k):
    I = _I()
    seqs = [iter_or_sym(ip, x) for x in a[1:]]
    if any(isinstance(s, I.SymIter) for s in seqs):
        s = seqs[0]
        return box(ip, tabulate(ip, [s.dims[0]], lambda ix: ip.call(a[0], [q.item(ix) for q in seqs], {})))
    return I.Lazy([ip.call(a[0], list(t), {}) for t in zip(*seqs)])


def bi_filter(ip, a, k):
    items = iterate(ip, a[1])
    conds = [ip.truth(ip.call(a[0], [x], {})) if a[0] is not None else ip.truth(x) for x in items]
    if all(c in (g.TRUE, g.FALSE) for c in conds):
        return _I().Lazy([x for c, x in zip(conds, items) if c is g.TRUE])
    return select(ip, conds, items)


def bi_sorted(ip, a, k):
    if k.get("key") is not None:
        raise _I().Unsupported("sorted with key")
    I0 = _I()
    if isinstance(a[0], I0.Ref) and isinstance(ip.content(a[0]), (dict, set, list)) or isinstance(a[0], tuple):
        items = iterate(ip, a[0])
        if all(isinstance(x, str) for x in items):
            return ip.new("list", sorted(items, reverse=bool(truthy(k.get("reverse")))))
    s = sort_arr(ip, toarr(ip, a[0]))
    if truthy(k.get("reverse")):
        x = unbox(ip, s)
        if isinstance(x.shape[0], int):
            return ip.new("list", iterate(ip, s)[::-1])
        n = x.shape[0]
        I = _I()
        return box(ip, I.Arr(x.shape, lambda ix: x.elem((fixint(g.sub(n, g.const(1 + ix[0] if isinstance(ix[0], int) else 0))),))
                             if isinstance(ix[0], int) else x.elem((g.sub(g.sub(n, g.const(1)), ix[0]),))))
    return s


def bi_reversed(ip, a, k):
    u = unbox(ip, a[0])
    seq = iter_or_sym(ip, u) if isinstance(u, (_I().RangeVal, _I().Arr)) else None
    if isinstance(seq, _I().SymIter) and len(seq.dims) == 1:
        last = g.sub(dimnode(seq.dims[0]), g.const(1))
        return _I().SymIter(seq.dims, lambda ix: seq.item((g.sub(last, idx(ix[0])),)))
    return _I().Lazy(iterate(ip, a[0])[::-1])


NUMTYPES = {"float", "int", "complex", "bool", "Number", "Real", "Integral", "number", "floating", "integer", "Rational"}


def bi_isinstance(ip, a, k):
    I = _I()
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(v, I.Gated):
        return ip.lift(lambda v: bi_isinstance(ip, [v, t], k), v)
    r = False
    for x in ts:
        if isinstance(x, I.ClassVal):
            if isinstance(v, I.Ref) and v.kind == "inst" and x in v.meta.mro():
                r = True
            if isinstance(v, I.NT) and v.cls is x:
                r = True
            continue
        n = x.name.rsplit(".", 1)[-1] if isinstance(x, I.LibFn) else None
        if n is None:
            raise I.Unsupported("isinstance type")
        if isinstance(v, Node):
            if n in NUMTYPES:
                if n == "bool":
                    r |= I.isb(v)
                elif n in ("int", "Integral", "integer"):
                    r |= I.isb(v) or (v.op == "const" and v.data.denominator == 1)
                elif n == "complex":
                    r |= v.op == "complex"
                else:
                    r = True
        elif isinstance(v, I.Ref):
            r |= {"list": ("list", "Sequence", "Iterable", "MutableSequence"), "dict": ("dict", "Mapping"),
                  "arr": ("ndarray", "Iterable"), "set": ("set",)}.get(v.kind, ()).__contains__(n)
        elif isinstance(v, tuple):
            r |= n in ("tuple", "Sequence", "Iterable")
        elif isinstance(v, str):
            r |= n in ("str", "Sequence", "Iterable")
        elif isinstance(v, (I.Func, I.PyFn, I.LibFn, I.Bound)):
            r |= n in ("Callable", "FunctionType")
    return g.TRUE if r else g.FALSE


def bi_getattr(ip, a, k):
    I = _I()
    if isinstance(a[0], I.Ref) and a[0].kind == "inst" and isinstance(a[1], str):
        if a[1] in ip.content(a[0]) or a[0].meta.lookup(a[1])[1] is not None:
            v = ip.content(a[0]).get(a[1])
            if len(a) > 2 and a[0].meta.lookup(a[1])[1] is None and I.has_unbound(v):
                return ip.branch(present(ip, v), lambda: ip.need(v), lambda: a[2])
            return getattr(ip, a[0], a[1])
        if len(a) > 2:
            return a[2]
    if isinstance(a[0], I.ClassVal) and len(a) > 2 and a[0].lookup(a[1])[1] is None:
        return a[2]
    if isinstance(a[0], (I.Func, I.PyFn)) and len(a) > 2:
        if a[1] not in ip.heap[ip.fattrs(a[0]).id]:
            return a[2]
    if not isinstance(a[1], str):
        raise I.Unsupported("getattr name")
    return getattr(ip, a[0], a[1])


def bi_hasattr(ip, a, k):
    I = _I()
    if isinstance(a[0], I.Ref) and a[0].kind == "inst":
        v = ip.content(a[0]).get(a[1], I.UNBOUND)
        if a[0].meta.lookup(a[1])[1] is not None:
            return g.TRUE
        return present(ip, v)
    if isinstance(a[0], I.ClassVal):
        return g.FALSE if a[0].lookup(a[1])[1] is None else g.TRUE
    if isinstance(a[0], Node):
        return g.FALSE
    if is_arr(a[0]):
        return g.TRUE if a[1] in ARRM or a[1] in ("shape", "__len__", "__iter__", "ndim") else g.FALSE
    if isinstance(a[0], (I.Func, I.PyFn)):
        return present(ip, ip.heap[ip.fattrs(a[0]).id].get(a[1], I.UNBOUND))
    if isinstance(a[0], (tuple, I.Ref)):
        return g.TRUE if a[1] in ("__len__", "__iter__") else g.FALSE
    raise I.Unsupported("hasattr")


def bi_type(ip, a, k):
    I = _I()
    v = a[0]
    if isinstance(v, I.Ref) and v.kind == "inst":
        return v.meta
    if isinstance(v, I.NT):
        return v.cls
    if isinstance(v, Node):
        return I.LibFn("builtins.float")
    if isinstance(v, tuple):
        return I.LibFn("builtins.tuple")
    if isinstance(v, str):
        return I.LibFn("builtins.str")
    if isinstance(v, I.Ref):
        return I.LibFn({"list": "builtins.list", "dict": "builtins.dict", "arr": "numpy.ndarray"}[v.kind])
    if v is None:
        return I.LibFn("builtins.NoneType")
    raise I.Unsupported("type()")


def bi_complex(ip, a, k):
    re, im = a[0], a[1] if len(a) > 1 else g.const(0)
    return g.mk("complex", (g.num(re), g.num(im)))


def bi_setattr(ip, a, k):
    ip.setattr(a[0], a[1], a[2])


def bi_iter(ip, a, k):
    return _I().Lazy(iterate(ip, a[0]))


def bi_next(ip, a, k):
    I = _I()
    if isinstance(a[0], I.Lazy):
        if not a[0].items:
            if len(a) > 1:
                return a[1]
            ip.complete("raise", I.ExcVal("StopIteration"))
        x = a[0].items[0]
        a[0].items = a[0].items[1:]
        return x
    u = unbox(ip, a[0])
    if isinstance(u, I.Arr):
        d = u.shape[0]
        if isinstance(d, int) and d > 0:
            return u.elem((0,))
        if len(a) > 1:
            return ip.branch(g.cmp(">", dimnode(d), g.const(0)), lambda: u.elem((0,)), lambda: a[1])
    raise I.Unsupported("next()")


def bi_callable(ip, a, k):
    I = _I()
    return g.TRUE if isinstance(a[0], (I.Func, I.PyFn, I.LibFn, I.Bound, I.ClassVal)) or (
        isinstance(a[0], Node) and a[0].op == "var" and a[0].data.startswith("fn:")) else g.FALSE


BI = {
    "abs": bi_abs, "min": bi_minmax(fmin, "min"), "max": bi_minmax(fmax, "max"), "len": bi_len, "range": bi_range,
    "enumerate": bi_enumerate, "zip": bi_zip, "tuple": bi_tuple, "list": bi_list, "dict": bi_dict, "float": bi_float,
    "int": bi_int, "round": bi_round, "sum": bi_sum, "any": bi_any(False), "all": bi_any(True), "map": bi_map,
    "filter": bi_filter, "sorted": bi_sorted, "reversed": bi_reversed, "isinstance": bi_isinstance,
    "getattr": bi_getattr, "hasattr": bi_hasattr, "type": bi_type, "complex": bi_complex, "setattr": bi_setattr,
    "iter": bi_iter, "next": bi_next, "bool": lambda ip, a, k: ip.truth(a[0]) if a else g.FALSE, "str": lambda ip, a, k: a[0] if a and isinstance(a[0], str) else "<str>",
    "repr": lambda ip, a, k: "<str>", "format": lambda ip, a, k: "<str>", "print": lambda ip, a, k: None,
    "pow": lambda ip, a, k: ip.binop("Pow", a[0], a[1]), "divmod": lambda ip, a, k: (ip.binop("FloorDiv", a[0], a[1]), ip.binop("Mod", a[0], a[1])),
    "callable": bi_callable, "set": lambda ip, a, k: ip.new("set", iterate(ip, a[0]) if a else []),
    "frozenset": lambda ip, a, k: ip.new("set", iterate(ip, a[0]) if a else []),
    "slice": lambda ip, a, k: slice(*([None, a[0], None] if len(a) == 1 else (list(a) + [None])[:3])),
    "id": lambda ip, a, k: g.app("id", reify(ip, a[0])), "hash": lambda ip, a, k: g.app("hash", reify(ip, a[0])),
    "property": lambda ip, a, k: _I().Descr("property", a[0]), "vars": lambda ip, a, k: getattr(ip, a[0], "__dict__"),
    "staticmethod": lambda ip, a, k: _I().Descr("static", a[0]), "classmethod": lambda ip, a, k: _I().Descr("classm", a[0]),
    "object": lambda ip, a, k: g.mk("app", (), "call.object"), "issubclass": lambda ip, a, k: g.TRUE if a[1] in a[0].mro() else g.FALSE,
}


# other libraries ---------------------------------------------------------------
def root_find(ip, f, args, lo, hi, extra):
    I = _I()
    ip.roots += 1
    try:
        b = g.var(f"#root{ip.roots}")
        v = ip.call(f, [b] + list(args), {})
        if not isinstance(v, Node):
            raise I.Unsupported("root function value")
        return g.mk("app", (v, lo, hi, b) + extra, "root")
    finally:
        ip.roots -= 1


def ot_root_scalar(ip, a, k):
    I = _I()
    f = arg(a, k, 0, "f")
    args = arg(a, k, 1, "args", ())
    args = iterate(ip, args) if not isinstance(args, Node) else [args]
    br = arg(a, k, 3, "bracket")
    if br is None:
        return opaque(ip, "scipy.optimize.root_scalar", a, k)
    lo, hi = iterate(ip, br, 2)
    m = arg(a, k, 2, "method")
    extra = []
    for kk in sorted(k):
        if kk in ("f", "args", "bracket", "maxiter") or (kk == "method" and m in ("brentq", "brenth", "bisect", "toms748", "ridder")):
            continue
        if k[kk] is None:
            continue
        if kk in ("xtol", "rtol") and isinstance(k[kk], Node) and k[kk].op == "const" and k[kk].data <= Fraction("1e-11"):
            continue
        extra.append(g.mk("kw", (reify(ip, k[kk]),), kk))
    r = root_find(ip, f, args, lo, hi, tuple(extra))
    return Obj("RootResults", root=r, converged=g.TRUE, iterations=g.app("iterations", r), flag="<str>", function_calls=g.app("calls", r))


def ot_brentq(ip, a, k):
    args = k.get("args", a[3] if len(a) > 3 else ())
    args = iterate(ip, args) if not isinstance(args, Node) else [args]
    extra = []
    for kk in sorted(k):
        if kk in ("xtol", "rtol") and isinstance(k[kk], Node) and k[kk].op == "const" and k[kk].data > Fraction("1e-11"):
            extra.append(g.mk("kw", (k[kk],), kk))
    return root_find(ip, arg(a, k, 0, "f"), args, arg(a, k, 1, "a"), arg(a, k, 2, "b"), tuple(extra))


def ot_partial(ip, a, k):
    I = _I()
    f, pre, pk = a[0], list(a[1:]), dict(k)
    return I.PyFn("partial", lambda ip, args, kw: ip.call(f, pre + list(args), {**pk, **kw}))


def ot_lru(ip, a, k):
    I = _I()
    if a and isinstance(a[0], (I.Func, I.PyFn)):
        return a[0]
    return I.PyFn("lru_cache", lambda ip, args, kw: cached(ip, args[0]))


def cached(ip, f):
    """functools.lru_cache: arguments must be hashable, and a returned mutable object is the one returned before"""
    I = _I()
    if isinstance(f, I.Func) and f.memo is None:
        c = copy.copy(f)
        c.memo = ip.new("dict", {})
        c.plain = f
        return c
    return f


def mutable(v):
    I = _I()
    if isinstance(v, I.Ref):
        return True
    if isinstance(v, (tuple, list)):
        return any(mutable(x) for x in v)
    if isinstance(v, I.Gated):
        return mutable(v.a) or mutable(v.b)
    return isinstance(v, I.Lazy)


def unhashable(v):
    I = _I()
    if isinstance(v, I.Ref):
        return v.kind in ("list", "dict", "arr", "set")
    if isinstance(v, tuple):
        return any(unhashable(x) for x in v)
    return isinstance(v, I.Arr)


def call_cached(ip, f, args, kw):
    I = _I()
    vals = list(args) + list(kw.values())
    for i, v in enumerate(vals):
        if isinstance(v, I.Gated):
            return ip.lift(lambda w: call_cached(ip, f, [w if j == i else x for j, x in enumerate(args)],
                                                 {n: w if len(args) + j == i else x for j, (n, x) in enumerate(kw.items())}), v)
    if any(unhashable(v) for v in vals):
        ip.complete("raise", I.ExcVal("TypeError"))
    k = ("K", "t") + tuple(key(x) for x in vals) + tuple(kw)
    d = ip.content(f.memo)
    if k in d and not I.has_unbound(d[k][1]) and not I.has_unbound(d[k]):
        return d[k][1]
    r = ip.call(f.plain, args, kw)
    if mutable(r):
        ip.write(f.memo, {**ip.content(f.memo), k: (tuple(args), r)})
    return r


def ot_identity_deco(ip, a, k):
    I = _I()
    if a and isinstance(a[0], (I.Func, I.PyFn, I.ClassVal)):
        return a[0]
    p = I.PyFn("deco", lambda ip, args, kw: args[0])
    return p


def ot_wraps(ip, a, k):
    return _I().PyFn("wraps", lambda ip, args, kw: args[0])


def ot_dataclass(ip, a, k):
    I = _I()
    p = I.PyFn("dataclass", lambda ip, args, kw: args[0])
    p.libname = "dataclasses.dataclass"
    return p


def ot_namedtuple(ip, a, k):
    I = _I()
    names = a[1]
    names = names.replace(",", " ").split() if isinstance(names, str) else iterate(ip, names)
    c = I.ClassVal(a[0], [], {}, None, a[0])
    c.kind = "namedtuple"
    c.fields = [(n, I.UNBOUND) for n in names]
    d = k.get("defaults")
    if d is not None:
        ds = iterate(ip, d)
        for i, x in enumerate(ds):
            j = len(names) - len(ds) + i
            c.fields[j] = (names[j], x)
    return c


def ot_product(ip, a, k):
    I = _I()
    seqs = [iter_or_sym(ip, x) for x in a]
    if any(isinstance(s, I.SymIter) for s in seqs):
        dims, pos = [], []
        for s in seqs:
            if not isinstance(s, I.SymIter):
                raise I.Unsupported("product of symbolic and concrete")
            pos.append((len(dims), len(s.dims)))
            dims += s.dims
        return I.SymIter(dims, lambda ix: tuple(s.item(ix[p:p + n]) for s, (p, n) in zip(seqs, pos)))
    import itertools
    return I.Lazy(list(itertools.product(*seqs)))


def ot_ndindex(ip, a, k):
    I = _I()
    sh = shape_of(ip, a[0]) if len(a) == 1 and not isinstance(a[0], Node) else tuple(mkdim(x) for x in a)
    return I.SymIter(list(sh), lambda ix: tuple(idx(i) for i in ix))


def ot_ndenumerate(ip, a, k):
    I = _I()
    x = toarr(ip, a[0])
    return I.SymIter(list(x.shape), lambda ix: (tuple(idx(i) for i in ix), x.elem(tuple(ix))))


def ot_reduce(ip, a, k):
    items = iterate(ip, a[1])
    if len(a) > 2:
        items = [a[2]] + items
    r = items[0]
    for x in items[1:]:
        r = ip.call(a[0], [r, x], {})
    return r


NP["ndindex"] = ot_ndindex
NP["ndenumerate"] = ot_ndenumerate


def opf(op):
    return lambda ip, a, k: ip.binop(op, a[0], a[1])


OTHER = {
    "kg_engine.drawn": drawn, "scipy.optimize.root_scalar": ot_root_scalar, "scipy.optimize.brentq": ot_brentq, "scipy.optimize.bisect": ot_brentq,
    "functools.partial": ot_partial, "functools.lru_cache": ot_lru, "functools.cache": ot_lru,
    "functools.wraps": ot_wraps, "functools.reduce": ot_reduce, "dataclasses.dataclass": ot_dataclass,
    "collections.namedtuple": ot_namedtuple, "itertools.product": ot_product, "polyroots": lambda ip, a, k: polyroots(ip, [g.num(x) for x in iterate(ip, box(ip, toarr(ip, a[0])))]),
    "operator.mul": opf("Mult"), "op.add": opf("Add"), "operator.sub": opf("Sub"), "operator.truediv": opf("Div"),
    "copy.copy": lambda ip, a, k: copyval(ip, a[0]), "copy.deepcopy": lambda ip, a, k: copyval(ip, a[0]),
    "warnings.warn": lambda ip, a, k: None, "warnings.simplefilter": lambda ip, a, k: None,
    "warnings.filterwarnings": lambda ip, a, k: None, "math.isclose": lambda ip, a, k: g.cmp("<=", g.absv(g.sub(a[0], a[1])), g.fn("app", a[0], a[1], data="isclose_tol")),
    "logging.getLogger": lambda ip, a, k: g.mk("app", (), "call.logger"),
    "collections.OrderedDict": bi_dict, "collections.defaultdict": lambda ip, a, k: (_ for _ in ()).throw(_I().Unsupported("defaultdict")),
    "types.SimpleNamespace": lambda ip, a, k: Obj("ns", **k), "itertools.chain": lambda ip, a, k: _I().Lazy([x for s in a for x in iterate(ip, s)]),
    "itertools.repeat": lambda ip, a, k: _I().Lazy([a[0]] * cint(a[1])), "operator.itemgetter": lambda ip, a, k: _I().PyFn("itemgetter", lambda ip, b, kk: getitem(ip, b[0], a[0])),
    "types.MappingProxyType": lambda ip, a, k: a[0], "enum.Enum": lambda ip, a, k: a[0],
    "threading.Lock": lambda ip, a, k: g.mk("app", (), "call.Lock"),
}


def copyval(ip, v):
    I = _I()
    if isinstance(v, I.Ref) and v.kind in ("list", "dict", "arr", "set"):
        return ip.new(v.kind, ip.content(v))
    if isinstance(v, I.Ref) and v.kind == "inst":
        return ip.new("inst", dict(ip.content(v)), v.meta)
    return v
