"""Congruence of value graphs: global value numbering by random interpretation over GF(q**2).

Two gated value graphs are compared under a *decision context* (a cell of a decision diagram):
every input lies in a point or an open interval between thresholds found in the graphs, compound
quantities that guard a branch carry a sign state, opaque predicates carry a truth value.  When a
guard is not determined by the context the context is split; in a fully decided context both
graphs are gate-free and are compared by fingerprint.
"""
import sys
from fractions import Fraction
from math import isqrt
from . import graph as g, field as F
from .graph import Node
from .bdd import Manager, TooBig

sys.setrecursionlimit(200000)
Q = F.Q
BASE_T = [Fraction(-1), Fraction(0), Fraction(1)]


class _U:
    def __repr__(self):
        return "undefined"


UNDEF = _U()


class Tok(tuple):
    """non-numeric value (strings, None, tuples ...)"""


class Inf:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Inf) and o.s == self.s

    def __hash__(self):
        return hash(("inf", self.s))

    def __repr__(self):
        return f"Inf({self.s})"


PINF, NINF = Inf(1), Inf(-1)


class Split(Exception):
    def __init__(self, alts):
        self.alts = alts


class Budget(Exception):
    def __init__(self, msg, found=()):
        super().__init__(msg)
        self.found = list(found)


class Region:
    """open interval (lo, hi), a point, NaN, or "ne" (every real except lo)"""
    __slots__ = ("kind", "lo", "hi", "lc", "hc")

    def __init__(self, kind, lo=None, hi=None, lc=False, hc=False):
        self.kind = kind
        self.lc, self.hc = lc, hc       # closed ends (only used for compound quantities)
        self.lo = None if lo is None else Fraction(lo)
        self.hi = None if hi is None else Fraction(hi)

    def side(self, t):
        """-1/0/1 position of the region relative to t, None if undetermined"""
        if self.kind == "pt":
            return (self.lo > t) - (self.lo < t)
        if self.kind == "ne":
            return None
        if self.hi is not None and (self.hi < t or self.hi == t and not self.hc):
            return -1
        if self.lo is not None and (self.lo > t or self.lo == t and not self.lc):
            return 1
        return None

    def test(self, t, mode):
        """-1/0/1 or None; mode "lt" only separates <t from >=t, "gt" >t from <=t, "eq" ==t from !=t"""
        s = self.side(t)
        if s is not None:
            return s
        if mode == "eq":
            return 1 if self.kind == "ne" and self.lo == t else None
        if self.kind == "iv":
            if mode == "lt" and self.lo == t:
                return 1
            if mode == "gt" and self.hi == t:
                return -1
        return None

    def split(self, t, mode):
        if self.kind == "iv":
            lt = Region("iv", self.lo, t, self.lc, False)
            gt = Region("iv", t, self.hi, False, self.hc)
            if mode == "lt":
                return [lt, Region("iv", t, self.hi, True, self.hc)]
            if mode == "gt":
                return [Region("iv", self.lo, t, self.lc, True), gt]
            if mode == "eq" and self.lo is None and self.hi is None:
                return [Region("pt", t, t), Region("ne", t, t)]
            out = []
            if not (self.lo == t):
                out.append(lt)
            out.append(Region("pt", t, t))
            if not (self.hi == t):
                out.append(gt)
            return out
        return self.cut(t)

    def cut(self, t):
        if self.kind == "ne":
            if t == self.lo:
                return [Region("iv", None, t), Region("iv", t, None)]
            a, b = sorted((t, self.lo))
            return [Region("iv", None, a), Region("iv", a, b), Region("iv", b, None), Region("pt", t, t)]
        return ([Region("iv", self.lo, t, self.lc)] if self.lo != t else []) + [Region("pt", t, t)] + \
            ([Region("iv", t, self.hi, False, self.hc)] if self.hi != t else [])

    def show(self, n):
        if self.kind == "nan":
            return f"{n}=NaN"
        if self.kind == "pt":
            return f"{n}={self.lo}"
        if self.kind == "ne":
            return f"{n}!={self.lo}"
        if self.lo is None and self.hi is None:
            return None
        l = "" if self.lo is None else f"{fr(self.lo)}<"
        h = "" if self.hi is None else f"<{fr(self.hi)}"
        return f"{l}{n}{h}"


def fr(f):
    return str(f) if f.denominator < 1000 else f"{float(f):.6g}"


def iv(lo=None, hi=None):
    return Region("iv", lo, hi)


def pt(x):
    return Region("pt", x, x)


FREE = iv()
UNIT = Region("iv", 0, 1, True, True)


class Ctx:
    def __init__(self, regions, lines=(), bools=(), seeds=None, solved=()):
        self.regions = regions
        self.lines = list(lines)        # (node, Region)
        self.bools = list(bools)        # (op, data, argnodes, value)
        self.seeds = seeds
        self.solved = dict(solved)
        self.impossible = False

    def describe(self):
        out = []
        for v, r in self.regions.items():
            s = r.show(v)
            if s and v != "pi":
                out.append(s)
        for n, r in self.lines:
            s = r.show("{" + g.show(n, 4) + "}")
            if s:
                out.append(s)
        for op, data, args, val in self.bools:
            out.append(("" if val else "not ") + f"{data or op}({', '.join(g.show(a, 3) for a in args)})")
        return out


_support = {}


def support(n):
    s = _support.get(n.id)
    if s is None:
        # iterative post-order
        stack = [(n, 0)]
        while stack:
            x, st = stack.pop()
            if x.id in _support:
                continue
            if st == 0:
                stack.append((x, 1))
                for a in x.args:
                    if a.id not in _support:
                        stack.append((a, 0))
            else:
                if x.op == "var":
                    r = frozenset([x.data])
                elif x.op == "pi":
                    r = frozenset(["pi"])
                elif not x.args:
                    r = frozenset()
                elif len(x.args) == 1:
                    r = _support[x.args[0].id]
                else:
                    r = frozenset().union(*[_support[a.id] for a in x.args])
                _support[x.id] = r
        s = _support[n.id]
    return s


_samples = {}
CUBE_D = pow(3, -1, (Q - 1) // 27)


class Ev:
    """fingerprint evaluator for one context with sample seeds"""

    def __init__(self, ctx, seeds):
        self.ctx, self.seeds = ctx, list(seeds)
        self.K = len(self.seeds)
        self.memo = {}
        self.open_lines = set()
        self.open_roots, self.rooted = set(), {}     # roots not known to be real or not; nodes depending on them
        self.powers = {}
        self.mgr, self.care = None, 1                # diagrams of undetermined conditions; assignments still possible
        self.diagrams, self.gates = {}, {}
        self.vals = {}
        self.rev = [dict() for _ in self.seeds]     # inverse functions per sample
        self.base = [dict() for _ in self.seeds]    # representatives of arguments modulo a period
        self.clean = [True] * self.K
        self.lazy = False                            # undetermined gates become uninterpreted operators
        self.lz = {}
        self.reading = 0                             # how |x| is expressed by the free token for sign(x)
        self.readings = [False]                      # whether that mattered
        self.overrides = {}                          # var -> list of values (solved equalities)

    # ------------------------------------------------------------ sampling
    def var(self, name):
        v = self.vals.get(name)
        if v is None:
            if name in self.overrides:
                v = self.overrides[name]
            elif name.startswith("#I"):
                v = self.index(name)
            else:
                v = [self.sample(name, s) for s in self.seeds]
            self.vals[name] = v
        return v

    def index(self, name):
        """an index in 0..n-1 is sampled as a fraction of n-1"""
        from .lib import BOUND
        n = BOUND.get(name)
        try:
            top = self.ev(n) if n is not None else None
        except Split:
            top = None
        if top is None or any(type(x) is not int for x in top):
            return [self.sample(name, s) for s in self.seeds]
        return [F.mul(u, F.sub(x, 1)) for u, x in zip(self.var("u" + name), top)]

    def region(self, name):
        return self.ctx.regions.get(name) or (UNIT if name.startswith("u#") else FREE)

    def sample(self, name, seed):
        r = self.region(name)
        k = (name, seed, r.kind, r.lo, r.hi)
        v = _samples.get(k)
        if v is None:
            v = _samples[k] = self.sample0(name, seed, r)
        return v

    def sample0(self, name, seed, r):
        if r.kind == "nan":
            return UNDEF
        if r.kind == "pt":
            return F.frac(r.lo)
        ts = []
        for t in BASE_T:
            s = r.side(t)
            if s:
                ts.append((F.frac(t), s))
        for t, s in ((r.lo, 1), (r.hi, -1)):
            if t is not None and t not in BASE_T:
                ts.append((F.frac(t), s))
        i = 0
        while True:
            u = F.prf("var", (name, seed, i))
            if all(F.chi((u - t) % Q) == s for t, s in ts):
                return u
            i += 1

    # ------------------------------------------------------------ numeric
    def ev(self, n):
        r = self.memo.get(n.id)
        if r is None:
            if self.lazy and (n.op in LAZY or (n.op == "app" and n.data in ("min", "max"))):
                try:
                    r = self._ev(n)
                except Split:
                    r = self.uninterpreted(n)
            else:
                r = self._ev(n)
            self.memo[n.id] = r
        return r

    def uninterpreted(self, n):
        """value of a gate whose condition is undetermined: congruent gates get equal values"""
        o = n.op
        if o == "ite" or o in BOOLS:
            try:
                f = self.gate(n)
            except TooBig:
                if o in BOOLS:
                    raise
                return self.mix(("f", self.truth(n.args[0])), self.ev(n.args[1]), self.ev(n.args[2]))
            return self.flat(self.mgr.constrain(f, self.care))
        if o == "mod":
            x, odd = evenpart(n.args[0])
            out = []
            for k, t in enumerate(self.ev(x)):
                if type(t) is not int:
                    out.append(F.prf("parity", key(t)))
                    continue
                c, _, h = self.shifted("parity", t, 1, k, even=False)
                w = F.prf("parity", key(c))
                out.append((1 - w) % Q if odd != bool(h % 2) else w)
            return out
        if o == "app":
            a, b = self.ev(n.args[0]), self.ev(n.args[1])
            return [UNDEF if x is UNDEF or y is UNDEF else F.prf(n.data, tuple(sorted((key(x), key(y)), key=repr)))
                    for x, y in zip(a, b)]
        out = []
        for x in self.ev(n.args[0]):
            if x is UNDEF:
                out.append(x)
                continue
            if type(x) not in (int, tuple):
                out.append(F.prf(o, key(x)))
                continue
            c, s = self.parity(x)
            if o == "copysign1":
                w = F.prf(o, key(c))
                out.append(w if s > 0 else F.neg(w))
                continue
            # a free odd token for the sign; |x| is x times it, or (second reading) x over it
            w = F.prf("sign", key(c))
            if o == "abs":
                self.readings[0] = True
                out.append(F.mul(c, F.inv(w) if self.reading else w))
            else:
                out.append(w if s > 0 else F.neg(w))
        return out

    # ------------------------------------------------------------ undetermined conditions
    def truth(self, n):
        """decision diagram of a condition over the conditions this context leaves open"""
        r = self.diagrams.get(n.id)
        if r is None:
            r = self.diagrams[n.id] = self._truth(n)
        return r

    def _truth(self, n):
        o, m = n.op, self.mgr
        if o == "true":
            return 1
        if o == "false":
            return 0
        if o == "not":
            return m.neg(self.truth(n.args[0]))
        if o in ("and", "or"):
            r, st = (1 if o == "and" else 0), [n]
            while st:
                x = st.pop()
                if x.op == o:
                    st.extend(x.args)
                    continue
                f = self.truth(x)
                r = m.land(r, f) if o == "and" else m.lor(r, f)
                if r == (0 if o == "and" else 1):
                    break
            return r
        if o == "ite" and g.is_bool(n):
            return m.ite(*(self.truth(x) for x in n.args))
        try:
            return int(self._cond(n))
        except Split:
            pass
        if o == "cmp":
            return self.comparison(n)
        if o == "isreal" and is_poly_root(n.args[0]):
            a = n.args[0]
            vs = list(zip(*[self.ev(x) for x in a.args[1:]]))
            return m.atom([fp(n.id, (o, a.data, a.args[0].data) + tuple(key(x) for x in xs)) for xs in vs])
        if o in ("bapp", "reduce", "isreal"):
            vs = [self.ev(a) for a in n.args]
            return m.atom([fp(n.id, (o, n.data) + tuple(key(v[k]) for v in vs)) for k in range(self.K)])
        if o == "ite":
            return m.ite(self.truth(n.args[0]), self.truth(n.args[1]), self.truth(n.args[2]))
        return m.neg(m.atom([fp(n.id, ("eq", key(self.parity(x)[0]))) for x in self.ev(n)]))

    def comparison(self, n):
        va, vb, op, m = self.ev(n.args[0]), self.ev(n.args[1]), n.data, self.mgr
        if any(type(x) not in (int, tuple) for x in va + vb):
            return m.atom([fp(n.id, ("cmp", op, key(a), key(b))) for a, b in zip(va, vb)])
        ds = [F.sub(a, b) for a, b in zip(va, vb)]
        zero = m.atom([("eq", key(self.parity(d)[0])) for d in ds])
        if op in ("==", "!="):
            return zero if op == "==" else m.neg(zero)
        pos = m.known([("gt", key(d)) for d in ds])
        if pos is None:
            pos = m.known([("gt", key(F.neg(d))) for d in ds])
            pos = m.atom([("gt", key(d)) for d in ds]) if pos is None else m.neg(pos)
        if op == ">":
            return m.land(m.neg(zero), pos)
        if op == ">=":
            return m.lor(zero, pos)
        if op == "<":
            return m.land(m.neg(zero), m.neg(pos))
        return m.lor(zero, m.neg(pos))

    def gate(self, n):
        """decision diagram whose leaves are the values a nest of undetermined gates selects"""
        r = self.gates.get(n.id)
        if r is not None:
            return r
        if n.op == "ite":
            f = self.truth(n.args[0])
            f = self.mgr.constrain(f, self.care)
            if f < 2:
                r = self.gate(n.args[1 if f else 2])
            else:
                x, y = self.gate(n.args[1]), self.gate(n.args[2])
                r = self.mgr.ite(f, x, y)
        elif n.op in BOOLS:
            r = self.mgr.ite(self.truth(n), self.leaf([1] * self.K), self.leaf([0] * self.K))
        else:
            r = self.leaf(self.ev(n))
        self.gates[n.id] = r
        return r

    def leaf(self, v):
        return self.mgr.term(v, [fp(None, key(x)) for x in v])

    def flat(self, f):
        """the value of a diagram: a multilinear form in indeterminate truth values"""
        v = self.mgr.values.get(f)
        if v is None:
            x, lo, hi = self.mgr.nodes[f]
            v = self.mgr.values[f] = self.mix(x, self.flat(hi), self.flat(lo))
        return v

    def mix(self, c, xs, ys):
        out = []
        for k, (x, y) in enumerate(zip(xs, ys)):
            if x == y and x is not UNDEF:
                out.append(x)
            elif type(x) in (int, tuple) and type(y) in (int, tuple):
                # y + [c]*(x - y): gates distribute over sums and products
                out.append(F.add(y, F.mul(F.prf("truth", c), F.sub(x, y))))
            else:
                out.append(F.prf("gate", (c, key(x), key(y))))
        return out

    def assuming(self, c):
        """a lazy evaluator restricted to the assignments in c (a diagram); None when there are none"""
        care = self.mgr.land(self.care, c)
        if care == 0:
            return None
        e = Ev(self.ctx, self.seeds)
        e.lazy, e.overrides, e.vals, e.coh = True, self.overrides, self.vals, getattr(self, "coh", None)
        e.mgr, e.care = self.mgr, care
        e.reading, e.readings = self.reading, self.readings
        return e

    def _ev(self, n):
        o = n.op
        if o == "const":
            return [F.frac(n.data)] * self.K
        if o == "var":
            return self.var(n.data)
        if o == "pi":
            return self.var("pi")
        if o == "ite":
            return self.ev(n.args[1] if self.cond(n.args[0]) else n.args[2])
        if o in BOOLS:
            return [int(self.cond(n))] * self.K
        if o == "nan":
            return [UNDEF] * self.K
        if o == "inf":
            return [PINF] * self.K
        if o in ("none", "str", "undef", "inst"):
            return [Tok((o, n.data))] * self.K
        m = getattr(self, "n_" + o, None)
        if m is None:
            if o in ("tuple", "arr", "kw", "dict", "set", "slice", "poly", "range"):
                vs = [self.ev(a) for a in n.args]
                return [Tok((o, n.data) + tuple(v[k] for v in vs)) for k in range(self.K)]
            raise NotImplementedError("operator " + o)
        return m(n)

    def map(self, f, *ns):
        vs = [self.ev(a) for a in ns]
        out = []
        for k in range(self.K):
            xs = [v[k] for v in vs]
            if any(x is UNDEF for x in xs):
                out.append(UNDEF)
                continue
            try:
                out.append(f(*xs))
            except F.Pole:
                out.append(UNDEF)
        return out

    def n_add(self, n):
        def f(x, y):
            if isinstance(x, Inf) or isinstance(y, Inf):
                if isinstance(x, Inf) and isinstance(y, Inf):
                    return x if x.s == y.s else UNDEF
                return x if isinstance(x, Inf) else y
            if isinstance(x, Tok) or isinstance(y, Tok):
                return tokop("add", x, y)
            return F.add(x, y)
        return self.map(f, *n.args)

    def n_neg(self, n):
        return self.map(lambda x: Inf(-x.s) if isinstance(x, Inf) else tokop("neg", x) if isinstance(x, Tok) else F.neg(x), *n.args)

    def n_mul(self, n):
        def f(x, y):
            if isinstance(x, Inf) or isinstance(y, Inf):
                sx = x.s if isinstance(x, Inf) else csgn(x)
                sy = y.s if isinstance(y, Inf) else csgn(y)
                return Inf(sx * sy) if sx * sy else UNDEF
            if isinstance(x, Tok) or isinstance(y, Tok):
                return tokop("mul", x, y)
            return F.mul(x, y)
        return self.map(f, *n.args)

    def n_div(self, n):
        def f(x, y):
            if isinstance(y, Inf):
                return UNDEF if isinstance(x, Inf) else 0
            if isinstance(x, Inf):
                s = csgn(y)
                return Inf(x.s * s) if s else UNDEF
            if isinstance(x, Tok) or isinstance(y, Tok):
                return tokop("div", x, y)
            return F.mul(x, F.inv(y))
        return self.map(f, *n.args)

    def n_pow(self, n):
        e = n.data

        def f(x):
            if isinstance(x, Inf):
                return (Inf(x.s if e % 2 else 1)) if e > 0 else 0
            if isinstance(x, Tok):
                return tokop("pow", x, e)
            return F.power(x, e)
        return self.map(f, *n.args)

    def root(self, x, k):
        if isinstance(x, Inf):
            return x if x.s > 0 else UNDEF
        if isinstance(x, Tok):
            return tokop("sqrt", x)
        r, clean = F.sqrt(x)
        if not clean:
            self.clean[k] = False
        return r

    def n_sqrt(self, n):
        v = self.ev(n.args[0])
        return [UNDEF if v[k] is UNDEF else self.root(v[k], k) for k in range(self.K)]

    def factors(self, n, e, out):
        """product decomposition through signs and decided gates"""
        if n.op == "ite":
            try:
                return self.factors(n.args[1] if self.cond(n.args[0]) else n.args[2], e, out)
            except Split:
                if not self.lazy:
                    raise
        if n.op == "mul":
            for a in n.args:
                self.factors(a, e, out)
        elif n.op == "div":
            self.factors(n.args[0], e, out)
            self.factors(n.args[1], -e, out)
        elif n.op == "neg":
            out.append((g.const(-1), 1))
            self.factors(n.args[0], e, out)
        else:
            out.append((n, e))
        return out

    def n_abs(self, n):
        v = self.ev(n.args[0])
        if all(type(x) in (int, tuple) for x in v):
            s = self.weak_sign(n.args[0])
            if s:
                return [F.neg(x) for x in v] if s < 0 else v
        if any(type(x) is not int for x in v):
            def f(k):
                x = v[k]
                if x is UNDEF:
                    return UNDEF
                if isinstance(x, Inf):
                    return PINF
                if isinstance(x, Tok):
                    return tokop("abs", x)
                if type(x) is tuple:
                    return self.root((x[0] * x[0] + x[1] * x[1]) % Q, k)
                return None
            out = [f(k) for k in range(self.K)]
            if all(x is not None for x in out):
                return out
            if self.lazy:
                raise Split([])
            # a real quantity that is complex in the samples where a radicand is no square: its sign may be settled already
            s = self.settled(n.args[0], v)
            return [out[k] if out[k] is not None else self.root(F.mul(v[k], v[k]), k) if s is None else F.neg(v[k]) if s < 0 else v[k]
                    for k in range(self.K)]
        s = self.sgn(n.args[0], v, "lt")
        return [F.neg(x) for x in v] if s < 0 else v

    def settled(self, node, v):
        """the sign the context has already fixed for this value, if it has"""
        for ln, reg in self.ctx.lines:
            if ln is node:
                return reg.test(Fraction(0), "lt")
            if ln.id in self.open_lines:
                continue
            self.open_lines.add(ln.id)
            try:
                w = self.ev(ln)
            finally:
                self.open_lines.discard(ln.id)
            if list(w) == list(v):
                return reg.test(Fraction(0), "lt")
        return None

    def weak_sign(self, n):
        """s with s*n >= 0 when n is a product of one variable and factors that cannot be negative"""
        rest = [f for f, e in self.factors(n, 1, []) if not self.positive(f)]
        s = 1
        for f in rest:
            if f.op == "const" and f.data < 0:
                s = -s
        rest = [f for f in rest if f.op != "const"]
        if len(rest) == 1 and rest[0].op == "var":
            return s * self.sgn(rest[0], self.ev(rest[0]), "lt")
        return 0

    def n_sign(self, n):
        v = self.ev(n.args[0])
        if all(x is UNDEF for x in v):
            return v
        s = self.sgn(n.args[0], v, "sgn")
        return [s % Q] * self.K

    def n_copysign1(self, n):
        v = self.ev(n.args[0])
        if all(x is UNDEF for x in v):
            return v
        s = self.sgn(n.args[0], v, "lt")
        return [(-1 if s < 0 else 1) % Q] * self.K

    def floor(self, x, k):
        if x is UNDEF:
            return x
        if type(x) is int:
            q = F.rational(x, 1 << 40)
            if q is not None and q.denominator < 1 << 20:
                return q.__floor__() % Q
            c, _, h = self.shifted("floor", x, 1, k, even=False)
            return F.add(F.prf("floor", c), h % Q)
        return F.prf("floor", x)

    def n_floor(self, n):
        return [self.floor(x, k) for k, x in enumerate(self.ev(n.args[0]))]

    def n_ceil(self, n):
        return [x if x is UNDEF else F.neg(self.floor(F.neg(x), k)) for k, x in enumerate(self.ev(n.args[0]))]

    def n_mod(self, n):
        x, y = n.args
        if g.cval(y) == 2 and g.isint(x):
            v = self.ev(x)
            if all(type(t) is int for t in v):
                q = F.rational(v[0], 1 << 40)
                if not (q is not None and all(t == v[0] for t in v)):
                    # parity of an integer-valued quantity: one truth value per congruence class
                    x, odd = evenpart(x)
                    return [int(self.opaque("odd", "odd", (x,)) != odd)] * self.K
        return self.ev(g.sub(x, g.mul(y, g.fn("floor", g.div(x, y)))))

    def n_real(self, n):
        return self.part("real", lambda x: x[0] if type(x) is tuple else x, n)

    def n_imag(self, n):
        return self.part("imag", lambda x: x[1] if type(x) is tuple else 0, n)

    def n_conj(self, n):
        return self.part("conj", lambda x: (x[0], -x[1] % Q) if type(x) is tuple else x, n)

    def n_complex(self, n):
        return self.map(lambda x, y: F.add(x, F.mul((0, 1), y)), *n.args)

    # ------------------------------------------------------------ transcendental
    def parity(self, x):
        """(canonical, sign) of x under negation"""
        y = F.neg(x)
        kx, ky = key(x), key(y)
        return (x, 1) if kx <= ky else (y, -1)

    def circle(self, tag, args, k):
        t = F.prf(tag, args)
        d = F.inv((1 + t * t) % Q)
        return 2 * t * d % Q, (1 - t * t) * d % Q      # sin, cos

    def shifted(self, tag, x, period, k, even=True):
        """(representative, sign, n) with x = sign*representative + n*period; small n only"""
        base = self.base[k]
        for n in SHIFTS:
            y = F.sub(x, F.mul(n % Q, period)) if n else x
            if base.get((tag, key(y))):
                return y, 1, n
            if even:
                z = F.neg(y)
                if base.get((tag, key(z))):
                    return z, -1, n
        if even:
            c, s = self.parity(x)
        else:
            c, s = x, 1
        base[(tag, key(c))] = True
        return c, s, 0

    def sincos(self, x, k):
        if isinstance(x, (Inf, Tok)):
            return F.prf("sin", repr(x)), F.prf("cos", repr(x))
        if x == 0:
            return 0, 1
        pi = self.var("pi")[k]
        if type(x) is int:
            q = F.rational(F.mul(x, F.inv(pi)), 1 << 20)
            if q is not None and (2 * q).denominator == 1:
                return [(0, 1), (1, 0), (0, Q - 1), (Q - 1, 0)][int(2 * q) % 4]
        half = F.mul(pi, pow(2, -1, Q))
        for n in SHIFTS:
            y = F.sub(x, F.mul(n % Q, half)) if n else x
            if y in self.rev[k] or F.neg(y) in self.rev[k]:
                break
        else:
            y, s, n = self.shifted("trig", x, half, k)
            if s < 0:
                y = F.neg(y)
        sn, cn = self.sincos0(y, k)
        return [(sn, cn), (cn, F.neg(sn)), (F.neg(sn), F.neg(cn)), (F.neg(cn), sn)][n % 4]

    def sincos0(self, x, k):
        c, s = self.parity(x)
        rv = self.rev[k].get(c)
        if rv is None and self.rev[k].get(F.neg(c)) is not None:
            rv = self.rev[k].get(F.neg(c))
            c, s = F.neg(c), -s
        if rv is not None:
            kind, z = rv
            if kind == "arccos":
                sn, cn = self.root(F.sub(1, F.mul(z, z)), k), z
                return (sn if s > 0 else F.neg(sn)), cn
            if kind == "arcsin":
                sn, cn = z, self.root(F.sub(1, F.mul(z, z)), k)
                return (sn if s > 0 else F.neg(sn)), cn
            if kind == "arctan":
                cn = F.inv(self.root(F.add(1, F.mul(z, z)), k))
                sn = F.mul(z, cn)
                return (sn if s > 0 else F.neg(sn)), cn
            if kind == "am":
                sn, cn, dn = self.jac(z[0], z[1], k)
                return (sn if s > 0 else F.neg(sn)), cn
        sn, cn = self.circle("circ", (key(c),), k)
        return (sn if s > 0 else F.neg(sn)), cn

    def n_sin(self, n):
        v = self.ev(n.args[0])
        return [UNDEF if x is UNDEF else self.sincos(x, k)[0] for k, x in enumerate(v)]

    def n_cos(self, n):
        v = self.ev(n.args[0])
        return [UNDEF if x is UNDEF else self.sincos(x, k)[1] for k, x in enumerate(v)]

    def n_exp(self, n):
        return self.map(lambda x: 1 if x == 0 else F.prf("exp", key(x)), *n.args)

    def n_log(self, n):
        return self.map(lambda x: 0 if x == 1 else F.prf("log", key(x)), *n.args)

    # elliptic
    def Kell(self, m):
        return self.rf(0, F.sub(1, m), 1)

    def rf(self, x, y, z):
        a = sorted((x, y, z), key=key)
        pi = None
        if a[0] == a[1] == a[2] and type(a[0]) is int:
            return None
        return F.prf("elliprf", tuple(key(t) for t in a))

    def jac(self, u, m, k):
        if u == 0:
            return 0, 1, 1
        if m == 0:
            s, c = self.sincos(u, k)
            return s, c, 1
        K = self.K_(m, k)
        if K is None or K == 0:
            c, s = self.parity(u)
            return self.jac0(c, s, m, k)
        q = F.rational(F.mul(u, F.inv(K)), 1 << 16)
        if q is not None and q.denominator == 1:
            c, s, n = 0, 1, int(q)
            sn, cn, dn = 0, 1, 1
        else:
            for n in SHIFTS:
                c = F.sub(u, F.mul(n % Q, K)) if n else u
                f = self.base[k].get(("F", key(c), key(m)))
                if f is not None:
                    sn, cn = self.sincos(f, k)
                    dn = self.root(F.sub(1, F.mul(m, F.mul(sn, sn))), k)
                    break
            else:
                c, s, n = self.shifted(("jac", key(m)), u, K, k)
                sn, cn, dn = self.jac0(c, s, m, k)
        h = n % 4
        if h % 2:
            k1 = self.root(F.sub(1, m), k)
            if sn == 0:
                sn, cn, dn = cn, 0, k1
            else:
                i = F.inv(dn)
                sn, cn, dn = F.mul(cn, i), F.neg(F.mul(k1, F.mul(sn, i))), F.mul(k1, i)
        if h >= 2:
            sn, cn = F.neg(sn), F.neg(cn)
        return sn, cn, dn

    def jac0(self, c, s, m, k):
        sn, cn = self.circle("jac", (key(c), key(m)), k)
        dn = self.root(F.sub(1, F.mul(m, F.mul(sn, sn))), k)
        return (sn if s > 0 else F.neg(sn)), cn, dn

    def K_(self, m, k):
        if m == 0:
            return F.mul(self.var("pi")[k], pow(2, -1, Q))
        if m == 1:
            return UNDEF_K
        return self.rf(0, F.sub(1, m), 1)

    def n_ellipj(self, n):
        u, m = self.ev(n.args[0]), self.ev(n.args[1])
        out = []
        for k in range(self.K):
            if u[k] is UNDEF or m[k] is UNDEF:
                out.append(UNDEF)
                continue
            if isinstance(u[k], (Inf, Tok)) or isinstance(m[k], (Inf, Tok)):
                out.append(F.prf("ellipj", (n.data, repr(u[k]), repr(m[k]))))
                continue
            if n.data == "am":
                if u[k] == 0:
                    out.append(0)
                    continue
                if m[k] == 0:
                    out.append(u[k])
                    continue
                out.append(self.am(u[k], m[k], k))
                continue
            r = self.jac(u[k], m[k], k)
            out.append(r[{"sn": 0, "cn": 1, "dn": 2}[n.data]])
        return out

    def am(self, u, m, k):
        K = self.K_(m, k)
        half = F.mul(self.var("pi")[k], pow(2, -1, Q))
        if not K:
            return self.am0(u, 1, m, k)
        q = F.rational(F.mul(u, F.inv(K)), 1 << 16)
        if q is not None and q.denominator == 1:
            return F.mul(int(q) % Q, half)
        K2 = F.mul(2, K)
        for n in SHIFTS:
            c = F.sub(u, F.mul(n % Q, K2)) if n else u
            f = self.base[k].get(("F", key(c), key(m)))
            if f is not None:
                return F.add(f, F.mul(n % Q, F.mul(2, half)))
        c, s, n = self.shifted(("am", key(m)), u, K2, k)
        return F.add(self.am0(c, s, m, k), F.mul(n % Q, F.mul(2, half)))

    def am0(self, u, s, m, k):
        if s < 0:
            return F.neg(self.am0(u, 1, m, k))
        c, s = self.parity(u)
        w = F.prf("am", (key(c), key(m)))
        cw, sw = self.parity(w)
        self.rev[k][cw] = ("am", (c if sw > 0 else F.neg(c), m))
        return w if s > 0 else F.neg(w)

    def n_app(self, n):
        name = n.data
        if name == "root":
            return self.app_root(n)
        if is_poly_root(n) and len(n.args) > 3:
            return self.poly_root(n)
        if name in ("min", "max"):
            a, b = n.args
            va, vb = self.ev(a), self.ev(b)
            if va == vb:
                return va
            if any(x is UNDEF for x in va) or any(x is UNDEF for x in vb):
                return [UNDEF] * self.K
            d = g.sub(a, b)
            s = self.sgn(d, self.ev(d), "lt")
            return (va if s > 0 else vb) if name == "max" else (vb if s > 0 else va)
        vs = [self.ev(a) for a in n.args]
        out = []
        for k in range(self.K):
            xs = [v[k] for v in vs]
            if any(x is UNDEF for x in xs):
                out.append(UNDEF)
                continue
            out.append(self.app1(name, xs, k))
        return out

    def poly_root(self, n):
        """a root of a real polynomial: real, or one of a pair x -+ iy in numpy's order"""
        args = list(zip(*[self.ev(a) for a in n.args[1:]]))
        if any(x is UNDEF for xs in args for x in xs):
            return [UNDEF] * self.K
        coefs = [tuple(key(x) for x in xs) for xs in args]
        try:
            pair = self.pair(n)
        except Split:
            if not self.lazy:
                raise
            pair = None
            self.open_roots.add(n.id)
        if pair is None:
            return [F.prf(n.data, (key(F.frac(n.args[0].data)),) + c) for c in coefs]
        j, s = pair
        out = []
        for c in coefs:
            i = 0
            while F.chi(y := F.prf("rootim", (n.data, j, i) + c)) != 1:
                i += 1
            out.append((F.prf("rootre", (n.data, j) + c), y if s > 0 else F.neg(y)))
        return out

    def pair(self, n):
        """None for a real root, (which pair, sign of the imaginary part) for another"""
        if self.root_real(n):
            return None
        k = int(n.args[0].data)
        below = sum(not self.root_real(g.mk("app", (g.const(i),) + n.args[1:], n.data)) for i in range(k))
        return below // 2, (-1 if below % 2 == (n.data == "nproot") else 1)

    def root_real(self, a):
        if self.lazy:
            f = self.mgr.constrain(self.truth(g.mk("isreal", (a,))), self.care)
            if f < 2:
                return bool(f)
        return self.realness(a)

    def unsettled(self, n):
        """does a value depend on a root that may or may not be real"""
        if not self.lazy:
            return False
        self.ev(n)
        r = self.rooted.get(n.id)
        if r is None:
            r = self.rooted[n.id] = n.id in self.open_roots or any(self.unsettled(a) for a in n.args)
        return r

    def part(self, name, f, n):
        a = n.args[0]
        if not self.unsettled(a):
            return self.map(f, a)
        return self.map(lambda x: F.prf(name, key(x)), a)

    def app1(self, name, xs, k):
        fin = all(type(x) in (int, tuple) and not isinstance(x, Tok) for x in xs)
        if fin:
            if name == "arccos":
                pi = self.var("pi")[k]
                half = F.mul(pi, pow(2, -1, Q))
                z = xs[0]
                if z == 0:
                    return half
                if z == 1:
                    return 0
                if z == Q - 1:
                    return pi
                # arccos(-z) = pi - arccos(z)
                c, s = self.parity(z)
                w = F.prf("arccos", key(c))
                r = w if s > 0 else F.sub(pi, w)
                cw, sw = self.parity(r)
                if sw > 0:
                    self.rev[k][cw] = ("arccos", z)
                else:
                    self.rev[k][r] = ("arccos", z)
                return r
            if name == "arcsin":
                pi = self.var("pi")[k]
                z = xs[0]
                if z == 0:
                    return 0
                r = F.sub(F.mul(pi, pow(2, -1, Q)), self.app1("arccos", [z], k))
                cw, sw = self.parity(r)
                self.rev[k][cw] = ("arcsin", z if sw > 0 else F.neg(z))
                return r
            if name == "arctan":
                z = xs[0]
                if z == 0:
                    return 0
                c, s = self.parity(z)
                w = F.prf("arctan", key(c))
                cw, sw = self.parity(w)
                self.rev[k][cw] = ("arctan", c if sw > 0 else F.neg(c))
                return w if s > 0 else F.neg(w)
            if name == "ellipk":
                m = xs[0]
                if m == 0:
                    return F.mul(self.var("pi")[k], pow(2, -1, Q))
                if m == 1:
                    return PINF
                return self.rf(0, F.sub(1, m), 1)
            if name == "ellipkm1":
                return self.app1("ellipk", [F.sub(1, xs[0])], k)
            if name == "ellipe":
                m = xs[0]
                if m == 0:
                    return F.mul(self.var("pi")[k], pow(2, -1, Q))
                if m == 1:
                    return 1
                m3 = F.mul(m, pow(3, -1, Q))
                return F.sub(self.rf(0, F.sub(1, m), 1), F.mul(m3, self.app1("elliprd", [0, F.sub(1, m), 1], k)))
            if name in ("ellipkinc", "ellipeinc"):
                phi, m = xs
                if phi == 0:
                    return 0
                if m == 0:
                    return phi
                c, s = self.parity(phi)
                pi = self.var("pi")[k]
                q = F.rational(F.mul(c, F.inv(pi)), 1 << 16) if type(c) is int else None
                if q is not None and (2 * q).denominator == 1:
                    v = self.app1("ellipk" if name == "ellipkinc" else "ellipe", [m], k)
                    if type(v) in (int, tuple):
                        v = F.mul(int(2 * q) % Q, v)
                        return v if s > 0 else F.neg(v)
                v = F.prf(name, (key(c), key(m)))
                if name == "ellipkinc":
                    self.base[k][("F", key(v), key(m))] = c
                    self.base[k][("F", key(F.neg(v)), key(m))] = F.neg(c)
                return v if s > 0 else F.neg(v)
            if name == "elliprf":
                a = sorted(xs, key=key)
                if a[0] == a[1] == a[2] and a[0] != 0:
                    return F.inv(self.root(a[0], k))
                return self.rf(*xs)
            if name == "elliprd":
                a = sorted(xs[:2], key=key) + [xs[2]]
                if a[0] == a[1] == a[2] and a[0] != 0:
                    return F.inv(F.mul(a[0], self.root(a[0], k)))
                return F.prf("elliprd", tuple(key(x) for x in a))
            if name == "elliprj":
                if xs[3] in xs[:3]:
                    i = xs.index(xs[3])
                    rest = [x for j, x in enumerate(xs[:3]) if j != i]
                    return self.app1("elliprd", rest + [xs[3]], k)
                a = sorted(xs[:3], key=key) + [xs[3]]
                return F.prf("elliprj", tuple(key(x) for x in a))
            if name == "elliprc":
                return self.app1("elliprf", [xs[0], xs[1], xs[1]], k)
            if name == "elliprg":
                return F.prf(name, tuple(key(x) for x in sorted(xs, key=key)))
            if name == "power":
                x, e = xs
                return self.power(x, e, k)
            if name == "cbrt":
                return self.power(xs[0], pow(3, -1, Q), k)
            if name == "orderstat":
                return F.prf(name, (key(xs[0]),) + tuple(sorted(key(x) for x in xs[1:])))
            if name in ("polyroot", "nproot"):
                v = F.prf(name, tuple(key(x) for x in xs))
                return v
            if name in ("sinh", "tanh", "arcsinh", "arctanh", "cbrt"):
                c, s = self.parity(xs[0])
                if c == 0:
                    return 0
                w = F.prf(name, key(c))
                return w if s > 0 else F.neg(w)
            if name == "int":
                if type(xs[0]) is int:
                    q = F.rational(xs[0], 1 << 40)
                    if q is not None and q.denominator == 1:
                        return xs[0]
        if name == "arctan2" and fin:
            y, x = xs
            c, s = self.parity(y)
            w = F.prf(name, (key(c), key(x)))
            return w if s > 0 else F.neg(w)
        return F.prf(name, tuple(key(x) for x in xs))

    def power(self, x, e, k):
        if isinstance(x, (Inf, Tok)):
            return F.prf("power", (key(x), key(e)))
        q = F.rational(e, 1 << 20) if type(e) is int else None
        if q is not None and type(x) is int:
            n, d = q.numerator, q.denominator
            if d == 1 and abs(n) < 1 << 16:
                return F.power(x, n)
            if d in (2, 4, 8):
                r = x
                while d > 1:
                    r = self.root(r, k)
                    d //= 2
                return F.power(r, n)
            if d == 3 and x != 0:
                return F.power(pow(x, CUBE_D, Q), n)
            if d == 6 and x != 0:
                r = self.root(x, k)
                if type(r) is int:
                    return F.power(pow(r, CUBE_D, Q), n)
        if x == 0:
            return 0
        return F.prf("power", (key(x), key(e)))

    def app_root(self, n):
        v, lo, hi, b = n.args[:4]
        b2 = g.var(b.data + "'")
        m = self.memo.get(("rootsub", n.id))
        if m is None:
            from .lib import subst
            v2 = subst(v, {b.data: b2})
            m = g.div(v, v2)
        parts = [self.ev(m), self.ev(lo), self.ev(hi)] + [self.ev(x) for x in n.args[4:]]
        out = []
        for k in range(self.K):
            xs = [p[k] for p in parts]
            out.append(F.prf("root", tuple(key(x) for x in xs)))
        return out

    def n_reduce(self, n):
        cnt, term = self.ev(n.args[0]), self.ev(n.args[1])
        bs = [v for v in support(n.args[1]) if v.startswith("#R")]
        if n.data == "sum":
            if not bs:
                return [UNDEF if c is UNDEF or t is UNDEF else F.mul(c, t) for c, t in zip(cnt, term)]
            return [UNDEF if t is UNDEF else F.mul(t, F.prf("sum", key(c))) for c, t in zip(cnt, term)]
        return [UNDEF if t is UNDEF else F.prf("red" + str(n.data), (key(c), key(t))) for c, t in zip(cnt, term)]

    # ------------------------------------------------------------ boolean
    def cond(self, n):
        k = ("b", n.id)
        r = self.memo.get(k)
        if r is None:
            if self.lazy:
                try:
                    r = self._cond(n)
                except Split as s:
                    r = Split(())
                    if self.care != 1:
                        f = self.mgr.constrain(self.truth(n), self.care)
                        if f < 2:
                            r = bool(f)
            else:
                r = self._cond(n)
            self.memo[k] = r
        if isinstance(r, Split):
            raise r
        return r

    def _cond(self, n):
        o = n.op
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "not":
            return not self.cond(n.args[0])
        if o == "and":
            return self.cond(n.args[0]) and self.cond(n.args[1])
        if o == "or":
            return self.cond(n.args[0]) or self.cond(n.args[1])
        if o == "ite":
            return self.cond(n.args[1] if self.cond(n.args[0]) else n.args[2])
        if o == "cmp":
            return self.cmp(n)
        if o == "isreal":
            return self.isreal(n)
        if o == "bapp":
            return self.opaque("bapp", n.data, n.args)
        if o == "reduce":
            return self.opaque("reduce", n.data, n.args)
        # numeric used as a condition
        return self.cmp(g.cmp("!=", n, g.const(0)))

    def opaque(self, op, data, args):
        vs = [self.ev(a) for a in args]
        if op == "odd":
            for o, d, a, val in self.ctx.bools:
                if o == "odd":
                    for w, v in zip(self.ev(a[0]), vs[0]):
                        if type(w) is int and type(v) is int:
                            t = (v - w) % Q
                            t = t - Q if t > Q // 2 else t
                            if abs(t) <= 64:
                                return val != bool(t % 2)
        for o, d, a, val in self.ctx.bools:
            if o == op and d == data and len(a) == len(args):
                ws = [self.ev(x) for x in a]
                if all(x is y for x, y in zip(a, args)) or ws == vs or any(
                        all(w[k] is not UNDEF and w[k] == v[k] for w, v in zip(ws, vs)) for k in range(self.K)):
                    return val
        c = self.ctx
        raise Split([Ctx(c.regions, c.lines, c.bools + [(op, data, tuple(args), v)], None) for v in (True, False)])

    def contradictory(self):
        """do two truth values of the context disagree about the same condition of equal quantities"""
        seen, roots = {}, {}
        for o, d, args, val in self.ctx.bools:
            if o == "odd":
                continue
            if o == "isreal":
                a = args[0]
                vs = tuple(tuple(map(repr, self.ev(x))) for x in a.args[1:])
                known = roots.setdefault((a.data, vs), {})
                if known.setdefault(int(a.args[0].data), val) != val:
                    return True
                if not any(all(m[i] == v for i, v in known.items()) for m in patterns(len(a.args) - 1)):
                    return True
                continue
            k = (o, d, tuple(tuple(map(repr, self.ev(x))) for x in args))
            if seen.setdefault(k, val) != val:
                return True
        return False

    def isreal(self, n):
        a = resolved(self, n.args[0])
        if a.op == "real" or a.op == "imag":
            return True
        if is_poly_root(a):
            return self.realness(a)
        v = self.ev(a)
        if all(x is UNDEF for x in v):
            return True
        return all(type(x) is not tuple for x in v)

    def realness(self, a):
        """is this root of a real polynomial real: as the context says, or as the other roots imply"""
        coef = [self.ev(x) for x in a.args[1:]]
        known = {}
        for o, d, args, val in self.ctx.bools:
            y = args[0]
            if o == "isreal" and y.data == a.data and len(y.args) == len(a.args) and \
                    (y.args[1:] == a.args[1:] or any(all(u is not UNDEF and u == v for u, v in zip(us, vs))
                                                     for us, vs in zip(zip(*coef), zip(*[self.ev(x) for x in y.args[1:]])))):
                known[int(y.args[0].data)] = val
        k = int(a.args[0].data)
        can = {m[k] for m in patterns(len(coef)) if all(m[i] == v for i, v in known.items())}
        if len(can) == 1:
            return can.pop()
        c = self.ctx
        raise Split([Ctx(c.regions, c.lines, c.bools + [("isreal", None, (a,), v)], None) for v in (True, False)])

    def cmp(self, n):
        op = n.data
        a, b = n.args
        va, vb = self.ev(a), self.ev(b)
        if any(x is UNDEF for x in va) or any(x is UNDEF for x in vb):
            return op == "!="
        if any(isinstance(x, Tok) for x in va + vb):
            if va == vb:
                return op in ("==", "<=", ">=")
            if op in ("==", "!=") and all(isinstance(x, Tok) and x[0] in ("none", "str") for x in va) and \
                    all(isinstance(x, Tok) and x[0] in ("none", "str") for x in vb):
                return op == "!="
            return self.opaque("cmp", op, (a, b))
        if any(isinstance(x, Inf) for x in va + vb):
            x, y = va[0], vb[0]
            sx = x.s * 2 if isinstance(x, Inf) else 0
            sy = y.s * 2 if isinstance(y, Inf) else 0
            s = (sx > sy) - (sx < sy)
        else:
            d = squared(a, b, op) or g.sub(a, b)
            s = self.sgn(d, self.ev(d), MODE[op])
        return {"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}[op]

    def sgn(self, node, D, mode):
        """sign (-1, 0, 1) of a numeric node in this context, splitting the context if undetermined"""
        if any(x == 0 for x in D):
            return 0
        if isinstance(D[0], Inf):
            return D[0].s
        if all(x == D[0] for x in D):
            q = F.rational(D[0])
            if q is not None:
                return (q > 0) - (q < 0)
        ctx = self.ctx
        h = self.sign_hint(node, mode)
        if h is not None:
            return h
        cand = sorted("u" + v if v.startswith("#I") else v for v in support(node) if not v.startswith("#none"))
        if all(type(x) is int for x in D):
            for v in cand:
                vv = self.var(v)
                if any(type(x) is not int for x in vv) or len(set(vv)) < 3:
                    continue
                r = affine(D, vv)
                if r is not None:
                    p, q = r
                    s = self.var_side(v, -q / p)
                    return s if p > 0 else -s
            for v in cand:
                vv = self.var(v)
                if any(type(x) is not int for x in vv) or len(set(vv)) < 4:
                    continue
                r = quadratic(D, vv)
                if r is not None:
                    al, r1, r2 = r
                    if r1 is None:
                        return 1 if al > 0 else -1
                    s = self.var_side(v, r1) * self.var_side(v, r2)
                    return s if al > 0 else -s
            # c * u**i * v**j with small exponents
            if len(cand) <= 6:
                m = self.monomial(D, cand)
                if m is not None:
                    q, us = m
                    s = 1 if q > 0 else -1
                    for u, e in us:
                        su = self.var_side(u, Fraction(0))
                        s *= su if e % 2 else abs(su)
                    return s
        for ln, reg in ctx.lines:
            if ln is node:
                L = D
            elif ln.id in self.open_lines:
                continue            # its own value is being computed: it cannot inform this sign
            elif ln.id in self.memo:
                L = self.memo[ln.id]
            else:
                self.open_lines.add(ln.id)
                try:
                    L = self.ev(ln)
                finally:
                    self.open_lines.discard(ln.id)
            r = affine(D, L)
            if r is not None:
                p, q = r
                t = -q / p
                m = FLIP.get(mode, mode) if p < 0 else mode
                s = reg.test(t, m)
                if s is None:
                    i = [j for j, (x, _) in enumerate(ctx.lines) if x is ln][0]
                    raise Split([Ctx(ctx.regions, ctx.lines[:i] + [(ln, rr)] + ctx.lines[i + 1:], ctx.bools, None)
                                 for rr in reg.split(t, m)])
                return s if p > 0 else -s
        raise Split([Ctx(ctx.regions, ctx.lines + [(node, r)], ctx.bools, None) for r in FREE.split(Fraction(0), mode)])

    ODD = {"arcsin", "arctan", "sinh", "tanh", "arcsinh", "arctanh", "sign"}
    POSITIVE = {"ellipk", "elliprf", "elliprd"}

    def positive(self, n):
        return n.op in ("sqrt", "abs", "exp", "pi") or (n.op == "app" and n.data in self.POSITIVE) or (n.op == "const" and n.data > 0)

    def sign_hint(self, node, mode):
        """signs that follow from the operator alone"""
        if node.op == "neg":
            return -self.sgn(node.args[0], self.ev(node.args[0]), FLIP.get(mode, mode))
        if node.op == "mul":
            c = [a for a in node.args if a.op == "const"]
            r = [a for a in node.args if a.op != "const"]
            if c and len(r) == 1:
                q = Fraction(1)
                for a in c:
                    v = F.rational(self.ev(a)[0]) if type(self.ev(a)[0]) is int else None
                    if not v:
                        return None
                    q *= v
                s = self.sgn(r[0], self.ev(r[0]), mode if q > 0 else FLIP.get(mode, mode))
                return s if q > 0 else -s
        if node.op == "app" and node.data in self.ODD and len(node.args) == 1:
            return self.sgn(node.args[0], self.ev(node.args[0]), mode)
        if node.op == "app" and node.data in self.POSITIVE:
            return 1
        if node.op in ("sqrt", "abs") and mode == "lt":
            return 1
        if node.op == "exp":
            return 1
        if node.op == "imag":
            a = resolved(self, node.args[0])
            if is_poly_root(a) and len(a.args) > 3:
                p = self.pair(a)
                return p[1] if p else 0
        return None

    def monomial(self, D, cand):
        """D = q * u**e * w**f with rational q, recognised on the samples"""
        tab = self.powers
        names = []
        for v in cand:
            vv = self.var(v)
            if any(type(x) is not int or x == 0 for x in vv) or len(set(vv)) < 3:
                continue
            names.append(v)
            if v not in tab or tab[v][0] is not vv:
                inv = [F.inv(x) for x in vv]
                tab[v] = (vv, {1: inv, 2: [x * x % Q for x in inv], 3: [x * x * x % Q for x in inv], 4: [pow(x, 4, Q) for x in inv],
                               -1: vv, -2: [x * x % Q for x in vv], -3: [x * x * x % Q for x in vv]})

        def test(es):
            ps = [tab[u][1][e] for u, e in es]
            r = None
            for k in range(self.K):
                x = D[k]
                for p in ps:
                    x = x * p[k] % Q
                if r is None:
                    r = x
                elif x != r:
                    return None
            return F.rational(r) or None
        for u in names:
            for e in (3, 4, -1, -2, -3):
                q = test([(u, e)])
                if q is not None:
                    return q, [(u, e)]
        for i, u in enumerate(names):
            for w in names[i + 1:]:
                for e in (1, 2, -1):
                    for f in (1, 2, -1):
                        q = test([(u, e), (w, f)])
                        if q is not None:
                            return q, [(u, e), (w, f)]
        return None

    def var_side(self, v, t):
        r = self.region(v)
        if r.kind == "nan":
            return 0
        s = r.side(t)
        if s is None:
            c = self.ctx
            parts = r.cut(t)
            if v.startswith("u#I"):
                parts = [rr for rr in parts if self.has_index(v[1:], rr)]
            raise Split([Ctx({**c.regions, v: rr}, c.lines, c.bools, None) for rr in parts])
        return s

    def has_index(self, name, r):
        """whether some index 0..n-1 lies in a region of fractions of n-1 (n known)"""
        from .lib import BOUND
        n = BOUND.get(name)
        n = g.cval(n) if n is not None else None
        if n is None or n < 2 or r.kind not in ("pt", "iv"):
            return True
        if r.kind == "pt":
            return (r.lo * (n - 1)).denominator == 1
        lo, hi = (r.lo or 0) * (n - 1), (1 if r.hi is None else r.hi) * (n - 1)
        first = -((-lo.numerator) // lo.denominator) if lo.__class__ is Fraction else int(lo)
        if first == lo and not r.lc:
            first += 1
        return first < hi or (first == hi and r.hc)


def nonneg(n):
    """cannot be negative, by its operators alone"""
    if n.op == "const":
        return n.data >= 0
    if n.op in ("sqrt", "abs", "exp", "pi"):
        return True
    if n.op in ("add", "mul"):
        return all(nonneg(a) for a in n.args) or (n.op == "mul" and len(n.args) == 2 and n.args[0] is n.args[1])
    if n.op == "div":
        return nonneg(n.args[0]) and nonneg(n.args[1])
    if n.op == "pow":
        return (isinstance(n.data, int) and n.data % 2 == 0) or nonneg(n.args[0])
    return False


def squared(a, b, op):
    """sqrt(X) compared with a non-negative B is X compared with B**2"""
    if not (a.op == "sqrt" or b.op == "sqrt") or not (nonneg(a) and nonneg(b)):
        return None
    for x, ok in ((a, (">", ">=")), (b, ("<", "<="))):
        if x.op == "sqrt" and not (nonneg(x.args[0]) or op in ok):
            return None
    return g.sub(*(x.args[0] if x.op == "sqrt" else g.mul(x, x) for x in (a, b)))


UNDEF_K = None
SHIFTS = [0] + [s * n for n in range(1, 9) for s in (1, -1)]
MODE = {"==": "eq", "!=": "eq", "<": "lt", ">=": "lt", ">": "gt", "<=": "gt"}
FLIP = {"lt": "gt", "gt": "lt"}
LAZY = {"ite", "abs", "sign", "copysign1", "mod", "cmp", "and", "or", "not", "bapp", "isreal"}
BOOLS = {"true", "false", "cmp", "and", "or", "not", "bapp", "isreal"}


def evenpart(x):
    """(y, b) with x = y + b (mod 2)"""
    b = False
    while True:
        if x.op == "neg":
            x = x.args[0]
        elif x.op == "add" and any(z.op == "const" for z in x.args):
            i = 0 if x.args[0].op == "const" else 1
            b ^= bool(x.args[i].data % 2)
            x = x.args[1 - i]
        else:
            return x, b


def csgn(x):
    if type(x) is int:
        return F.chi(x)
    return 1


def fp(nid, f):
    """fingerprint of an atom; an undefined value makes it incomparable"""
    return None if "undefined" in repr(f) else f


def tokop(name, *xs):
    return F.prf(name, tuple(key(x) for x in xs))


def key(x):
    if type(x) is int:
        return (x, 0)
    if type(x) is tuple:
        return x
    return (repr(x),) if not isinstance(x, Tok) else ("tok",) + tuple(str(key(y)) if not isinstance(y, (str, type(None))) else str(y) for y in x)


def patterns(n):
    """which roots of a real polynomial of degree n can be real: the others are adjacent conjugates"""
    if n <= 0:
        return [()] if n == 0 else []
    return [(True,) + m for m in patterns(n - 1)] + [(False, False) + m for m in patterns(n - 2)]


def resolved(ev, a):
    while a.op == "ite":
        a = a.args[1] if ev.cond(a.args[0]) else a.args[2]
    return a


ROOTS = ("polyroot", "nproot")


def is_poly_root(a):
    return a.op == "app" and a.data in ROOTS and a.args[0].op == "const"


def linear(n):
    """coefficients (None: the constant) of a node that is linear in its variables, or None"""
    if n.op == "const":
        return {None: Fraction(n.data)}
    if n.op == "var":
        return {n.data: Fraction(1), None: Fraction(0)}
    if n.op == "neg":
        f = linear(n.args[0])
        return f and {v: -x for v, x in f.items()}
    if n.op == "add":
        fs = [linear(a) for a in n.args]
        if any(f is None for f in fs):
            return None
        out = {}
        for f in fs:
            out = combine(out, f, Fraction(1))
        return out
    if n.op == "mul" and len(n.args) == 2 and any(a.op == "const" for a in n.args):
        i = 0 if n.args[0].op == "const" else 1
        f = linear(n.args[1 - i])
        return f and {v: x * n.args[i].data for v, x in f.items()}
    return None


def combine(f, row, c):
    """f + c*row"""
    out = dict(f)
    for v, x in row.items():
        out[v] = out.get(v, Fraction(0)) + c * x
    return out


def affine(D, L):
    """D = p*L + q with rational p != 0, q; or None.  A relation holding on a sample by accident has
    negligible probability, so samples spoiled by non-canonical roots are simply outvoted."""
    n = len(L)
    for d, l in zip(D, L):
        if d is UNDEF or l is UNDEF or isinstance(d, (Inf, Tok)) or isinstance(l, (Inf, Tok)) or d == 0:
            continue
        if d == l:
            return Fraction(1), Fraction(0)
        if d == F.neg(l):
            return Fraction(-1), Fraction(0)
    tries = 0
    for i in range(n):
        for j in range(i + 1, n):
            if tries >= 4:
                return None
            try:
                if F.sub(L[j], L[i]) == 0:
                    continue
                tries += 1
                p = F.mul(F.sub(D[j], D[i]), F.inv(F.sub(L[j], L[i])))
                if type(p) is not int or p == 0:
                    continue
                q = F.sub(D[i], F.mul(p, L[i]))
                if type(q) is not int:
                    continue
                pr, qr = F.rational(p), F.rational(q)
                if pr is None or qr is None:
                    continue
                if any(F.add(F.mul(p, L[k]), q) == D[k] for k in range(n) if k not in (i, j)
                       and L[k] != L[i] and L[k] != L[j]):
                    return pr, qr
            except (F.Pole, TypeError):
                continue
    return None


def quadratic(D, V):
    """D = al*(v-r1)*(v-r2) with rational coefficients and rational (or no real) roots"""
    try:
        x0, x1, x2 = V[:3]
        d01 = (D[1] - D[0]) * F.inv((x1 - x0) % Q) % Q
        d12 = (D[2] - D[1]) * F.inv((x2 - x1) % Q) % Q
        al = (d12 - d01) * F.inv((x2 - x0) % Q) % Q
        if al == 0:
            return None
        be = (d01 - al * (x0 + x1)) % Q
        ga = (D[0] - al * x0 * x0 - be * x0) % Q
        for d, x in zip(D, V):
            if (al * x * x + be * x + ga - d) % Q:
                return None
        A, B, C = F.rational(al), F.rational(be), F.rational(ga)
        if None in (A, B, C):
            return None
        disc = B * B - 4 * A * C
        if disc < 0:
            return A, None, None
        n, d = isqrt(disc.numerator), isqrt(disc.denominator)
        if n * n != disc.numerator or d * d != disc.denominator:
            return None
        s = Fraction(n, d)
        r = sorted([(-B - s) / (2 * A), (-B + s) / (2 * A)])
        return A, r[0], r[1]
    except F.Pole:
        return None


# ---------------------------------------------------------------------- driver
K = 6


class Mismatch:
    def __init__(self, ctx, text, node=None, line=None, path=""):
        self.ctx, self.text, self.node, self.line, self.path = ctx, text, node, line, path
        self.roots = []


class Agree(Exception):
    pass


def coherent(ev):
    """per sample: do all compound line values carry the sign of their region"""
    ok = [True] * ev.K
    for n, r in ev.ctx.lines:
        if r.kind in ("pt", "ne"):
            continue
        v = ev.ev(n)
        for k in range(ev.K):
            x = v[k]
            if type(x) is not int:
                ok[k] = False
                continue
            if r.lo is not None and F.chi((x - F.frac(r.lo)) % Q) != 1:
                ok[k] = False
            if r.hi is not None and F.chi((F.frac(r.hi) - x) % Q) != 1:
                ok[k] = False
    return ok


class Decider:
    """enumerates decision contexts of a comparison; compare(ev) -> list of Mismatch (or raises Split)"""

    def __init__(self, regions, assume=(), budget=6000, time_limit=400):
        self.regions = {"pi": iv(Fraction(314159, 100000), Fraction(31416, 10000)), **regions}
        self.assume = list(assume)
        self.budget = budget
        self.contexts = 0
        self.leaves = 0
        self.loose = 0
        self.incoherent = 0
        self.time_limit = time_limit

    def make(self, ctx, parent_seeds, parent=None):
        seeds = list(parent_seeds) if parent_seeds else list(range(K))
        ctx.seeds = seeds
        nxt = max(seeds) + 1
        ev = Ev(ctx, seeds)
        if parent is not None and parent.ctx.regions is ctx.regions and not parent.overrides and parent.seeds == seeds:
            # only lines / truth values were refined: everything evaluated so far stays valid
            ev.memo = dict(parent.memo)
            ev.vals = parent.vals
            ev.rev = [dict(d) for d in parent.rev]
            ev.base = [dict(d) for d in parent.base]
            ev.clean = list(parent.clean)
        ev = self.sample(ctx, seeds, ev)
        if any(r.kind == "iv" for _, r in ctx.lines):
            best, bestok = ev, coherent(ev)
            for _ in range(6 if parent is not None and not any(parent.coh) else min(60, 12 + (1 << len(ctx.lines)))):
                if any(bestok):
                    break
                s2 = [s if ok else nxt + i for i, (s, ok) in enumerate(zip(best.seeds, bestok))]
                nxt += len(s2)
                e2 = self.sample(ctx, s2)
                ok2 = coherent(e2)
                if sum(ok2) >= sum(bestok):
                    best, bestok = e2, ok2
                else:
                    best = self.sample(ctx, [a if o else b for a, o, b in zip(best.seeds, bestok, s2)])
                    bestok = [o or p for o, p in zip(bestok, ok2)]
            ev = best
            ev.coh = bestok
        else:
            ev.coh = [True] * ev.K
        ctx.seeds = ev.seeds
        return ev

    def sample(self, ctx, seeds, base=None):
        """evaluator whose samples satisfy the equality lines of the context (loose if none was found)"""
        pts = [(n, r) for n, r in ctx.lines if r.kind == "pt"]
        ev = base or Ev(ctx, seeds)
        ev.loose = False
        if not pts:
            return ev
        e2 = None
        fixed, pts = self.eliminate(ctx, seeds, pts)
        if len(pts) <= 3:
            e2 = self.solve(ctx, seeds, pts, fixed)
        if e2 is None:
            ev.loose = True
            return ev
        e2.loose = False
        return e2

    def eliminate(self, ctx, seeds, pts):
        """solves the equality lines that are linear in the variables; (values of the solved ones, other lines)"""
        rows, rest = {}, []
        for n, r in pts:
            f = linear(n)
            if f is None or not any(v for v in f):
                rest.append((n, r))
                continue
            f = {**f, None: f.get(None, 0) - r.lo}
            for v, row in rows.items():
                f = combine(f, row, f.pop(v, 0))
            v = next((v for v in sorted(v for v in f if v) if f[v] and not v.startswith("#I") and
                      v != "pi" and ctx.regions.get(v, FREE).kind == "iv"), None)
            if v is None:
                rest.append((n, r))
                continue
            c = f.pop(v)
            new = {w: -x / c for w, x in f.items()}
            rows = {u: combine(row, new, row.pop(v, 0)) for u, row in rows.items()}
            rows[v] = new
        ev, fixed = Ev(ctx, seeds), {}
        for v, row in rows.items():
            lo = hi = row.get(None, Fraction(0))
            for w, x in row.items():
                if w and x:
                    r = ctx.regions.get(w, FREE)
                    a, b = (r.lo, r.hi) if r.kind in ("iv", "pt") else (None, None)
                    a, b = (a, b) if x > 0 else (b, a)
                    lo = None if lo is None or a is None else lo + x * a
                    hi = None if hi is None or b is None else hi + x * b
            r = ctx.regions.get(v, FREE)
            if lo is not None and r.hi is not None and lo > r.hi or hi is not None and r.lo is not None and hi < r.lo or \
                    lo is not None and lo == r.hi and not (r.hc and lo == hi) or hi is not None and hi == r.lo and not (r.lc and lo == hi):
                ctx.impossible = True
            fixed[v] = [F.frac(row.get(None, Fraction(0)))] * len(seeds)
            for w, x in row.items():
                if w and x:
                    fixed[v] = [F.add(t, F.mul(F.frac(x), u)) for t, u in zip(fixed[v], ev.var(w))]
        return fixed, rest

    def solve(self, ctx, seeds, pts, fixed):
        """samples on the common zero set of the lines, by solving each for a variable it is affine in"""
        if not pts:
            e = Ev(ctx, seeds)
            e.overrides.update(fixed)
            return e
        n, r = pts[-1]
        rest = pts[:-1]
        t = F.frac(r.lo)
        for v in sorted(support(n)):
            if v == "pi" or v in fixed or v.startswith("#I") or ctx.regions.get(v, FREE).kind != "iv":
                continue
            xs, ys = [], []
            for j in range(3):
                val = [F.prf("solve", (v, s, j)) for s in seeds]
                e = self.solve(ctx, seeds, rest, {**fixed, v: val})
                if e is None:
                    break
                try:
                    ys.append(e.ev(n))
                except Split:
                    break
                xs.append(val)
            if len(ys) < 3:
                continue
            ok, out = True, []
            for k in range(len(seeds)):
                (x0, x1, x2), (y0, y1, y2) = [x[k] for x in xs], [y[k] for y in ys]
                try:
                    s = F.mul(F.sub(y1, y0), F.inv(F.sub(x1, x0)))
                    if s == 0 or F.add(y0, F.mul(s, F.sub(x2, x0))) != y2:
                        ok = False
                        break
                    out.append(F.add(x0, F.mul(F.sub(t, y0), F.inv(s))))
                except (F.Pole, TypeError):
                    ok = False
                    break
            if not ok:
                continue
            e = self.solve(ctx, seeds, rest, {**fixed, v: out})
            if e is None:
                continue
            try:
                if all(y == t for y in e.ev(n)):
                    return e
            except Split:
                continue
        return None

    def run(self, compare, stop_after=8):
        import time
        t0 = time.time()
        root = Ctx(dict(self.regions))
        stack = [(root, None, None, 0)]
        found = []
        first, later = None, []
        while stack or later:
            if not stack:
                stack, later = later, None
            # depth first from either end and breadth first in turn: a wrong branch is not starved by a hard one
            at = len(stack) - 1
            if len(stack) > 8:
                wide = min(range(len(stack)), key=lambda i: stack[i][3])
                at = (at, 0, at, wide)[self.contexts % 4]
            ctx, ps, pev, depth = stack.pop(at)
            self.contexts += 1
            if found and first is None:
                first = time.time()
            if self.contexts > self.budget or time.time() - t0 > self.time_limit or first and time.time() - first > 60:
                raise Budget(f"{self.contexts} contexts, {self.leaves} leaves", found)
            ev = None
            try:
                ev = self.make(ctx, ps, pev)
                if later is not None and not any(ev.coh):
                    later.append((ctx, ctx.seeds, pev, depth))      # probably contradictory: after everything else
                    continue
                if any(not ev.cond(c) for c in self.assume):
                    continue
                if ctx.impossible or len(ctx.bools) > 1 and ev.contradictory():
                    self.incoherent += 1
                    continue
                ms = compare(ev)
            except Split as s:
                new = [(c, ctx.seeds, ev, depth + 1) for c in s.alts]
                stack[at:at] = new if at == 0 else new[::-1]
                continue
            self.leaves += 1
            if ev.loose:
                self.loose += 1
            if getattr(ev, "vacuous", False):
                self.incoherent += 1
            found.extend(ms)
            if len(found) >= stop_after:
                break
        return found

    # ------------------------------------------------------------ leaf equality
    def lazy(self, ev, reading=0):
        lz = ev.lz.get(reading)
        if lz is None:
            lz = ev.lz[reading] = Ev(ev.ctx, ev.seeds)
            lz.lazy = True
            lz.mgr = Manager()
            lz.overrides = ev.overrides
            lz.reading = reading
        return lz

    def equal(self, ev, a, b):
        """are nodes a, b congruent in this fully decided context"""
        if a is b:
            return True
        for reading in (0, 1):
            lz = self.lazy(ev, reading)
            try:
                if any(x == y and x is not UNDEF for x, y in zip(lz.ev(a), lz.ev(b))):
                    return True
            except (Split, TooBig):
                pass
            if not lz.readings[0]:
                break
        va, vb = ev.ev(a), ev.ev(b)
        idx = [k for k in range(ev.K) if ev.coh[k]]
        if not idx:
            # no sample satisfies all sign states of the context: treated as contradictory (counted)
            ev.vacuous = True
            return True
        if all(va[k] == vb[k] for k in idx):
            return True
        if any(va[k] == vb[k] and va[k] is not UNDEF for k in idx):
            return True
        if ev.loose:
            return True
        # resample: an identity modulo square roots may need samples with residue radicands
        nxt = max(ev.seeds) + 1000
        for rnd in range(24):
            seeds = [nxt + i for i in range(K)]
            nxt += K
            e2 = self.sample(ev.ctx, seeds)
            if e2.loose:
                break
            try:
                ok = coherent(e2)
                xa, xb = e2.ev(a), e2.ev(b)
            except Split:
                continue
            idx2 = [k for k in range(K) if ok[k]]
            if any(xa[k] == xb[k] and xa[k] is not UNDEF for k in idx2):
                return True
        return False
