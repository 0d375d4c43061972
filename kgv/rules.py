"""Obligation runner: compares the guarded outcomes of two analysed functions."""
import os
import time
from . import graph as g
from .graph import Node
from .interp import Interp, Unsupported, Gated, Ref, Arr, NT, UNBOUND, Func, PyFn, LibFn, ClassVal, ExcVal, Lazy, RangeVal
from .decide import Decider, Ev, Mismatch, Split, Budget, UNDEF, iv, pt, Region, FREE
from .bdd import TooBig
from . import lib

ROOT = os.environ.get("KGV_REPO", "/repo")
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class AnchorMissing(Exception):
    pass


def interp():
    extra = {"kg_" + f[:-3]: os.path.join(SPEC, f) for f in os.listdir(SPEC) if f.endswith(".py")}
    return Interp(ROOT, extra=extra)


def pick(ev, comps):
    for c in comps:
        if ev.cond(c.guard):
            return c
    return None


class Cmp:
    def __init__(self, ip, dec, ev, strict_exc=False):
        self.ip, self.dec, self.ev, self.strict_exc = ip, dec, ev, strict_exc
        self.out = []
        self.compared = 0

    def resolve(self, v):
        while isinstance(v, Gated):
            v = v.a if self.ev.cond(v.cond) else v.b
        if isinstance(v, Node) and v.op == "ite":
            while v.op == "ite":
                v = v.args[1] if self.ev.cond(v.args[0]) else v.args[2]
        return v

    def view(self, v, heap):
        v = self.resolve(v)
        if isinstance(v, Ref):
            self.ip.heap = heap
            c = heap.get(v.id)
            c = self.resolve(c) if isinstance(c, Gated) else c
            if v.kind == "list":
                return ("seq", list(c))
            if v.kind == "arr":
                return ("arr", c)
            if v.kind == "dict":
                return ("dict", c)
            if v.kind == "inst":
                return ("inst", v)
        if isinstance(v, Arr):
            return ("arr", v)
        if isinstance(v, NT) or isinstance(v, tuple):
            return ("seq", list(v))
        if isinstance(v, Lazy):
            return ("seq", list(v.items))
        if isinstance(v, Node):
            return ("num", v)
        return ("py", v)

    def miss(self, path, text, node=None, line=None):
        self.out.append(Mismatch(self.ev.ctx, text, node, line, path))

    def same(self, x, y):
        return self.dec.equal(self.ev, x, y)

    def cmp(self, a, ha, b, hb, path):
        ka, va = self.view(a, ha)
        kb, vb = self.view(b, hb)
        if ka == "num" and kb == "num":
            self.compared += 1
            if not self.dec.equal(self.ev, va, vb):
                node, line = blame(self.dec, self.ev, va, vb)
                self.miss(path, f"computes {g.show(node, 4)} where the rule requires a different value", node, line)
                self.out[-1].roots.append(va)
            return
        if ka == "arr" and kb == "seq":
            kb, vb = "arr", lib.toarr(self.ip, tuple(vb))
        if kb == "arr" and ka == "seq":
            ka, va = "arr", lib.toarr(self.ip, tuple(va))
        if ka == "arr" and kb == "arr":
            sa, sb = self.dims(va, ha), self.dims(vb, hb)
            if len(sa) != len(sb):
                self.miss(path, f"array rank {len(sa)} instead of {len(sb)}")
                return
            for x, y in zip(sa, sb):
                if not self.same(lib.dimnode(x), lib.dimnode(y)):
                    self.miss(path, f"array dimension {x} instead of {y}", *blame(self.dec, self.ev, lib.dimnode(x), lib.dimnode(y)))
                    return
            self.elems(va, ha, sa, vb, hb, sb, path)
            return
        if ka == "seq" and kb == "seq":
            if len(va) != len(vb):
                self.miss(path, f"{len(va)} components instead of {len(vb)}")
                return
            for i, (x, y) in enumerate(zip(va, vb)):
                self.cmp(x, ha, y, hb, f"{path}[{i}]")
            return
        if ka == "dict" and kb == "dict":
            da = {k: v for k, v in va.items() if v[1] is not UNBOUND}
            db = {k: v for k, v in vb.items() if v[1] is not UNBOUND}
            if set(da) != set(db):
                self.miss(path, f"dictionary keys {sorted(map(str, (x[0] for x in da.values())))} instead of "
                                f"{sorted(map(str, (x[0] for x in db.values())))}")
                return
            for k in da:
                self.cmp(da[k][1], ha, db[k][1], hb, f"{path}[{da[k][0]}]")
            return
        if ka == "py" and kb == "py" and (va is vb or va == vb):
            self.compared += 1
            return
        self.miss(path, f"returns {short(va)} where {short(vb)} is required")

    def dims(self, a, heap):
        self.ip.heap = heap
        return [lib.mkdim(self.resolve(d)) if isinstance(d, Node) else d for d in a.shape]

    def elems(self, va, ha, sa, vb, hb, sb, path):
        n = 1
        conc = all(isinstance(d, int) for d in sa) and all(isinstance(d, int) for d in sb)
        if conc:
            for d in sa:
                n *= d
        if conc and n <= 64:
            def rec(pre, sh):
                if not sh:
                    self.ip.heap = ha
                    x = va.elem(pre)
                    self.ip.heap = hb
                    y = vb.elem(pre)
                    self.cmp(x, ha, y, hb, path + str(list(pre)))
                    return
                for i in range(sh[0]):
                    rec(pre + (i,), sh[1:])
            rec((), sa)
            return
        ix = tuple(self.ip.lib.open_index(self.ip, "#I", sa))
        self.ip.lib.close_index(self.ip, ix)
        self.ip.heap = ha
        x = va.elem(ix)
        self.ip.heap = hb
        y = vb.elem(ix)
        self.cmp(x, ha, y, hb, path + "[" + ",".join(f"i{k}" for k in range(len(ix))) + "]")


class Undecided(Exception):
    pass


class LazyCmp(Cmp):
    """comparison under undetermined gates: congruence only; anything else is left to a refinement"""
    BRANCHES = 256

    def cmp(self, a, ha, b, hb, path):
        ev = self.ev
        for v in (a, b):
            if isinstance(v, Gated):
                f = ev.mgr.constrain(ev.truth(v.cond), ev.care)
                if f > 1:
                    self.branches = getattr(self, "branches", 0) + 1
                    if self.branches > self.BRANCHES:
                        raise Undecided()
                    try:
                        for val, c in ((True, f), (False, ev.mgr.neg(f))):
                            self.ev = ev.assuming(c)
                            if self.ev is not None:
                                self.cmp((a.a if val else a.b) if v is a else a, ha, (b.a if val else b.b) if v is b else b, hb, path)
                    finally:
                        self.ev = ev
                    return
                if v is a:
                    a = a.a if f else a.b
                else:
                    b = b.a if f else b.b
                return self.cmp(a, ha, b, hb, path)
        if isinstance(a, Node) and isinstance(b, Node):
            self.compared += 1
            if not self.same(a, b):
                raise Undecided()
            return
        super().cmp(a, ha, b, hb, path)

    def same(self, x, y):
        return x is y or any(u == v and u is not UNDEF for u, v in zip(self.ev.ev(x), self.ev.ev(y)))

    def miss(self, *a):
        raise Undecided()


def outcome_class(c, exc):
    if c.kind != "raise":
        return "value"
    n = c.value.name
    return n if n in PROGRAM_ERRORS or n in ("DontCare", "AnyError") else "Deliberate"


def effective(lz, comps):
    """(outcome, diagram of the assignments that select it)"""
    m, rest, out = lz.mgr, lz.care, []
    for c in comps:
        f = m.land(rest, lz.truth(c.guard))
        if f:
            out.append((c, f))
            rest = m.land(rest, m.neg(f))
        if not rest:
            break
    return out, rest


def lazy_agree(ip, dec, ev, lc, rc):
    """are the two guarded outcome lists congruent without refining the context further"""
    for reading in (0, 1):
        lz = dec.lazy(ev, reading)
        n = lazy_agree_in(ip, dec, lz, lc, rc)
        if n is not None or not lz.readings[0]:
            return n
    return None


def lazy_agree_in(ip, dec, lz, lc, rc):
    try:
        m = lz.mgr
        a, resta = effective(lz, lc)
        b, restb = effective(lz, rc)
        skip = restb
        for c, f in a + b:
            if outcome_class(c, None) == "DontCare":
                skip = m.lor(skip, f)
        keep = m.neg(skip)
        a = [(c, m.land(f, keep)) for c, f in a]
        b = [(c, m.land(f, keep)) for c, f in b]
        if m.land(resta, keep):
            return None
        n = 0
        for x, fx in a:
            for y, fy in b:
                both = m.land(fx, fy)
                if not both:
                    continue
                kx, ky = outcome_class(x, None), outcome_class(y, None)
                if kx != ky and not (ky == "AnyError" and kx != "value"):
                    return None
                n += 1
                if kx != "value":
                    continue
                c = LazyCmp(ip, dec, lz if both == lz.care else lz.assuming(both))
                c.cmp(x.value, x.heap, y.value, y.heap, "")
                n += c.compared
        return n
    except (Undecided, Split, TooBig):
        return None


def short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:117] + "..."


def live(ev, root):
    """nodes reachable from root through resolved gates (post-order)"""
    seen, out = set(), []
    stack = [(root, 0)]
    while stack:
        n, st = stack.pop()
        if st:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "ite":
            stack.append((n.args[1] if ev.cond(n.args[0]) else n.args[2], 0))
            continue
        stack.append((n, 1))
        if n.op in ("cmp", "and", "or", "not"):
            continue
        for a in n.args:
            stack.append((a, 0))
    return out


def blame(dec, ev, a, b):
    """deepest construct on the analysed side whose value has no counterpart on the required side"""
    try:
        req = set()
        for n in live(ev, b):
            v = ev.ev(n)
            req.add(repr(v))
            try:
                req.add(repr([x if x is UNDEF else neg_(x) for x in v]))
            except Exception:
                pass
        for n in live(ev, a):
            if n.op in ("const", "var", "pi") or n.line is None or n.line[0].startswith("spec/"):
                continue
            if repr(ev.ev(n)) not in req:
                return n, n.line
    except Split:
        pass
    return a, a.line


def neg_(x):
    from . import field
    return field.neg(x)


def nodes_of(ip, comps):
    return sum(1 for _ in g.walk([c.guard for c in comps]))


class Result:
    def __init__(self, name):
        self.name = name
        self.mismatches = []
        self.contexts = self.leaves = self.compared = self.loose = 0
        self.nodes = 0
        self.functions = {}
        self.error = None
        self.wall = 0
        self.notes = []


def get(ip, dotted):
    v = ip.public(dotted)
    if v is None:
        raise AnchorMissing(dotted)
    return v


def run(rule):
    lib.FACTOR.clear()
    for _ in range(6):
        try:
            return run1(rule)
        except lib.Refactor:
            continue
    res = Result(rule["name"])
    res.error = "no consistent split of a flattened loop"
    return res


def run1(rule):
    """rule: dict(name, lhs='module.func', rhs='module.func', vars={name: Region}, params=[...], exc=bool,
    assume='module.func')"""
    t0 = time.time()
    res = Result(rule["name"])
    g0 = g.size()
    try:
        ip = interp()
        if rule.get("setup"):
            rule["setup"](ip)
        regions, argv = {}, []
        for n, r in rule["vars"].items():
            regions[n] = r
            argv.append(g.var(n))
        args = argv
        if rule.get("args"):
            args = rule["args"](ip, argv)
        lf, rf = get(ip, rule["lhs"]), get(ip, rule["rhs"])
        rc = ip.outcome(rf, args)
        lc = ip.outcome(lf, args)
        res.notes = list(ip.notes)
        res.functions = {f"{f}:{q.removeprefix(f[:-3].replace('/', '.') + '.')}": len(l) for (f, q), l in ip.analysed.items()
                         if not f.startswith("spec/")}
        missing = missing_anchor(ip, rule)
        if rule.get("made") and any(n[0] == "harness-attr" for n in ip.notes):
            raise AnchorMissing("state " + ", ".join(sorted({n[1] for n in ip.notes if n[0] == "harness-attr"})))
        if missing and rule.get("names") and str(missing).startswith("kerrgeopy"):
            # the obligation is about the name itself: that it is gone is the finding
            line = next((n[2] for n in ip.notes if n[1] == missing), None)
            res.compared, res.contexts = 1, 1
            res.mismatches = [Mismatch(None, f"{missing} is not there", None, ("kerrgeopy/__init__.py", 1), "")]
            res.wall = time.time() - t0
            return res
        if missing:
            raise AnchorMissing(missing)
        dec = Decider(regions, budget=rule.get("budget", 20000), time_limit=rule.get("time", 600))

        same_inputs = [n for n in g._mem[g0:] if n.op == "cmp" and n.data == "==" and all(x.op == "var" for x in n.args)]

        def compare(ev):
            n = lazy_agree(ip, dec, ev, lc, rc)
            if n is not None:
                res.compared += n
                return []
            if len(same_inputs) <= 12:
                for c in same_inputs:       # code that asks whether two inputs coincide: settle that before anything else
                    ev.cond(c)
            c2 = pick(ev, rc)
            if c2 is None:
                return []
            if c2.kind == "raise" and c2.value.name == "DontCare":
                return []
            c1 = pick(ev, lc)
            if c1 is None:
                return []
            cm = Cmp(ip, dec, ev)
            if c1.kind == "raise" and c1.value.name == "DontCare":
                return []
            if c1.kind == "raise" or c2.kind == "raise":
                res.compared += 1
                if c1.kind != c2.kind:
                    if c1.kind == "raise":
                        cm.miss("", f"raises {c1.value.name} where a value is required", None, c1.line)
                    else:
                        cm.miss("", f"returns a value where {c2.value.name} is required", None, c1.line or last_line(lc))
                elif not same_exc(c1.value.name, c2.value.name, rule.get("exc")):
                    cm.miss("", f"raises {c1.value.name} where {c2.value.name} is required", None, c1.line)
                return cm.out
            try:
                cm.cmp(c1.value, c1.heap, c2.value, c2.heap, "result")
            except Split:
                if not cm.out:          # an earlier component already differs everywhere in this context
                    raise
            res.compared += cm.compared
            for m in cm.out:
                m.line = m.line or c1.line or last_line(lc)
            return cm.out
        try:
            res.mismatches, unknown = understood(dec.run(compare, rule.get("stop", 6)), lc, rc)
            if unknown and not res.mismatches:
                res.error = "no transfer function: " + ", ".join(sorted(unknown))
        finally:
            res.contexts, res.leaves, res.loose, res.vacuous = dec.contexts, dec.leaves, dec.loose, dec.incoherent
    except AnchorMissing as e:
        res.error = f"anchor {e} not found"
    except Unsupported as e:
        res.error = f"no transfer function: {e}"
    except Budget as e:
        res.error = f"budget exhausted: {e}"
        res.mismatches = e.found
    except RecursionError:
        import traceback; traceback.print_exc(limit=-12); res.error = "recursion limit"
    res.nodes = g.size() - g0
    res.wall = time.time() - t0
    return res


def foreign(roots):
    """numeric library functions without a transfer function that the nodes depend on"""
    return {n.data[5:] for n in g.walk(roots) if n.op == "app" and str(n.data).startswith(("call.numpy.", "call.scipy.", "call.math."))}


def understood(mismatches, lc, rc):
    """mismatches that do not hinge on a library function the analysis has no semantics for, and the functions it lacks"""
    if not mismatches:
        return mismatches, set()
    known = foreign([c.guard for c in rc] + [c.value for c in rc if isinstance(c.value, Node)])
    out, unknown = [], set()
    for m in mismatches:
        missing = foreign(m.roots + [n for n, _ in m.ctx.lines] + [a for b in m.ctx.bools for a in b[2]]) - known
        unknown |= missing
        if not missing:
            out.append(m)
    return out, unknown


PROGRAM_ERRORS = {"UnboundLocalError", "NameError", "TypeError", "AttributeError", "IndexError", "ZeroDivisionError", "KeyError"}


def same_exc(a, b, mode):
    if a == b:
        return True
    if b in ("AnyError",):
        return True
    # the required exception signals rejected input: any deliberate exception class is accepted,
    # interpreter-raised programming errors are not
    return a not in PROGRAM_ERRORS


def last_line(comps):
    return next((c.line for c in reversed(comps) if c.line), None)


def missing_anchor(ip, rule):
    for n in ip.notes:
        if n[0] == "undefined-name" and n[2] and n[2][0].startswith("spec/"):
            return n[1]
        if n[0] in ("undefined-attr", "missing-attr") and n[2] and n[2][0].startswith("spec/"):
            return n[1]
    return None
