"""Hash-consed value graph (gated SSA): every node is a pure operator over other nodes."""
from fractions import Fraction

# numeric operators: add mul div neg pow sqrt abs sign copysign floor mod min max
#   sin cos tan exp log app(name) real imag
# boolean operators: cmp(op) and or not bapp(name) isreal
# gate: ite(cond, a, b)


class Node:
    __slots__ = ("op", "args", "data", "id", "line")

    def __repr__(self):
        return show(self, 6)


_table = {}
_cur = {"line": None}
_mem = []


def set_line(x):
    _cur["line"] = x


def get_line():
    return _cur["line"]


def mk(op, args=(), data=None):
    key = (op, tuple(a.id for a in args), data)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.data, n.id = op, tuple(args), data, len(_mem)
        n.line = _cur["line"]
        _table[key] = n
        _mem.append(n)
    return n


def size():
    return len(_mem)


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    return mk("const", (), Fraction(v))


def var(name):
    return mk("var", (), name)


TRUE = mk("true")
FALSE = mk("false")
NAN = mk("nan")
INF = mk("inf")
PI = mk("pi")


def cval(n):
    return n.data if n.op == "const" else None


def is_bool(n):
    return n.op in ("true", "false", "cmp", "and", "or", "not", "bapp", "isreal")


def num(n):
    """numeric view of a boolean node"""
    if n.op == "true":
        return const(1)
    if n.op == "false":
        return const(0)
    if is_bool(n):
        return ite(n, const(1), const(0))
    if n.op == "ite" and (is_bool(n.args[1]) or is_bool(n.args[2])):
        return ite(n.args[0], num(n.args[1]), num(n.args[2]))
    return n


def add(a, b):
    a, b = num(a), num(b)
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return const(x + y)
    if x == 0:
        return b
    if y == 0:
        return a
    return mk("add", (a, b))


def neg(a):
    a = num(a)
    x = cval(a)
    if x is not None:
        return const(-x)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = num(a), num(b)
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return const(x * y)
    if x == 1:
        return b
    if y == 1:
        return a
    return mk("mul", (a, b))


def div(a, b):
    a, b = num(a), num(b)
    x, y = cval(a), cval(b)
    if x is not None and y is not None and y != 0:
        return const(x / y)
    if y == 1:
        return a
    return mk("div", (a, b))


def fn(op, *args, data=None):
    return mk(op, tuple(num(a) for a in args), data)


def power(a, b):
    a, b = num(a), num(b)
    x, y = cval(a), cval(b)
    if y is not None:
        if y.denominator == 1:
            n = int(y)
            if n == 0:
                return const(1)
            if n == 1:
                return a
            if x is not None and (x != 0 or n > 0) and abs(n) < 400:
                return const(x ** n)
            if abs(n) <= 64:
                return mk("pow", (a,), n)
        if y.denominator == 2:
            s = sqrt(a)
            n = y.numerator
            return s if n == 1 else mk("pow", (s,), n)
    return mk("app", (a, b), "power")


def sqrt(a):
    a = num(a)
    x = cval(a)
    if x is not None and x >= 0:
        from math import isqrt
        n, d = isqrt(x.numerator), isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return const(Fraction(n, d))
    return mk("sqrt", (a,))


def absv(a):
    a = num(a)
    x = cval(a)
    if x is not None:
        return const(abs(x))
    return mk("abs", (a,))


_CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
        ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def isint(n):
    if n.op in ("floor", "ceil"):
        return True
    if n.op == "const":
        return n.data.denominator == 1
    if n.op == "app" and n.data in ("int", "round0"):
        return True
    if n.op in ("add", "mul", "neg"):
        return all(isint(a) for a in n.args)
    return False


def bit(n):
    """is n the remainder modulo 2 of an integer"""
    return n.op == "mod" and cval(n.args[1]) == 2 and isint(n.args[0])


def cmp(op, a, b):
    if op in ("==", "!=") and a is b and a.op in ("true", "false"):
        return TRUE if op == "==" else FALSE
    a, b = num(a), num(b)
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return TRUE if _CMP[op](x, y) else FALSE
    if bit(a) and y is not None or bit(b) and x is not None:
        # a parity test: one atom whatever the way it is phrased
        zero, one = (_CMP[op](z, y) if y is not None else _CMP[op](x, z) for z in (0, 1))
        if zero == one:
            return TRUE if zero else FALSE
        even = mk("cmp", (a if y is not None else b, const(0)), "==")
        return even if zero else lnot(even)
    return mk("cmp", (a, b), op)


def truth(n):
    """boolean view of a numeric node"""
    if is_bool(n):
        return n
    if n.op == "ite":
        return ite(n.args[0], truth(n.args[1]), truth(n.args[2]))
    return cmp("!=", n, const(0))


def land(a, b):
    a, b = truth(a), truth(b)
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    return mk("and", (a, b))


def lor(a, b):
    a, b = truth(a), truth(b)
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    if a is b:
        return a
    return mk("or", (a, b))


def lnot(a):
    a = truth(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if c.op == "not":
        return ite(c.args[0], b, a)
    # same gate nested
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b))


def app(name, *args):
    return mk("app", tuple(args), name)


def bapp(name, *args):
    return mk("bapp", tuple(args), name)


def show(n, depth=4):
    if depth == 0:
        return "…"
    o = n.op
    if o == "const":
        f = n.data
        if f.denominator == 1:
            return str(f)
        fl = float(f)
        return f"{fl:.6g}"
    if o == "var":
        return n.data
    if o in ("true", "false", "nan", "inf", "pi"):
        return o
    a = [show(x, depth - 1) for x in n.args]
    if o == "add":
        return f"({a[0]}+{a[1]})"
    if o == "mul":
        return f"{a[0]}*{a[1]}"
    if o == "div":
        return f"{a[0]}/({a[1]})"
    if o == "neg":
        return f"-{a[0]}"
    if o == "pow":
        return f"{a[0]}**{n.data}"
    if o == "cmp":
        return f"({a[0]} {n.data} {a[1]})"
    if o == "ite":
        return f"[{a[0]} ? {a[1]} : {a[2]}]"
    if o in ("and", "or"):
        return f"({a[0]} {o} {a[1]})"
    return f"{n.data or o}({', '.join(a)})"


def walk(roots):
    seen = set()
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        stack.extend(n.args)
