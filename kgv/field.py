"""Fingerprint field used as the hash domain of the algebraic value numbering.

Value-graph nodes are compared modulo the laws of a field with square roots
(ring laws, s**2 = radicand, sqrt(A)*sqrt(B) = sqrt(A*B) for "non-negative" A, B,
sin**2+cos**2 = 1, ...).  Two nodes are congruent iff their normal forms agree; normal
forms are compared by polynomial-identity fingerprints in GF(q**2), q = 2**127-1
(Schwartz-Zippel; collision probability < 2**-100 per comparison).

q = 3 (mod 4), so -1 is a non-residue and the quadratic character behaves like the sign of
a real number: it is multiplicative, sqrt of a residue is chosen to be a residue, and
sqrt of a non-residue x is i*sqrt(-x).

Elements are ints (GF(q)) or (re, im) tuples with im != 0.
"""
import hashlib
from fractions import Fraction

Q = (1 << 127) - 1
HALF = (Q - 1) // 2
ROOT = (Q + 1) // 4


def norm(re, im):
    re %= Q
    im %= Q
    return re if im == 0 else (re, im)


def add(x, y):
    if type(x) is int and type(y) is int:
        return (x + y) % Q
    a, b = x if type(x) is tuple else (x, 0)
    c, d = y if type(y) is tuple else (y, 0)
    return norm(a + c, b + d)


def neg(x):
    if type(x) is int:
        return -x % Q
    return (-x[0] % Q, -x[1] % Q)


def sub(x, y):
    if type(x) is int and type(y) is int:
        return (x - y) % Q
    return add(x, neg(y))


def mul(x, y):
    if type(x) is int and type(y) is int:
        return x * y % Q
    a, b = x if type(x) is tuple else (x, 0)
    c, d = y if type(y) is tuple else (y, 0)
    return norm(a * c - b * d, a * d + b * c)


class Pole(Exception):
    """division by the zero element at a fingerprint point"""


def inv(x):
    if type(x) is int:
        if x == 0:
            raise Pole()
        return pow(x, -1, Q)
    a, b = x
    n = a * a + b * b
    if n % Q == 0:
        raise Pole()
    n = pow(n, -1, Q)
    return norm(a * n, -b * n)


def power(x, n):
    if n < 0:
        return inv(power(x, -n))
    if type(x) is int:
        return pow(x, n, Q)
    r = 1
    while n:
        if n & 1:
            r = mul(r, x)
        x = mul(x, x)
        n >>= 1
    return r


def chi(x):
    """quadratic character of a GF(q) element: 0, 1, -1"""
    if x == 0:
        return 0
    return 1 if pow(x, HALF, Q) == 1 else -1


def sqrt(x):
    """returns (root, clean). clean is False when x is not a residue of GF(q)."""
    if type(x) is int:
        if x == 0:
            return 0, True
        r = pow(x, ROOT, Q)
        if r * r % Q == x:
            return r, True
        return (0, r), False        # (-x)**ROOT == x**ROOT since ROOT is even
    u, v = x
    n = (u * u + v * v) % Q
    if chi(n) == 1:
        m = pow(n, ROOT, Q)
        for mm in (m, -m % Q):
            t = (u + mm) * pow(2, -1, Q) % Q
            if chi(t) == 1:
                a = pow(t, ROOT, Q)
                return norm(a, v * pow(2 * a, -1, Q)), False
    return prf("sqrt!", (x,)), False


def frac(f):
    f = Fraction(f)
    return f.numerator % Q * pow(f.denominator % Q, -1, Q) % Q


SALT = 1


def prf(name, args):
    h = hashlib.blake2b(repr((SALT, name, args)).encode(), digest_size=20).digest()
    return int.from_bytes(h, "big") % Q


def rational(x, bound=1 << 50):
    """small rational reconstruction of a GF(q) element, or None"""
    if type(x) is not int:
        return None
    r0, r1 = Q, x
    t0, t1 = 0, 1
    while r1 > bound:
        k = r0 // r1
        r0, r1 = r1, r0 - k * r1
        t0, t1 = t1, t0 - k * t1
    if t1 == 0 or abs(t1) > bound:
        return None
    f = Fraction(r1, t1)
    return f
