"""Identity test for normal forms.

Two values whose polynomial normal forms differ may still be equal (e.g. when indicator atoms are
correlated in a way the normal form does not know).  zero(p) evaluates the *normal form* p at
points of its input atoms; opaque functions are evaluated as consistent pseudo-random functions of
their (numeric) arguments, indicator atoms from the expression they are built on.  A point where p
does not vanish is a witness for a difference; if p vanishes at all points the values are treated
as equal (probability of error negligible: Schwartz-Zippel on >= 200 points, including a grid of
small integers that makes ties and zeros likely).
"""
import hashlib
import random
import re
from fractions import Fraction

import poly
from poly import Poly

P = (1 << 61) - 1


class Bad(Exception):
    pass


def _h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'big')


class Point:
    def __init__(self, seed, mode):
        self.seed = seed
        self.mode = mode
        self.rng = random.Random(seed)
        self.val = {}
        self.table = {}

    def inv0(self):
        """1/0: an unspecified number (the same wherever it is formed)."""
        return Fraction(_h(self.seed, 'inv0') % 100003, 17)

    def leaf(self, at):
        r = _h(self.seed, at.key if not _haspoly(at.key) else at.name)
        if not at.isfloat:
            if at.bits == 1:
                return r & 1
            if self.mode == 0:
                v = r % 3
            elif self.mode == 1:
                v = r % 6
            else:
                v = r % 50
            if at.bits == 8:
                v = r % 256
            if not at.nonneg and (r >> 20) & 1:
                v = -v
            return v
        if self.mode == 0:
            v = Fraction(r % 5 - 2)
        elif self.mode == 1:
            v = Fraction(r % 11 - 5)
        else:
            v = Fraction(r % 2001 - 1000, 1 + (r >> 40) % 37)
        if at.nonneg:
            v = abs(v)
        return v

    def num(self, x):
        """Numeric value of anything that can appear in a key."""
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, (int, Fraction)):
            return x
        if isinstance(x, tuple):
            return tuple(self.num(y) for y in x)
        if isinstance(x, frozenset):
            return tuple(sorted((self.num(y) for y in x), key=repr))
        return x

    def atom(self, i):
        v = self.val.get(i)
        if v is None:
            v = self._atom(poly.ATOMS[i])
            self.val[i] = v
        return v

    def _atom(self, at):
        k = at.key
        if isinstance(k, tuple):
            h = k[0]
            if h == 'eq':
                return 1 if self.poly(at.payload) == 0 else 0
            if h == 'lt':
                return 1 if self.poly(at.payload) < 0 else 0
            if h == 'inv':
                d = self.poly(at.payload)
                if d == 0:
                    return self.inv0()
                return Fraction(1) / d
            if h == 'max':
                return max(self.num(x) for x in k[1])
            if h == 'min':
                return min(self.num(x) for x in k[1])
            if h == 'fabs':
                return abs(self.num(k[1]))
            if h == 'idiv':
                a, b = self.num(k[1]), self.num(k[2])
                if b == 0:
                    return _h(self.seed, 'idiv0', a) % 1000
                return a // b
            if h == 'irem':
                a, b = self.num(k[1]), self.num(k[2])
                if b == 0:
                    return _h(self.seed, 'irem0', a) % 1000
                return a % b
            if h in ('and', 'or', 'xor') and len(k) == 3:
                a, b = self.num(k[1]), self.num(k[2])
                if isinstance(a, int) and isinstance(b, int):
                    return {'and': a & b, 'or': a | b, 'xor': a ^ b}[h]
            if h == 'trunc':
                v = self.num(k[2])
                return int(v) % (1 << k[1])
            if h == 'toint':
                v = Fraction(self.num(k[2]))
                q = abs(v.numerator) // v.denominator
                return q if v >= 0 else -q
            if h == 'mod2':
                return int(self.num(k[1])) % 2
            if h == 'sqrt' and isinstance(k[1], (int, Fraction)) and k[1] >= 0:
                import math
                q = Fraction(k[1]) * (1 << 160)
                return Fraction(math.isqrt(int(q)), 1 << 80)
            if h == 'f32':
                v = Fraction(self.num(k[1]))
                if abs(v) < 1 << 12 and v.denominator == 1:
                    return v
                return v + Fraction(_h(self.seed, 'f32', v) % 1009 + 1, 1 << 24)
            if _haspoly(k):
                # opaque function of its arguments
                key = self.num(k)
                if self.table:
                    v = self.table.get(repr(key))
                    if v is not None:
                        return v
                r = _h(self.seed, key)
                if at.ind:
                    return r & 1
                if at.isfloat:
                    v = Fraction(r % 4001 - 2000, 7)
                    return abs(v) if at.nonneg else v
                # status codes and the like: zero is as likely as anything else
                return 0 if (r >> 30) & 1 else r % 50
        if at.ind:
            return _h(self.seed, at.key) & 1
        return self.leaf(at)

    def poly(self, p):
        if not isinstance(p, Poly):
            return p
        s = 0
        for m, c in p.t.items():
            x = c
            # zero factors first: 0 * (1/0) must not matter for gated terms
            pend = []
            z = False
            for a, e in m:
                at = poly.ATOMS[a]
                if at.ind:
                    if self.atom(a) == 0:
                        z = True
                        break
                else:
                    pend.append((a, e))
            if z:
                continue
            for a, e in pend:
                v = self.atom(a)
                if e < 0:
                    if v == 0:
                        x = x * self.inv0() ** (-e)
                    else:
                        x = x * Fraction(v) ** e
                else:
                    x = x * v ** e
            s += x
        return s


# A prime q = 3 mod 4 below 2^61 for which 2, 3, 5 and 7 are squares.
Q = 2305843009213690799
_INV = re.compile(r'inv\d+_\d+$')


class Field(Point):
    """Evaluation in the finite field of Q elements: entries of inverse matrices are evaluated as what they
    are (Gauss elimination), square roots of integers as square roots.  Order is not available."""

    def __init__(self, seed):
        Point.__init__(self, seed, 0)
        self.inverse = {}

    def leaf(self, at):
        r = _h(self.seed, at.key if not _haspoly(at.key) else at.name)
        if not at.isfloat:
            if at.bits == 1:
                return r & 1
            return r % 6
        return r * 0x9E3779B97F4A7C15 % Q

    def inv0(self):
        raise Bad()

    def _atom(self, at):
        k = at.key
        if isinstance(k, tuple):
            h = k[0]
            if h == 'surd':
                return pow(k[1], (Q + 1) // 4, Q)
            if h == 'fabs':
                # x times its quadratic character: even and multiplicative (Q = 3 mod 4; 2, 3, 5 and 7 are squares)
                v = self.num(k[1]) % Q
                return v if pow(v, (Q - 1) // 2, Q) <= 1 else Q - v
            if h == 'lt':
                # "negative" means nonresidue: opposite for -x, unchanged by the factors 2, 3, 5 and 7
                v = self.poly(at.payload) % Q
                if isinstance(at.payload, Poly) and not any(poly.ATOMS[a].isfloat for m in at.payload.t for a, _ in m):
                    return 1 if v > Q // 2 else 0
                return 1 if pow(v, (Q - 1) // 2, Q) > 1 else 0
            if h == 'eq':
                return 1 if self.poly(at.payload) % Q == 0 else 0
            if h == 'inv':
                d = self.poly(at.payload) % Q
                if d == 0:
                    raise Bad()
                return pow(d, Q - 2, Q)
            if h == 'f32':
                v = self.num(k[1]) % Q
                return v if v < 4096 else _h(self.seed, 'f32', v) % Q
            if h == 'fn' and isinstance(k[1], str) and _INV.match(k[1]):
                i, j = k[1][3:].split('_')
                return self.inverted(k[2], k[3:])[int(i)][int(j)]
            if h in ('fn', 'in') and not at.ind:
                if not _haspoly(k):
                    return self.leaf(at)
                key = self.num(k)
                r = _h(self.seed, key)
                return r * 0x9E3779B97F4A7C15 % Q if at.isfloat else r % 6
            if h in ('fn', 'in'):
                return _h(self.seed, self.num(k)) & 1
            raise Bad()
        return self.leaf(at)

    def num(self, x):
        if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
            return self.poly(x)
        return Point.num(self, x)

    def inverted(self, n, cols):
        m = self.inverse.get(cols)
        if m is None:
            m = self.inverse[cols] = _inverse(n, [self.num(x) % Q for x in cols])
        return m

    def poly(self, p):
        if not isinstance(p, Poly):
            if isinstance(p, Fraction):
                return p.numerator * pow(p.denominator, Q - 2, Q) % Q
            return p % Q
        s = 0
        for m, c in p.t.items():
            x = c if isinstance(c, int) else self.poly(c)
            z = False
            for a, e in m:
                if poly.ATOMS[a].ind and self.atom(a) == 0:
                    z = True
                    break
            if z:
                continue
            for a, e in m:
                if poly.ATOMS[a].ind:
                    continue
                v = self.atom(a) % Q
                if e < 0:
                    if v == 0:
                        raise Bad()
                    v = pow(v, Q - 2, Q)
                    e = -e
                x = x * (v if e == 1 else pow(v, e, Q)) % Q
            s += x
        return s % Q


def _inverse(n, cols):
    """Inverse of the n x n matrix given by columns, modulo Q (rows of the result)."""
    a = [[cols[j * n + i] for j in range(n)] + [1 if i == j else 0 for j in range(n)] for i in range(n)]
    for c in range(n):
        r = next((r for r in range(c, n) if a[r][c]), None)
        if r is None:
            raise Bad()
        a[c], a[r] = a[r], a[c]
        f = pow(a[c][c], Q - 2, Q)
        a[c] = [x * f % Q for x in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                f = a[r][c]
                a[r] = [(x - f * y) % Q for x, y in zip(a[r], a[c])]
    return [row[n:] for row in a]


def algebraic(p, seen=None):
    """Does the value contain entries of inverse matrices or algebraic numbers?"""
    seen = set() if seen is None else seen
    if isinstance(p, Poly):
        for m in p.t:
            for a, _ in m:
                if a in seen:
                    continue
                seen.add(a)
                k = poly.ATOMS[a].key
                if isinstance(k, tuple):
                    if k[0] == 'surd' or (k[0] == 'fn' and isinstance(k[1], str) and _INV.match(k[1])):
                        return True
                    if algebraic(k, seen) or algebraic(poly.ATOMS[a].payload, seen):
                        return True
    elif isinstance(p, (tuple, frozenset)):
        return any(algebraic(x, seen) for x in p)
    return False


def zero_field(p, pc, n=20):
    """Like zero, in the field; None if that is not possible."""
    ok = tried = 0
    while ok < n and tried < 60 * n:
        pt = Field(tried)
        tried += 1
        try:
            if isinstance(pc, Poly) and pt.poly(pc) == 0:
                continue
            v = pt.poly(p)
        except Bad:
            continue
        ok += 1
        if v:
            return False, "the normal forms differ (evaluated in a finite field, seed %d)" % (tried - 1)
    return (True, None) if ok >= 4 else None


def _haspoly(k):
    if isinstance(k, Poly):
        return True
    if isinstance(k, (tuple, frozenset)):
        return any(_haspoly(x) for x in k)
    return False


def leaves(p, acc, seen):
    if isinstance(p, Poly):
        for m in p.t:
            for a, _ in m:
                if a in seen:
                    continue
                seen.add(a)
                at = poly.ATOMS[a]
                if _haspoly(at.key) or (isinstance(at.payload, Poly)):
                    _sub(at.key, acc, seen)
                    _sub(at.payload, acc, seen)
                else:
                    acc.add(a)


def _sub(k, acc, seen):
    if isinstance(k, Poly):
        leaves(k, acc, seen)
    elif isinstance(k, (tuple, frozenset)):
        for x in k:
            _sub(x, acc, seen)


class Vacuous(Exception):
    """No admissible evaluation point was found: nothing can be concluded."""


def _force(pt, p, rng):
    """Try to choose the atoms of pt such that the 0/1-valued polynomial p becomes nonzero."""
    if not isinstance(p, Poly):
        return
    ms = list(p.t)
    want = {}
    inds = set()
    for m in ms:
        for a, _ in m:
            if poly.ATOMS[a].ind:
                inds.add(a)
    m = rng.choice(ms)
    for a, _ in m:
        want[a] = 1
    r = rng.random()
    for a in inds:
        if a not in want and r < 0.6:
            want[a] = 0 if r < 0.4 else rng.randrange(2)
    for a in sorted(want):
        _make(pt, a, want[a], rng, 0)


def _make(pt, a, v, rng, depth):
    at = poly.ATOMS[a]
    if a in pt.val or depth > 6:
        return
    k = at.key
    h = k[0] if isinstance(k, tuple) else None
    if h in ('eq', 'lt') and isinstance(at.payload, Poly):
        if h == 'eq' and v == 0:
            return
        P = at.payload
        cand = []
        for m, c in P.t.items():
            if len(m) == 1 and m[0][1] == 1:
                x = m[0][0]
                ax = poly.ATOMS[x]
                if x in pt.val:
                    continue
                if sum(1 for mm in P.t for y, _ in mm if y == x) != 1:
                    continue
                cand.append((x, c, ax))
        # a product of indicators / a negated indicator under the comparison
        if not cand or rng.random() < 0.3:
            for m in P.t:
                for y, _ in m:
                    if poly.ATOMS[y].ind:
                        _make(pt, y, rng.randrange(2), rng, depth + 1)
            return
        x, c, ax = rng.choice(cand)
        if ax.ind:
            return
        rest = 0
        try:
            rest = pt.poly(poly.sub(P, poly.mul(c, poly.from_atom(x)))) if True else 0
        except Exception:
            return
        if x in pt.val:
            return
        goal = Fraction(0)
        if h == 'lt':
            d = Fraction(1 + rng.randrange(3))
            goal = -d if v else rng.choice([Fraction(0), d])
        val = (goal - rest) / Fraction(c)
        if not ax.isfloat:
            if val.denominator != 1:
                return
            val = int(val)
            if ax.bits == 1 and val not in (0, 1):
                return
        if ax.nonneg and val < 0:
            return
        hx = ax.key[0] if isinstance(ax.key, tuple) else None
        if hx in ('eq', 'lt', 'inv', 'max', 'min', 'fabs', 'idiv', 'irem', 'trunc', 'toint', 'mod2', 'f32', 'and', 'or', 'xor'):
            return
        if hx is not None and _haspoly(ax.key):
            # opaque function: the same arguments must keep giving the same value
            key = repr(pt.num(ax.key))
            if key in pt.table:
                return
            pt.table[key] = val
        pt.val[x] = val
        return
    if at.ind and h not in ('eq', 'lt'):
        if isinstance(k, tuple) and _haspoly(k):
            key = repr(pt.num(k))
            if key in pt.table:
                return
            pt.table[key] = v
        pt.val[a] = v


def zero(p, n=240, pc=None):
    """(True, None) if p is zero at all evaluated points (with pc nonzero), else (False, witness)."""
    if not isinstance(p, Poly):
        if p == 0 or not isinstance(pc, Poly):
            return (p == 0, None if p == 0 else "constant difference %s" % p)
    alg = algebraic(p)
    if alg and poly._SURD:
        r = zero_field(p, pc)
        if r is not None:
            return r
    ok = 0
    tried = 0
    big = isinstance(p, Poly) and len(p.t) > 3000
    if big:
        n = 60
    guided = isinstance(pc, Poly)
    while ok < n and tried < 4 * n:
        pt = Point(tried, tried % 3)
        if guided and tried % 4 != 3:
            _force(pt, pc, pt.rng)
        tried += 1
        try:
            if guided and pt.poly(pc) == 0:
                continue
            v = pt.poly(p)
        except Bad:
            continue
        ok += 1
        if v != 0:
            if alg:
                # the inverse was evaluated as an arbitrary function: is it different for a true inverse?
                r = zero_field(p, pc)
                if r is not None and r[0]:
                    return r
            acc, seen = set(), set()
            leaves(p, acc, seen)
            w = []
            for a in sorted(acc)[:24]:
                if a in pt.val:
                    w.append("%s=%s" % (poly.ATOMS[a].name, pt.val[a]))
            return False, "difference %s at %s" % (_s(v), ", ".join(w))
    if ok < 4:
        raise Vacuous()
    return True, None


def _s(v):
    s = str(v)
    return s if len(s) < 40 else "%.6g" % float(v)
