"""Abstract values of the gated value-flow analysis.

Numeric values (integers, floating point numbers and booleans alike) are value numbers in a
polynomial normal form: a Poly is a finite sum of rational multiples of monomials over hash-consed
*atoms* (inputs, opaque function results, quotients, indicator atoms of conditions).  A value that
depends on a condition c, i.e. the gated join of a (c holds) and b (c does not hold), is
b + [c]*(a-b) with the idempotent indicator atom [c].  Two expressions have the same normal form
whenever they are equal as ring expressions, regardless of evaluation order, helper functions,
loop shapes or branch shapes that produced them.  Rounding of floating point operations and integer
overflow are abstracted away (documented in DESIGN.md).
"""
from fractions import Fraction


class TooBig(Exception):
    """The normal form exceeds the size cap of the domain: no decision is made."""


MAX_TERMS = 60000

# ------------------------------------------------------------------------------------------------
# Atoms
# ------------------------------------------------------------------------------------------------


class Atom:
    __slots__ = ("id", "key", "ind", "isfloat", "nonneg", "bits", "name", "payload")

    def __init__(self, id_, key, ind, isfloat, nonneg, bits, name, payload):
        self.id = id_
        self.key = key
        self.ind = ind
        self.isfloat = isfloat
        self.nonneg = nonneg
        self.bits = bits
        self.name = name
        self.payload = payload

    def __repr__(self):
        return self.name


ATOMS = []
_ATOM_BY_KEY = {}


def atom(key, ind=False, isfloat=False, nonneg=False, bits=64, name=None, payload=None):
    a = _ATOM_BY_KEY.get(key)
    if a is None:
        a = Atom(len(ATOMS), key, ind, isfloat, nonneg, bits, name or str(key), payload)
        ATOMS.append(a)
        _ATOM_BY_KEY[key] = a
    return a


def reset():
    ATOMS.clear()
    _ATOM_BY_KEY.clear()
    _REL.clear()
    _IND_PAIR.clear()
    _SURD.clear()


# ------------------------------------------------------------------------------------------------
# Indicator relations: atoms [base + c == 0] and [base + c < 0]
# ------------------------------------------------------------------------------------------------
_REL = {}  # atom id -> (kind, base_key, const)
_IND_PAIR = {}


def _ind_product(i, j):
    """Product of two different indicator atoms: None (no rule), 0, i or j."""
    k = (i, j) if i < j else (j, i)
    r = _IND_PAIR.get(k, 7)
    if r != 7:
        return r
    r = None
    ri, rj = _REL.get(i), _REL.get(j)
    if ri is not None and rj is not None and ri[1] == rj[1]:
        # equal base polynomials.  eq: base == -c ; lt: base < -c
        ki, kj, ci, cj = ri[0], rj[0], ri[2], rj[2]
        if ki == "eq" and kj == "eq":
            r = 0
        elif ki == "eq":  # base=-ci ; lt_j true iff -ci + cj < 0
            r = i if cj - ci < 0 else 0
        elif kj == "eq":
            r = j if ci - cj < 0 else 0
        else:  # base < -ci and base < -cj
            r = i if -ci < -cj else j
    elif ri is not None and rj is not None and ri[0] == "lt" and rj[0] == "lt" and ri[3] == rj[1]:
        # base_i = -base_j : base_i < -ci  and  -base_i < -cj  i.e. base_i > cj
        lo, hi = rj[2], -ri[2]
        if lo >= hi:
            r = 0
    elif ri is not None and rj is not None and ri[3] == rj[1]:
        if ri[0] == "eq" and rj[0] == "lt":
            # base_i = -ci, base_j = -base_i = ci ; lt_j iff ci + cj < 0
            r = i if ri[2] + rj[2] < 0 else 0
        elif rj[0] == "eq" and ri[0] == "lt":
            r = j if rj[2] + ri[2] < 0 else 0
    _IND_PAIR[k] = r
    return r


# ------------------------------------------------------------------------------------------------
# Polynomials
# ------------------------------------------------------------------------------------------------


_SURD = {}


def surd(c):
    """Square root of the positive, square-free integer c, as an algebraic number (its square is c)."""
    a = atom(("surd", c), isfloat=True, nonneg=True, name="sqrt%d" % c)
    _SURD[a.id] = c
    return from_atom(a)


def _mono_mul(m1, m2):
    """Product of two monomials: (monomial, factor) or None if zero."""
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        if a in d:
            if ATOMS[a].ind:
                continue
            e = d[a] + e
            if e == 0:
                del d[a]
            else:
                d[a] = e
        else:
            d[a] = e
    fac = 1
    if _SURD:
        for a in [a for a in d if a in _SURD]:
            e = d[a]
            if e < 0 or e > 1:
                # sqrt(c)^e = c^(e//2) sqrt(c)^(e%2)
                fac = fac * Fraction(_SURD[a]) ** (e // 2)
                if e % 2:
                    d[a] = 1
                else:
                    del d[a]
    inds = [a for a in d if a in _REL]
    if inds:
        if len(inds) > 1:
            changed = True
            while changed:
                changed = False
                for x in range(len(inds)):
                    for y in range(x + 1, len(inds)):
                        r = _ind_product(inds[x], inds[y])
                        if r is None:
                            continue
                        if r == 0:
                            return None
                        drop = inds[y] if r == inds[x] else inds[x]
                        del d[drop]
                        inds.remove(drop)
                        changed = True
                        break
                    if changed:
                        break
        for i in inds:
            rel = _REL.get(i)
            if rel[0] == "eq" and rel[4] is not None:
                x = rel[4]  # atom x with x == -c
                if x in d:
                    e = d[x]
                    v = -rel[2]
                    if v == 0:
                        if e > 0:
                            return None
                    else:
                        fac = fac * (Fraction(v) ** e)
                        del d[x]
    return tuple(sorted(d.items())), fac


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = terms
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, Poly):
            return self.t == o.t
        if isinstance(o, (int, Fraction)):
            return as_poly(o).t == self.t
        return NotImplemented

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


def const_of(p):
    """Constant value of p, or None."""
    if isinstance(p, Poly):
        if not p.t:
            return 0
        if len(p.t) == 1 and () in p.t:
            return p.t[()]
        return None
    return p


def norm(t):
    """Build value from term dict: plain number if constant."""
    if not t:
        return 0
    if len(t) == 1 and () in t:
        c = t[()]
        if isinstance(c, Fraction) and c.denominator == 1:
            return int(c)
        return c
    if len(t) > MAX_TERMS:
        raise TooBig()
    return Poly(t)


def as_poly(v):
    if isinstance(v, Poly):
        return v
    return Poly({(): v} if v != 0 else {})


def from_atom(a):
    return Poly({((a.id, 1),): 1})


def _cn(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def add(a, b):
    pa, pb = isinstance(a, Poly), isinstance(b, Poly)
    if not pa and not pb:
        return _cn(a + b)
    if not pa:
        a, b, pa, pb = b, a, pb, pa
    if not pb:
        if b == 0:
            return a
        t = dict(a.t)
        c = t.get((), 0) + b
        if c == 0:
            t.pop((), None)
        else:
            t[()] = _cn(c)
        return norm(t)
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        s = t.get(m, 0) + c
        if s == 0:
            t.pop(m, None)
        else:
            t[m] = s
    return norm(t)


def neg(a):
    if not isinstance(a, Poly):
        return -a
    return Poly({m: -c for m, c in a.t.items()})


def sub(a, b):
    if a is b:
        return 0
    return add(a, neg(b))


def mul(a, b):
    pa, pb = isinstance(a, Poly), isinstance(b, Poly)
    if not pa and not pb:
        return _cn(a * b)
    if not pa:
        a, b, pa, pb = b, a, pb, pa
    if not pb:
        if b == 0:
            return 0
        if b == 1:
            return a
        return Poly({m: _cn(c * b) for m, c in a.t.items()})
    t = {}
    if len(a.t) * len(b.t) > 4 * MAX_TERMS:
        raise TooBig()
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            r = _mono_mul(m1, m2)
            if r is None:
                continue
            m, f = r
            s = t.get(m, 0) + (c1 * c2 if f == 1 else c1 * c2 * f)
            if s == 0:
                t.pop(m, None)
            else:
                t[m] = s
    return norm({m: _cn(c) for m, c in t.items()})


def has_ind(p):
    for m in p.t:
        for a, _ in m:
            if ATOMS[a].ind:
                return True
    return False


def lead(p):
    m = min(p.t.keys() - {()}, key=_mkey) if len(p.t) > (1 if () in p.t else 0) else ()
    return m, p.t[m]


def _mkey(m):
    return (len(m), m)


def inv(b):
    """Multiplicative inverse (as real number) of b; b nonzero by assumption."""
    c = const_of(b)
    if c is not None:
        if c == 0:
            return from_atom(atom(("inv0",), isfloat=True, name="(1/0)"))
        return _cn(Fraction(1) / Fraction(c))
    if len(b.t) == 1 and not has_ind(b):
        (m, c), = b.t.items()
        return Poly({tuple((a, -e) for a, e in m): _cn(Fraction(1) / Fraction(c))})
    m, c = lead(b)
    nb = mul(b, _cn(Fraction(1) / Fraction(c)))
    a = atom(("inv", nb), isfloat=True, name="1/(%s)" % short(nb), payload=nb)
    return mul(from_atom(a), _cn(Fraction(1) / Fraction(c)))


def div(a, b):
    c = const_of(b)
    if c is not None and c != 0:
        return mul(a, _cn(Fraction(1) / Fraction(c)))
    # proportional numerator
    if isinstance(a, Poly) and isinstance(b, Poly) and len(a.t) == len(b.t) and len(a.t) > 1:
        if a.t.keys() == b.t.keys():
            k = next(iter(a.t))
            r = Fraction(a.t[k]) / Fraction(b.t[k])
            if all(Fraction(a.t[m]) == r * Fraction(b.t[m]) for m in a.t):
                return _cn(r)
    return mul(a, inv(b))


# ------------------------------------------------------------------------------------------------
# Conditions: values in {0,1}
# ------------------------------------------------------------------------------------------------


def _sign_info(p, isint):
    """'neg' if p<0 for sure, 'nonneg' if p>=0 for sure, else None (uses atoms known nonnegative)."""
    if not isinstance(p, Poly):
        return "neg" if p < 0 else "nonneg"
    allpos = allneg = True
    for m, c in p.t.items():
        ok = all(ATOMS[a].nonneg or ATOMS[a].ind or e % 2 == 0 for a, e in m)
        if not ok:
            return None
        if c > 0:
            allneg = False
        else:
            allpos = False
    if allpos:
        return "nonneg"
    if allneg and p.t.get((), 0) < 0:
        return "neg"
    return None


def _split_const(p):
    c = p.t.get((), 0)
    b = Poly({m: v for m, v in p.t.items() if m != ()})
    return b, c


def _ind_atom(kind, p, isint):
    key = (kind, p)
    a = atom(key, ind=True, nonneg=True, bits=1,
             name="[%s %s]" % (short(p), "==0" if kind == "eq" else "<0"), payload=p)
    if a.id not in _REL:
        b, c = _split_const(p)
        single = None
        if len(b.t) == 1:
            (m, k), = b.t.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1:
                single = m[0][0]
        _REL[a.id] = (kind, b, c, neg(b), single)
    return from_atom(a)


def ind_eq(a, b, isint):
    """[a == b]"""
    p = sub(a, b)
    c = const_of(p)
    if c is not None:
        return 1 if c == 0 else 0
    if is_bool(p):  # 0/1-valued
        return sub(1, p)
    q = add(p, 1)
    if is_bool(q) or is_bool(neg(p)):  # p in {-1,0}
        return add(1, p)
    if isint:
        b_, c_ = _split_const(p)
        gb = _content(b_)
        if c_ % gb != 0:
            return 0
    m, k = lead(p)
    if isint:
        s = Fraction(1, _content(p)) * (1 if k > 0 else -1)
    else:
        s = Fraction(1) / Fraction(k)
    p = mul(p, _cn(s))
    si = _sign_info(sub(p, 1) if isint else p, isint)
    if isint and si == "nonneg":
        return 0
    if _sign_info(p, isint) == "neg":
        return 0
    return _ind_atom("eq", p, isint)


def _surd(p):
    """Value of a polynomial in square roots of constants (None if there is anything else, or it is too close to 0)."""
    for m in p.t:
        for a, e in m:
            k = ATOMS[a].key
            if not (isinstance(k, tuple) and k[0] == "sqrt" and isinstance(k[1], (int, Fraction)) and e > 0):
                return None
    from decimal import Decimal, localcontext
    with localcontext() as cx:
        cx.prec = 60
        v = Decimal(0)
        for m, c in p.t.items():
            f = Fraction(c)
            x = Decimal(f.numerator) / Decimal(f.denominator)
            for a, e in m:
                q = Fraction(ATOMS[a].key[1])
                x *= (Decimal(q.numerator) / Decimal(q.denominator)).sqrt() ** e
            v += x
        return v if abs(v) > Decimal("1e-40") else None


def _content(p):
    from math import gcd
    g = 0
    for c in p.t.values():
        c = Fraction(c)
        if c.denominator != 1:
            return 1
        g = gcd(g, abs(c.numerator))
    return g or 1


def ind_lt(a, b, isint):
    """[a < b]"""
    p = sub(a, b)
    c = const_of(p)
    if c is not None:
        return 1 if c < 0 else 0
    si = _sign_info(p, isint)
    if si == "neg":
        return 1
    if si == "nonneg":
        return 0
    if not isint:
        v = _surd(p)
        if v is not None:
            return 1 if v < 0 else 0
    if _sign_info(neg(p), isint) == "nonneg" and isint:
        # p <= 0 always: p<0 iff p != 0
        return sub(1, ind_eq(p, 0, isint))
    if isint:
        if _sign_info(neg(add(p, 1)), isint) == "nonneg":
            return 1
        # integer coefficients: reduce by gcd of nonconstant part
        b_, c_ = _split_const(p)
        g = _content(b_)
        if g > 1 and all(Fraction(x).denominator == 1 for x in p.t.values()):
            # g*q + c < 0  <=> q < -c/g <=> q <= ceil(-c/g)-1 <=> q + (1 - ceil(-c/g)) -1 < 0
            import math
            t = math.ceil(Fraction(-c_, g))
            p = add(mul(b_, _cn(Fraction(1, g))), -t)
        m, k = lead(p)
        if k < 0:
            # p<0  <=>  !( -p-1 < 0 )
            return sub(1, _ind_atom("lt", sub(neg(p), 1), isint))
        return _ind_atom("lt", p, isint)
    m, k = lead(p)
    p = mul(p, _cn(Fraction(1) / abs(Fraction(k))))
    # reals: keep both orientations linked through the complement a<=b == !(b<a)
    return _ind_atom("lt", p, isint)


_BOOL_CACHE = {}


def is_bool(p):
    """Certainly 0/1 valued (syntactic)."""
    if not isinstance(p, Poly):
        return p == 0 or p == 1
    # single product of indicators
    for m, c in p.t.items():
        for a, _ in m:
            if not ATOMS[a].ind:
                return False
    r = _BOOL_CACHE.get(p)
    if r is None:
        r = mul(p, p) == p
        _BOOL_CACHE[p] = r
    return r


def b_not(c):
    return sub(1, c)


def b_and(a, b):
    return mul(a, b)


def b_or(a, b):
    return sub(add(a, b), mul(a, b))


def ite(c, a, b):
    """Gated join: a if c else b (numeric)."""
    if not isinstance(c, Poly):
        return a if c else b
    if a is b or a == b:
        return a
    m = _minmax(c, a, b)
    if m is not None:
        return m
    return add(b, mul(c, sub(a, b)))


def _minmax(c, a, b):
    """Recognise max/min/abs written as a selection on a strict or non-strict comparison."""
    pos = True
    p = None
    if len(c.t) == 1:
        (m, k), = c.t.items()
        if k == 1 and len(m) == 1:
            p = ATOMS[m[0][0]]
    elif len(c.t) == 2 and c.t.get(()) == 1:
        (m, k), = [(m, k) for m, k in c.t.items() if m != ()]
        if k == -1 and len(m) == 1:
            p = ATOMS[m[0][0]]
            pos = False
    if p is None or not p.ind or not isinstance(p.key, tuple) or p.key[0] != "lt":
        return None
    q = p.payload
    d = sub(a, b)
    if not isinstance(d, Poly):
        return None
    isint = not _any_float(d)
    if isint:
        return None
    if d.t.keys() != q.t.keys():
        return None
    k0 = next(iter(q.t))
    r = Fraction(d.t[k0]) / Fraction(q.t[k0])
    if any(Fraction(d.t[m]) != r * Fraction(q.t[m]) for m in q.t):
        return None
    # c == [q<0] (pos) or [q>=0] (not pos);  a-b = r*q
    # pos, r>0: a-b<0 selected a -> min(a,b);  pos, r<0 -> max
    ismin = (r > 0) == pos
    return fmin(a, b) if ismin else fmax(a, b)


def _any_float(p):
    if not isinstance(p, Poly):
        return isinstance(p, Fraction)
    for m in p.t:
        for a, _ in m:
            if ATOMS[a].isfloat:
                return True
    return False


def _mm_args(kind, v):
    """Flatten nested max/min."""
    if isinstance(v, Poly) and len(v.t) == 1:
        (m, k), = v.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if isinstance(at.key, tuple) and at.key[0] == kind:
                return set(at.key[1])
    return {v}


def fmax(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return max(ca, cb)
    if a == neg(b):
        return fabs(a)
    args = _mm_args("max", a) | _mm_args("max", b)
    # drop a zero among nonnegative arguments
    rest = {x for x in args if const_of(x) != 0}
    if len(rest) < len(args) and any(_sign_info(x, False) == "nonneg" for x in rest):
        args = rest
    if len(args) == 1:
        return next(iter(args))
    nn = any(_sign_info(x, False) == "nonneg" for x in args)
    return from_atom(atom(("max", frozenset(args)), isfloat=True, nonneg=nn,
                          name="max(%s)" % ", ".join(sorted(short(x) for x in args))))


def fmin(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return min(ca, cb)
    if a == neg(b):
        return neg(fabs(a))
    args = _mm_args("min", a) | _mm_args("min", b)
    if len(args) == 1:
        return next(iter(args))
    return from_atom(atom(("min", frozenset(args)), isfloat=True,
                          name="min(%s)" % ", ".join(sorted(short(x) for x in args))))


def fabs(a):
    c = const_of(a)
    if c is not None:
        return abs(c)
    if _sign_info(a, False) == "nonneg":
        return a
    m, k = lead(a)
    # canonical: positive leading coefficient; pull out monomial scale
    s = abs(Fraction(k))
    p = mul(a, _cn(Fraction(1) / Fraction(k)))
    at = atom(("fabs", p), isfloat=True, nonneg=True, name="|%s|" % short(p))
    return mul(from_atom(at), _cn(s))


def subst_ind(p, known):
    """Replace indicator atoms whose truth value is known (dict atom id -> 0/1)."""
    if not isinstance(p, Poly) or not known:
        return p
    hit = False
    for m in p.t:
        for a, _ in m:
            if a in known:
                hit = True
                break
        if hit:
            break
    if not hit:
        return p
    t = {}
    for m, c in p.t.items():
        nm = []
        z = False
        for a, e in m:
            v = known.get(a)
            if v is None:
                nm.append((a, e))
            elif v == 0:
                z = True
                break
        if z:
            continue
        nm = tuple(nm)
        s = t.get(nm, 0) + c
        if s == 0:
            t.pop(nm, None)
        else:
            t[nm] = s
    return norm(t)


def atoms_of(p, acc=None):
    acc = set() if acc is None else acc
    if isinstance(p, Poly):
        for m in p.t:
            for a, _ in m:
                acc.add(a)
    return acc


# ------------------------------------------------------------------------------------------------
# Printing
# ------------------------------------------------------------------------------------------------


def show(p, limit=14):
    if not isinstance(p, Poly):
        return str(p)
    if not p.t:
        return "0"
    out = []
    for n, (m, c) in enumerate(sorted(p.t.items(), key=lambda x: (len(x[0]), x[0]))):
        if n >= limit:
            out.append("... (%d terms)" % len(p.t))
            break
        ms = "*".join(ATOMS[a].name + ("" if e == 1 else "^%d" % e) for a, e in m)
        if not ms:
            out.append(str(c))
        elif c == 1:
            out.append(ms)
        elif c == -1:
            out.append("-" + ms)
        else:
            out.append("%s*%s" % (c, ms))
    return " + ".join(out).replace("+ -", "- ")


def short(p):
    s = show(p, 5) if isinstance(p, Poly) else str(p)
    return s if len(s) < 120 else s[:117] + "..."


# atom 0 is reserved so that 0 can stand for "zero" in _ind_product
def _init():
    atom(("reserved",), name="<reserved>")


_old_reset = reset


def reset():  # noqa: F811
    _old_reset()
    _BOOL_CACHE.clear()
    _init()


reset()
