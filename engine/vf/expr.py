"""Value numbers.

Every abstract value is a hash-consed term over the analysed function's inputs.  Two terms
get the same number when they denote the same algebraic expression over the reals: the
number of a term is its image in a large prime field (atoms are mapped to pseudo-random
field elements), the "random interpretation" form of global value numbering
(Gulwani & Necula, POPL 2004).  Conditional values are gated terms ITE(c, a, b) whose number
is linear in the indicator of the gate, so arithmetic distributes over gates without case
analysis.  Nothing here executes the analysed program: terms are produced by the dataflow
pass in interp.py and compared by decide.py.
"""
import hashlib
import math
import struct
from fractions import Fraction

P = (1 << 127) - 1
NEG, ZER, POS, ALL = 1, 2, 4, 7
POLY_TERMS = 300


def H(*a):
    h = hashlib.blake2b(repr(a).encode(), digest_size=24).digest()
    return int.from_bytes(h, "big") % P


def flip(m):
    return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2)


class Node:
    __slots__ = ("k", "a", "fp", "id", "_poly", "ites", "loc")

    def __repr__(self):
        return show(self)


_nodes = {}
_conds = {}
_seq = [0]


def _mk(table, k, a, fp, ites):
    """ites: the set of comparisons that gate parts of the term.  Of two terms with the same
    number the one with fewer gates becomes the representative."""
    old = table.get(fp)
    if old is not None and (old.ites == ites or old.ites & ~ites == 0):
        return old
    n = Node()
    n.k, n.a, n.fp, n.ites = k, a, fp, ites
    if old is not None:
        n.id = old.id
    else:
        _seq[0] += 1
        n.id = _seq[0]
    n._poly = 0
    n.loc = None
    table[fp] = n
    return n


_bits = {}


def _bit(d):
    b = _bits.get(d.fp)
    if b is None:
        b = _bits[d.fp] = 1 << len(_bits)
    return b


def _union(ns):
    r = 0
    for n in ns:
        r |= n.ites
    return r


def _inv(x):
    return pow(x, P - 2, P)


# ---------------------------------------------------------------- constants
def simplest(x):
    """The simplest rational within ~1e-15 relative of x: doubles are read as the real
    number the programmer wrote (0.1 is 1/10), i.e. real arithmetic modulo rounding."""
    x = Fraction(x)
    if x == 0 or x.denominator == 1:
        return x
    neg = x < 0
    y = -x if neg else x
    eps = y / (1 << 50)
    if y.numerator.bit_length() > 14 and struct.unpack("f", struct.pack("f", float(y)))[0] == y:
        eps = y / (1 << 23)  # a literal of type float
    lo, hi = y - eps, y + eps
    # Stern-Brocot / continued fraction search for the simplest fraction in [lo, hi]
    def rec(a, b):
        fa = a.numerator // a.denominator
        if fa == a:
            return Fraction(fa)
        if fa + 1 <= b:
            return Fraction(fa + 1)
        r = rec(1 / (b - fa), 1 / (a - fa))
        return fa + 1 / r
    r = rec(lo, hi)
    return -r if neg else r


def const(v):
    if isinstance(v, float):
        v = simplest(v)
    elif not isinstance(v, Fraction):
        v = Fraction(v)
    fp = v.numerator % P * (_inv(v.denominator % P) if v.denominator != 1 else 1) % P
    n = _nodes.get(fp)
    if n is not None and n.k == "C":
        return n
    return _mk(_nodes, "C", v, fp, 0)


def is_const(n):
    return n.k == "C"


# ---------------------------------------------------------------- atoms
def atom(name):
    return _mk(_nodes, "A", name, H("atom", name, *salt), 0)


_unit = {}


def unit4(name):
    """Four atoms constrained to the unit 3-sphere (rational parametrisation)."""
    if name in _unit:
        return _unit[name]
    t = [H("unit", name, i, *salt) for i in range(3)]
    s = sum(x * x for x in t) % P
    d = _inv((1 + s) % P)
    fps = [2 * x * d % P for x in t] + [(1 - s) * d % P]
    r = [_mk(_nodes, "A", "%s.%s" % (name, "xyzw"[i]), fps[i], 0) for i in range(4)]
    _unit[name] = r
    unit_groups.append(r)
    return r


whole = set()  # atoms that are whole numbers
unit_groups = []


# ---------------------------------------------------------------- arithmetic
def add(x, y):
    if x.k == "C" and y.k == "C":
        return const(x.a + y.a)
    if x.k == "C" and x.a == 0:
        return y
    if y.k == "C" and y.a == 0:
        return x
    if x.k == "I" and y.k == "I" and constleaf(x) and constleaf(y) and leaves(x) * leaves(y) <= 9:
        return mergeleaf(x, y)
    fp = (x.fp + y.fp) % P
    n = _nodes.get(fp)
    if n is not None and fp in _roots:
        _vet("+", x, y, n)
    if n is not None and n.ites & ~(x.ites | y.ites) == 0:
        return n
    if x.k == "C" and constleaf(y):
        return mapleaf(y, lambda v: const(v.a + x.a))
    if y.k == "C" and constleaf(x):
        return mapleaf(x, lambda v: const(v.a + y.a))
    if fp == 0:
        return ZERO
    return _mk(_nodes, "+", (x, y), fp, x.ites | y.ites)


def mul(x, y):
    if x.k == "C":
        if y.k == "C":
            return const(x.a * y.a)
        if x.a == 0:
            return ZERO
        if x.a == 1:
            return y
    if y.k == "C":
        if y.a == 0:
            return ZERO
        if y.a == 1:
            return x
    if x is y and x.k == "F" and x.a[0] == "sqrt":
        return x.a[1]
    if x.k == "I" and y.k != "C" and constleaf(x):
        x0, x = x, offzero(x, y)
        if x is not x0:
            return mul(x, y)
    elif y.k == "I" and x.k != "C" and constleaf(y):
        y0, y = y, offzero(y, x)
        if y is not y0:
            return mul(x, y)
    fp = x.fp * y.fp % P
    n = _nodes.get(fp)
    if n is not None and fp in _roots:
        _vet("*", x, y, n)
    if n is not None and n.ites & ~(x.ites | y.ites) == 0:
        return n
    if x.k == "C" and constleaf(y):
        return mapleaf(y, lambda v: const(v.a * x.a))
    if y.k == "C" and constleaf(x):
        return mapleaf(x, lambda v: const(v.a * y.a))
    return _mk(_nodes, "*", (x, y), fp, x.ites | y.ites)


def neg(x):
    return mul(MONE, x)


def sub(x, y):
    return add(x, neg(y))


class DivZero(Exception):
    pass


def inv(x):
    if x.k == "C":
        if x.a == 0:
            return fn("divzero", x)
        return const(1 / x.a)
    if x.fp == 0:
        return fn("divzero", x)
    fp = _inv(x.fp)
    n = _nodes.get(fp)
    if n is not None and n.ites & ~x.ites == 0:
        return n
    if x.k == "I" and (x.a[1].k == "C" or x.a[2].k == "C"):
        # keep gates outside denominators: 1/ITE(c,a,b) = ITE(c,1/a,1/b)
        pass
    p = poly(x)
    if p is not None and len(p) > 1:
        lc = p[min(p)]
        if lc != 1:
            y = mul(const(1 / lc), x)
            return mul(const(1 / lc), inv(y)) if y is not x else _mk(_nodes, "/", (x,), fp, x.ites)
    return _mk(_nodes, "/", (x,), fp, x.ites)


def div(x, y):
    if x is y and x.k != "C":
        return ONE
    return mul(x, inv(y))


def _isqrt(v):
    r = math.isqrt(v)
    return r if r * r == v else None


def sqrt_fp(v):
    """Square root in the field when it exists (P = 3 mod 4), else a pseudo-random image."""
    r = pow(v, (P + 1) // 4, P)
    if r * r % P == v:
        return min(r, P - r), True
    return H("sqrt", v), False


_roots = {}     # images of square roots and of their opposites
opaque = set()  # radicands whose root gets an image of its own (see Conflict)


salt = []       # which images the atoms get
strict = [0]    # how many more roots have to exist


class NoRoot(Exception):
    """A radicand has no root in the field under these images of the atoms."""


class Conflict(Exception):
    """A term turned out to be plus or minus a square root numbered before: the root is its absolute value."""


def _root(x):
    """sqrt(x).  Its image is a root of the image of x where that exists, so that products of roots are
    numbered like the radicand; the sign of a root being ambiguous in the field, this is done only when x is
    not a square.  The root of a square q*q is |q|; when q cannot be found, the root gets an image of its own."""
    if x.k == "C":
        return fn("sqrt", x)
    fp, ok = sqrt_fp(x.fp)
    if strict[0] and fp not in _nodes and P - fp not in _nodes:
        if not ok:
            raise NoRoot()
        strict[0] -= 1
    if not ok or fp in _roots and x.fp not in opaque:
        return _mk(_nodes, "F", ("sqrt", x), fp, x.ites)
    if x.fp not in opaque:
        for r in (fp, P - fp):
            q = _nodes.get(r)
            if q is not None:
                return fabs(q)
        if not is_square(x):
            _roots[fp] = _roots[P - fp] = x
            n = _mk(_nodes, "F", ("sqrt", x), fp, x.ites)
            neg(n)
            return n
        c = constant(x)
        if c is not None:
            return fn("sqrt", c)
        q = common(x)
        if q is not None and q.fp * q.fp % P == x.fp:
            return fabs(q)
        opaque.add(x.fp)
    return _mk(_nodes, "F", ("sqrt", x), H("sqrt", x.fp), x.ites)


_alt = {}


def is_square(x):
    """x has a root in the field whatever the image of its atoms."""
    from . import decide
    n = 0
    for seed in range(1000, 1060):
        v, ok = decide.alt_eval(x, seed, _alt.setdefault(seed, {}))
        if ok or not rooted(x):
            if v and pow(v, (P - 1) // 2, P) != 1:
                return False
            n += 1
            if n == 14:
                return True
    return True


def constant(x):
    """The constant that x equals whatever the image of its atoms, or None."""
    from . import decide
    got, n = None, 0
    for seed in range(1000, 1060):
        v, ok = decide.alt_eval(x, seed, _alt.setdefault(seed, {}))
        if ok:
            if got is not None and v != got:
                return None
            got = v
            n += 1
            if n == 4:
                break
    if n < 3:
        return None
    for q in range(1, 65):
        p = got * q % P
        if p < 65:
            return const(Fraction(p, q))
    return None


def rooted(x):
    from . import decide, triage
    return any(y.k == "F" and y.a[0] == "sqrt" for y in triage.order([x]))


def factors(t, sign=1, out=None):
    out = {} if out is None else out
    st = [(t, 1)]
    while st:
        y, e = st.pop()
        if y.k == "*":
            st += [(y.a[0], e), (y.a[1], e)]
        elif y.k == "/":
            st.append((y.a[0], -e))
        elif y.k != "C":
            out[y.fp] = (y, out.get(y.fp, (y, 0))[1] + e)
    return out


def common(x):
    """The product of the factors common to the terms of a sum of squares."""
    terms, st = [], [x]
    while st:
        y = st.pop()
        if y.k == "+":
            st += y.a
        elif y.k == "*" and y.a[0] is y.a[1]:
            terms.append(y.a[0])
        elif y.k == "*":
            f = factors(y)
            if any(e % 2 for _, e in f.values()):
                return None
            t = ONE
            for z, e in f.values():
                for _ in range(abs(e) // 2):
                    t = mul(t, z if e > 0 else inv(z))
            terms.append(t)
        else:
            return None
    if len(terms) < 2 or len(terms) > 16:
        return None
    g = None
    for t in terms:
        f = {k: v for k, v in factors(t).items() if v[1]}
        if g is None:
            g = f
        else:
            g = {k: (z, min(e, f[k][1]) if e > 0 else max(e, f[k][1])) for k, (z, e) in g.items() if k in f and f[k][1] * e > 0}
    q = ONE
    for z, e in g.values():
        for _ in range(abs(e)):
            q = mul(q, z if e > 0 else inv(z))
    return q


_vetted = set()


def _vet(op, x, y, n):
    """The image of op(x, y) is that of plus or minus a root: by its definition, or by an ambiguous sign?"""
    if (op, x.fp, y.fp) in _vetted:
        return
    _vetted.add((op, x.fp, y.fp))
    from . import decide
    good = 0
    for seed in range(1, 120):
        memo = {}
        (u, a), (v, b), (w, c) = (decide.alt_eval(t, seed, memo) for t in (x, y, n))
        if a and b and c:
            if ((u + v) if op == "+" else u * v) % P != w:
                opaque.add(_roots[n.fp].fp)
                raise Conflict()
            good += 1
            if good == 6:
                return


def fn(name, *args):
    if name == "sqrt":
        x = args[0]
        if x.k == "C" and x.a >= 0:
            a, b = _isqrt(x.a.numerator), _isqrt(x.a.denominator)
            if a is not None and b is not None:
                return const(Fraction(a, b))
            return const(math.sqrt(x.a))
        p = poly(x)
        if p is not None and len(p) == 1:
            # even powers leave the root, and what stays under it has positive powers: sqrt(a/b) = sqrt(a*b)/|b|
            (mono, c), = p.items()
            out, rest = ONE, ONE
            for v, e in mono:
                k, odd = (e // 2, e % 2)
                b = by_id[v]
                if k:
                    ab = fabs(b)
                    for _ in range(abs(k)):
                        out = mul(out, ab) if k > 0 else mul(out, inv(ab))
                if odd:
                    rest = mul(rest, b)
            if abs(c) != 1:
                q = abs(c)
                a, b = _isqrt(q.numerator), _isqrt(q.denominator)
                out = mul(const(Fraction(a, b)) if a is not None and b is not None else const(math.sqrt(q)), out)
            if rest is ONE and c > 0:
                return out
            if c < 0:
                rest = neg(rest)
            if out is not ONE:
                return mul(out, _root(rest))
        return _root(x)
    if name in ("sin", "cos"):
        x = args[0]
        if x.k == "C":
            return const(getattr(math, name)(float(x.a)))
        h = H("trig", x.fp, *salt)
        d = _inv((1 + h * h) % P)
        fp = (2 * h * d if name == "sin" else (1 - h * h) * d) % P
        return _mk(_nodes, "F", (name, x), fp, x.ites)
    if all(a.k == "C" for a in args):
        v = constfn(name, [a.a for a in args])
        if v is not None:
            return const(v)
    if name == "fabs":
        return fabs(args[0])
    fp = H("fn", name, tuple(a.fp for a in args))
    return _mk(_nodes, "F", (name,) + args, fp, _union(args))


def constfn(name, a):
    try:
        f = [float(x) for x in a]
        if name == "atan2":
            return math.atan2(f[0], f[1])
        if name in ("asin", "acos", "atan", "tan", "exp", "log", "log2", "log10", "tanh"):
            return getattr(math, name)(f[0])
        if name == "floor":
            return Fraction(math.floor(a[0]))
        if name == "ceil":
            return Fraction(math.ceil(a[0]))
        if name == "trunc":
            return Fraction(math.trunc(a[0]))
        if name == "round":
            return Fraction(math.floor(abs(a[0]) + Fraction(1, 2)) * (1 if a[0] >= 0 else -1))
        if name == "pow":
            return f[0] ** f[1]
        if name in ("urem", "srem"):
            return Fraction(int(math.fmod(int(a[0]), int(a[1])))) if a[1] else None
        if name in ("sdiv", "udiv"):
            if not a[1]:
                return None
            q = abs(int(a[0])) // abs(int(a[1]))
            return Fraction(q if (a[0] >= 0) == (a[1] >= 0) else -q)
    except (ValueError, OverflowError):
        return None
    return None


# ---------------------------------------------------------------- conditions
def _mkc(k, a, fp, ites):
    return _mk(_conds, k, a, fp, ites)


def sign_inds(fp):
    a, b = H("sgn-", fp), H("sgn0", fp)
    return a, b, (1 - a - b) % P


def constleaf(n, depth=0):
    if n.k == "C":
        return True
    if n.k == "I" and depth < 6:
        return constleaf(n.a[1], depth + 1) and constleaf(n.a[2], depth + 1)
    return False


def leaves(n):
    return leaves(n.a[1]) + leaves(n.a[2]) if n.k == "I" else 1


def under(n, c):
    """The constant-leaf gate n where c holds."""
    while n.k == "I":
        r = and_(c, n.a[0])
        if r.k == "N":
            n = n.a[2]
        elif r is c:
            n = n.a[1]
        else:
            return ite(n.a[0], under(n.a[1], c), under(n.a[2], c))
    return n


def mergeleaf(x, y):
    """x + y for constant-leaf gates, as one gate."""
    if x.k == "I":
        c = x.a[0]
        return ite(c, mergeleaf(under(x.a[1], c), under(y, c)), mergeleaf(under(x.a[2], not_(c)), under(y, not_(c))))
    if y.k == "I":
        return ite(y.a[0], mergeleaf(x, y.a[1]), mergeleaf(x, y.a[2]))
    return const(x.a + y.a)


def offzero(n, x):
    """The constant-leaf gate n as a factor of x: where a gate compares a factor of x with zero the
    value of n at zero does not matter, so it is taken to be the value on the positive side."""
    p = None
    for l in list(gatelits(n).values()):
        d, m = l.a
        if d.k not in "AF":
            continue
        if bool(m & ZER) == bool(m & POS):
            continue
        if p is None:
            p = poly(x)
            if not p:
                return n
        if all(any(v == d.id and e > 0 for v, e in mono) for mono in p):
            n = relit(n, d)
    return n


def gatelits(n, out=None):
    out = {} if out is None else out
    if n.k == "I":
        lits_of(n.a[0], out)
        gatelits(n.a[1], out)
        gatelits(n.a[2], out)
    return out


def relit(n, d):
    if n.k != "I":
        return n
    c = relitc(n.a[0], d)
    return ite(c, under(relit(n.a[1], d), c), under(relit(n.a[2], d), not_(c)))


def relitc(c, d):
    if c.k == "L":
        if c.a[0] is d:
            m = c.a[1]
            return lit_raw(d, m | ZER if m & POS else m & ~ZER)
        return c
    if c.k == "&":
        return and_(*[relitc(x, d) for x in c.a])
    if c.k == "|":
        return or_(*[relitc(x, d) for x in c.a])
    return c


def mapleaf(n, f):
    if n.k == "I":
        return ite(n.a[0], mapleaf(n.a[1], f), mapleaf(n.a[2], f))
    return f(n)


def sgn(v):
    return NEG if v < 0 else (POS if v > 0 else ZER)


def lit(d, mask):
    """Condition: the sign of d lies in mask."""
    if mask == ALL:
        return TRUE
    if mask == 0:
        return FALSE
    if d.k == "C":
        return TRUE if sgn(d.a) & mask else FALSE
    if d.k == "F" and d.a[0] == "sqrt" and not d.ites:  # the sign of a root is that of its radicand
        m = (POS if mask & POS else 0) | (ZER | NEG if mask & ZER else 0)
        return lit(d.a[1], m)
    if d.k == "I" and constleaf(d):
        c, a, b = d.a
        return or_(and_(c, lit(a, mask)), and_(not_(c), lit(b, mask)))
    p = poly(d)
    extra = TRUE
    if p is not None:
        if not p:
            return TRUE if mask & ZER else FALSE
        # clear (non-zero) monomial denominators with even powers, then factor them out
        negs = {}
        for mono in p:
            for v, e in mono:
                if e < 0:
                    negs[v] = max(negs.get(v, 0), -e)
        if negs:
            for v, e in negs.items():
                ev = e + (e % 2)
                b = by_id[v]
                for _ in range(ev):
                    d = mul(d, b)
            p = poly(d)
            if p is None or not p:
                return lit(d, mask)
            g = None
            for mono in p:
                m = {v: e for v, e in mono if v in negs}
                g = m if g is None else {v: min(e, m.get(v, 0)) for v, e in g.items() if m.get(v, 0) > 0}
            odd = []
            for v, e in (g or {}).items():
                b = by_id[v]
                for _ in range(e):
                    d = mul(d, inv(b))
                if e % 2:
                    odd.append(b)
            if odd:
                # sign(d) = sign(rest) * prod sign(odd)
                pr = odd[0]
                pos = lit(pr, POS)
                for b in odd[1:]:
                    q = lit(b, POS)
                    pos = or_(and_(pos, q), and_(not_(pos), not_(q)))
                return or_(and_(pos, lit(d, mask)), and_(not_(pos), lit(d, flip(mask))))
            p = poly(d)
            if d.k == "C":
                return lit(d, mask)
        if p is not None:
            lm = min(p)
            lc = p[lm]
            if lc != 1:
                d = mul(const(1 / abs(lc)), d)
                if lc < 0:
                    d = neg(d)
                    mask = flip(mask)
                if d.k == "C":
                    return lit(d, mask)
    if p is None:
        if d.fp > P - d.fp:
            d = neg(d)
            mask = flip(mask)
    # parity facts that need no case analysis
    if nonneg(d):
        mask &= ZER | POS
        if mask == 0:
            return FALSE
        if mask == ZER | POS:
            return TRUE
    i = sign_inds(d.fp)
    fp = sum(i[j] for j in range(3) if mask >> j & 1) % P
    n = _mkc("L", (d, mask), fp, d.ites | _bit(d))
    return n


def nonneg(d):
    """Syntactic non-negativity: sums of even monomials, square roots, non-negative constants."""
    if d.k == "C":
        return d.a >= 0
    if d.k == "F" and d.a[0] in ("sqrt", "exp"):
        return True
    if d.k in "+*/":
        r = _nonneg.get(d.id)
        if r is None:
            r = _nonneg[d.id] = _squares(d) or _evenpoly(d)
        return r
    return _evenpoly(d)


_nonneg = {}


def _squares(d, depth=0):
    """A sum of squares by construction."""
    if depth > 40:
        return False
    if d.k == "C":
        return d.a >= 0
    if d.k == "+":
        return _squares(d.a[0], depth + 1) and _squares(d.a[1], depth + 1)
    if d.k == "*":
        x, y = d.a
        return x is y or (_squares(x, depth + 1) and _squares(y, depth + 1))
    if d.k == "/":
        return _squares(d.a[0], depth + 1)
    if d.k == "I":
        return _squares(d.a[1], depth + 1) and _squares(d.a[2], depth + 1)
    return d.k == "F" and d.a[0] in ("sqrt", "exp")


def _evenpoly(d):
    p = poly(d)
    if p is None or len(p) > 40:
        return False
    for mono, c in p.items():
        if c < 0:
            return False
        for v, e in mono:
            if e % 2 and not (by_id[v].k == "F" and by_id[v].a[0] == "sqrt"):
                return False
    return True


def not_(c):
    if c.k == "T":
        return FALSE
    if c.k == "N":
        return TRUE
    if c.k == "L":
        return lit_raw(c.a[0], ALL & ~c.a[1])
    if c.k == "&":
        return or_(*[not_(x) for x in c.a])
    return and_(*[not_(x) for x in c.a])


def lit_raw(d, mask):
    if nonneg(d):
        mask &= ZER | POS
        if mask == 0:
            return FALSE
        if mask == ZER | POS:
            return TRUE
    if mask == ALL:
        return TRUE
    if mask == 0:
        return FALSE
    i = sign_inds(d.fp)
    fp = sum(i[j] for j in range(3) if mask >> j & 1) % P
    return _mkc("L", (d, mask), fp, d.ites | _bit(d))


def and_(*cs):
    lits = {}
    others = {}
    stack = list(cs)
    while stack:
        c = stack.pop()
        if c.k == "T":
            continue
        if c.k == "N":
            return FALSE
        if c.k == "&":
            stack.extend(c.a)
        elif c.k == "L":
            d, m = c.a
            if d.id in lits:
                m &= lits[d.id][1]
                if m == 0:
                    return FALSE
            lits[d.id] = (d, m)
        else:
            others[c.id] = c
    fps = {c.fp for c in others.values()}
    for d, m in lits.values():
        pass
    parts = [lit_raw(d, m) for d, m in lits.values()] + list(others.values())
    if any(x.k == "N" for x in parts):
        return FALSE
    parts = [x for x in parts if x.k != "T"]
    # simplify disjunctions by the literals
    if others and lits:
        res = []
        for x in parts:
            if x.k == "|":
                y = _or_under(x, lits)
                if y is not x:
                    return and_(*([z for z in parts if z is not x] + [y]))
            res.append(x)
    if not parts:
        return TRUE
    if len(parts) == 1:
        return parts[0]
    for x in parts:
        if (1 - x.fp) % P in fps:
            return FALSE
    parts.sort(key=lambda x: x.id)
    fp = 1
    for x in parts:
        fp = fp * x.fp % P
    return _mkc("&", tuple(parts), fp, _union(parts))


def _or_under(c, lits):
    """Simplify disjunction c knowing literals {id: (d, mask)}."""
    out = []
    changed = False
    for x in c.a:
        if x.k == "L" and x.a[0].id in lits:
            m = lits[x.a[0].id][1]
            if m & ~x.a[1] == 0:
                return TRUE
            if m & x.a[1] == 0:
                changed = True
                continue
        elif x.k == "&":
            dead = False
            keep = []
            for y in x.a:
                if y.k == "L" and y.a[0].id in lits:
                    m = lits[y.a[0].id][1]
                    if m & y.a[1] == 0:
                        dead = True
                        break
                    if m & ~y.a[1] == 0:
                        changed = True
                        continue
                keep.append(y)
            if dead:
                changed = True
                continue
            if len(keep) != len(x.a):
                x = and_(*keep)
        out.append(x)
    return or_(*out) if changed else c


def or_(*cs):
    lits = {}
    others = {}
    stack = list(cs)
    while stack:
        c = stack.pop()
        if c.k == "N":
            continue
        if c.k == "T":
            return TRUE
        if c.k == "|":
            stack.extend(c.a)
        elif c.k == "L":
            d, m = c.a
            if d.id in lits:
                m |= lits[d.id][1]
                if m == ALL:
                    return TRUE
            lits[d.id] = (d, m)
        else:
            others[c.id] = c
    parts = [lit_raw(d, m) for d, m in lits.values()] + list(others.values())
    if any(x.k == "T" for x in parts):
        return TRUE
    parts = [x for x in parts if x.k != "N"]
    if not parts:
        return FALSE
    if len(parts) == 1:
        return parts[0]
    fps = {x.fp for x in parts}
    for x in parts:
        if (1 - x.fp) % P in fps:
            return TRUE
    # (a & b) | (a & !b) = a
    ands = [x for x in parts if x.k == "&"]
    for i in range(len(ands)):
        for j in range(i + 1, len(ands)):
            A, B = set(z.id for z in ands[i].a), set(z.id for z in ands[j].a)
            da = [z for z in ands[i].a if z.id not in B]
            db = [z for z in ands[j].a if z.id not in A]
            if len(da) == 1 and len(db) == 1:
                u = or_(da[0], db[0])
                if u.k != "|":
                    com = [z for z in ands[i].a if z.id in B]
                    return or_(*([z for z in parts if z is not ands[i] and z is not ands[j]] + [and_(*(com + [u]))]))
    # a | (!a & b) = a | b
    for x in parts:
        if x.k == "&":
            for y in x.a:
                if (1 - y.fp) % P in fps:
                    rest = and_(*[z for z in x.a if z is not y])
                    return or_(*([z for z in parts if z is not x] + [rest]))
                if y.k == "L" and y.a[0].id in lits:
                    # y restricted by the complement of the known literal
                    m = y.a[1]
                    lm = lits[y.a[0].id][1]
                    comp = ALL & ~lm
                    if m & comp == comp and m != ALL:
                        rest = and_(*[z for z in x.a if z is not y])
                        return or_(*([z for z in parts if z is not x] + [rest]))
                    if m & comp == 0:
                        return or_(*[z for z in parts if z is not x])
            # absorption: a | (a & b)
            if any(y.fp in fps for y in x.a):
                return or_(*[z for z in parts if z is not x])
    parts.sort(key=lambda x: x.id)
    fp = 1
    for x in parts:
        fp = fp * (1 - x.fp) % P
    return _mkc("|", tuple(parts), (1 - fp) % P, _union(parts))


def lits_of(c, out=None):
    if out is None:
        out = {}
    stack = [c]
    seen = set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "L":
            out[x.id] = x
        elif x.k in "&|":
            stack.extend(x.a)
    return out


def meets(d, a, b):
    """a == b where d == 0, for a reason visible in their polynomials."""
    f = (a.fp - b.fp) % P
    if f == d.fp or f == P - d.fp:
        return True
    if d.k in "AF" and not (a.ites or b.ites):
        p, q = poly(a), poly(b)
        if p is None or q is None:
            return False
        for x, y in ((p, q), (q, p)):
            for mono, c in x.items():
                if y.get(mono) != c and not any(v == d.id and e > 0 for v, e in mono):
                    return False
        for x in (p, q):
            for mono in x:
                if any(v == d.id and e < 0 for v, e in mono):
                    return False
        return True
    return False


def ite(c, a, b):
    if c.k == "T":
        return a
    if c.k == "N":
        return b
    if a is b or a.fp == b.fp:
        return a
    while a.k == "I" and a.a[0] is c:
        a = a.a[1]
    while b.k == "I" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if c.k == "L" and c.a[1] not in (NEG, ZER | POS) and meets(c.a[0], a, b):
        # continuous at d == 0: the boundary belongs to the positive side
        d, m = c.a
        if m == NEG | ZER:
            return ite(lit_raw(d, NEG), a, b)
        if m == POS:
            return ite(lit_raw(d, NEG), b, a)
        return b if m == ZER else a
    if c.k == "L" and c.a[1] == ZER | POS and meets(c.a[0], a, b):
        return ite(lit_raw(c.a[0], NEG), b, a)
    if b.k == "I" and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if a.k == "I" and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    fp = (c.fp * a.fp + (1 - c.fp) * b.fp) % P
    return _mk(_nodes, "I", (c, a, b), fp, c.ites | a.ites | b.ites)


def fabs(x):
    if x.k == "C":
        return const(abs(x.a))
    if nonneg(x):
        return x
    return ite(lit(x, NEG), neg(x), x)


# ---------------------------------------------------------------- polynomials
by_id = {}


def _pid(n):
    by_id[n.id] = n
    return n.id


def poly(n):
    """Laurent polynomial of n over its non-arithmetic sub-terms, or None if too large."""
    if n._poly != 0:
        return n._poly
    # iterative post-order
    stack = [n]
    while stack:
        x = stack[-1]
        if x._poly != 0:
            stack.pop()
            continue
        if x.k in "+*" or x.k == "/":
            todo = [y for y in x.a if y._poly == 0]
            if todo:
                stack.extend(todo)
                continue
        x._poly = _poly1(x)
        stack.pop()
    return n._poly


def _poly1(x):
    if x.k == "C":
        return {(): x.a} if x.a else {}
    if x.k == "+":
        p, q = x.a[0]._poly, x.a[1]._poly
        if p is None or q is None:
            return {((_pid(x), 1),): Fraction(1)} if False else None
        if len(p) + len(q) > POLY_TERMS:
            return None
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r
    if x.k == "*":
        p, q = x.a[0]._poly, x.a[1]._poly
        if p is None or q is None:
            return None
        if len(p) * len(q) > 4 * POLY_TERMS:
            return None
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                for m, c in _mmul(m1, m2):
                    v = r.get(m, 0) + c1 * c2 * c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        return r if len(r) <= POLY_TERMS else None
    if x.k == "/":
        p = x.a[0]._poly
        if p is not None and len(p) == 1:
            (m, c), = p.items()
            r = {(): Fraction(1) / c}
            mono = tuple((v, -e) for v, e in m)
            out = {}
            for mm, cc in _mmul(mono, ()):
                out[mm] = out.get(mm, 0) + cc / c
            return out
        return {((_pid(x), 1),): Fraction(1)}
    return {((_pid(x), 1),): Fraction(1)}


def _mmul(m1, m2):
    d = dict(m1)
    for v, e in m2:
        s = d.get(v, 0) + e
        if s:
            d[v] = s
        else:
            d.pop(v, None)
    # inv(p)^-k -> p^k and sqrt(p)^2 -> p
    extra = None
    for v in list(d):
        b = by_id[v]
        e = d[v]
        if b.k == "F" and b.a[0] == "sqrt" and abs(e) >= 2:
            d[v] = e - 2 * int(e / 2)
            if d[v] == 0:
                del d[v]
            k = int(e / 2)
            base = b.a[1] if k > 0 else inv(b.a[1])
            for _ in range(abs(k)):
                extra = base if extra is None else mul(extra, base)
        elif b.k == "/" and e < 0:
            del d[v]
            for _ in range(-e):
                extra = b.a[0] if extra is None else mul(extra, b.a[0])
    mono = tuple(sorted(d.items()))
    if extra is None:
        return [(mono, Fraction(1))]
    p = poly(extra)
    if p is None:
        return [(tuple(sorted(list(d.items()) + [(_pid(extra), 1)])), Fraction(1))]
    out = []
    for m, c in p.items():
        for mm, cc in _mmul(mono, m):
            out.append((mm, c * cc))
    return out


# ---------------------------------------------------------------- constants used everywhere
ZERO = const(0)
ONE = const(1)
MONE = const(-1)
TRUE = _mkc("T", (), 1, 0)
FALSE = _mkc("N", (), 0, 0)


# ---------------------------------------------------------------- printing
def show(n, depth=6):
    k = n.k
    if k == "C":
        v = n.a
        return str(v) if v.denominator < 1000 else "%.6g" % float(v)
    if k == "A":
        return n.a
    if k == "T":
        return "true"
    if k == "N":
        return "false"
    if depth <= 0:
        return "..."
    if k == "+":
        return "(%s + %s)" % (show(n.a[0], depth - 1), show(n.a[1], depth - 1))
    if k == "*":
        if n.a[0] is MONE:
            return "-%s" % show(n.a[1], depth - 1)
        return "%s*%s" % (show(n.a[0], depth - 1), show(n.a[1], depth - 1))
    if k == "/":
        return "1/(%s)" % show(n.a[0], depth - 1)
    if k == "F":
        return "%s(%s)" % (n.a[0], ", ".join(show(x, depth - 1) for x in n.a[1:]))
    if k == "I":
        return "[%s ? %s : %s]" % (show(n.a[0], depth - 1), show(n.a[1], depth - 1), show(n.a[2], depth - 1))
    if k == "L":
        rel = {1: "< 0", 2: "== 0", 4: "> 0", 3: "<= 0", 6: ">= 0", 5: "!= 0"}[n.a[1]]
        return "%s %s" % (show(n.a[0], depth - 1), rel)
    return "(%s)" % ((" && " if k == "&" else " || ").join(show(x, depth - 1) for x in n.a))


def atoms_of(n):
    seen, out, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "A":
            out.add(x.a)
        elif x.k == "C" or x.k in "TN":
            pass
        elif x.k == "F":
            st.extend(x.a[1:])
        elif x.k == "L":
            st.append(x.a[0])
        else:
            st.extend(x.a)
    return out


# ---------------------------------------------------------------- starting over
def tables():
    return [_nodes, _conds, _bits, _unit, _nonneg, by_id, _roots, _vetted, _alt, unit_groups, _seq]


def snapshot():
    return [t.copy() for t in tables()]


def restore(snap):
    for t, c in zip(tables(), snap):
        t.clear()
        t.extend(c) if isinstance(t, list) else t.update(c)
