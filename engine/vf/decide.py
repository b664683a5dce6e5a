"""Deciding obligations between value numbers.

An obligation a == b is discharged when both sides have the same number.  Otherwise the gates
that still differ are resolved one comparison at a time (each comparison has finitely many
outcomes), discarding combinations of outcomes whose linear parts are contradictory
(emptiness of a polyhedron, by Fourier-Motzkin elimination).  What remains unequal under a
consistent set of outcomes is a violation, reported with that set of outcomes.
"""
from fractions import Fraction

from . import expr as E
from . import triage
from .expr import ALL, NEG, POS, ZER, P


class Budget(Exception):
    pass


# ---------------------------------------------------------------- polyhedra
def fm_infeasible(cons, limit=400):
    """cons: list of (dict var->coef, const, strict): sum + const >= 0 (or > 0)."""
    rows = []
    eqs = []
    for lin, c, rel in cons:
        lin = {v: k for v, k in lin.items() if k}
        if rel == "=":
            eqs.append((lin, c))
        else:
            rows.append((lin, c, rel == ">"))
    # eliminate equalities by substitution
    while eqs:
        lin, c = eqs.pop()
        if not lin:
            if c != 0:
                return True
            continue
        v = next(iter(lin))
        k = lin[v]

        def subst(l2, c2):
            if v not in l2:
                return l2, c2
            f = l2[v] / k
            r = dict(l2)
            for u, w in lin.items():
                x = r.get(u, 0) - f * w
                if x:
                    r[u] = x
                else:
                    r.pop(u, None)
            return r, c2 - f * c
        eqs = [subst(l, cc) for l, cc in eqs]
        rows = [subst(l, cc) + (s,) for l, cc, s in rows]
    while True:
        live = []
        for lin, c, s in rows:
            if not lin:
                if c < 0 or (s and c == 0):
                    return True
            else:
                live.append((lin, c, s))
        rows = live
        if not rows:
            return False
        cnt = {}
        for lin, _, _ in rows:
            for v, k in lin.items():
                p, n = cnt.get(v, (0, 0))
                cnt[v] = (p + 1, n) if k > 0 else (p, n + 1)
        v = min(cnt, key=lambda u: (cnt[u][0] * cnt[u][1] - cnt[u][0] - cnt[u][1]))
        ps = [r for r in rows if r[0].get(v, 0) > 0]
        ns = [r for r in rows if r[0].get(v, 0) < 0]
        rest = [r for r in rows if v not in r[0]]
        if len(ps) * len(ns) + len(rest) > limit:
            return False  # give up: treated as feasible
        seen = set()
        out = []
        for r in rest:
            out.append(r)
        for lp, cp, sp in ps:
            for ln, cn, sn in ns:
                a, b = -ln[v], lp[v]
                r = {}
                for u, w in lp.items():
                    r[u] = a * w
                for u, w in ln.items():
                    x = r.get(u, 0) + b * w
                    if x:
                        r[u] = x
                    else:
                        r.pop(u, None)
                r.pop(v, None)
                c = a * cp + b * cn
                key = (tuple(sorted(r.items())), c, sp or sn)
                if key not in seen:
                    seen.add(key)
                    out.append((r, c, sp or sn))
        rows = out


def linear(facts, deep=0):
    """facts: list of (node d, mask).  -> constraints over monomials."""
    cons = []
    monos = set()
    for d, m in facts:
        p = E.poly(d)
        if p is None or len(p) > 40:
            continue
        lin = {k: v for k, v in p.items() if k != ()}
        c = p.get((), Fraction(0))
        for k in lin:
            monos.add(k)
        if m == POS:
            cons.append((lin, c, ">"))
        elif m == POS | ZER:
            cons.append((lin, c, ">="))
        elif m == NEG:
            cons.append(({k: -v for k, v in lin.items()}, -c, ">"))
        elif m == NEG | ZER:
            cons.append(({k: -v for k, v in lin.items()}, -c, ">="))
        elif m == ZER:
            cons.append((lin, c, "="))
    for k in monos:
        sq = all(e % 2 == 0 or (E.by_id[v].k == "F" and E.by_id[v].a[0] == "sqrt") for v, e in k)
        if sq:
            cons.append(({k: Fraction(1)}, Fraction(0), ">="))
    # asin/atan2 ranges
    for k in list(monos):
        if len(k) == 1 and k[0][1] == 1:
            b = E.by_id[k[0][0]]
            if b.k == "F" and b.a[0] in ("asin", "atan2", "atan", "acos"):
                pi = E.const(3.141592653589793).a
                hi = {"asin": pi / 2, "atan": pi / 2, "atan2": pi, "acos": pi}[b.a[0]]
                lo = 0 if b.a[0] == "acos" else -hi
                cons.append(({k: Fraction(-1)}, hi, ">="))
                cons.append(({k: Fraction(1)}, Fraction(-lo), ">="))
    # products of sign-known factors: x>0, y>0 -> xy>0 for monomials present
    known = {}
    for d, m in facts:
        p = E.poly(d)
        if p is not None and len(p) == 1:
            (mono, c), = p.items()
            if len(mono) == 1 and mono[0][1] == 1:
                mm = m if c > 0 else E.flip(m)
                known[mono[0][0]] = known.get(mono[0][0], ALL) & mm
    cons += signs(monos, known)
    if deep:
        for v, m in list(known.items()):
            if m & ZER and m not in (ZER, ALL) and fm_infeasible(cons + [({((v, 1),): Fraction(1)}, Fraction(0), "=")]):
                known[v] = m & ~ZER
                cons.append(({((v, 1),): Fraction(1 if m & POS else -1)}, Fraction(0), ">"))
        for _ in range(deep):
            cons = cons + products(cons, known)
        fresh = set(m for lin, _, _ in cons for m in lin) - monos
        cons += signs(sorted(fresh), known)
    return cons


def signs(monos, known):
    cons = []
    for k in monos:
        if len(k) > 1 or (k and k[0][1] != 1):
            s = POS
            for v, e in k:
                b = E.by_id[v]
                kv = known.get(v, (POS | ZER) if (b.k == "F" and b.a[0] == "sqrt") else ALL)
                if e % 2 == 0:
                    kv = POS if not kv & ZER else POS | ZER
                if e < 0:
                    kv &= ~ZER
                s = smul(s, kv)
            one = {k: Fraction(1)}
            if s == POS:
                cons.append((one, Fraction(0), ">"))
            elif s == POS | ZER:
                cons.append((one, Fraction(0), ">="))
            elif s == NEG:
                cons.append(({k: Fraction(-1)}, Fraction(0), ">"))
            elif s == NEG | ZER:
                cons.append(({k: Fraction(-1)}, Fraction(0), ">="))
            elif s == ZER:
                cons.append((one, Fraction(0), "="))
    return cons


def products(cons, known, limit=160):
    """Constraints multiplied by the sign-known monomials that relate them to one another."""
    sign = {v: m for v, m in known.items() if m in (POS, NEG, POS | ZER, NEG | ZER)}
    cons = [c for c in cons if len(c[0]) + (c[1] != 0) > 1]
    base = [primitive(c, sign) for c in cons]
    monos = set(m for lin, c, _ in base for m in lin)
    out, seen = [c for c, o in zip(base, cons) if c is not o], set()
    for idx, (lin, c, rel) in enumerate(base):
        if len(lin) > 24:
            continue
        terms = list(lin)
        if c:
            terms.append(())
        ws = set()
        for m in terms:
            dm = dict(m)
            for M in monos:
                w = dict(M)
                for v, e in dm.items():
                    x = w.get(v, 0) - e
                    if x:
                        w[v] = x
                    else:
                        w.pop(v, None)
                if w and all(v in sign and e > 0 for v, e in w.items()) and sum(abs(e) for e in w.values()) <= 4:
                    ws.add(tuple(sorted(w.items())))
        for w in sorted(ws, key=lambda w: sum(abs(e) for _, e in w))[:24]:
            s = POS
            for v, e in w:
                kv = sign[v]
                if e % 2 == 0:
                    kv = POS if not kv & ZER else POS | ZER
                if e < 0:
                    kv &= ~ZER
                s = smul(s, kv)
            if s not in (POS, NEG, POS | ZER, NEG | ZER):
                continue
            k = Fraction(1) if s & POS else Fraction(-1)
            r, rc, bad = {}, Fraction(0), False
            for m, co in list(lin.items()) + ([((), c)] if c else []):
                for mm, cc in E._mmul(m, w):
                    if mm == ():
                        rc += co * cc * k
                    else:
                        r[mm] = r.get(mm, 0) + co * cc * k
            nrel = rel if rel == "=" else (">=" if s & ZER else rel)
            key = (idx, w)
            if key in seen:
                continue
            seen.add(key)
            out.append((r, rc, nrel))
            if len(out) >= limit:
                return out
    return out


def primitive(con, sign):
    """A constraint divided by the sign-known, non-zero monomial common to all its terms."""
    lin, c, rel = con
    if c or not lin:
        return con
    g = None
    for m in lin:
        d = {v: e for v, e in m if v in sign}
        g = d if g is None else {v: min(e, d[v]) for v, e in g.items() if v in d and (e > 0) == (d[v] > 0)}
        if not g:
            return con
    s = POS
    for v, e in g.items():
        kv = sign[v] & ~ZER
        s = smul(s, POS if e % 2 == 0 else kv)
    # a common factor that may vanish only weakens the constraint
    zero = any(sign[v] & ZER for v in g)
    if s not in (POS, NEG) or (zero and rel != ">"):
        return con
    k = 1 if s == POS else -1
    inv = tuple((v, -e) for v, e in g.items())
    r, rc = {}, Fraction(0)
    for m, co in lin.items():
        for mm, cc in E._mmul(m, inv):
            if mm == ():
                rc += co * cc * k
            else:
                r[mm] = r.get(mm, 0) + co * cc * k
    return (r, rc, rel)


def smul(a, b):
    r = 0
    for x in (NEG, ZER, POS):
        if a & x:
            for y in (NEG, ZER, POS):
                if b & y:
                    if x == ZER or y == ZER:
                        r |= ZER
                    elif x == y:
                        r |= POS
                    else:
                        r |= NEG
    return r


# ---------------------------------------------------------------- environments
class Infeasible(Exception):
    pass


class Env:
    """A set of decided comparisons plus substitutions from decided equalities."""

    def __init__(self):
        self.facts = {}    # node id -> (d, mask)
        self.subst = {}    # node id -> replacement
        self.pending = []  # conditions assumed true, not yet decided
        self.memo = {}
        self.trace = []    # human-readable

    def copy(self):
        e = Env()
        e.facts = dict(self.facts)
        e.subst = dict(self.subst)
        e.pending = list(self.pending)
        e.trace = list(self.trace)
        return e

    def feasible(self, deep=False):
        f = list(self.facts.values())
        return self.counts(f) and not (fm_infeasible(linear(f)) or (deep and (fm_infeasible(linear(f, 1), 1500) or fm_infeasible(linear(f, 2), 3000))))

    def counts(self, f):
        """Is there a whole number left for every atom that is one?"""
        rng = {}
        for d, m in f:
            k, x = 0, d
            if d.k == "+" and d.a[0].k == "C":
                k, x = d.a[0].a, d.a[1]
            elif d.k == "+" and d.a[1].k == "C":
                k, x = d.a[1].a, d.a[0]
            if x.id not in E.whole:
                continue
            r = rng.setdefault(x.id, [None, None, set()])  # lowest, highest, left out
            v = -k
            if not m & NEG:
                lo = v if m & ZER else v + 1
                r[0] = lo if r[0] is None else max(r[0], lo)
            if not m & POS:
                hi = v if m & ZER else v - 1
                r[1] = hi if r[1] is None else min(r[1], hi)
            if not m & ZER:
                r[2].add(v)
        for lo, hi, out in rng.values():
            if lo is None or hi is None:
                continue
            if hi - lo > 100:
                continue
            v = lo
            while v <= hi and v in out:
                v += 1
            if v > hi:
                return False
        return True

    def assume(self, c):
        c = restrict(c, self)
        if c.k == "T":
            return
        if c.k == "N":
            raise Infeasible()
        if c.k == "&":
            for x in c.a:
                self.assume(x)
            return
        if c.k == "L" and not c.a[0].ites:
            self.fact(c.a[0], c.a[1])
            return
        self.pending.append(c)

    def fact(self, d, m):
        cur = self.facts.get(d.id)
        if cur:
            m &= cur[1]
            if m == cur[1]:
                return
        if m == 0:
            raise Infeasible()
        self.facts[d.id] = (d, m)
        self.memo = {}
        if d.k == "F" and d.a[0] == "sqrt" and m in (POS, ZER):  # a root vanishes with its radicand
            self.fact(d.a[1], m)
        if m == ZER:
            self.substitute(d)
        self.rework()

    def substitute(self, d):
        p = E.poly(d)
        if p is None:
            return
        best = None
        for mono, c in p.items():
            if len(mono) == 1 and mono[0][1] == 1:
                v = mono[0][0]
                if sum(1 for m2 in p if any(u == v for u, _ in m2)) != 1:
                    continue
                b = E.by_id[v]
                rest = E.mul(E.const(-1 / c), E.sub(d, E.mul(E.const(c), b)))
                if contains(rest, b):
                    continue
                rank = (0 if b.k == "A" else 1, -b.id)
                if best is None or rank < best[0]:
                    best = (rank, b, rest)
        if best is None:
            return
        _, b, rest = best
        for k, r in list(self.subst.items()):
            pass
        self.subst[b.id] = rest
        self.memo = {}

    def rework(self):
        """Re-evaluate facts and pending conditions after a change."""
        old = list(self.facts.values())
        for d, m in old:
            d2 = restrict(d, self)
            if d2 is d:
                continue
            if d2.k == "C":
                if not E.sgn(d2.a) & m:
                    raise Infeasible()
                continue
            c = E.lit(d2, m)
            if c.k == "N":
                raise Infeasible()
            if c.k == "T":
                continue
            if c.k == "L":
                dd, mm = c.a
                cur = self.facts.get(dd.id)
                if cur is None or cur[1] & mm != cur[1]:
                    self.fact(dd, mm)
            elif not any(x is c for x in self.pending):
                self.pending.append(c)
        pend, self.pending = self.pending, []
        for c in pend:
            self.assume(c)


def contains(n, b):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x is b:
            return True
        if x.id in seen or x.k in "CATN":
            continue
        seen.add(x.id)
        if x.k == "F":
            st.extend(x.a[1:])
        elif x.k == "L":
            st.append(x.a[0])
        else:
            st.extend(x.a)
    return False


def kids(x):
    if x.k in "CATN":
        return ()
    if x.k == "F":
        return x.a[1:]
    if x.k == "L":
        return (x.a[0],)
    return x.a


def restrict(n, env):
    """n under the decided comparisons and equalities of env."""
    memo = env.memo
    if n.id in memo:
        return memo[n.id]
    if not env.facts and not env.subst:
        return n
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        s = env.subst.get(x.id)
        if s is not None:
            if s.id in memo or s is x:
                memo[x.id] = memo.get(s.id, s)
                stack.pop()
            else:
                stack.append(s)
            continue
        if x.k in "CATN":
            memo[x.id] = x
            stack.pop()
            continue
        if x.k == "I":
            c = x.a[0]
            if c.id not in memo:
                stack.append(c)
                continue
            rc = memo[c.id]
            if rc.k == "T" or rc.k == "N":
                y = x.a[1] if rc.k == "T" else x.a[2]
                if y.id in memo:
                    memo[x.id] = memo[y.id]
                    stack.pop()
                else:
                    stack.append(y)
                continue
        todo = [y for y in kids(x) if y.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[x.id] = rebuild(x, memo, env)
        stack.pop()
    return memo[n.id]


def rebuild(x, memo, env):
    ch = [memo[y.id] for y in kids(x)]
    same = all(a is b for a, b in zip(ch, kids(x)))
    if x.k == "L":
        if same:
            f = env.facts.get(x.a[0].id)
            if f is None:
                return x
            m = f[1]
            if m & ~x.a[1] == 0:
                return E.TRUE
            if m & x.a[1] == 0:
                return E.FALSE
            return x
        c = E.lit(ch[0], x.a[1])
        return apply_facts(c, env)
    if same:
        return x
    if x.k == "+":
        return E.add(*ch)
    if x.k == "*":
        return E.mul(*ch)
    if x.k == "/":
        return E.inv(ch[0])
    if x.k == "F":
        return E.fn(x.a[0], *ch)
    if x.k == "I":
        return E.ite(*ch)
    if x.k == "&":
        return E.and_(*ch)
    if x.k == "|":
        return E.or_(*ch)
    raise AssertionError(x.k)


def apply_facts(c, env):
    if c.k == "L":
        f = env.facts.get(c.a[0].id)
        if f is not None:
            if f[1] & ~c.a[1] == 0:
                return E.TRUE
            if f[1] & c.a[1] == 0:
                return E.FALSE
        return c
    if c.k == "&":
        return E.and_(*[apply_facts(x, env) for x in c.a])
    if c.k == "|":
        return E.or_(*[apply_facts(x, env) for x in c.a])
    return c


# ---------------------------------------------------------------- alternative numberings
def alt_equal(a, b, tries=80):
    """Re-number a and b with other atom images, preferring images under which every square
    root exists in the field (so that sqrt(x)*sqrt(x) = x holds everywhere)."""
    good = 0
    for seed in range(1, tries):
        memo = {}
        va, ok1 = alt_eval(a, seed, memo)
        vb, ok2 = alt_eval(b, seed, memo)
        if ok1 and ok2:
            if va != vb:
                return False
            good += 1
            if good == 6 or not memo.get("roots"):
                return True
    return good > 0


def alt_eval(n, seed, memo):
    units = {}
    for g in E.unit_groups:
        t = [E.H("unit", seed, g[0].a, i) for i in range(3)]
        s = sum(x * x for x in t) % P
        d = E._inv((1 + s) % P)
        for i in range(4):
            units[g[i].id] = (2 * t[i] * d if i < 3 else (1 - s) * d) % P
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        todo = [y for y in kids(x) if y.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        ch = [memo[y.id] for y in kids(x)]
        ok = all(c[1] for c in ch)
        v = [c[0] for c in ch]
        k = x.k
        if k == "C":
            r = x.a.numerator * E._inv(x.a.denominator % P) % P
        elif k == "A":
            r = units[x.id] if x.id in units else E.H("atom", seed, x.a)
        elif k == "T":
            r = 1
        elif k == "N":
            r = 0
        elif k == "+":
            r = (v[0] + v[1]) % P
        elif k == "*":
            r = v[0] * v[1] % P
        elif k == "/":
            r = E._inv(v[0])
        elif k == "I":
            r = (v[0] * v[1] + (1 - v[0]) * v[2]) % P
        elif k == "L":
            d = v[0]
            m = x.a[1]
            if d > P - d:
                d, m = P - d, E.flip(m)
            i = [E.H("sgn", seed, d, j) for j in range(2)]
            i = [i[0], i[1], (1 - i[0] - i[1]) % P]
            r = sum(i[j] for j in range(3) if m >> j & 1) % P
        elif k == "&":
            r = 1
            for y in v:
                r = r * y % P
        elif k == "|":
            r = 1
            for y in v:
                r = r * (1 - y) % P
            r = (1 - r) % P
        elif k == "F":
            name = x.a[0]
            if name == "sqrt":
                memo["roots"] = True
                r, good = E.sqrt_fp(v[0])
                if good and E.H("root", seed, v[0]) & 1:  # the sign of a root is ambiguous in the field
                    r = (P - r) % P
                ok = ok and good
            elif name in ("sin", "cos"):
                h = E.H("trig", seed, v[0])
                d = E._inv((1 + h * h) % P)
                r = (2 * h * d if name == "sin" else (1 - h * h) * d) % P
            else:
                r = E.H("fn", seed, name, tuple(v))
        else:
            raise AssertionError(k)
        memo[x.id] = (r, ok)
    return memo[n.id]


TOL = [Fraction(1, 10**12)]


def close(a, b):
    """Same polynomial up to the rounding of the literals in it (sin(pi/3) and sqrt(3)/2)."""
    p, q = E.poly(a), E.poly(b)
    if p is None or q is None or p.keys() != q.keys():
        return False
    return all(abs(p[k] - q[k]) <= TOL[0] * (abs(p[k]) + abs(q[k])) for k in p)


# ---------------------------------------------------------------- the decision
class Stats:
    def __init__(self):
        self.cases = 0
        self.pruned = 0
        self.direct = 0


def pick(nodes):
    """A comparison without gates inside, that decides a gate of one of the nodes.  Prefers the
    comparison that gates the most sub-terms."""
    cnt = {}
    lits = {}
    for n in nodes:
        seen, st = set(), [n]
        while st:
            x = st.pop()
            if x.id in seen or (not x.ites and x.k not in "L&|"):
                continue
            seen.add(x.id)
            if x.k == "I":
                for l in E.lits_of(x.a[0]).values():
                    if not l.a[0].ites:
                        cnt[l.id] = cnt.get(l.id, 0) + 1
                        lits[l.id] = l
                    else:
                        st.append(l.a[0])
                st.extend(x.a[1:])
            elif x.k == "L":
                if x.a[0].ites:
                    st.append(x.a[0])
                else:
                    cnt[x.id] = cnt.get(x.id, 0) + 1
                    lits[x.id] = x
            else:
                st.extend(kids(x))
    if not cnt:
        return None
    return lits[max(cnt, key=lambda i: (cnt[i], -i))]


def rooted(n):
    return any(x.k == "F" and x.a[0] == "sqrt" for x in triage.order([n]))


def islinear(d):
    p = E.poly(d)
    return p is not None and all(sum(e for _, e in m) <= 1 and all(e == 1 and E.by_id[v].k == "A" for v, e in m) for m in p)


LATER = object()


def decide_eq(a, b, assumptions, budget=4000, stats=None, phase=0):
    """None if a == b under the assumptions; else the Env of a violating case.
    Phase 1 makes only the cheap tests (LATER: they do not settle it), phase 2 only the others."""
    stats = stats or Stats()
    if a is b or a.fp == b.fp:
        stats.direct += 1
        return None
    env = Env()
    try:
        for c in assumptions:
            env.assume(c)
        # assumptions may resolve pending ones
        env.rework()
    except Infeasible:
        return None
    r = separated(a, b, env, 10 if phase == 0 else 30) if phase != 2 else None
    if r is not None:
        return r
    if phase == 1:
        return LATER
    try:
        return _split(a, b, env.copy(), [300], stats)
    except Budget:
        pass
    a0, b0 = restrict(a, env), restrict(b, env)
    a, b = congruent(a, b, env, stats)
    if a.fp == b.fp:
        return None
    try:
        return _split(a, b, env.copy(), [budget], stats)
    except Budget:
        # too many combinations: only a point that separates the two sides counts
        stats.undecided = getattr(stats, "undecided", 0) + 1
        facts = list(env.facts.values())
        env.point = triage.search(facts, a0, b0, tries=2000, conds=env.pending, accept=robust(a0, b0, facts, env.pending))
        env.final = (a0, b0)
        return None if env.point is None else env


def robust(a, b, facts, conds=()):
    """A point counts when neither the difference nor the comparisons behind it are a matter of rounding."""
    def accept(val, err):
        if not abs(val[a.id] - val[b.id]) > 1e3 * (err[a.id] + err[b.id]):
            return False
        for n in (a, b):
            for x in gates_of(n):
                for l in E.lits_of(x.a[0]).values():
                    d = l.a[0].id
                    if val[d] != 0 and not abs(val[d]) > 1e3 * err[d]:
                        return False
        for d, m in [(d, m) for d, m in facts] + [l.a for c in conds for l in E.lits_of(c).values()]:
            if m != ZER and val[d.id] != 0 and not abs(val[d.id]) > 1e3 * err[d.id]:
                return False
        return True
    return accept


def separated(a, b, env, tries=10):
    """Cheap first test: a point of the assumptions at which the two sides differ, and whose choice of
    gates leaves two different gate-free terms; or None."""
    # equations that fix an atom are met exactly by the search; others are not its business
    if any(m == ZER and not (d.k == "A" or (d.k == "+" and sorted(x.k for x in d.a) == ["A", "C"])) for d, m in env.facts.values()):
        return None
    a, b = restrict(a, env), restrict(b, env)
    out = []

    def accept(val, err):
        if not abs(val[a.id] - val[b.id]) > 1e3 * (err[a.id] + err[b.id]):
            return False
        for d in [d for d, m in env.facts.values() if m != ZER] + [l.a[0] for c in env.pending for l in E.lits_of(c).values()]:
            if not abs(val[d.id]) > 1e3 * err[d.id]:
                return False
        x, y = choose(a, val, err), choose(b, val, err)
        if x is None or y is None or x.fp == y.fp or alt_equal(x, y) or close(x, y):
            return False
        out.append((x, y))
        return True
    pt = triage.search(list(env.facts.values()), a, b, tries=tries, steps=40, conds=env.pending, accept=accept)
    if pt is None:
        return None
    e = env.copy()
    e.point, e.final = pt, out[0]
    return e


def choose(n, val, err):
    """n with every gate replaced by the branch taken at the point val; None if a comparison is too close to call."""
    memo, stack = {}, [n]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.k in "CATN" or not x.ites:
            memo[x.id] = x
            stack.pop()
            continue
        if x.k == "I":
            c = val.get(x.a[0].id)
            if c is None:
                return None
            for l in E.lits_of(x.a[0]).values():
                d = l.a[0].id
                if not abs(val[d]) > 1e3 * err[d]:
                    return None
            y = x.a[1] if c else x.a[2]
            if y.id in memo:
                memo[x.id] = memo[y.id]
                stack.pop()
            else:
                stack.append(y)
            continue
        todo = [y for y in kids(x) if y.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[x.id] = rebuild(x, memo, None)
        stack.pop()
    return memo[n.id]


def gates_of(n):
    seen, st, out = set(), [n], []
    while st:
        x = st.pop()
        if x.id in seen or not x.ites:
            continue
        seen.add(x.id)
        if x.k == "I":
            out.append(x)
        st.extend(kids(x))
    return out


def congruent(a, b, env, stats, rounds=400):
    """Merge the gated sub-terms of a and b that are equal on their own, innermost first."""
    gates = {x.id: x for x in gates_of(a) + gates_of(b)}
    reps = {}
    env = env.copy()
    for i in sorted(gates):
        x = gates[i]
        key = frozenset(E.atoms_of(x))
        if len(key) > 12:
            continue
        for y in reps.setdefault(key, []):
            rounds -= 1
            if rounds < 0:
                break
            try:
                if _split(x, y, env.copy(), [60], stats) is None:
                    env.subst[x.id] = y
                    env.memo = {}
                    break
            except Budget:
                pass
        else:
            reps[key].append(x)
    return restrict(a, env), restrict(b, env)


def _split(a, b, env, left, stats):
    if left[0] <= 0:
        raise Budget()
    left[0] -= 1
    stats.cases += 1
    a = restrict(a, env)
    b = restrict(b, env)
    if a is b or a.fp == b.fp:
        return None
    # same gate on both sides: compare branch by branch under it
    l = pick([a, b])
    if l is None:
        if alt_equal(a, b) or close(a, b):
            return None
        # implied equalities of non-strict facts
        if env.pending:
            l = pick(env.pending)
        if l is None:
            if not env.feasible(deep=True):
                stats.pruned += 1
                return None
            for d, m in list(env.facts.values()):
                if m in (POS | ZER, NEG | ZER):
                    strict = [x for x in env.facts.values() if x[0] is not d] + [(d, m & ~ZER)]
                    if fm_infeasible(linear(strict)):
                        e2 = env.copy()
                        try:
                            e2.fact(d, ZER)
                        except Infeasible:
                            return None
                        return _split(a, b, e2, left, stats)
            # degenerate (measure-zero) equalities that could not be turned into a substitution
            for d, m in env.facts.values():
                if m == ZER and restrict(d, env).k != "C":
                    stats.undecided_boundary = getattr(stats, "undecided_boundary", 0) + 1
                    return None
            env.final = (a, b)
            facts = list(env.facts.values())
            env.point = triage.search(facts, a, b, accept=robust(a, b, facts))
            if env.point is None and (not all(islinear(d) for d, _ in facts) or rooted(a) or rooted(b)):
                stats.undecided = getattr(stats, "undecided", 0) + 1
                left[0] -= 60
                return None
            return env
    d, m = l.a
    for mask in (m, ALL & ~m):
        cur = env.facts.get(d.id)
        mm = mask & (cur[1] if cur else ALL)
        if E.nonneg(d):
            mm &= POS | ZER
        if mm == 0:
            continue
        e2 = env.copy()
        try:
            e2.fact(d, mm)
        except Infeasible:
            stats.pruned += 1
            continue
        e2.trace.append(E.show(E.lit_raw(d, mm)))
        if not e2.feasible():
            stats.pruned += 1
            continue
        r = _split(a, b, e2, left, stats)
        if r is not None:
            return r
    return None


def decide_true(c, assumptions, budget=4000, stats=None):
    return decide_eq(E.ite(c, E.ONE, E.ZERO), E.ONE, assumptions, budget, stats)
