"""Triage of an alarm: is the combination of comparison outcomes behind it consistent?

The polyhedral test is exact for linear comparisons.  For a combination that contains non-linear
ones, the alarm is kept only if a point of the state space with these outcomes, on which the two
value numbers differ, can be exhibited; the point is printed with the report.
"""
import math, random

from . import expr as E
from .expr import ALL, NEG, POS, ZER


WHOLE = ("iurem", "isrem", "iudiv", "isdiv", "iand", "ior", "ixor", "ishl", "ilshr", "iashr")


def leaf(x):
    """Atoms, and arithmetic on whole numbers (counters) that the analysis leaves open."""
    return x.k == "A" or (x.k == "F" and x.a[0] in WHOLE)


def order(roots):
    from .decide import kids
    seen, out = set(), []
    for r in roots:
        st = [(r, False)]
        while st:
            x, done = st.pop()
            if done:
                out.append(x)
                continue
            if x.id in seen:
                continue
            seen.add(x.id)
            st.append((x, True))
            for y in () if leaf(x) else kids(x):
                if y.id not in seen:
                    st.append((y, False))
    return out


def noise(*k):
    return E.H("pt", *k) % 2000003 / 1000001.5 - 1.0


class Undefined(Exception):
    pass


NAN = float("nan")


def run(prog, val):
    """Image of every node under the atom values val; NaN (None for conditions) where it is undefined."""
    for x in prog:
        k, a = x.k, x.a
        if leaf(x):
            continue
        if k == "C":
            val[x.id] = float(a)
        elif k == "+":
            val[x.id] = val[a[0].id] + val[a[1].id]
        elif k == "*":
            val[x.id] = val[a[0].id] * val[a[1].id]
        elif k == "/":
            d = val[a[0].id]
            val[x.id] = NAN if abs(d) < 1e-150 else 1.0 / d
        elif k == "T":
            val[x.id] = True
        elif k == "N":
            val[x.id] = False
        elif k == "L":
            d = val[a[0].id]
            val[x.id] = None if d != d else bool((POS if d > 0 else NEG if d < 0 else ZER) & a[1])
        elif k == "&":
            v = [val[y.id] for y in a]
            val[x.id] = False if False in v else None if None in v else True
        elif k == "|":
            v = [val[y.id] for y in a]
            val[x.id] = True if True in v else None if None in v else False
        elif k == "I":
            c = val[a[0].id]
            val[x.id] = NAN if c is None else val[a[1].id] if c else val[a[2].id]
        else:
            v = [val[y.id] for y in a[1:]]
            val[x.id] = NAN if any(t != t for t in v) else func(a[0], v)


def func(name, v):
    try:
        if name in ("sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "tanh", "log2", "log10", "floor", "ceil", "trunc"):
            return float(getattr(math, name)(v[0]))
        if name == "atan2":
            return math.atan2(*v)
        if name == "pow":
            return float(v[0] ** v[1])
        if name == "fmod":
            return math.fmod(*v)
        if name == "cbrt":
            return math.copysign(abs(v[0]) ** (1 / 3), v[0])
        if name == "round":
            return math.copysign(math.floor(abs(v[0]) + 0.5), v[0])
    except (ValueError, OverflowError, ZeroDivisionError, TypeError):
        return NAN
    return noise(name, tuple("%.9g" % x for x in v))


OPEN = ("tan", "log", "log2", "log10", "floor", "ceil", "trunc", "fmod", "cbrt", "round")


def errors(prog, val):
    """A first-order bound on the rounding error of every image in val."""
    u = 1e-15
    err = {}
    for x in prog:
        k, a = x.k, x.a
        if k in "ACTN" or k in "L&|" or leaf(x):
            err[x.id] = 0.0
            continue
        v = val[x.id]
        if v != v:
            e = NAN
        elif k == "+":
            e = err[a[0].id] + err[a[1].id]
        elif k == "*":
            e = abs(val[a[0].id]) * err[a[1].id] + abs(val[a[1].id]) * err[a[0].id]
        elif k == "/":
            e = err[a[0].id] * v * v
        elif k == "I":
            e = err[a[1].id] if val[a[0].id] else err[a[2].id]
        else:
            e = sum(err[y.id] for y in a[1:])
            if a[0] == "sqrt":
                e = math.sqrt(e) if v * v <= e else e / (2 * v)
            elif a[0] == "atan2":
                e = e / max(1e-30, math.hypot(val[a[1].id], val[a[2].id]))
            elif a[0] in ("exp", "pow"):
                e = e * max(1.0, abs(v)) * 10
            elif a[0] in ("asin", "acos"):
                e = e / math.sqrt(max(1e-12, 1 - val[a[1].id] ** 2))
            elif a[0] in OPEN:
                e = e * 1e3
            elif a[0] not in ("sin", "cos", "atan", "tanh"):
                # an uninterpreted function of rounded arguments (see func)
                e = 0.0 if all(err[y.id] <= 1e-11 * abs(val[y.id]) for y in a[1:]) else NAN
        err[x.id] = e + u * abs(v)
    return err


def search(facts, a, b, tries=150, steps=80, conds=(), accept=None):
    """A dict atom -> value that satisfies facts [(d, mask)] and separates a from b, or None."""
    rng = random.Random(12345)
    prog = order([d for d, _ in facts] + [a, b] + list(conds))
    atoms = [x for x in prog if leaf(x)]
    unit = {}
    for g in E.unit_groups:
        for i, x in enumerate(g):
            unit[x.id] = (g, i)
    inside = {}
    # what is under a root is not negative
    have = {d.id for d, _ in facts}
    roots = {x.a[1].id: (x.a[1], POS | ZER) for x in prog if x.k == "F" and x.a[0] == "sqrt" and not E.nonneg(x.a[1])}
    roots = [f for i, f in roots.items() if i not in have]
    for d, _ in facts + roots:
        inside[d.id] = [x for x in order([d]) if leaf(x) and x.id not in unit]
    groups = []
    for x in atoms:
        if x.id in unit and unit[x.id][0] not in groups:
            groups.append(unit[x.id][0])
    free = [x for x in atoms if x.id not in unit]

    def spin(val):
        for g in groups:
            q = [rng.gauss(0, 1) for _ in range(4)]
            n = math.sqrt(sum(t * t for t in q))
            for i in range(4):
                val[g[i].id] = q[i] / n

    def bad(val):
        out = []
        for d, m in facts:
            x = val[d.id]
            if x != x:
                raise Undefined()
            s = POS if x > 0 else NEG if x < 0 else ZER
            if not s & m:
                if m == ZER and abs(x) < 1e-9:
                    continue
                out.append((d, m, x))
        for d, m in roots:
            if val[d.id] < 0:
                out.append((d, m, val[d.id]))
        return out
    for t in range(tries):
        val = {}
        spread = rng.choice([0.5, 2, 2, 10, 50])
        for x in free:
            val[x.id] = rng.gauss(0, spread) if rng.random() < .8 and x.id not in E.whole else float(rng.randint(-3, 6))
        spin(val)
        try:
            run(prog, val)
            for _ in range(steps):
                v = bad(val)
                if not v:
                    break
                d, m, x = rng.choice(v)
                want = [w for w, s in ((rng.choice([.01, .3, 1, 5, 30]), POS), (-rng.choice([.01, .3, 1, 5, 30]), NEG)) if m & s]
                tgt = 0.0 if m == ZER or (m & ZER and rng.random() < .1) else rng.choice(want)
                cand = inside[d.id]
                if not cand or (groups and rng.random() < .15):
                    spin(val)
                    run(prog, val)
                    continue
                y = rng.choice(cand)
                y0 = val[y.id]
                if rng.random() < .15 and y.id not in E.whole:
                    val[y.id] = -y0 if rng.random() < .5 else y0 * rng.choice([.1, .5, 2, 10])
                    run(prog, val)
                    continue
                h = max(1e-3, abs(y0) * 1e-3)
                val[y.id] = y0 + h
                sub = order([d])
                run(sub, val)
                slope = (val[d.id] - x) / h
                if abs(slope) < 1e-9:
                    val[y.id] = rng.gauss(0, spread)
                else:
                    val[y.id] = y0 + (tgt - x) / slope
                    if abs(val[y.id]) > 1e6:
                        val[y.id] = rng.gauss(0, spread)
                if y.id in E.whole:
                    val[y.id] = float(math.ceil(val[y.id]) if rng.random() < .5 else math.floor(val[y.id]))
                run(prog, val)
            if bad(val) or not all(val[c.id] for c in conds):
                continue
            p, q = val[a.id], val[b.id]
            if any(val[x.id] != int(val[x.id]) for x in free if x.id in E.whole):
                continue
            if abs(p - q) > 1e-7 * (1 + abs(p) + abs(q)) and (accept is None or accept(val, errors(prog, val))):
                return {x.a if x.k == "A" else E.show(x): val[x.id] for x in atoms}
        except (Undefined, OverflowError):
            continue
    return None
