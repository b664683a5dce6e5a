"""Meaning of the functions the analysis does not look into: the vf_* vocabulary of the
harnesses, libm, the C++ run-time, output streams and random number generation."""
import re
import os
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import struct

from . import expr as E
from .expr import ALL, FALSE, NEG, ONE, POS, TRUE, ZER, ZERO, Node
from .interp import Agg, Fn, Inconclusive, NULL, Ptr, PtrIte, Region, cond, mergeval, num, same, wrap


def cstr(I, st, p):
    if not isinstance(p, Ptr) or p.r not in st.regs:
        return "?"
    r = st.regs[p.r]
    out = []
    o = p.o
    while len(out) < 400:
        c = r.cells.get(o)
        v = int(c[1].a) if c and isinstance(c[1], Node) and c[1].k == "C" else 0
        if v == 0:
            break
        out.append(chr(v & 255))
        o += 1
    return "".join(out)


def const_int(v):
    v = num(v)
    if isinstance(v, Node) and v.k == "C":
        return int(v.a)
    raise Inconclusive("a size or index is not a constant")


def exc(st):
    return {"exc": (TRUE, st, None)}


# ---------------------------------------------------------------- vf_*
def vf(I, name):
    def real(a, st, ins):
        return E.atom("%s[%d]" % (cstr(I, st, a[0]), const_int(a[1])))

    def vbool(a, st, ins):
        return E.lit(real(a, st, ins), NEG | POS)

    def assume(a, st, ins):
        c = cond(a[0])
        if c.k == "N":
            return {}
        if c.k == "T":
            return None
        return {"ret": (c, st, None)}

    def eq(a, st, ins):
        I.obl.append(("eq", cstr(I, st, a[0]), const_int(a[1]), num(a[2]), num(a[3]), st.pc, I.fr.loc))

    def true(a, st, ins):
        I.obl.append(("true", cstr(I, st, a[0]), const_int(a[1]), cond(a[2]), TRUE, st.pc, I.fr.loc))

    def known(a, st, ins):
        I.obl.append(("known", cstr(I, st, a[1]), const_int(a[2]), num(a[3]), num(a[4]), st.pc, I.fr.loc,
                      cstr(I, st, a[0]), num(a[5])))

    def havoc(a, st, ins):
        lab, p, n = cstr(I, st, a[0]), a[1], const_int(a[2])
        r = st.w(p.r)
        lo, hi = p.o, p.o + n
        for o in [o for o, c in r.cells.items() if lo <= o < hi and isinstance(c[1], Node)]:
            del r.cells[o]
        r.back = ("over", lo, hi, ("input", lab, -lo), 0, r.back)

    def havoc_ints(a, st, ins):
        """A whole number that is not zero after driving the object counts something: it may be any positive one.
        So may a number that depends on nothing but the time steps of the drive."""
        from vf import layout
        kind = layout.norm(cstr(I, st, a[0]).split("X = ", 1)[1].rstrip("]"))
        c = TRUE
        for off, t in I.ints.get(kind, ()):
            p = I.padd(a[1], off)
            v, n = num(I.load(st, p, t)), E.atom("counter:%s+%d" % (kind, off))
            if t[0] == "f":
                used = E.atoms_of(v)
                if not used or v.k == "C" or not all(re.match(r"reach_(\w*_)?(dt\d?|before|flown|used|fresh)\[", x) for x in used):
                    continue
            I.store(st, p, t, E.ite(E.lit(v, ZER), v, n))
            c = E.and_(c, E.lit(n, POS))
        return None if c is TRUE else {"ret": (c, st, None)}

    def vsame(a, st, ins):
        lab = cstr(I, st, a[0])
        compare(I, st, lab, a[1], a[2], const_int(a[3]), set())

    def unit4(size):
        def f(a, st, ins):
            u = E.unit4(cstr(I, st, a[0]))
            for i in range(4):
                I.store(st, I.padd(a[1], i * size), "f64" if size == 8 else "f32", u[i])
        return f

    def note(a, st, ins):
        I.notes.append(cstr(I, st, a[0]))

    def events(a, st, ins):
        lab = cstr(I, st, a[0])
        if lab.startswith("cmp:"):
            compare_events(I, st, lab[4:])
        elif lab.startswith("none:"):
            quiet(I, st, lab[5:])
        else:
            st.ev = st.ev + ((TRUE, ("mark", lab), None),)

    return {"vf_real": real, "vf_realf": real, "vf_int": real, "vf_bool": vbool, "vf_assume": assume,
            "vf_eq": eq, "vf_eqi": eq, "vf_true": true, "vf_known": known, "vf_havoc": havoc, "vf_havoc_ints": havoc_ints, "vf_same": vsame,
            "vf_unit4": unit4(8), "vf_unit4f": unit4(4), "vf_note": note, "vf_events": events,
            }.get(name)


def undefp(v):
    return isinstance(v, Node) and v.k == "A" and v.a.startswith("undef!")


def compare(I, st, lab, p, q, n, seen):
    if (p, q) in seen:
        return
    seen.add((p, q))
    if p.r not in st.regs or q.r not in st.regs:
        raise Inconclusive("vf_same on a dead object")
    x, y = st.regs[p.r], st.regs[q.r]
    offs = {}
    for r, b in ((x, p), (y, q)):
        for o, c in r.cells.items():
            if b.o <= o and o + c[0] <= b.o + n:
                offs[o - b.o] = max(c[0], offs.get(o - b.o, 0))
    pos = 0
    todo = []
    for o in sorted(offs):
        while pos < o:
            todo.append((pos, min(8, o - pos) if (o - pos) % 8 else 8))
            pos += todo[-1][1]
        if o >= pos:
            todo.append((o, offs[o]))
            pos = o + offs[o]
    while pos < n:
        s = min(8, n - pos)
        todo.append((pos, s))
        pos += s
    for o, s in todo:
        a = I.load(st, Ptr(p.r, p.o + o), "i%d" % (8 * s))
        b = I.load(st, Ptr(q.r, q.o + o), "i%d" % (8 * s))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r or a.r == 0 or b.r == 0:
                if a != b and a.r == b.r:
                    I.obl.append(("true", "%s+%d" % (lab, o), 0, FALSE, TRUE, st.pc, I.fr.loc))
                continue
            ra, rb = st.regs.get(a.r), st.regs.get(b.r)
            if ra is not None and rb is not None and ra.kind == "heap" and rb.kind == "heap" and a.o == 0 and b.o == 0:
                if ra.size != rb.size:
                    I.obl.append(("true", "%s+%d*" % (lab, o), 0, FALSE, TRUE, st.pc, I.fr.loc))
                else:
                    compare(I, st, "%s+%d*" % (lab, o), a, b, ra.size, seen)
            continue
        if not isinstance(a, Node) or not isinstance(b, Node):
            continue
        a, b = num(a), num(b)
        if a is b or (undefp(a) and undefp(b)) or (o not in offs and (undefp(a) or undefp(b))):
            I.same_ok = getattr(I, "same_ok", 0) + 1
            continue
        I.obl.append(("eq", "%s+%d" % (lab, o), 0, a, b, st.pc, I.fr.loc))
    I.obl.append(("true", lab, -1, TRUE, TRUE, st.pc, I.fr.loc))


def out_tokens(evs, gather=()):
    toks, dst = [], None
    for g, e, l in evs:
        if e[0] != "out" or e[3] in gather:
            continue
        if g.k != "T":  # a value decides what is written
            toks.append("<sometimes>")
        if e[3] != dst:  # a switch of stream is visible
            toks.append("<stream %s>" % e[3])
            dst = e[3]
        if e[1] == "str":
            if toks and isinstance(toks[-1], str):
                toks[-1] += e[2]
            elif e[2]:
                toks.append(e[2])
        else:
            toks.append((e[2], l))
    return toks


def compare_events(I, st, lab):
    marks = [i for i, (g, e, l) in enumerate(st.ev) if e[0] == "mark"]
    a = out_tokens(st.ev[marks[-2]:marks[-1]], I.gather)
    b = out_tokens(st.ev[marks[-1]:], I.gather)
    shape = len(a) == len(b) and all((isinstance(x, str) and x == y) or (not isinstance(x, str) and not isinstance(y, str))
                                     for x, y in zip(a, b))
    loc = I.fr.loc
    for x in a:
        if not isinstance(x, str):
            loc = x[1]
    I.obl.append(("true", lab + ": text layout", 0, TRUE if shape else FALSE, TRUE, st.pc, loc))
    if shape:
        i = 0
        for x, y in zip(a, b):
            if not isinstance(x, str):
                I.obl.append(("eq", lab + ": column", i, num(x[0]), num(y[0]), st.pc, x[1]))
                i += 1


def quiet(I, st, lab):
    """No nondeterminism, bad access or abort since the last mark."""
    start = max([i for i, (g, e, l) in enumerate(st.ev) if e[0] == "mark"] or [-1]) + 1
    for g, e, l in st.ev[start:]:
        if e[0] in ("nondet", "badstore", "abort"):
            I.obl.append(("true", "%s: %s" % (lab, " ".join(map(str, e))), 0, E.not_(g), TRUE, st.pc, l))
    I.obl.append(("true", lab, -1, TRUE, TRUE, st.pc, I.fr.loc))


# ---------------------------------------------------------------- libm
def pw(x, y):
    if y.k == "C":
        e = y.a
        if e.denominator == 1 and abs(e) <= 8:
            r = ONE
            for _ in range(abs(int(e))):
                r = E.mul(r, x)
            return r if e >= 0 else E.inv(r)
        if e.denominator == 2 and 0 < e < 4:
            return E.mul(pw(x, E.const(int(e))), E.fn("sqrt", x))
    return E.fn("pow", x, y)


def fmin(x, y):
    return E.ite(E.lit(E.sub(y, x), NEG), y, x)


def fmax(x, y):
    return E.ite(E.lit(E.sub(x, y), NEG), y, x)


def copysign(x, y):
    a = E.fabs(x)
    return E.ite(E.lit(y, NEG), E.neg(a), a)


MATH = {
    "sqrt": lambda I, st, x: E.fn("sqrt", x),
    "sin": lambda I, st, x: E.fn("sin", x),
    "cos": lambda I, st, x: E.fn("cos", x),
    "tan": lambda I, st, x: E.fn("tan", x) if x.k == "C" else E.div(E.fn("sin", x), E.fn("cos", x)),
    "asin": lambda I, st, x: E.fn("asin", x),
    "acos": lambda I, st, x: E.fn("acos", x),
    "atan": lambda I, st, x: E.fn("atan", x),
    "atan2": lambda I, st, x, y: E.fn("atan2", x, y),
    "exp": lambda I, st, x: E.fn("exp", x),
    "log": lambda I, st, x: E.fn("log", x),
    "tanh": lambda I, st, x: E.fn("tanh", x),
    "cbrt": lambda I, st, x: E.fn("cbrt", x),
    "pow": lambda I, st, x, y: pw(x, y),
    "powi": lambda I, st, x, y: pw(x, y),
    "hypot": lambda I, st, x, y: E.fn("sqrt", E.add(E.mul(x, x), E.mul(y, y))),
    "fabs": lambda I, st, x: E.fabs(x),
    "floor": lambda I, st, x: I.rounded("floor", x, st),
    "ceil": lambda I, st, x: I.rounded("ceil", x, st),
    "trunc": lambda I, st, x: I.rounded("trunc", x, st),
    "round": lambda I, st, x: I.rounded("round", x, st),
    "rint": lambda I, st, x: I.rounded("round", x, st),
    "nearbyint": lambda I, st, x: I.rounded("round", x, st),
    "lround": lambda I, st, x: I.rounded("round", x, st),
    "fmin": lambda I, st, x, y: fmin(x, y),
    "fmax": lambda I, st, x, y: fmax(x, y),
    "minnum": lambda I, st, x, y: fmin(x, y),
    "maxnum": lambda I, st, x, y: fmax(x, y),
    "minimum": lambda I, st, x, y: fmin(x, y),
    "maximum": lambda I, st, x, y: fmax(x, y),
    "copysign": lambda I, st, x, y: copysign(x, y),
    "fma": lambda I, st, x, y, z: E.add(E.mul(x, y), z),
    "fmuladd": lambda I, st, x, y, z: E.add(E.mul(x, y), z),
    "fmod": lambda I, st, x, y: E.fn("fmod", x, y),
    "remainder": lambda I, st, x, y: E.fn("remainder", x, y),
    "nextafter": lambda I, st, x, y: E.fn("nextafter", x, y) if x.k != "C" else x,
    "log2": lambda I, st, x: E.fn("log2", x),
    "log10": lambda I, st, x: E.fn("log10", x),
    "exp2": lambda I, st, x: pw(E.const(2), x),
}


def math_handler(I, f):
    def h(a, st, ins):
        if any(isinstance(x, Agg) for x in a):
            n = max(len(x.v) for x in a if isinstance(x, Agg))
            return Agg([f(I, st, *[num(x.v[i]) if isinstance(x, Agg) else num(x) for x in a]) for i in range(n)])
        return I.tag(f(I, st, *[num(x) for x in a]))
    return h


# ---------------------------------------------------------------- llvm intrinsics
def intrinsic(I, name):
    base = name[5:]
    if base.startswith(("memcpy", "memmove")):
        return lambda a, st, ins: I.copy(st, a[0], a[1], const_int(a[2]))
    if base.startswith("memset"):
        return lambda a, st, ins: I.fill(st, a[0], const_int(a[1]), const_int(a[2]))
    if base.startswith(("lifetime", "dbg", "assume", "experimental.noalias", "stackrestore", "invariant", "donothing",
                        "prefetch", "va_", "sideeffect", "var.annotation")):
        return lambda a, st, ins: None
    if base.startswith("stacksave"):
        return lambda a, st, ins: NULL
    if base.startswith(("expect", "launder", "strip.invariant", "ssa.copy", "annotation", "ptr.annotation")):
        return lambda a, st, ins: a[0]
    if base.startswith("is.constant"):
        return lambda a, st, ins: FALSE
    if base.startswith("objectsize"):
        return lambda a, st, ins: E.const(-1)
    if base.startswith(("trap", "ubsantrap", "debugtrap")):
        return aborter(I, "trap")
    if base.startswith("eh.typeid"):
        return lambda a, st, ins: ONE
    if base.startswith("is.fpclass"):
        def fpc(a, st, ins):
            m = const_int(a[1])
            s = (NEG if m & 8 else 0) | (ZER if m & 64 else 0) | (POS if m & 256 else 0)
            return E.lit(num(a[0]), s)
        return fpc
    m = re.match(r"(s|u)(add|sub|mul)\.with\.overflow", base)
    if m:
        return lambda a, st, ins: Agg([I.intbin(m.group(2), a[0], a[1], 64), FALSE])
    m = re.match(r"(s|u)(max|min)\.", base)
    if m:
        def mm(a, st, ins):
            c = I.icmp(m.group(1) + "lt", "i64", a[0], a[1])
            lo, hi = (a[0], a[1]) if m.group(2) == "min" else (a[1], a[0])
            return mergeval(c, lo, hi) if c.k not in "TN" else (lo if c.k == "T" else hi)
        return mm
    if base.startswith("abs."):
        return lambda a, st, ins: E.fabs(num(a[0]))
    if base.startswith("usub.sat"):
        return lambda a, st, ins: I.intbin("sub", a[0], a[1], 64)
    if base.startswith("vector.reduce.f"):
        def red(a, st, ins):
            r = num(a[0])
            for x in a[1].v:
                r = E.add(r, num(x)) if "fadd" in base else E.mul(r, num(x))
            return r
        return red
    k = base.split(".")[0]
    if k in MATH:
        return math_handler(I, MATH[k])
    return None


def aborter(I, what):
    def h(a, st, ins):
        I.event(st, ("abort", what))
        return exc(st)
    return h


# ---------------------------------------------------------------- everything else
def find(I, name, F):
    if name.startswith("vf_"):
        h = vf(I, name)
        if h is None:
            raise Inconclusive("unknown analyser function " + name)
        return h
    if name.startswith("llvm."):
        h = intrinsic(I, name)
        if h is None:
            raise Inconclusive("intrinsic %s" % name)
        return h
    dem = (F.dem if F else None) or name
    h = runtime(I, name, dem, F)
    if h is not None:
        return h
    h = cxxlib(I, name, dem, F)
    if h is not None:
        return h
    if F is None or F.decl:
        if name in MATH:
            return math_handler(I, MATH[name])
        if name.endswith(("f", "l")) and name[:-1] in MATH:
            return math_handler(I, MATH[name[:-1]])
        m = re.match(r"std::(?:__\w+::)?(\w+)\((float|double|long double)", dem)
        if m and m.group(1) in MATH:
            return math_handler(I, MATH[m.group(1)])
        raise Inconclusive("external function %s called at %s" % (dem, I.where()))
    return None


def nondet(I, what):
    def h(a, st, ins):
        I.event(st, ("nondet", what))
        I.nondet.append((what, I.fr.loc))
        t = ins[3]
        if t == "v":
            return None
        I.undefs += 1
        return E.atom("nondet!%s#%d" % (what, I.undefs))
    return h


def runtime(I, name, dem, F):
    if "std::__detail::_Prime_rehash_policy::" in (dem or "") and (F is None or F.decl):
        if "_M_need_rehash" in dem:  # one bucket will do
            return lambda a, st, ins: Agg([ZERO, ZERO])
        if "_M_next_bkt" in dem:
            return lambda a, st, ins: ONE
    if (dem or "").startswith("std::_Rb_tree_") and (F is None or F.decl):
        def ld(st, p, o):
            x = I.load(st, Ptr(p.r, p.o + o), "p")
            if not isinstance(x, Ptr):
                raise Inconclusive("a map whose shape depends on a value")
            return x
        def put(st, p, o, x):
            I.store(st, Ptr(p.r, p.o + o), "p", x)
        PAR, LEFT, RIGHT = 8, 16, 24
        if "insert_and_rebalance" in dem:
            def insert(a, st, ins):  # balance is a matter of speed only
                left, x, p, h = cond(a[0]), a[1], a[2], a[3]
                if left.k not in "TN":
                    raise Inconclusive("a map whose shape depends on a value")
                put(st, x, PAR, p), put(st, x, LEFT, NULL), put(st, x, RIGHT, NULL)
                I.store(st, Ptr(x.r, x.o), "i32", ONE)
                if left.k == "T":
                    put(st, p, LEFT, x)
                    if p == h:
                        put(st, h, PAR, x), put(st, h, RIGHT, x)
                    elif p == ld(st, h, LEFT):
                        put(st, h, LEFT, x)
                else:
                    put(st, p, RIGHT, x)
                    if p == ld(st, h, RIGHT):
                        put(st, h, RIGHT, x)
            return insert
        if "increment" in dem or "decrement" in dem:
            A, B = (RIGHT, LEFT) if "increment" in dem else (LEFT, RIGHT)
            def walk(a, st, ins):
                x = a[0]
                if A == LEFT and num(I.load(st, x, "i32")) is ZERO:  # one before the end
                    return ld(st, x, RIGHT)
                if ld(st, x, A).r:
                    x = ld(st, x, A)
                    while ld(st, x, B).r:
                        x = ld(st, x, B)
                    return x
                y = ld(st, x, PAR)
                while x == ld(st, y, A):
                    x, y = y, ld(st, y, PAR)
                return y if ld(st, x, A) != y else x
            return walk
    if name in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t"):
        def new(a, st, ins):
            rid = I.new(st, "heap@%s" % (I.fr.loc or "?"), const_int(a[0]), "heap")
            return Ptr(rid, 0)
        return new
    if name in ("calloc",):
        def cal(a, st, ins):
            n = const_int(a[0]) * const_int(a[1])
            rid = I.new(st, "heap", n, "heap", ("zero",))
            return Ptr(rid, 0)
        return cal
    if name.startswith(("_ZdlPv", "_ZdaPv")) or name == "free":
        def dele(a, st, ins):
            p = a[0]
            if isinstance(p, Ptr) and p.r in st.regs and p.r != 0:
                st.regs.pop(p.r, None)
        return dele
    if name == "__cxa_allocate_exception":
        return lambda a, st, ins: Ptr(I.new(st, "exception", const_int(a[0]), "heap"), 0)
    if name in ("__cxa_free_exception", "__cxa_end_catch", "__cxa_atexit", "__cxa_guard_abort"):
        return lambda a, st, ins: ZERO
    if name in ("__cxa_throw", "__cxa_rethrow", "_Unwind_Resume", "__cxa_throw_bad_array_new_length"):
        def thr(a, st, ins):
            I.event(st, ("throw", name))
            return exc(st)
        return thr
    if name in ("__cxa_begin_catch", "__cxa_get_exception_ptr"):
        return lambda a, st, ins: a[0]
    if name == "__cxa_guard_acquire":
        def acq(a, st, ins):
            v = I.load(st, a[0], "i8")
            if isinstance(v, Node) and v.k == "C" and v.a != 0:
                return ZERO
            I.in_init += 1
            return ONE
        return acq
    if name == "__cxa_guard_release":
        def rel(a, st, ins):
            I.in_init -= 1
            save, I.in_init = I.in_init, 1
            I.store(st, a[0], "i8", ONE)
            I.in_init = save
        return rel
    if name in ("abort", "exit", "_exit", "__assert_fail", "_ZSt9terminatev", "__clang_call_terminate",
                "__cxa_pure_virtual", "__cxa_call_unexpected", "__stack_chk_fail") or dem.startswith("std::__glibcxx_assert_fail"):
        return aborter(I, name)
    if dem.startswith("std::__throw_") or dem.startswith("void std::__throw_"):
        def thr2(a, st, ins):
            I.event(st, ("throw", dem))
            return exc(st)
        return thr2
    if name == "strlen":
        return lambda a, st, ins: E.const(len(cstr(I, st, a[0])))
    if name in ("memcpy", "memmove"):
        def mc(a, st, ins):
            I.copy(st, a[0], a[1], const_int(a[2]))
            return a[0]
        return mc
    if name == "memset":
        def ms(a, st, ins):
            I.fill(st, a[0], const_int(a[1]), const_int(a[2]))
            return a[0]
        return ms
    if name in ("sincos", "sincosf"):
        t = "f64" if name == "sincos" else "f32"
        def sc(a, st, ins):
            I.store(st, a[1], t, E.fn("sin", num(a[0])))
            I.store(st, a[2], t, E.fn("cos", num(a[0])))
        return sc
    if name in ("time", "clock", "rand", "random", "drand48", "lrand48", "getenv", "gettimeofday", "clock_gettime",
                "getrandom", "getentropy", "getpid", "gettid", "pthread_self", "rand_r", "srand", "srandom", "arc4random"):
        return nondet(I, name)
    if name.startswith("pthread_") or name.startswith("__pthread"):
        return lambda a, st, ins: ZERO
    return None


ENG = r"std::(?:linear_congruential_engine|mersenne_twister_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|philox_engine)<"


def cxxlib(I, name, dem, F):
    d = dem
    if "std::random_device" in d and re.search(r"std::random_device::", d):
        return nondet(I, "std::random_device")
    if re.search(r"std::chrono::(_V2::)?(system_clock|steady_clock|high_resolution_clock)::now\(", d):
        return nondet(I, "std::chrono clock")
    m = re.search(r"std::normal_distribution<(\w+)>::operator\(\)<.*>\(", d)
    if m:
        t, w = ("f32", 4) if m.group(1) == "float" else ("f64", 8)
        def draw(a, st, ins):
            this, eng = a[0], a[1]
            par = a[2] if len(a) > 2 else this
            mean = num(I.load(st, par, t))
            sd = num(I.load(st, I.padd(par, w), t))
            S = num(I.load(st, eng, "i64"))
            have = I.load(st, I.padd(this, 3 * w), "i8")
            Dd = num(I.load(st, I.padd(this, 2 * w), t))
            # a fresh or reset distribution carries no saved deviate
            hv = num(have)
            Dd = E.ite(E.lit(hv, NEG | POS), Dd, ZERO) if hv.k != "C" else (Dd if hv.a != 0 else ZERO)
            I.store(st, eng, "i64", E.fn("rng-next", S, Dd, hv))
            I.store(st, I.padd(this, 2 * w), t, E.fn("rng-saved", S, Dd, hv))
            I.store(st, I.padd(this, 3 * w), "i8", E.sub(ONE, hv) if hv.k == "C" else E.fn("rng-have", S, Dd, hv))
            return I.tag(E.add(mean, E.mul(sd, E.fn("gauss", S, Dd, hv))))
        return draw
    if re.search(r"std::generate_canonical<", d):
        def canon(a, st, ins):
            S = num(I.load(st, a[0], "i64"))
            I.store(st, a[0], "i64", E.fn("rng-next", S))
            return E.fn("uniform", S)
        return canon
    if re.search(ENG + r".*>::seed\(", d):
        def seed(a, st, ins):
            v = num(a[1]) if len(a) > 1 else ONE
            I.store(st, a[0], "i64", E.fn("seed", v) if v.k != "C" else E.const(1000 + v.a))
        return seed
    if re.search(ENG + r".*>::operator\(\)\(", d):
        def nxt(a, st, ins):
            S = num(I.load(st, a[0], "i64"))
            I.store(st, a[0], "i64", E.fn("rng-next", S))
            return E.fn("rng", S)
        return nxt
    if re.search(ENG + r".*>::discard\(", d):
        def disc(a, st, ins):
            S = num(I.load(st, a[0], "i64"))
            I.store(st, a[0], "i64", E.fn("rng-discard", S, num(a[1])))
        return disc
    # ---- text gathered in a string stream
    m = re.search(r"std::(?:__cxx11::)?(?:basic_)?o?stringstream(?:<[^(]*>)?::(~?\w+)\(([^)]*)\)", d)
    if m and (F is None or F.decl or "/c++/" in (F.file or "")):
        what, par = m.group(1), m.group(2)
        def sstr(a, st, ins):
            if what == "str" and not par:
                out, this = a[0], a[1]
                r = I.new(st, "text", 64, "heap")
                I.texts[r] = (this.r, len(st.ev))
                I.store(st, out, "p", Ptr(r, 0))
                I.store(st, Ptr(out.r, out.o + 8), "i64", E.atom("textlen!%d" % r))
                return None
            if what.startswith(("basic_", "ostringstream", "stringstream")):
                if "basic_string<" in par or "allocator" in par:
                    raise Inconclusive("a string stream with initial text")
                I.gather.add(a[0].r)
                I.event(st, ("gather", a[0].r))
            elif what == "str":
                raise Inconclusive("a string stream given new text")
            return a[0] if ins[3] == "p" else (None if ins[3] == "v" else ZERO)
        return sstr
    # ---- output streams
    if re.search(r"std::(basic_)?ostream|std::endl|std::flush|std::__ostream_", d) and \
            ("operator<<" in d or "_M_insert" in d or "__ostream_insert" in d or re.search(r"::(put|write|flush)\(", d)
             or re.search(r"std::(endl|flush)", d)) and \
            (F is None or F.decl or "/c++/" in (F.file or "")):
        return outf(I, d, F)
    m = re.search(r"std::(?:basic_ios<char, std::char_traits<char> ?>|ios_base|ios)::(precision|width|fill|flags|setf|unsetf|"
                  r"copyfmt|setstate|clear|imbue)\((.*?)\)", d)
    if m:
        def fmt(a, st, ins):
            if m.group(2):  # how later numbers are written changes
                I.event(st, ("out", "str", "<%s %s>" % (m.group(1), ",".join(E.show(x, 3) if isinstance(x, Node) else "?" for x in a[1:])),
                             a[0].r if isinstance(a[0], Ptr) else None))
            return a[0] if ins[3] == "p" else (None if ins[3] == "v" else E.atom("stream " + m.group(1)))
        return fmt
    if re.search(r"std::(basic_)?ios(_base)?(<[^>]*>)?::|std::ctype<|std::locale|std::__basic_file|std::basic_ios<", d) \
            or d.startswith(("std::ios_base", "std::basic_ios", "std::locale", "std::ctype")):
        if F is None or F.decl:
            return lambda a, st, ins: (a[0] if ins[3] == "p" else (None if ins[3] == "v" else ZERO))
    if F is None or F.decl:
        if re.match(r"std::(invalid_argument|runtime_error|logic_error|out_of_range|length_error|domain_error|range_error|exception|bad_alloc|overflow_error|bad_function_call)::", d):
            return lambda a, st, ins: (a[0] if ins[3] == "p" else None)
        if "basic_string" in d or "basic_stringbuf" in d or "stringstream" in d:
            return lambda a, st, ins: (a[0] if ins[3] == "p" else (None if ins[3] == "v" else ZERO))
    return None


def text(I, st, p):
    """What was written into the string stream this text was taken from."""
    src, n = I.texts[p.r]
    out = []
    for g, e, l in st.ev[:n]:
        if e == ("gather", src):
            out = []
        elif e[0] == "out" and e[3] == src:
            out.append((g, e, l))
    return out


def outf(I, d, F):
    def h(a, st, ins):
        s = a[0]
        I.stream = s.r if isinstance(s, Ptr) else None
        if re.search(r"std::endl", d):
            I.event(st, ("out", "str", "\n", I.stream))
        elif re.search(r"std::flush|::flush\(", d):
            pass
        elif ("__ostream_insert" in d or "::write(" in d) and getattr(a[1], "r", None) in I.texts:
            for g, e, l in text(I, st, a[1]):
                st.ev = st.ev + ((g, e[:3] + (I.stream,), l),)
        elif "__ostream_insert" in d or "::write(" in d:
            n = const_int(a[2])
            I.event(st, ("out", "str", cstr(I, st, a[1])[:n], I.stream))
        elif len(a) > 1:
            v = a[1]
            if isinstance(v, Fn):
                f = I.funcs.get(v.n)
                nm = (f.dem if f else v.n) or v.n
                if "endl" in nm:
                    I.event(st, ("out", "str", "\n", I.stream))
                elif "flush" not in nm:
                    I.event(st, ("out", "str", "<%s>" % nm.split("(")[0], I.stream))
            elif isinstance(v, Ptr) and "basic_string<" in d.split("(", 1)[-1] and \
                    getattr(I.load(st, v, "p"), "r", None) in I.texts:
                for g, e, l in text(I, st, I.load(st, v, "p")):
                    st.ev = st.ev + ((g, e[:3] + (I.stream,), l),)
            elif isinstance(v, Ptr) and "basic_string<" in d.split("(", 1)[-1]:
                I.event(st, ("out", "str", cstr(I, st, I.load(st, v, "p")), I.stream))
            elif isinstance(v, Ptr):
                I.event(st, ("out", "str", cstr(I, st, v), I.stream))
            elif isinstance(v, Node):
                v = num(v)
                if re.search(r"(, |\()char\)$", d) or "::put(" in d:
                    I.event(st, ("out", "str", chr(int(v.a) & 255) if v.k == "C" else "?", I.stream))
                elif "_Set" in d:
                    I.event(st, ("out", "str", "<fmt %s>" % E.show(v), I.stream))
                elif v.k == "C" and re.search(r"\((unsigned )?(int|long|short)\)$", d):
                    I.event(st, ("out", "str", str(int(v.a)), I.stream))
                else:
                    I.event(st, ("out", "num", v, I.stream))
        return s
    return h
