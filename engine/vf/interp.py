"""Interprocedural gated value numbering over LLVM IR.

A forward dataflow pass: every memory cell and SSA value of the analysed entry is mapped to a
term of expr.py over the entry's inputs.  At a conditional branch both arms are analysed from
the same incoming state and joined at the immediate post-dominator with a gate, so the result
is one abstract state per program point, not a set of paths.  Calls are analysed in the
caller's context.  Nothing of the analysed program is executed.
"""
import re

from . import expr as E
from . import decide as D
from .expr import ALL, FALSE, NEG, ONE, POS, TRUE, ZER, ZERO, Node


class Inconclusive(Exception):
    pass


class Restart(Exception):
    pass


CONDK = frozenset("LTN&|")


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o):
        self.r, self.o = r, o

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.r == self.r and x.o == self.o

    def __hash__(self):
        return hash((self.r, self.o))

    def __repr__(self):
        return "&r%s+%s" % (self.r, self.o)


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, x):
        return isinstance(x, PtrIte) and x.c is self.c and x.a == self.a and x.b == self.b

    def __hash__(self):
        return hash((self.c.id, self.a, self.b))


class Fn:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, x):
        return isinstance(x, Fn) and x.n == self.n

    def __hash__(self):
        return hash(self.n)


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


NULL = Ptr(0, 0)


def num(v):
    if isinstance(v, Node):
        return E.ite(v, ONE, ZERO) if v.k in CONDK else v
    return v


def cond(v):
    if isinstance(v, Node):
        if v.k in CONDK:
            return v
        return E.lit(v, NEG | POS)
    if isinstance(v, Ptr):
        return FALSE if v.r == 0 and v.o == 0 else TRUE
    raise Inconclusive("condition on a non-scalar value")


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Node) or isinstance(b, Node):
        return False
    if isinstance(a, Agg):
        return isinstance(b, Agg) and len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    return a == b


def mergeval(c, a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, Node) and isinstance(b, Node):
        if a.k in CONDK or b.k in CONDK:
            a, b = cond(a), cond(b)
            return E.or_(E.and_(c, a), E.and_(E.not_(c), b))
        return E.ite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return Agg([mergeval(c, x, y) for x, y in zip(a.v, b.v)])
    if same(a, b):
        return a
    if isinstance(a, Node) and a.k == "C" and a.a == 0:
        a = NULL
    if isinstance(b, Node) and b.k == "C" and b.a == 0:
        b = NULL
    if isinstance(a, Node):     # undefined on one side
        return b if a.k == "A" and a.a.startswith("undef!") else PtrIte(c, a, b)
    if isinstance(b, Node):
        return a if b.k == "A" and b.a.startswith("undef!") else PtrIte(c, a, b)
    return PtrIte(c, a, b)


class Region:
    __slots__ = ("name", "size", "cells", "back", "kind", "tok")

    def __init__(self, name, size, back, kind):
        self.name, self.size, self.back, self.kind = name, size, back, kind
        self.cells = {}
        self.tok = None

    def clone(self):
        r = Region(self.name, self.size, self.back, self.kind)
        r.cells = dict(self.cells)
        return r


class State:
    __slots__ = ("regs", "pc", "facts", "ev", "tok")

    def __init__(self):
        self.regs = {}
        self.pc = ()
        self.facts = {}
        self.ev = ()
        self.tok = object()

    def fork(self):
        s = State()
        s.regs = dict(self.regs)
        s.pc = self.pc
        s.facts = self.facts
        s.ev = self.ev
        self.tok = object()
        return s

    def w(self, rid):
        r = self.regs[rid]
        if r.tok is not self.tok:
            r = r.clone()
            r.tok = self.tok
            self.regs[rid] = r
        return r

    def assume(self, c):
        if c.k == "T":
            return
        self.pc = self.pc + (c,)
        parts = c.a if c.k == "&" else (c,)
        f = None
        for p in parts:
            if p.k == "L" and not p.a[0].ites:
                if f is None:
                    f = dict(self.facts)
                d, m = p.a
                old = f.get(d.id)
                f[d.id] = (d, m & old[1] if old else m)
        if f is not None:
            self.facts = f


SIZES = {"f32": 4, "f64": 8, "f80": 16, "p": 8}


def tsize(t):
    if isinstance(t, list):
        return t[1]
    s = SIZES.get(t)
    if s is None:
        s = (int(t[1:]) + 7) // 8
        SIZES[t] = s
    return s


def wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


class Func:
    __slots__ = ("name", "dem", "decl", "file", "line", "ret", "args", "nvals", "blocks", "ipd", "repo", "nphi")


class Frame:
    __slots__ = ("fn", "loc", "up", "allocs", "depth")


def postdoms(blocks):
    """Immediate post-dominators; blocks that cannot reach a return are left out."""
    n = len(blocks)
    succ = [[] for _ in range(n)]
    exits = []
    for i, b in enumerate(blocks):
        t = b[-1]
        op = t[0]
        if op == "br":
            succ[i] = [t[4]] if t[3] is None else [t[4], t[5]]
        elif op == "switch":
            succ[i] = [t[4]] + [c[1] for c in t[5:]]
        elif op == "invoke":
            succ[i] = [t[6], t[7]]
        elif op == "ret":
            exits.append(i)
    pred = [[] for _ in range(n)]
    for i in range(n):
        for s in succ[i]:
            pred[s].append(i)
    reach = set(exits)
    st = list(exits)
    while st:
        x = st.pop()
        for p in pred[x]:
            if p not in reach:
                reach.add(p)
                st.append(p)
    # iterative algorithm on the reverse graph with virtual exit n
    order, seen = [], set()
    def dfs(x):
        stack = [(x, iter(pred[x] if x < n else exits))]
        seen.add(x)
        while stack:
            y, it = stack[-1]
            for z in it:
                if z not in seen and z in reach:
                    seen.add(z)
                    stack.append((z, iter(pred[z])))
                    break
            else:
                order.append(y)
                stack.pop()
    dfs(n)
    num_ = {x: i for i, x in enumerate(order)}
    ipd = {n: n}
    ch = True
    while ch:
        ch = False
        for x in reversed(order):
            if x == n:
                continue
            ss = [s for s in succ[x] if s in reach]
            if x in exits:
                ss = ss + [n]
            new = None
            for s in ss:
                if s in ipd:
                    if new is None:
                        new = s
                    else:
                        a, b = new, s
                        while a != b:
                            while num_[a] < num_[b]:
                                a = ipd[a]
                            while num_[b] < num_[a]:
                                b = ipd[b]
                        new = a
            if new is not None and ipd.get(x) != new:
                ipd[x] = new
                ch = True
    return [ipd[i] if i in ipd and ipd[i] != n else None for i in range(n)]


class Interp:
    def __init__(self, ir, repo="/repo", limit=30_000_000):
        self.ir = ir
        self.repo = repo
        self.funcs = {}
        for tab in ("functions", "functions2"):
            for name, f in ir.get(tab, {}).items():
                if name in self.funcs:
                    continue
                F = Func()
                F.name = name
                F.dem = f["dem"]
                F.decl = f["decl"]
                F.file = f.get("file") or ""
                F.line = f.get("line") or 0
                F.ret = f.get("ret")
                F.args = f.get("args") or []
                F.nvals = f.get("nvals") or 0
                F.blocks = f.get("blocks") or []
                F.ipd = None
                F.repo = F.file.startswith(repo + "/")
                self.funcs[name] = F
        self.globals = ir["globals"]
        self.locs = ir["locs"]
        self.ints = ir.get("ints", {})
        self.handlers = {}
        self.limit = limit
        self.ops = {
            "alloca": self.i_alloca, "load": self.i_load, "store": self.i_store,
            "getelementptr": self.i_gep, "icmp": self.i_icmp, "fcmp": self.i_fcmp,
            "select": self.i_select, "extractvalue": self.i_extract, "insertvalue": self.i_insert,
            "landingpad": self.i_landing, "freeze": self.i_copy1, "fneg": self.i_fneg,
            "fence": self.i_nop, "atomicrmw": self.i_bad, "cmpxchg": self.i_bad, "va_arg": self.i_bad,
            "extractelement": self.i_extractel, "insertelement": self.i_insertel,
        }
        for o in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            self.ops[o] = self.i_fbin
        for o in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            self.ops[o] = self.i_ibin
        for o in ("trunc", "zext", "sext", "fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui",
                  "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            self.ops[o] = self.i_cast
        self.mut_globals = set()     # globals to be treated as arbitrary (written during analysis)
        self.in_init = 0
        self._scan_global_stores()

    # ------------------------------------------------------------ set-up
    def _scan_global_stores(self):
        """Mutable globals of /repo written anywhere in the module outside their initialiser are
        shared state: their contents are arbitrary on entry."""
        self.direct_stores = set()
        for f in self.funcs.values():
            if f.decl or not f.repo:
                continue
            for b in f.blocks:
                guarded = False
                for ins in b:
                    if ins[0] == "store":
                        p = ins[5]
                        while p[0] == "cgep":
                            p = p[1]
                        if p[0] == "g":
                            self.direct_stores.add((p[1], f.name))

    def reset(self):
        self.st_next = 10
        self.greg = {}
        self.obl = []
        self.notes = []
        self.nodeloc = {}
        self.visited = {}
        self.callsites = set()
        self.count = 0
        self.undefs = 0
        self.alloc_sites = {}
        self.static_writes = set()
        self.nondet = []
        self.outlists = {}
        self.gather = set()
        self.texts = {}
        self.rec = None

    def run_entry(self, name):
        for _ in range(6):
            self.reset()
            st = State()
            r = self.call_fn(self.funcs[name], [], st, None)
            if self.static_writes <= self.mut_globals:
                return r
            self.mut_globals |= self.static_writes
        raise Inconclusive("static storage does not stabilise")

    # ------------------------------------------------------------ memory
    def new(self, st, name, size, kind, back=None):
        rid = self.st_next
        self.st_next += 1
        r = Region(name, size, back or ("uninit", "%s#%d" % (name, rid)), kind)
        r.tok = st.tok
        st.regs[rid] = r
        return rid

    def backread(self, b, off, size, t):
        while True:
            k = b[0]
            if k == "over":
                if b[1] <= off < b[2]:
                    off += b[4]
                    b = b[3]
                else:
                    b = b[5]
                continue
            if k == "zero":
                return NULL if t == "p" else ZERO
            if k == "input":
                if t == "p":
                    return E.atom("ptr!%s+%d" % (b[1], off + b[2]))
                a = E.atom("%s+%d" % (b[1], off + b[2]) if size != 4 else "%s+%d:4" % (b[1], off + b[2]))
                if size == 1:
                    return E.ite(E.lit(a, NEG | POS), ONE, ZERO)
                if t[0] == "i":
                    E.whole.add(a.id)
                return a
            if k == "uninit":
                return E.atom("undef!%s+%d" % (b[1], off))
            if k == "merge":
                return mergeval(b[1], self.backread(b[2], off, size, t), self.backread(b[3], off, size, t))
            raise AssertionError(k)

    def load(self, st, p, t):
        if isinstance(t, list):
            return Agg([self.load(st, self.padd(p, e[0]), e[1]) for e in t[2:]])
        if isinstance(p, PtrIte):
            return mergeval(p.c, self.load(st, p.a, t), self.load(st, p.b, t))
        if not isinstance(p, Ptr):
            if isinstance(p, Node):
                if t[0] == "i" and E.show(p, 2).startswith(("ptr!extern:vf_stream", "ptr!extern:_ZSt4c")):
                    return ZERO  # where the virtual base of a stream lies
                return E.atom("undef!deref(%s)" % E.show(p, 2))
            raise Inconclusive("load through a function pointer")
        r = st.regs.get(p.r)
        size = tsize(t)
        if r is None:
            if p.r == 0:
                return E.atom("undef!null+%d" % p.o)
            return E.atom("undef!dangling#%d+%d" % (p.r, p.o))
        c = r.cells.get(p.o)
        if c is not None:
            if c[0] == size:
                return self.conv(c[1], t)
            if c[0] > size and isinstance(c[1], Node) and c[1].k == "C" and t[0] == "i":
                return E.const(wrap(int(c[1].a), 8 * size))
            if c[0] > size and isinstance(c[1], Node):
                return E.fn("part%d" % size, c[1])
            if isinstance(c[1], Node):
                # a wider read over several cells
                parts = []
                o = p.o
                while o < p.o + size:
                    cc = r.cells.get(o)
                    if cc is None or not isinstance(cc[1], Node):
                        v = self.backread(r.back, o, 4, "i32")
                        cc = (4, v)
                    parts.append(num(cc[1]))
                    o += cc[0]
                if all(x.k == "C" and x.a == 0 for x in parts):
                    return NULL if t == "p" else ZERO
                return E.fn("join", *parts)
        if p.o < 0 or (r.size is not None and p.o + size > r.size):
            return E.atom("undef!out-of-bounds(%s)+%d" % (r.name, p.o))
        v = self.backread(r.back, p.o, size, t)
        return v

    def conv(self, v, t):
        if t == "p":
            if isinstance(v, Node) and v.k == "C" and v.a == 0:
                return NULL
            return v
        if t == "i1":
            return cond(v)
        return v

    def store(self, st, p, t, v):
        if isinstance(t, list):
            if isinstance(v, Agg):
                for e, x in zip(t[2:], v.v):
                    self.store(st, self.padd(p, e[0]), e[1], x)
                return
        if isinstance(p, PtrIte):
            for c, q, o in ((p.c, p.a, 0), (E.not_(p.c), p.b, 1)):
                old = self.load(st, q, t)
                self.store(st, q, t, mergeval(c, v, old))
            return
        if not isinstance(p, Ptr):
            raise Inconclusive("store through an unknown pointer %r" % (p,))
        if p.r not in st.regs:
            self.event(st, ("badstore", "null" if p.r == 0 else "dangling"))
            return
        r = st.w(p.r)
        size = tsize(t)
        if r.kind == "global":
            self.note_static(r)
        if isinstance(v, Node) and v.k in CONDK:
            v = num(v)
        self.clear(r, p.o, p.o + size, exact=size)
        if r.size is not None and (p.o < 0 or p.o + size > r.size):
            self.event(st, ("badstore", "out-of-bounds %s" % r.name))
            return
        r.cells[p.o] = (size, v)
        if isinstance(v, Node) and v.k != "C" and self.fr.loc:
            self.nodeloc[v.id] = self.fr.loc

    def clear(self, r, lo, hi, exact=0):
        c = r.cells.get(lo)
        if exact and c is not None and c[0] == exact:
            return
        cells = r.cells
        if hi - lo <= 64:
            for o in range(max(lo - 15, 0) if lo >= 0 else lo - 15, hi):
                c = cells.get(o)
                if c is not None and o + c[0] > lo and o < hi:
                    del cells[o]
        else:
            for o in [o for o, c in cells.items() if o + c[0] > lo and o < hi]:
                del cells[o]

    def note_static(self, r):
        if not self.in_init:
            self.static_writes.add(r.name)

    def padd(self, p, off):
        if off == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.r, p.o + off)
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.padd(p.a, off), self.padd(p.b, off))
        if isinstance(p, Node):
            return p
        raise Inconclusive("pointer arithmetic on %r" % (p,))

    def copy(self, st, dst, src, n):
        if n == 0:
            return
        if isinstance(dst, PtrIte):
            c = self.decide(dst.c, st)
            if c.k in "TN":
                return self.copy(st, dst.a if c.k == "T" else dst.b, src, n)
            x, y = st.fork(), st.fork()
            self.copy(x, dst.a, src, n)
            self.copy(y, dst.b, src, n)
            m = self.mergestate(c, x, y)
            st.regs, st.tok = m.regs, m.tok
            return
        if isinstance(src, PtrIte):
            # gate the copied contents
            a, b = self.snapshot(st, src.a, n), self.snapshot(st, src.b, n)
            offs = sorted(set(a[0]) | set(b[0]))
            r = st.w(dst.r)
            self.clear(r, dst.o, dst.o + n)
            for o in offs:
                x, y = a[0].get(o), b[0].get(o)
                s = (x or y)[0]
                t = "p" if not isinstance((x or y)[1], Node) else "i%d" % (8 * s)
                vx = x[1] if x else self.load(st, self.padd(src.a, o), t)
                vy = y[1] if y else self.load(st, self.padd(src.b, o), t)
                r.cells[dst.o + o] = (s, mergeval(src.c, vx, vy))
            ba = ("over", dst.o, dst.o + n, a[1], src.a.o - dst.o if isinstance(src.a, Ptr) else 0, r.back)
            bb = ("over", dst.o, dst.o + n, b[1], src.b.o - dst.o if isinstance(src.b, Ptr) else 0, r.back)
            r.back = ("merge", src.c, ba, bb)
            return
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
            raise Inconclusive("copy through an unknown pointer")
        if dst.r not in st.regs:
            self.event(st, ("badstore", "copy to dead object"))
            return
        cells, back = self.snapshot(st, src, n)
        r = st.w(dst.r)
        if r.kind == "global":
            self.note_static(r)
        if dst == src:
            return
        self.clear(r, dst.o, dst.o + n)
        tot = 0
        for o, c in cells.items():
            r.cells[dst.o + o] = c
            tot += c[0]
        if tot < n:
            if dst.o == 0 and r.size == n and src.o == 0:
                r.back = back
            else:
                r.back = ("over", dst.o, dst.o + n, back, src.o - dst.o, r.back)

    def snapshot(self, st, src, n):
        if not isinstance(src, Ptr) or src.r not in st.regs:
            return {}, ("uninit", "dangling")
        sr = st.regs[src.r]
        cells = {}
        lo, hi = src.o, src.o + n
        for o, c in sr.cells.items():
            if o >= lo and o + c[0] <= hi:
                cells[o - lo] = c
            elif o < hi and o + c[0] > lo:
                raise Inconclusive("copy splits a scalar of %s" % sr.name)
        return cells, sr.back

    def fill(self, st, p, byte, n):
        if isinstance(p, PtrIte):
            raise Inconclusive("memset of a gated pointer")
        if n == 0 or p.r not in st.regs:
            return
        r = st.w(p.r)
        if r.kind == "global":
            self.note_static(r)
        self.clear(r, p.o, p.o + n)
        if byte == 0:
            r.back = ("zero",) if p.o == 0 and r.size == n else ("over", p.o, p.o + n, ("zero",), 0, r.back)
        else:
            for i in range(n):
                r.cells[p.o + i] = (1, E.const(wrap(byte, 8)))

    def mergestate(self, c, A, B):
        S = State()
        S.pc, S.facts = A.pc, A.facts
        ra, rb = A.regs, B.regs
        for rid, x in ra.items():
            y = rb.get(rid)
            if y is None or y is x:
                S.regs[rid] = x
                continue
            r = Region(x.name, x.size, x.back, x.kind)
            r.tok = S.tok
            cx, cy = x.cells, y.cells
            for o, a in cx.items():
                b = cy.get(o)
                if b is a:
                    r.cells[o] = a
                elif b is not None and b[0] == a[0]:
                    r.cells[o] = (a[0], self.mtag(mergeval(c, a[1], b[1]), a[1], b[1]))
                else:
                    t = "p" if not isinstance(a[1], Node) else "i%d" % (8 * a[0])
                    v = self.load(B, Ptr(rid, o), t)
                    r.cells[o] = (a[0], self.mtag(mergeval(c, a[1], v), a[1], v))
            for o, b in cy.items():
                if o not in cx:
                    t = "p" if not isinstance(b[1], Node) else "i%d" % (8 * b[0])
                    v = self.load(A, Ptr(rid, o), t)
                    r.cells[o] = (b[0], self.mtag(mergeval(c, v, b[1]), v, b[1]))
            if x.back is not y.back and x.back != y.back:
                r.back = ("merge", c, x.back, y.back)
            S.regs[rid] = r
        for rid, y in rb.items():
            if rid not in ra:
                S.regs[rid] = y
        # events
        n = 0
        ea, eb = A.ev, B.ev
        if ea is eb:
            S.ev = ea
        else:
            while n < len(ea) and n < len(eb) and ea[n] is eb[n]:
                n += 1
            nc = E.not_(c)
            S.ev = ea[:n] + tuple((E.and_(c, g), e, l) for g, e, l in ea[n:]) + \
                tuple((E.and_(nc, g), e, l) for g, e, l in eb[n:])
        A.tok = object()
        B.tok = object()
        return S

    def mtag(self, v, a, b):
        if isinstance(v, Node) and v.id not in self.nodeloc:
            nl = self.nodeloc
            l = None
            for x in (a, b):
                if isinstance(x, Node):
                    l = nl.get(x.id) or l
            if l:
                nl[v.id] = l
        return v

    def event(self, st, e):
        st.ev = st.ev + ((TRUE, e, self.fr.loc),)

    # ------------------------------------------------------------ globals
    def gptr(self, st, name):
        rid = self.greg.get(name)
        if rid is None:
            g = self.globals.get(name)
            rid = self.st_next
            self.st_next += 1
            self.greg[name] = rid
        if rid not in st.regs:
            g = self.globals.get(name) or {}
            size = g.get("size")
            const = g.get("const")
            guard = name.startswith("_ZGV")
            repoish = not const and not guard
            if name in self.mut_globals or (guard and name[4:] in {m[2:] for m in self.mut_globals}):
                if guard:
                    back = ("input1",)
                    r = Region(name, size, ("zero",), "const")
                    r.cells[0] = (1, ONE)
                else:
                    r = Region(name, size, ("input", "static:" + name, 0), "global")
            elif "init" in g and g["init"] is not None:
                r = Region(name, size, ("zero",), "const" if (const or guard) else "global")
                self.ginit(st, r, 0, g["init"], g.get("ty"))
            else:
                r = Region(name, None, ("input", "extern:" + name, 0), "const")
            r.tok = None
            st.regs[rid] = r
        return Ptr(rid, 0)

    def ginit(self, st, r, off, v, t):
        k = v[0]
        if k == "zero" or k == "undef":
            return
        if k == "str":
            for i, ch in enumerate(v[1]):
                r.cells[off + i] = (1, E.const(wrap(ord(ch), 8)))
            return
        if k == "agg":
            for e, x in zip(v[1][2:], v[2:]):
                self.ginit(st, r, off + e[0], x, e[1])
            return
        r.cells[off] = (tsize(t) if t and not isinstance(t, list) else 8, self.val(v, None, st))

    # ------------------------------------------------------------ operands
    def val(self, v, env, st):
        k = v[0]
        if k == "v":
            return env[v[1]]
        if k == "i":
            return E.const(v[1])
        if k == "f":
            s = v[1]
            if s in ("nan", "inf", "-inf"):
                return E.atom("fp!" + s) if s != "-inf" else E.neg(E.atom("fp!inf"))
            return E.const(float.fromhex(s))
        if k == "null":
            return NULL
        if k == "g":
            return self.gptr(st, v[1])
        if k == "fn":
            return Fn(v[1])
        if k == "cgep":
            return self.padd(self.val(v[1], env, st), v[2])
        if k == "undef":
            return self.undef(v[1])
        if k == "zero":
            t = v[1]
            return self.zero(t)
        if k == "agg":
            return Agg([self.val(x, env, st) for x in v[2:]])
        if k == "md":
            return None
        if k == "ce":
            if v[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.val(v[2], env, st)
            if v[1] == "sub":
                a, b = self.val(v[2], env, st), self.val(v[3], env, st)
                return self.intbin("sub", a, b, 64)
        if k == "str":
            return Agg([E.const(wrap(ord(ch), 8)) for ch in v[1]])
        raise Inconclusive("operand %r" % (v[:2],))

    def zero(self, t):
        if isinstance(t, list):
            return Agg([self.zero(e[1]) for e in t[2:]])
        return NULL if t == "p" else ZERO

    def undef(self, t):
        if isinstance(t, list):
            return Agg([self.undef(e[1]) for e in t[2:]])
        self.undefs += 1
        return E.atom("undef!poison%d" % self.undefs)

    # ------------------------------------------------------------ instructions
    def i_nop(self, ins, env, st):
        return None

    def i_bad(self, ins, env, st):
        raise Inconclusive("instruction %s" % ins[0])

    def i_alloca(self, ins, env, st):
        n = self.val(ins[4], env, st)
        rid = self.new(st, "local", ins[3] * int(n.a), "stack")
        self.fr.allocs.append(rid)
        return Ptr(rid, 0)

    def i_load(self, ins, env, st):
        return self.load(st, self.val(ins[4], env, st), ins[3])

    def i_store(self, ins, env, st):
        self.store(st, self.val(ins[5], env, st), ins[3], self.val(ins[4], env, st))

    def i_gep(self, ins, env, st):
        p = self.val(ins[3], env, st)
        off = ins[4]
        for idx, sc in ins[5]:
            i = self.val(idx, env, st)
            if isinstance(i, Node):
                i = num(i)
                if i.k == "C":
                    off += int(i.a) * sc
                    continue
                if E.constleaf(i):
                    return self.gepite(p, off, i, sc, ins, env, st)
                if sc == 0:
                    continue
                return self.symgep(st, p, off, i, sc)
            raise Inconclusive("pointer index is not an integer")
        return self.padd(p, off)

    def gepite(self, p, off, i, sc, ins, env, st):
        if len(ins[5]) != 1:
            raise Inconclusive("several gated indices")
        def rec(n):
            if n.k == "I":
                a, b = rec(n.a[1]), rec(n.a[2])
                return a if same(a, b) else PtrIte(n.a[0], a, b)
            return self.padd(p, off + int(n.a) * sc)
        return rec(i)

    def symgep(self, st, p, off, i, sc):
        raise Inconclusive("symbolic index %s at %s" % (E.show(i, 3), self.where()))

    def i_copy1(self, ins, env, st):
        return self.val(ins[4], env, st)

    def i_fneg(self, ins, env, st):
        return self.tag(E.neg(num(self.val(ins[4], env, st))))

    def tag(self, n):
        if n.id not in self.nodeloc and self.fr.loc:
            self.nodeloc[n.id] = self.fr.loc
        return n

    def i_fbin(self, ins, env, st):
        a, b = self.val(ins[4], env, st), self.val(ins[5], env, st)
        if isinstance(a, Agg):
            return Agg([self.fbin(ins[0], x, y) for x, y in zip(a.v, b.v)])
        return self.tag(self.fbin(ins[0], a, b))

    def fbin(self, op, a, b):
        a, b = num(a), num(b)
        if op == "fadd":
            return E.add(a, b)
        if op == "fsub":
            return E.sub(a, b)
        if op == "fmul":
            return E.mul(a, b)
        if op == "fdiv":
            return E.div(a, b)
        return E.fn("fmod", a, b)

    def i_ibin(self, ins, env, st):
        a, b = self.val(ins[4], env, st), self.val(ins[5], env, st)
        t = ins[3]
        op = ins[0]
        if isinstance(t, list):
            return Agg([self.intbin(op, x, y, 64) for x, y in zip(a.v, b.v)])
        if t == "i1":
            a, b = cond(a), cond(b)
            if op == "and" or op == "mul":
                return E.and_(a, b)
            if op == "or":
                return E.or_(a, b)
            if op in ("xor", "add", "sub"):
                if a.k == "T":
                    return E.not_(b)
                if b.k == "T":
                    return E.not_(a)
                if a is b:
                    return FALSE
                return E.or_(E.and_(a, E.not_(b)), E.and_(E.not_(a), b))
            raise Inconclusive("i1 %s" % op)
        return self.intbin(op, a, b, int(t[1:]))

    def intbin(self, op, a, b, w):
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            return self.ptrint(op, a, b)
        if isinstance(a, Fn) and op == "and" and isinstance(b, Node) and b.k == "C" and b.a == 1:
            return ZERO  # a pointer to member function: functions are aligned, the low bit says virtual
        a, b = num(a), num(b)
        if not isinstance(a, Node) or not isinstance(b, Node):
            raise Inconclusive("integer operation on a non-scalar")
        if a.k == "C" and b.k == "C":
            x, y = int(a.a), int(b.a)
            m = (1 << w) - 1
            if op == "add":
                r = x + y
            elif op == "sub":
                r = x - y
            elif op == "mul":
                r = x * y
            elif op == "and":
                r = x & y
            elif op == "or":
                r = x | y
            elif op == "xor":
                r = x ^ y
            elif op == "shl":
                r = x << (y & m)
            elif op == "lshr":
                r = (x & m) >> (y & m)
            elif op == "ashr":
                r = x >> (y & m)
            elif y == 0:
                return E.atom("undef!div0")
            elif op == "udiv":
                r = (x & m) // (y & m)
            elif op == "urem":
                r = (x & m) % (y & m)
            else:
                q = abs(x) // abs(y)
                q = q if (x >= 0) == (y >= 0) else -q
                r = q if op == "sdiv" else x - q * y
            return E.const(wrap(r, w))
        if op == "add":
            return E.add(a, b)
        if op == "sub":
            return E.sub(a, b)
        if op == "mul":
            return E.mul(a, b)
        if op == "shl" and b.k == "C":
            return E.mul(a, E.const(1 << int(b.a)))
        if b.k == "C" and E.constleaf(a):
            return E.mapleaf(a, lambda v: self.intbin(op, v, b, w))
        if a.k == "C" and E.constleaf(b):
            return E.mapleaf(b, lambda v: self.intbin(op, a, v, w))
        if E.constleaf(a) and E.constleaf(b):
            return E.mapleaf(a, lambda v: E.mapleaf(b, lambda u: self.intbin(op, v, u, w)))
        if op in ("urem", "srem") and b.k == "C" and b.a == 1:
            return ZERO
        if op in ("udiv", "sdiv") and b.k == "C" and b.a == 1:
            return a
        if op in ("and", "or") and a is b:
            return a
        if op == "xor" and a is b:
            return ZERO
        if op in ("or", "xor") and b.k == "C" and b.a == 0:
            return a
        return E.fn("i" + op, a, b)

    def ptrint(self, op, a, b):
        if isinstance(a, PtrIte):
            return mergeval(a.c, self.ptrint(op, a.a, b), self.ptrint(op, a.b, b))
        if isinstance(b, PtrIte):
            return mergeval(b.c, self.ptrint(op, a, b.a), self.ptrint(op, a, b.b))
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r:
                return E.const(a.o - b.o)
            return E.fn("ptrdiff", E.const(a.r), E.const(b.r))
        if op in ("add", "sub") and isinstance(a, Ptr) and isinstance(b, Node) and num(b).k == "C":
            k = int(num(b).a)
            return Ptr(a.r, a.o + (k if op == "add" else -k))
        if op == "add" and isinstance(b, Ptr) and isinstance(a, Node) and num(a).k == "C":
            return Ptr(b.r, b.o + int(num(a).a))
        if op == "and" and isinstance(a, Ptr) and isinstance(b, Node) and num(b).k == "C":
            m = int(num(b).a)
            if m in (7, 15, 31, 63):
                return E.const(a.o & m)
            if m in (-8, -16, -32, -64):
                return Ptr(a.r, a.o & m)
        if op == "urem" and isinstance(a, Ptr):
            return E.const(a.o % int(num(b).a))
        if isinstance(a, Ptr) and op in ("lshr", "udiv") :
            return E.const(a.o >> int(num(b).a)) if op == "lshr" else E.const(a.o // int(num(b).a))
        raise Inconclusive("integer %s on a pointer" % op)

    def i_icmp(self, ins, env, st):
        return self.icmp(ins[3], ins[4], self.val(ins[5], env, st), self.val(ins[6], env, st))

    def icmp(self, pred, t, a, b):
        if isinstance(a, PtrIte):
            return mergeval(a.c, self.icmp(pred, t, a.a, b), self.icmp(pred, t, a.b, b))
        if isinstance(b, PtrIte):
            return mergeval(b.c, self.icmp(pred, t, a, b.a), self.icmp(pred, t, a, b.b))
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Node) and a.k == "C":
                a = Ptr(0, int(a.a))
            if isinstance(b, Node) and b.k == "C":
                b = Ptr(0, int(b.a))
            if isinstance(a, Node) or isinstance(b, Node):
                x = a if isinstance(a, Node) else b
                return E.lit(E.fn("ptrcmp", x, E.const(hash(b if x is a else a) % 1000003)), ZER if pred == "eq" else NEG | POS)
            if pred == "eq":
                return TRUE if a == b else FALSE
            if pred == "ne":
                return FALSE if a == b else TRUE
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                x, y = a.o, b.o
                p = pred[1:]
                return TRUE if {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p] else FALSE
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                x, y = a.r, b.r
                return TRUE if {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]] else FALSE
            raise Inconclusive("pointer comparison")
        if t == "i1" or (a.k in CONDK and b.k in CONDK):
            a, b = cond(a), cond(b)
            if pred in ("eq", "ne"):
                x = E.or_(E.and_(a, b), E.and_(E.not_(a), E.not_(b)))
                return x if pred == "eq" else E.not_(x)
        a, b = num(a), num(b)
        if a.k == "C" and b.k == "C":
            x, y = int(a.a), int(b.a)
            if pred[0] == "u":
                m = (1 << (64 if t == "p" else int(t[1:]))) - 1
                x &= m
                y &= m
            if pred in ("eq", "ne"):
                return TRUE if (x == y) == (pred == "eq") else FALSE
            return TRUE if {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]] else FALSE
        if a.k != "C" and E.constleaf(a) and E.constleaf(b):
            return self.leafcmp(a, b, lambda x, y: self.icmp(pred, t, x, y))
        if pred[0] == "u" and b.k == "C" and b.a < 0:
            # comparison with a huge unsigned constant
            return TRUE if pred in ("ult", "ule") else FALSE
        if pred[0] == "u":
            if b.k == "C" and b.a == (0 if pred in ("ugt", "ule") else 1):  # zero or not
                pred = {"ugt": "ne", "ule": "eq", "uge": "ne", "ult": "eq"}[pred]
                b = E.const(0)
            elif b.k == "C" and a.k == "+" and any(x.k == "C" and x.a < 0 for x in a.a):
                # a difference that may have wrapped around: a test for a range
                inside = E.and_(E.lit(a, POS | ZER), E.lit(E.sub(a, b), NEG if pred in ("ult", "uge") else NEG | ZER))
                return inside if pred in ("ult", "ule") else E.not_(inside)
        m = {"eq": ZER, "ne": NEG | POS, "lt": NEG, "le": NEG | ZER, "gt": POS, "ge": POS | ZER}[
            pred if pred in ("eq", "ne") else pred[1:]]
        d = E.sub(a, b)
        if m in (POS, NEG | ZER) and (d.id in E.whole or (d.k == "+" and any(x.id in E.whole for x in d.a) and any(x.k == "C" for x in d.a))):
            return E.lit(E.sub(d, ONE), {POS: POS | ZER, NEG | ZER: NEG}[m])  # x > c is x >= c + 1
        return E.lit(d, m)

    def leafcmp(self, a, b, f):
        if a.k == "I":
            return mergeval(a.a[0], self.leafcmp(a.a[1], b, f), self.leafcmp(a.a[2], b, f))
        if b.k == "I":
            return mergeval(b.a[0], self.leafcmp(a, b.a[1], f), self.leafcmp(a, b.a[2], f))
        return f(a, b)

    FM = {"eq": ZER, "ne": NEG | POS, "lt": NEG, "le": NEG | ZER, "gt": POS, "ge": POS | ZER}

    def i_fcmp(self, ins, env, st):
        a, b = self.val(ins[5], env, st), self.val(ins[6], env, st)
        p = ins[3]
        if p in ("true", "ord"):
            return TRUE
        if p in ("false", "uno"):
            return FALSE
        return self.fcmp(p[1:], num(a), num(b))

    def fcmp(self, p, a, b):
        inf = E.atom("fp!inf")
        if a is inf or b is inf or a is E.neg(inf) or b is E.neg(inf):
            def rank(x):
                return 1 if x is inf else (-1 if x is E.neg(inf) else 0)
            d = rank(a) - rank(b)
            return TRUE if E.sgn(d) & self.FM[p] else FALSE
        return E.lit(E.sub(a, b), self.FM[p])

    def i_select(self, ins, env, st):
        c = self.decide(cond(self.val(ins[4], env, st)), st)
        a, b = self.val(ins[5], env, st), self.val(ins[6], env, st)
        if c.k == "T":
            return a
        if c.k == "N":
            return b
        return mergeval(c, a, b)

    def i_extract(self, ins, env, st):
        v = self.val(ins[3], env, st)
        for i in ins[4]:
            if not isinstance(v, Agg):
                return E.atom("undef!agg")
            v = v.v[i]
        return v

    def i_insert(self, ins, env, st):
        v = self.val(ins[3], env, st)
        x = self.val(ins[4], env, st)
        def rec(a, idx):
            if not idx:
                return x
            l = list(a.v)
            l[idx[0]] = rec(l[idx[0]], idx[1:])
            return Agg(l)
        return rec(v, ins[5])

    def i_extractel(self, ins, env, st):
        v, i = self.val(ins[4], env, st), self.val(ins[5], env, st)
        return v.v[int(i.a)]

    def i_insertel(self, ins, env, st):
        v, x, i = (self.val(ins[j], env, st) for j in (4, 5, 6))
        l = list(v.v)
        l[int(i.a)] = x
        return Agg(l)

    def i_landing(self, ins, env, st):
        return Agg([NULL, ONE])

    def i_cast(self, ins, env, st):
        op, src, dst = ins[0], ins[3], ins[4]
        v = self.val(ins[5], env, st)
        if isinstance(src, list) or isinstance(v, Agg):
            return v
        if op in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
            return v
        if op == "zext":
            if src == "i1":
                return num(cond(v))
            v = num(v)
            if isinstance(v, Node) and v.k == "C" and v.a < 0:
                return E.const(int(v.a) & ((1 << int(src[1:])) - 1))
            return v
        if op == "sext":
            if src == "i1":
                return E.ite(cond(v), E.MONE, ZERO)
            return num(v)
        if op == "trunc":
            if dst == "i1":
                if isinstance(v, Node) and v.k == "C":
                    return TRUE if int(v.a) & 1 else FALSE
                return cond(v)
            v = num(v)
            if isinstance(v, Node) and v.k == "C":
                return E.const(wrap(int(v.a), int(dst[1:])))
            return v
        v = num(v)
        if op in ("sitofp", "uitofp"):
            if src == "i1":
                r = E.ite(cond(v), ONE if op == "uitofp" else E.MONE, ZERO)
                return r
            if op == "uitofp" and v.k == "C" and v.a < 0:
                return E.const(int(v.a) & ((1 << int(src[1:])) - 1))
            return v
        if op in ("fptosi", "fptoui"):
            return self.rounded("trunc", v, st)
        if op == "fptrunc":
            if src == "f64" and dst == "f32" and self.narrow_opaque:
                return E.fn("tofloat", v) if v.k != "C" else v
            return v
        if op == "fpext":
            return v
        raise Inconclusive(op)

    narrow_opaque = False

    def rounded(self, kind, v, st):
        if v.k == "C" or E.constleaf(v):
            if v.k == "C":
                return E.fn(kind, v)
            return E.mapleaf(v, lambda x: E.fn(kind, x))
        lo, hi = self.bounds(v, st)
        if lo is not None and hi is not None:
            import math
            (l, ls), (h, hs) = lo, hi
            if kind == "trunc" and l < 0 <= h:
                pass
            k2 = kind if kind != "trunc" else ("floor" if l >= 0 else "ceil")
            if k2 == "floor":
                a = math.floor(l)
                b = math.floor(h) if not (hs and h.denominator == 1) else math.floor(h) - 1
            elif k2 == "ceil":
                a = math.ceil(l) if not (ls and l.denominator == 1) else math.ceil(l) + 1
                b = math.ceil(h)
            else:
                return E.fn(kind, v)
            if a == b and not (kind == "trunc" and l < 0 < h):
                return E.const(a)
        return E.fn(kind, v)

    def bounds(self, v, st):
        """Interval of a linear term under the facts of the state, by polyhedron projection."""
        p = E.poly(v)
        if p is None or len(p) > 6:
            return None, None
        facts = list(st.facts.values())
        if not facts:
            return None, None
        # candidate constants come from the facts on the same single monomial
        monos = [m for m in p if m != ()]
        if len(monos) != 1:
            return None, None
        m, k, c0 = monos[0], p[monos[0]], p.get((), 0)
        lo = hi = None
        for d, mask in facts:
            q = E.poly(d)
            if q is None or set(x for x in q if x != ()) != {m}:
                continue
            k2, c2 = q[m], q.get((), 0)
            b = -c2 / k2
            mk = mask if k2 > 0 else E.flip(mask)
            if not mk & NEG:
                s = not mk & ZER
                if lo is None or b > lo[0] or (b == lo[0] and s):
                    lo = (b, s)
            if not mk & POS:
                s = not mk & ZER
                if hi is None or b < hi[0] or (b == hi[0] and s):
                    hi = (b, s)
        def tr(x):
            return None if x is None else (x[0] * k + c0, x[1])
        lo, hi = tr(lo), tr(hi)
        return (lo, hi) if k > 0 else (hi, lo)

    # ------------------------------------------------------------ branch decisions
    def decide(self, c, st):
        if c.k in "TN":
            return c
        f = st.facts
        if not f:
            return c
        c2 = self.simp(c, f)
        if c2.k in "TN":
            return c2
        if c2.k == "L" and not c2.a[0].ites:
            d, m = c2.a
            p = E.poly(d)
            if p is None or len(p) > 8 or len(f) > 60:
                return c2
            vs = {v for mono in p for v, _ in mono}
            rel, used = [], set()
            ch = True
            while ch:
                ch = False
                for k, (fd, fm) in f.items():
                    if k in used:
                        continue
                    q = E.poly(fd)
                    if q is None or len(q) > 12:
                        used.add(k)
                        continue
                    fv = {v for mono in q for v, _ in mono}
                    if fv & vs:
                        used.add(k)
                        rel.append((fd, fm))
                        if len(rel) < 12:
                            vs |= fv
                            ch = True
            if not rel:
                return c2
            if m in (NEG | POS,):
                pass
            else:
                if D.fm_infeasible(D.linear(rel + [(d, m)])):
                    return FALSE
            nm = ALL & ~m
            if nm != NEG | POS:
                if D.fm_infeasible(D.linear(rel + [(d, nm)])):
                    return TRUE
            else:
                if D.fm_infeasible(D.linear(rel + [(d, NEG)])) and D.fm_infeasible(D.linear(rel + [(d, POS)])):
                    return TRUE
            if m == NEG | POS and D.fm_infeasible(D.linear(rel + [(d, NEG)])) and \
                    D.fm_infeasible(D.linear(rel + [(d, POS)])):
                return FALSE
        return c2

    def simp(self, c, f):
        if c.k == "L":
            x = f.get(c.a[0].id)
            if x is not None:
                if x[1] & ~c.a[1] == 0:
                    return TRUE
                if x[1] & c.a[1] == 0:
                    return FALSE
            return c
        if c.k == "&":
            return E.and_(*[self.simp(x, f) for x in c.a])
        if c.k == "|":
            return E.or_(*[self.simp(x, f) for x in c.a])
        return c

    # ------------------------------------------------------------ control flow
    def where(self):
        l = self.fr.loc if self.fr else None
        return l or "?"

    def call_fn(self, F, args, st, loc):
        """-> {'ret': (guard, state, value), 'exc': (guard, state, None)} (either may be missing)"""
        if F.decl or not F.blocks:
            raise Inconclusive("external function %s called at %s" % (F.dem or F.name, self.where()))
        if F.ipd is None:
            F.ipd = postdoms(F.blocks)
        fr = Frame()
        fr.fn = F
        fr.up = self.fr
        fr.depth = self.fr.depth + 1 if self.fr else 0
        if fr.depth > 400:
            raise Inconclusive("call depth in %s" % F.dem)
        fr.loc = self.fr.loc if self.fr else None
        fr.allocs = []
        if F.repo:
            self.visited[F.name] = self.visited.get(F.name, 0) + 1
        env = [None] * F.nvals
        pc0, facts0 = st.pc, st.facts
        for i, (t, bv) in enumerate(F.args):
            v = args[i] if i < len(args) else None
            if bv:
                rid = self.new(st, "byval", bv, "stack")
                fr.allocs.append(rid)
                save = self.fr
                self.fr = fr
                self.copy(st, Ptr(rid, 0), v, bv)
                self.fr = save
                v = Ptr(rid, 0)
            elif t == "i1":
                v = cond(v)
            env[i] = v
        save = self.fr
        self.fr = fr
        try:
            out = self.run(F, 0, -1, None, st, env)
        finally:
            self.fr = save
        for k, (g, s, v) in out.items():
            s.pc, s.facts = pc0, facts0
            for rid in fr.allocs:
                s.regs.pop(rid, None)
        return out

    fr = None

    def phis(self, F, bb, prev, env, st):
        vals = []
        for ins in F.blocks[bb]:
            if ins[0] != "phi":
                break
            for p in ins[4:]:
                if p[0] == prev:
                    v = self.val(p[1], env, st)
                    if ins[3] == "i1":
                        v = cond(v)
                    vals.append((ins[1], v))
                    break
        return vals

    def run(self, F, bb, prev, stop, st, env):
        fr = self.fr
        acc = {}
        G = TRUE
        ready = None
        blocks = F.blocks
        ops = self.ops
        locs = self.locs
        repo = F.repo
        forks = 0
        while True:
            if bb == stop:
                vals = self.phis(F, bb, prev, env, st) if ready is None else ready
                self.addout(acc, "stop", G, st, (env, vals))
                return acc
            if ready is None:
                ready = self.phis(F, bb, prev, env, st)
            for i, v in ready:
                env[i] = v
            ready = None
            block = blocks[bb]
            n = len(block) - 1
            self.count += n + 1
            if self.count > self.limit:
                raise Inconclusive("analysis budget exceeded in %s" % F.dem)
            for ins in block:
                op = ins[0]
                if op == "phi":
                    continue
                if repo and ins[2]:
                    l = locs[ins[2] - 1]
                    fr.loc = l
                h = ops.get(op)
                if h is not None:
                    v = h(ins, env, st)
                    if ins[1] >= 0:
                        env[ins[1]] = v
                    continue
                if op == "call":
                    out = self.call(ins, env, st)
                    if out.__class__ is not dict:
                        if ins[1] >= 0:
                            env[ins[1]] = out
                        continue
                    e = out.get("exc")
                    if e is not None:
                        self.addout(acc, "exc", E.and_(G, e[0]), e[1], e[2])
                    r = out.get("ret")
                    if r is None:
                        return acc
                    g, st, v = r
                    if g.k != "T":
                        G = E.and_(G, g)
                        st.assume(g)
                    if ins[1] >= 0:
                        env[ins[1]] = v
                    continue
                break
            t = block[-1]
            op = t[0]
            if op == "br":
                if t[3] is None:
                    prev, bb = bb, t[4]
                    continue
                c = cond(self.val(t[3], env, st))
                c = self.decide(c, st)
                if c.k == "T":
                    prev, bb = bb, t[4]
                    continue
                if c.k == "N":
                    prev, bb = bb, t[5]
                    continue
                arms = [(c, t[4], st, env), (E.not_(c), t[5], st, env)]
            elif op == "ret":
                v = self.val(t[4], env, st) if len(t) > 4 else None
                if F.ret == "i1" and v is not None:
                    v = cond(v)
                self.addout(acc, "ret", G, st, v)
                return acc
            elif op == "switch":
                x = num(self.val(t[3], env, st))
                arms = []
                rest = TRUE
                done = False
                for k, dst in t[5:]:
                    c = self.decide(E.lit(E.sub(x, E.const(k)), ZER), st)
                    if c.k == "N":
                        continue
                    arms.append((E.and_(rest, c), dst, st, env))
                    rest = E.and_(rest, E.not_(c))
                    if c.k == "T":
                        done = True
                        break
                if not done and rest.k != "N":
                    arms.append((rest, t[4], st, env))
                if len(arms) == 1:
                    prev, bb = bb, arms[0][1]
                    continue
            elif op == "invoke":
                out = self.call(t, env, st)
                if out.__class__ is not dict:
                    if t[1] >= 0:
                        env[t[1]] = out
                    prev, bb = bb, t[6]
                    continue
                r, e = out.get("ret"), out.get("exc")
                if r is not None and e is None:
                    g, st, v = r
                    if g.k != "T":
                        G = E.and_(G, g)
                        st.assume(g)
                    if t[1] >= 0:
                        env[t[1]] = v
                    prev, bb = bb, t[6]
                    continue
                if r is None and e is None:
                    return acc
                if r is None:
                    g, st, v = e
                    if g.k != "T":
                        G = E.and_(G, g)
                        st.assume(g)
                    prev, bb = bb, t[7]
                    continue
                env1 = list(env)
                if t[1] >= 0:
                    env1[t[1]] = r[2]
                arms = [(r[0], t[6], r[1], env1), (e[0], t[7], e[1], list(env))]
            elif op == "unreachable":
                return acc
            elif op == "resume":
                self.addout(acc, "exc", G, st, None)
                return acc
            else:
                raise Inconclusive("instruction %s in %s" % (op, F.dem))
            # a gate: analyse every arm up to the post-dominator and join
            forks += 1
            self.forkdepth = getattr(self, "forkdepth", 0) + 1
            if self.forkdepth > 220 or forks > 4000:
                raise Inconclusive("loop bound of %s (%s) cannot be determined" % (F.dem, fr.loc))
            s = F.ipd[bb]
            outs = {}
            pc0, facts0 = st.pc, st.facts
            loc0 = fr.loc
            for g, dst, ast, aenv in arms:
                if g.k == "N":
                    continue
                a = ast.fork()
                a.pc, a.facts = pc0, facts0
                a.assume(g)
                fr.loc = loc0
                o = self.run(F, dst, bb, s, a, list(aenv))
                for k, (g2, s2, v2) in o.items():
                    self.addout(outs, k, E.and_(g, g2), s2, v2)
            self.forkdepth -= 1
            for k in ("ret", "exc"):
                if k in outs:
                    g, s2, v2 = outs[k]
                    self.addout(acc, k, E.and_(G, g), s2, v2)
            if "stop" not in outs:
                return acc
            g, st, (env, ready) = outs["stop"]
            st.pc, st.facts = pc0, facts0
            if g.k != "T":
                st.assume(g)
                G = E.and_(G, g)
            prev, bb = bb, s

    def addout(self, acc, kind, g, st, v):
        if g.k == "N":
            return
        old = acc.get(kind)
        if old is None:
            acc[kind] = (g, st, v)
            return
        g0, s0, v0 = old
        # g0 and g are disjoint; pick the smaller condition to gate on
        c = g0
        ng = E.not_(g)
        if len(E.lits_of(ng)) < len(E.lits_of(g0)):
            c = ng
        S = self.mergestate(c, s0, st)
        if kind == "stop":
            e0, p0 = v0
            e1, p1 = v
            env = [x if x is y else (mergeval(c, x, y) if x is not None and y is not None else (x if y is None else y))
                   for x, y in zip(e0, e1)]
            vals = [(i, mergeval(c, x, y)) for (i, x), (_, y) in zip(p0, p1)]
            nv = (env, vals)
        else:
            nv = mergeval(c, v0, v)
        acc[kind] = (E.or_(g0, g), S, nv)

    # ------------------------------------------------------------ calls
    def call(self, ins, env, st):
        cv = ins[4]
        if cv[0] == "fn":
            name = cv[1]
        else:
            f = self.val(cv, env, st) if cv[0] != "unk" else None
            if f is None:
                return None        # inline asm without result
            return self.call_ptr(f, ins, env, st)
        h = self.handlers.get(name, 0)
        if h == 0:
            h = self.find_handler(name)
            self.handlers[name] = h
        args = [self.val(a, env, st) if a[0] != "md" else None for a in ins[5]]
        fr = self.fr
        if fr.fn.repo:
            self.callsites.add((fr.fn.name, ins[2], name))
        if h is not None:
            return h(args, st, ins)
        return self.call_fn(self.funcs[name], args, st, None)

    def call_ptr(self, f, ins, env, st):
        if isinstance(f, PtrIte):
            c = self.decide(f.c, st)
            if c.k in "TN":
                return self.call_ptr(f.a if c.k == "T" else f.b, ins, env, st)
            outs, pc0, facts0 = {}, st.pc, st.facts
            for g, h, yes in ((c, f.a, True), (E.not_(c), f.b, False)):
                a = st.fork()
                a.assume(g)
                def pick(x):
                    while isinstance(x, PtrIte) and x.c is f.c:
                        x = x.a if yes else x.b
                    return x
                o = self.call_ptr(h, ins, [pick(x) for x in env], a)
                if o.__class__ is not dict:
                    o = {"ret": (TRUE, a, o)}
                for k, (g2, s2, v2) in o.items():
                    s2.pc, s2.facts = pc0, facts0
                    self.addout(outs, k, E.and_(g, g2), s2, v2)
            for k in outs:
                outs[k][1].pc, outs[k][1].facts = pc0, facts0
            return outs
        if not isinstance(f, Fn):
            raise Inconclusive("call through an unknown function pointer at %s" % self.where())
        ins2 = list(ins)
        ins2[4] = ["fn", f.n]
        return self.call(ins2, env, st)

    def find_handler(self, name):
        from . import lib
        return lib.find(self, name, self.funcs.get(name))
