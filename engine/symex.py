"""Symbolic executor for LLVM IR (as read by llvmir.py) on top of z3.

Every harness is executed with symbolic inputs.  Integers are Python ints while
they are concrete and z3 bit-vectors of their exact machine width otherwise (i1
values are Bools), so all wrap-around is the machine's.  Control flow forks on
every feasible side of a symbolic branch; feasibility and every assertion are
decided by z3.  Nothing is sampled: a path is only dropped when the solver
reports its path condition unsatisfiable, and an answer 'unknown' makes the
whole run inconclusive."""
import os
import re
import subprocess
import bisect
import math
import select
import tempfile
import time
import z3
from llvmir import Module, UNDEF, Unsupported, ty_size, store_size

M64 = (1 << 64) - 1
ROTATE = 0
SLOTS = None  # free processors


class OutOfBudget(Exception):
    pass


class Inconclusive(Exception):
    pass


class PathEnd(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, msg, vec, extra=None):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.vec = vec
        self.extra = extra


class Obj:
    __slots__ = ("base", "size", "cells", "owner", "kind", "name", "ro",
                 "fill", "align")

    def __init__(self, base, size, kind, name, owner):
        self.base = base
        self.size = size
        self.cells = {}
        self.owner = owner
        self.kind = kind
        self.name = name
        self.ro = False
        self.fill = None
        self.align = 1

    def clone(self, owner):
        o = Obj(self.base, self.size, self.kind, self.name, owner)
        o.cells = dict(self.cells)
        o.fill = self.fill
        o.ro = self.ro
        o.align = self.align
        return o


class Frame:
    __slots__ = ("fn", "blk", "ip", "regs", "allocas", "retreg", "va",
                 "normaldest", "hints")

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.ip = self.ip
        f.regs = list(self.regs)
        f.allocas = list(self.allocas)
        f.retreg = self.retreg
        f.va = self.va
        f.normaldest = self.normaldest
        return f


class PC:
    __slots__ = ("parent", "expr", "depth")

    def __init__(self, parent, expr):
        self.parent = parent
        self.expr = expr
        self.depth = parent.depth + 1 if parent else 0


ROOT = PC(None, None)


class State:
    __slots__ = ("threads", "cur", "objs", "pc", "model", "inputs", "obs",
                 "flags", "steps", "labels", "nfresh", "id", "forcedv",
                 "sched", "lastswitch", "trace", "known", "facts")


BV = z3.BitVecVal


def isint(x):
    return type(x) is int


def bv(x, w):
    if type(x) is int:
        return BV(x, w)
    return x


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def is_true(e):
    return z3.is_true(e)


_simp = z3.simplify


def simp(e):
    e = _simp(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def simpb(e):
    if isint(e):
        return e
    e = _simp(e)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def tobool(x):
    return z3.BoolVal(bool(x)) if isint(x) else x


def notb(x):
    return (1 - x) if isint(x) else z3.Not(x)


def ite(c, a, b, w):
    if isint(c):
        return a if c else b
    if isint(a) and isint(b) and a == b:
        return a
    if a is b:
        return a
    if w == 1:
        return simpb(z3.If(c, tobool(a), tobool(b)))
    return z3.If(c, bv(a, w), bv(b, w))


# -- arithmetic on terms whose low bits are known (aligned addresses): the
# known part is computed here so that the solver sees narrow terms
def lowconst(e):
    """(number of low bits that are constant, their value)"""
    if isint(e):
        return 1 << 30, e
    if e.decl().kind() == z3.Z3_OP_CONCAT:
        l = e.arg(e.num_args() - 1)
        if z3.is_bv_value(l):
            return l.size(), l.as_long()
    return 0, 0


def hipart(e, n, w):
    if isint(e):
        return e >> n
    return simp(z3.Extract(w - 1, n, e))


def split2(a, b, w):
    na, la = lowconst(a)
    if not na:
        return 0, 0, 0
    nb, lb = lowconst(b)
    n = min(na, nb)
    if n == 0 or n >= w:
        return 0, 0, 0
    m = (1 << n) - 1
    return n, la & m, lb & m


def join(hi, lo, n, w):
    if isint(hi):
        return ((hi << n) | lo) & ((1 << w) - 1)
    return z3.Concat(hi, BV(lo, n))


def join_vc(a, b):
    return tuple(max(x, y) for x, y in zip(a, b))


def addx(a, b, w):
    if isint(a) and isint(b):
        return (a + b) & ((1 << w) - 1)
    n, la, lb = split2(a, b, w)
    if n:
        t = la + lb
        x, y = hipart(a, n, w), hipart(b, n, w)
        hi = simp(bv(x, w - n) + bv(y, w - n) + BV(t >> n, w - n))
        return join(hi, t & ((1 << n) - 1), n, w)
    return simp(bv(a, w) + bv(b, w))


def subx(a, b, w):
    if isint(a) and isint(b):
        return (a - b) & ((1 << w) - 1)
    n, la, lb = split2(a, b, w)
    if n:
        x, y = hipart(a, n, w), hipart(b, n, w)
        hi = simp(bv(x, w - n) - bv(y, w - n) -
                  BV(1 if la < lb else 0, w - n))
        return join(hi, (la - lb) & ((1 << n) - 1), n, w)
    return simp(bv(a, w) - bv(b, w))


def bitx(op, a, b, w):
    n, la, lb = split2(a, b, w)
    if n:
        x = bv(hipart(a, n, w), w - n)
        y = bv(hipart(b, n, w), w - n)
        if op == 'and':
            return join(simp(x & y), la & lb, n, w)
        if op == 'or':
            return join(simp(x | y), la | lb, n, w)
        return join(simp(x ^ y), la ^ lb, n, w)
    A, B = bv(a, w), bv(b, w)
    return simp(A & B if op == 'and' else A | B if op == 'or' else A ^ B)


def cmpx(pred, a, b, w):
    """unsigned comparison and equality"""
    n, la, lb = split2(a, b, w)
    if n:
        a, b = bv(hipart(a, n, w), w - n), bv(hipart(b, n, w), w - n)
        if pred in ('eq', 'ne'):
            if la != lb:
                return int(pred == 'ne')
        elif la != lb:
            # the low parts decide only between equal high parts
            low = la < lb
            pred = {'ult': 'ule' if low else 'ult',
                    'ule': 'ule' if low else 'ult',
                    'ugt': 'ugt' if low else 'uge',
                    'uge': 'ugt' if low else 'uge'}[pred]
        w -= n
    A, B = bv(a, w), bv(b, w)
    if pred == 'eq':
        return simpb(A == B)
    if pred == 'ne':
        return simpb(A != B)
    if pred == 'ugt':
        return simpb(z3.UGT(A, B))
    if pred == 'uge':
        return simpb(z3.UGE(A, B))
    if pred == 'ult':
        return simpb(z3.ULT(A, B))
    return simpb(z3.ULE(A, B))


class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        o = opts or {}
        self.atomic = False
        self.max_cpu = 150
        self.max_steps = o.get("max_steps", 40000000)
        self.max_enum = o.get("max_enum", 300)
        self.qtimeout = o.get("qtimeout", 60000)
        self.products = {}
        self.quotients = {}  # what was divided, by the id of the quotient
        self.deadline = o.get("deadline")
        self.max_paths = o.get("max_paths", 10 ** 9)
        self.collect = o.get("collect", 0)
        self.checks_ub = o.get("ub", True)
        self.merge = o.get("merge", True)
        self.regions = {}
        self.stats = dict(queries=0, solver_s=0.0, paths=0, forks=0, instr=0,
                          asserts=0, assert_queries=0, dropped=0, aborts=0,
                          ubchecks=0, maxpath=0, ctx=0, hard=0)
        self.covered = set()
        self.labels = {}
        self.samples = []
        self.strs = {}
        self.reset_every = o.get('reset_every', 300)
        self.bases = []
        self.next_stack = 0x100000000
        self.next_heap = 0x4000000000
        self.oid = 0
        self.sid = 0
        self.new_solver()
        self.reasons = {}
        self.exprs_log = []
        self.smt_log = o.get("smt_log")
        self.ext = dict(EXTERNS)
        self.init_globals()

    # ---------------------------------------------------------------- memory
    def init_globals(self):
        self.gobjs = {}
        allg = []
        for nm, addr, size, ptr, const in self.m.globals:
            allg.append((addr, nm, size, ptr, const))
        allg.sort()
        import llvmir
        for addr, nm, size, ptr, const in allg:
            o = Obj(addr, size, "global", nm, 0)
            init = llvmir.GVInit(ptr)
            o.align = 16
            if init:
                ty = self.m.type(llvmir.GVValTy(ptr))
                try:
                    c = self.m.const(init)
                    o.fill = 0
                    self.init_cells(o, 0, ty, c)
                    o.ro = const
                except Unsupported:
                    if const or nm.startswith("_ZT"):
                        o.cells = {}
                        o.ro = True
                    else:
                        raise
            self.gobjs[addr] = o
            self.bases.append(addr)
        self.gbases = list(self.bases)
        self.sbases = []
        self.hbases = []

    def init_cells(self, o, off, ty, c):
        k = ty[0]
        if c is UNDEF:
            return
        if k in ('i', 'p', 'f'):
            n = store_size(ty) if k == 'i' else ty_size(ty)
            if c:
                o.cells[off] = (c, n)
            else:
                o.cells[off] = (0, n)
        elif k in ('a', 'v'):
            st = ty[3] if k == 'a' else ty_size(ty[2])
            for i in range(ty[1]):
                self.init_cells(o, off + i * st, ty[2], c[i])
        elif k == 's':
            for i, e in enumerate(ty[1]):
                self.init_cells(o, off + ty[2][i], e, c[i])
        else:
            raise Unsupported("initializer")

    def new_stack(self, st, size, align, name):
        a = self.next_stack
        al = max(align, 16)
        a = (a + al - 1) // al * al
        self.next_stack = a + size + 64
        self.sbases.append(a)
        o = Obj(a, size, "stack", name, st.id)
        o.align = align
        st.objs[a] = o
        return a

    def new_heap(self, st, size, align, name, off=0):
        a = self.next_heap
        al = max(align, 16)
        a = (a + al - 1) // al * al + off
        self.next_heap = a + size + 64
        self.hbases.append(a)
        o = Obj(a, size, "heap", name, st.id)
        o.align = align
        st.objs[a] = o
        return a

    def find(self, st, addr):
        if addr >= 0x4000000000:
            l = self.hbases
        elif addr >= 0x100000000:
            l = self.sbases
        else:
            l = self.gbases
        i = bisect.bisect_right(l, addr) - 1
        if i < 0:
            return None
        return st.objs.get(l[i])

    def wr(self, st, o):
        if o.owner != st.id:
            o = o.clone(st.id)
            st.objs[o.base] = o
        return o

    def fresh(self, st, w, why="undef"):
        st.nfresh += 1
        return z3.BitVec("%s!%d" % (why, st.nfresh), w)

    def split(self, o, off):
        """makes [off..] start on a cell boundary by splitting into bytes"""
        cells = o.cells
        for k in range(max(0, off - 15), off):
            c = cells.get(k)
            if c is not None and k + c[1] > off:
                self.bytes_of(o, k, c)
                return

    def bytes_of(self, o, k, c):
        v, n = c
        if isint(v):
            for j in range(n):
                o.cells[k + j] = ((v >> (8 * j)) & 255, 1)
        else:
            for j in range(n):
                o.cells[k + j] = (simp(z3.Extract(8 * j + 7, 8 * j, v)), 1)

    def store(self, st, o, off, val, n):
        o = self.wr(st, o)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[1] == n:
            cells[off] = (val, n)
            return
        self.split(o, off)
        self.split(o, off + n)
        for k in range(off, off + n):
            cells.pop(k, None)
        cells[off] = (val, n)

    def load_byte(self, st, o, off):
        cells = o.cells
        for k in range(off, max(-1, off - 16), -1):
            c = cells.get(k)
            if c is not None:
                if k + c[1] > off:
                    j = off - k
                    v = c[0]
                    if c[1] == 1:
                        return v
                    if isint(v):
                        return (v >> (8 * j)) & 255
                    return simp(z3.Extract(8 * j + 7, 8 * j, v))
                break
        if o.fill is not None:
            return o.fill
        v = self.fresh(st, 8, "uninit")
        o = self.wr(st, o)
        o.cells[off] = (v, 1)
        return v

    def load(self, st, o, off, n):
        c = o.cells.get(off)
        if c is not None and c[1] == n:
            return c[0]
        if n > 1:
            # an entirely uninitialised word gets one symbol
            if o.fill is None and not any(
                    (off + k) in o.cells for k in range(-15, n)):
                v = self.fresh(st, 8 * n, "uninit")
                o = self.wr(st, o)
                o.cells[off] = (v, n)
                return v
        bs = []
        for j in range(n):
            b = self.load_byte(st, o, off + j)
            if not isint(b):
                o = st.objs[o.base]
            bs.append(b)
        if all(isint(b) for b in bs):
            r = 0
            for j, b in enumerate(bs):
                r |= b << (8 * j)
            return r
        if n == 1:
            return bs[0]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def copy_range(self, st, so, soff, do, doff, n):
        # gather first (memmove semantics)
        out = []
        j = 0
        while j < n:
            c = so.cells.get(soff + j)
            if c is not None and j + c[1] <= n:
                out.append((j, c))
                j += c[1]
            else:
                b = self.load_byte(st, so, soff + j)
                so = st.objs[so.base]
                out.append((j, (b, 1)))
                j += 1
        do = st.objs[do.base]
        do = self.wr(st, do)
        self.split(do, doff)
        self.split(do, doff + n)
        for k in range(doff, doff + n):
            do.cells.pop(k, None)
        for j, c in out:
            do.cells[doff + j] = c

    # ---------------------------------------------------------------- solver
    def sync(self, pc):
        path = []
        n = pc
        stack = self.stack
        while n.depth > len(stack):
            path.append(n)
            n = n.parent
        while n is not ROOT and stack[n.depth - 1] is not n:
            path.append(n)
            n = n.parent
        k = len(stack) - n.depth
        if k:
            self.solver.pop(k)
            del stack[n.depth:]
        for x in reversed(path):
            self.solver.push()
            self.solver.add(x.expr)
            stack.append(x)

    def new_solver(self):
        self.solver = z3.Solver()
        self.solver.set("smt.relevancy", 0)
        self.solver.set("timeout", 2000)
        self.stack = []

    def query(self, st, *extra):
        """returns a model of pc /\\ extra or None; Inconclusive if unknown"""
        self.stats["queries"] += 1
        t = time.time()
        if self.deadline and t > self.deadline:
            raise OutOfBudget("time budget used up")
        if self.stats["queries"] % self.reset_every == 0:
            # the incremental solver slows down as dead terms pile up
            self.new_solver()
        self.sync(st.pc)
        if self.smt_log is not None:
            self.log_smt(extra)
        r = self.solver.check(*extra)
        mod = self.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            self.stats["hard"] += 1
            conj = [n.expr for n in self.stack] + list(extra)
            r, mod = self.as_integers(conj)
            if r == z3.unknown:
                s = z3.SolverFor("QF_BV")
                s.set("timeout", self.qtimeout)
                s.add(*conj)
                r = s.check()
                mod = s.model() if r == z3.sat else None
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown within %d ms"
                               % self.qtimeout)
        if self.smt_log is not None:
            self.smt_log[-1] = (self.smt_log[-1], str(r))
        return mod

    def as_integers(self, conj):
        """sums and comparisons of 64-bit values that are hard bit by bit: cvc5
        decides them as integers modulo 2^64.  Its models are checked by z3."""
        s = z3.Solver()
        s.add(*conj)
        names = {}

        def walk(e, seen):
            todo = [e]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == \
                        z3.Z3_OP_UNINTERPRETED:
                    names[x.decl().name()] = x
                todo += x.children()
        seen = set()
        for c in conj:
            walk(c, seen)
        vs = [v for v in names.values()]
        text = "(set-option :produce-models true)\n(set-logic QF_BV)\n" + \
            s.to_smt2()
        if vs:
            text += "(get-value (%s))\n" % " ".join(v.sexpr() for v in vs)
        out = self.race_cvc5(text, 10000)
        if out.startswith("unsat"):
            return z3.unsat, None
        if not out.startswith("sat"):
            return z3.unknown, None
        vals = re.findall(r"(#b[01]+|#x[0-9a-fA-F]+|\btrue\b|\bfalse\b)\)",
                          out)
        if len(vals) != len(vs):
            return z3.unknown, None
        for v, x in zip(vs, vals):
            if x in ("true", "false"):
                s.add(v == z3.BoolVal(x == "true"))
            else:
                s.add(v == z3.BitVecVal(int(x[2:], 2 if x[1] == "b" else 16),
                                        v.size()))
        s.set("timeout", 10000)
        if s.check() != z3.sat:
            return z3.unknown, None
        return z3.sat, s.model()

    def race_cvc5(self, text, ms):
        """the first answer of two translations to integers"""
        with tempfile.TemporaryFile("w+") as f:
            f.write(text)
            f.flush()
            run = []
            try:
                for how in ("iand", "sum"):
                    fd = os.open("/proc/self/fd/%d" % f.fileno(), os.O_RDONLY)
                    try:
                        run.append(subprocess.Popen(
                            ["cvc5", "--solve-bv-as-int=" + how,
                             "--tlimit=%d" % ms], stdin=fd,
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
                    finally:
                        os.close(fd)
                end = time.time() + ms / 1000 + 5
                while run and time.time() < end:
                    ready = select.select([p.stdout for p in run], [], [],
                                          max(0.0, end - time.time()))[0]
                    for p in [p for p in run if p.stdout in ready]:
                        out = p.stdout.read().decode(errors="replace")
                        p.wait()
                        run.remove(p)
                        p.stdout.close()
                        if out.startswith(("sat", "unsat")):
                            return out
            except OSError:
                pass
            finally:
                for p in run:
                    p.kill()
                    p.wait()
                    p.stdout.close()
        return ""

    def log_smt(self, extra):
        s = z3.Solver()
        for n in self.stack:
            s.add(n.expr)
        for e in extra:
            s.add(e)
        self.smt_log.append(s.to_smt2())

    def subst(self, st, e):
        if not st.known or isint(e):
            return e
        return z3.substitute(e, *st.known.values())

    def fact(self, st, cond, val):
        """cond is known to be val on this path"""
        st.facts[cond.get_id()] = (cond, val)
        if z3.is_not(cond):
            c = cond.arg(0)
            st.facts[c.get_id()] = (c, not val)
            if val is False and c.decl().kind() == z3.Z3_OP_EQ:
                self.learn_eq(st, c)
        elif val is True and cond.decl().kind() == z3.Z3_OP_EQ:
            self.learn_eq(st, cond)

    def learn_eq(self, st, c):
        a, b = c.arg(0), c.arg(1)
        if z3.is_bv_value(a):
            a, b = b, a
        if z3.is_bv_value(b) and z3.is_bv(a):
            self.learn(st, a, b.as_long())

    def learn(self, st, e, v):
        """e == v on this path; remember it for the smallest term it pins"""
        while True:
            w = e.size()
            k = e.decl().kind()
            n = e.num_args()
            if k == z3.Z3_OP_CONCAT and n == 2 and z3.is_bv_value(e.arg(0)):
                e = e.arg(1)
                v &= (1 << e.size()) - 1
            elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(n - 1)):
                low = e.arg(n - 1).size()
                if n != 2:
                    break
                e = e.arg(0)
                v >>= low
            elif k == z3.Z3_OP_BADD and n == 2 and z3.is_bv_value(e.arg(0)):
                v = (v - e.arg(0).as_long()) & ((1 << w) - 1)
                e = e.arg(1)
            else:
                break
        if z3.is_bv_value(e):
            return
        i = e.get_id()
        if i not in st.known:
            st.known[i] = (e, BV(v, e.size()))

    def possible(self, st, cond):
        """is cond (Bool) satisfiable here? keeps a model for reuse"""
        if isint(cond):
            return bool(cond)
        f = st.facts.get(cond.get_id())
        if f is not None:
            return f[1]
        if st.known:
            c2 = simpb(self.subst(st, cond))
            if isint(c2):
                st.facts[cond.get_id()] = (cond, bool(c2))
                return bool(c2)
        if st.model is not None:
            if z3.is_true(st.model.eval(cond, model_completion=True)):
                return True
        m = self.query(st, cond)
        if m is None:
            self.fact(st, cond, False)
            return False
        if st.model is None:
            st.model = m
        return True

    def add(self, st, cond):
        if isint(cond):
            return
        st.pc = PC(st.pc, cond)
        self.fact(st, cond, True)
        if st.model is not None:
            if not z3.is_true(st.model.eval(cond, model_completion=True)):
                st.model = None

    def getmodel(self, st):
        if st.model is None:
            st.model = self.query(st)
            if st.model is None:
                raise Inconclusive("infeasible path reached")
        return st.model

    def must(self, st, cond, kind, msg):
        """cond must hold on this path: otherwise a violation"""
        cond = simpb(cond)
        if not isint(cond) and st.known:
            cond = simpb(self.subst(st, cond))
        if not isint(cond):
            f = st.facts.get(cond.get_id())
            if f is not None and f[1]:
                return
        if isint(cond):
            if not cond:
                m = self.getmodel(st)
                self.violation(st, kind, msg, m)
            return
        self.stats["assert_queries"] += 1
        m = None
        neg = z3.Not(cond)
        if st.model is not None and z3.is_true(
                st.model.eval(neg, model_completion=True)):
            m = st.model
        else:
            m = self.query(st, neg)
        if m is not None:
            self.violation(st, kind, msg, m)
        self.fact(st, cond, True)

    def violation(self, st, kind, msg, model):
        vec = self.vector(st, model)
        where = " <- ".join(f.fn.name for f in reversed(st.threads[st.cur]))
        raise Violation(kind, msg, vec,
                        dict(where=where, labels=sorted(st.labels),
                             sched=list(st.sched)))

    def vector(self, st, model):
        out = []
        for name, w, e in st.inputs:
            if isint(e):
                out.append((name, w, e))
            else:
                v = model.eval(e, model_completion=True)
                if w == 1 and z3.is_bool(v):
                    out.append((name, w, int(z3.is_true(v))))
                else:
                    out.append((name, w, v.as_long()))
        return out

    def concretize(self, st, e, w, what, limit=None):
        """forks the state over every feasible value of e; returns the value
        for the current state (the others are pushed on the worklist so that
        they re-execute the current instruction with a pinned value)"""
        if isint(e):
            return e
        e = simp(self.subst(st, simp(e)) if not isint(e) else e)
        if isint(e):
            return e
        limit = limit or self.max_enum
        m = self.getmodel(st)
        v = m.eval(e, model_completion=True).as_long()
        other = self.query(st, e != BV(v, w))
        if other is None:
            self.learn(st, e, v)
            return v
        # a sibling that excludes v re-executes this instruction
        n = st.flags.get("enum", 0) + 1
        if n > limit:
            raise Inconclusive("more than %d feasible values for %s in %s"
                               % (limit, what, st.threads[st.cur][-1].fn.name))
        sib = self.fork(st)
        sib.flags["enum"] = n
        sib.pc = PC(sib.pc, e != BV(v, w))
        sib.model = other
        self.rewind(sib)
        self.work.append(sib)
        self.add(st, e == BV(v, w))
        self.learn(st, e, v)
        return v

    def rewind(self, st):
        st.threads[st.cur][-1].ip -= 1

    def fork(self, st):
        self.stats["forks"] += 1
        self.sid += 1
        n = State()
        n.id = self.sid
        n.threads = [[f.copy() for f in th] for th in st.threads]
        n.cur = st.cur
        n.objs = dict(st.objs)
        n.pc = st.pc
        n.model = st.model
        n.inputs = list(st.inputs)
        n.obs = list(st.obs)
        n.flags = dict(st.flags)
        n.known = dict(st.known)
        n.facts = dict(st.facts)
        n.steps = st.steps
        n.labels = set(st.labels)
        n.nfresh = st.nfresh
        n.forcedv = None
        n.sched = list(st.sched)
        n.lastswitch = st.lastswitch
        n.trace = st.trace
        # both must now copy-on-write
        self.sid += 1
        st.id = self.sid
        return n

    # ------------------------------------------------------------- execution
    def initial(self):
        self.sid += 1
        st = State()
        st.id = self.sid
        st.threads = [[]]
        st.cur = 0
        st.objs = dict(self.gobjs)
        st.pc = ROOT
        st.model = None
        st.inputs = []
        st.obs = []
        st.flags = {}
        st.known = {}
        st.facts = {}
        st.steps = 0
        st.labels = set()
        st.nfresh = 0
        st.forcedv = None
        st.sched = []
        st.lastswitch = 0
        st.trace = ()
        return st

    def push(self, st, fn, args, retreg, normaldest=None):
        self.m.decode(fn)
        self.covered.add(fn.name)
        fr = Frame()
        fr.fn = fn
        fr.blk = 0
        fr.ip = 0
        fr.regs = [None] * fn.nregs
        np = fn.nparams
        for i in range(np):
            fr.regs[i] = args[i]
        fr.va = args[np:]
        fr.allocas = []
        fr.retreg = retreg
        fr.normaldest = normaldest
        st.threads[st.cur].append(fr)
        if len(st.threads[st.cur]) > 400:
            self.hang(st, "call depth over 400")

    def hang(self, st, what):
        """reported if the real code does not come to an end either"""
        self.violation(st, "hang", "the operation does not come to an end (%s)"
                       % what, self.getmodel(st))

    max_gaps = 30

    def run(self, entry, args=(), ctors=True):
        self.work = []
        st = self.initial()
        if ctors:
            # runs on the (single) initial state before the harness
            self.boot = list(self.m.global_ctors())
        else:
            self.boot = []
        ent = self.m.funcs.get(entry)
        if ent is None or ent.decl:
            raise Inconclusive("no entry " + entry)
        self.push(st, ent, list(args), None)
        for a in reversed(self.boot):
            self.push(st, self.m.by_addr[a], [], None)
        self.work.append(st)
        try:
            self.explore()
        except BaseException:
            self.abandon()
            raise

    def explore(self):
        gaps, first = 0, None
        last = time.time()
        while True:
            while self.work:
                now = time.time()
                if self.deadline and now > self.deadline:
                    raise OutOfBudget("time budget used up after %d paths"
                                      % self.stats["paths"])
                if SLOTS is not None and len(self.work) > 1 and \
                        now - last > 0.5 and SLOTS.acquire(False):
                    last = now
                    if self.split_work():
                        gaps, first = 0, None  # the child
                        last = time.time()
                st = self.work.pop()
                self.atomic = False
                try:
                    self.run_path(st)
                except PathEnd as e:
                    if str(e) == "dropped":
                        self.stats["dropped"] += 1
                        continue
                except (Inconclusive, Unsupported) as e:
                    # the other paths may still hold a violation
                    gaps += 1
                    first = first or e
                    if gaps >= self.max_gaps:
                        raise
                    continue
                self.finish(st)
                if self.stats["paths"] > self.max_paths:
                    raise OutOfBudget("more than %d paths" % self.max_paths)
            if not self.children:
                break
            first = self.collect_children() or first
        if first is not None:
            raise first

    # ---- an idle processor takes half of the paths still to be explored
    children = ()

    def split_work(self):
        import tempfile
        fd, path = tempfile.mkstemp(prefix="verif_split_")
        os.close(fd)
        pid = os.fork()
        if pid:
            self.children = list(self.children) + [(pid, path)]
            self.work = self.work[1::2]
            return False
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)  # end with the parent
        self.split_to = path
        self.children = []
        self.work = self.work[0::2]
        self.stats = {k: 0 for k in self.stats}
        self.labels = {}
        self.samples = []
        self.covered = set()
        return True

    split_to = None

    def collect_children(self):
        import pickle
        kids, self.children = self.children, []
        SLOTS.release()
        first = None
        try:
            while kids:
                pid, path = kids.pop(0)
                try:
                    _, status = os.waitpid(pid, 0)
                    with open(path, "rb") as f:
                        r = pickle.load(f)
                except Exception as e:
                    first = Inconclusive("a part of the exploration was lost: "
                                         "%r" % e)
                    continue
                finally:
                    os.unlink(path)
                for k, v in r["stats"].items():
                    mine = self.stats.get(k, 0)
                    self.stats[k] = max(mine, v) if k == "maxpath" \
                        else mine + v
                for k, v in r["labels"].items():
                    self.labels[k] = self.labels.get(k, 0) + v
                for i, s in enumerate(r["samples"]):
                    if len(self.samples) < self.collect:
                        self.samples.append(s)
                    elif i % 2:
                        self.samples[i % self.collect] = s
                self.covered |= r["covered"]
                if r["viol"]:
                    raise Violation(*r["viol"])
                if r["error"]:
                    first = first or Inconclusive(r["error"])
        finally:
            self.children = kids
            SLOTS.acquire()
        return first

    def abandon(self):
        import signal
        for pid, path in self.children:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                SLOTS.release()
                os.unlink(path)
            except OSError:
                pass
        self.children = []

    def split_done(self, viol=None, error=None):
        """the end of a process made by split()"""
        import pickle
        with open(self.split_to, "wb") as f:
            pickle.dump(dict(
                stats=self.stats, labels=self.labels, covered=self.covered,
                samples=[s for s in self.samples if s], viol=viol,
                error=error), f)
        SLOTS.release()
        os._exit(0)

    def finish(self, st):
        s = self.stats
        s["paths"] += 1
        s["maxpath"] = max(s["maxpath"], st.steps)
        for l in st.labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if self.collect:
            n = s["paths"]
            if len(self.samples) < self.collect:
                slot = len(self.samples)
                self.samples.append(None)
            else:
                # deterministic reservoir: spread the samples over all paths
                h = (n * 2654435761 + ROTATE) % n
                slot = h if h < self.collect else -1
            if slot >= 0:
                m = self.getmodel(st)
                vec = self.vector(st, m)
                obs = []
                for name, w, e in st.obs:
                    if not isint(e):
                        e = m.eval(bv(e, w) if w > 1 else tobool(e),
                                   model_completion=True)
                        e = int(z3.is_true(e)) if w == 1 and z3.is_bool(e) \
                            else e.as_long()
                    obs.append((name, e))
                self.samples[slot] = dict(
                    vec=vec, obs=obs, end=st.flags.get("end", "ret"),
                    sched=list(st.sched))

    def run_path(self, st):
        m64 = M64
        look = st.steps + 50000
        began = time.process_time() - self.stats["solver_s"]
        while True:
            th = st.threads[st.cur]
            if not th:
                if not self.thread_done(st):
                    return
                continue
            fr = th[-1]
            code = fr.fn.blocks[fr.blk][1]
            regs = fr.regs
            # ---- straight-line part
            while True:
                ins = code[fr.ip]
                fr.ip += 1
                st.steps += 1
                op = ins[0]
                if op == 'bin':
                    a = ins[4]
                    b = ins[5]
                    a = regs[a[1]] if a[0] else a[1]
                    b = regs[b[1]] if b[0] else b[1]
                    regs[ins[1]] = self.binop(st, ins[2], ins[3], a, b, ins[6])
                elif op == 'load':
                    p = ins[3]
                    p = regs[p[1]] if p[0] else p[1]
                    if len(st.threads) > 1 and ins[5]:
                        if self.preempt(st, p, fr):
                            break
                        self.hb_sync(st, p, ins[5], 1)
                        regs[ins[1]] = self.do_load(st, ins[2], p, ins[4])
                        self.atomic = False
                    else:
                        regs[ins[1]] = self.do_load(st, ins[2], p, ins[4])
                elif op == 'store':
                    v = ins[3]
                    v = regs[v[1]] if v[0] else v[1]
                    p = ins[4]
                    p = regs[p[1]] if p[0] else p[1]
                    if len(st.threads) > 1 and ins[6]:
                        if self.preempt(st, p, fr):
                            break
                        self.hb_sync(st, p, ins[6], 2)
                        self.do_store(st, ins[2], v, p, ins[5])
                        self.atomic = False
                    else:
                        self.do_store(st, ins[2], v, p, ins[5])
                elif op == 'gep':
                    b = ins[2]
                    b = regs[b[1]] if b[0] else b[1]
                    off = ins[3]
                    if b is UNDEF:
                        b = self.fresh(st, 64)
                    r = addx(b, off & m64, 64) if off else b
                    for iv, stride, lim, w in ins[4]:
                        x = regs[iv[1]] if iv[0] else iv[1]
                        if x is UNDEF:
                            x = self.fresh(st, w)
                        if isint(x):
                            x = sgn(x, w)
                            r = addx(r, (x * stride) & m64, 64)
                        else:
                            if w < 64:
                                x = z3.SignExt(64 - w, x)
                            x = x if stride == 1 else self.binop(
                                st, 'mul', ('i', 64), simp(x), stride & m64, 0)
                            r = addx(r, x, 64)
                    if not isint(r):
                        r = simp(r)
                    regs[ins[1]] = r
                elif op == 'icmp':
                    a = ins[4]
                    b = ins[5]
                    a = regs[a[1]] if a[0] else a[1]
                    b = regs[b[1]] if b[0] else b[1]
                    regs[ins[1]] = self.icmp(st, ins[2], ins[3], a, b)
                elif op == 'cast':
                    a = ins[5]
                    a = regs[a[1]] if a[0] else a[1]
                    regs[ins[1]] = self.cast(st, ins[2], ins[3], ins[4], a)
                elif op == 'br':
                    self.jump(st, fr, ins[2])
                    code = fr.fn.blocks[fr.blk][1]
                    if st.steps > look:
                        break
                elif op == 'condbr':
                    c = ins[2]
                    c = regs[c[1]] if c[0] else c[1]
                    if c is UNDEF:
                        c = self.fresh(st, 1) == BV(1, 1)
                    if isint(c):
                        self.jump(st, fr, ins[3] if c else ins[4])
                    else:
                        self.branch(st, fr, c, ins[3], ins[4])
                    code = fr.fn.blocks[fr.blk][1]
                    st.flags.pop("enum", None)
                    if st.steps > look:
                        break
                elif op == 'alloca':
                    n = ins[3]
                    n = regs[n[1]] if n[0] else n[1]
                    n = self.concretize(st, n, 64, "alloca size")
                    a = self.new_stack(st, ins[2] * n, ins[4], fr.fn.name)
                    fr.allocas.append(a)
                    regs[ins[1]] = a
                elif op == 'call':
                    self.call(st, fr, ins)
                    break
                elif op == 'ret':
                    v = None
                    if ins[2] is not None:
                        v = ins[2]
                        v = regs[v[1]] if v[0] else v[1]
                    for a in fr.allocas:
                        st.objs.pop(a, None)
                    th.pop()
                    if th:
                        up = th[-1]
                        if fr.retreg is not None:
                            up.regs[fr.retreg] = v
                        if fr.normaldest is not None:
                            self.jump(st, up, fr.normaldest)
                    break
                elif op == 'select':
                    c = ins[3]
                    c = regs[c[1]] if c[0] else c[1]
                    a = ins[4]
                    a = regs[a[1]] if a[0] else a[1]
                    b = ins[5]
                    b = regs[b[1]] if b[0] else b[1]
                    regs[ins[1]] = self.select(st, ins[2], c, a, b)
                elif op == 'switch':
                    v = ins[2]
                    v = regs[v[1]] if v[0] else v[1]
                    self.switch(st, fr, v, ins)
                    code = fr.fn.blocks[fr.blk][1]
                elif op == 'extractvalue':
                    a = ins[2]
                    a = regs[a[1]] if a[0] else a[1]
                    for i in ins[3]:
                        if a is UNDEF:
                            break
                        a = a[i]
                    regs[ins[1]] = a
                elif op == 'insertvalue':
                    a = ins[3]
                    a = regs[a[1]] if a[0] else a[1]
                    b = ins[4]
                    b = regs[b[1]] if b[0] else b[1]
                    regs[ins[1]] = self.insert(ins[2], a, b, ins[5])
                elif op == 'freeze':
                    a = ins[3]
                    a = regs[a[1]] if a[0] else a[1]
                    if a is UNDEF:
                        a = self.undef_of(st, ins[2])
                    regs[ins[1]] = a
                elif op == 'nop':
                    pass
                elif op == 'unreachable':
                    self.must(st, 0, "ub", "unreachable code reached")
                elif op == 'atomicrmw':
                    p = ins[4]
                    p = regs[p[1]] if p[0] else p[1]
                    v = ins[5]
                    v = regs[v[1]] if v[0] else v[1]
                    if len(st.threads) > 1:
                        if self.preempt(st, p, fr):
                            break
                        self.hb_sync(st, p, ins[6], 3)
                    old = self.do_load(st, ins[3], p, 1)
                    w = ins[3][1] if ins[3][0] == 'i' else 64
                    o2 = ins[2]
                    if o2 == 'xchg':
                        nv = v
                    elif o2 in ('add', 'sub', 'and', 'or', 'xor'):
                        nv = self.binop(st, o2, ('i', w), old, v, 0)
                    else:
                        raise Inconclusive("atomicrmw " + o2)
                    self.do_store(st, ins[3], nv, p, 1)
                    self.atomic = False
                    regs[ins[1]] = old
                elif op == 'fence':
                    if len(st.threads) > 1:
                        self.fence(st, ins[2])
                elif op == 'cmpxchg':
                    p = ins[3]
                    p = regs[p[1]] if p[0] else p[1]
                    a = ins[4]
                    a = regs[a[1]] if a[0] else a[1]
                    b = ins[5]
                    b = regs[b[1]] if b[0] else b[1]
                    if len(st.threads) > 1 and self.preempt(st, p, fr):
                        break
                    w = ins[2][1] if ins[2][0] == 'i' else 64
                    self.atomic = True
                    old = self.do_load(st, ins[2], p, 1)
                    c = self.icmp(st, 'eq', ('i', w), old, a)
                    spurious = st.flags.pop("spurious", 0)
                    if spurious:
                        c = 0
                    elif ins[8] and len(st.threads) > 1 and \
                            st.flags.get("nspur", 0) < 1:
                        # a weak exchange may fail for no reason (once)
                        s2 = self.fork(st)
                        s2.flags["spurious"] = 1
                        s2.flags["nspur"] = 1
                        s2.flags["go"] = 1
                        self.rewind(s2)
                        self.work.append(s2)
                    if len(st.threads) > 1:
                        if not isint(c):
                            raise Inconclusive("cmpxchg of symbolic values")
                        self.hb_sync(st, p, ins[6] if c else ins[7],
                                  3 if c else 1)
                        self.atomic = True
                    if c != 0:
                        self.do_store(st, ins[2], ite(c, b, old, w), p, 1)
                    self.atomic = False
                    regs[ins[1]] = (old, c)
                elif op == 'unsupported':
                    raise Inconclusive("unsupported instruction in %s: %s"
                                       % (fr.fn.name, ins[3].strip()[:160]))
                else:
                    raise Inconclusive("op " + op)
            if st.steps > self.max_steps:
                self.hang(st, "more than %d instructions on one path"
                          % self.max_steps)
            if st.steps > look:
                look = st.steps + 50000
                if time.process_time() - self.stats["solver_s"] > \
                        began + self.max_cpu:
                    self.hang(st, "more than %d instructions on one path"
                              % st.steps)

    # -- threads -------------------------------------------------------------
    def thread_done(self, st):
        """current thread finished; picks another one (forking) or ends"""
        if st.cur == 0:
            return False
        alive = [i for i in range(1, len(st.threads)) if st.threads[i]]
        if not alive:
            st.cur = 0
            st.threads = st.threads[:1]
            for k in ("hb", "hbacc", "hbstack"):
                st.flags.pop(k, None)
            return True
        self.pick(st, alive)
        return True

    def pick(self, st, cands):
        for i in cands[1:]:
            s2 = self.fork(st)
            s2.cur = i
            self.work.append(s2)
        st.cur = cands[0]

    def preempt(self, st, p, fr):
        """scheduling point before an access to shared memory.  Returns True
        when the access must not be executed now (another thread runs)."""
        if st.cur == 0:
            return False
        if st.flags.get("go"):
            st.flags["go"] = 0
            return False
        alive = [i for i in range(1, len(st.threads))
                 if st.threads[i] and i != st.cur]
        fr.ip -= 1
        me = st.cur
        nsw = st.flags.get("nsw", 0)
        if nsw < st.flags.get("maxsw", 6):
            for i in alive:
                s2 = self.fork(st)
                s2.cur = i
                s2.flags["nsw"] = nsw + 1
                s2.flags["go"] = 0
                self.work.append(s2)
        st.flags["go"] = 1
        st.sched.append(me)
        return True

    # happens-before: a vector clock per thread; hb = (clocks, what each atomic
    # object releases, released by a fence, to be acquired by a fence)
    def hb_sync(self, st, p, order, rw):
        """an atomic access of memory order `order` (LLVM's numbers: 2 relaxed,
        4 acquire, 5 release, 6 both, 7 sequentially consistent); rw: 1 load,
        2 store, 3 read-modify-write"""
        self.atomic = True
        if st.cur == 0 or "hb" not in st.flags:
            return
        if not isint(p):
            raise Inconclusive("atomic access at a symbolic address")
        vc, rel, fr, pa = st.flags["hb"]
        me = st.cur
        vc, rel, pa = dict(vc), dict(rel), dict(pa)
        old = rel.get(p)
        if rw & 1 and old:
            if order in (4, 6, 7):
                vc[me] = join_vc(vc[me], old)
            else:
                pa[me] = join_vc(pa.get(me, old), old)
        if rw & 2:
            new = vc[me] if order in (5, 6, 7) else fr.get(me)
            if rw == 3 and old:  # continues a release sequence
                new = join_vc(new, old) if new else old
            rel[p] = new
        vc[me] = vc[me][:me] + (vc[me][me] + 1,) + vc[me][me + 1:]
        st.flags["hb"] = (vc, rel, fr, pa)

    def fence(self, st, order):
        if st.cur == 0 or "hb" not in st.flags:
            return
        vc, rel, fr, pa = st.flags["hb"]
        me = st.cur
        vc, fr = dict(vc), dict(fr)
        if order in (4, 6, 7) and me in pa:
            vc[me] = join_vc(vc[me], pa[me])
        if order in (5, 6, 7):
            fr[me] = vc[me]
            vc[me] = vc[me][:me] + (vc[me][me] + 1,) + vc[me][me + 1:]
        st.flags["hb"] = (vc, rel, fr, pa)

    def race(self, st, p, n, o, write):
        """conflicting accesses of two threads must be ordered"""
        if o.ro or (o.kind == "stack" and
                    o.base not in st.flags["hbstack"]):
            return
        me = st.cur
        vc = st.flags["hb"][0][me]
        acc = dict(st.flags["hbacc"])
        k = (me, write, self.atomic)
        for b in range(p, p + n):
            seen = acc.get(b, ())
            for t, c, w, at in seen:
                if t != me and (w or write) and not (at and self.atomic) \
                        and vc[t] < c:
                    self.must(st, 0, "ub", "data race on " +
                              self.describe(st, p))
            acc[b] = tuple(x for x in seen if (x[0], x[2], x[3]) != k) + \
                ((me, vc[me], write, self.atomic),)
        st.flags["hbacc"] = acc

    # -- helpers ---------------------------------------------------------------
    def undef_of(self, st, ty):
        if ty[0] == 'i':
            if ty[1] == 1:
                return self.fresh(st, 1) == BV(1, 1)
            return self.fresh(st, ty[1])
        if ty[0] == 'p':
            return self.fresh(st, 64)
        if ty[0] == 'f':
            return self.fresh(st, ty[1])
        if ty[0] in ('a', 'v'):
            return tuple(self.undef_of(st, ty[2]) for _ in range(ty[1]))
        if ty[0] == 's':
            return tuple(self.undef_of(st, e) for e in ty[1])
        raise Inconclusive("undef type")

    def jump(self, st, fr, dst):
        phis = fr.fn.blocks[dst][0]
        if phis:
            regs = fr.regs
            vals = []
            for d, inc, ty in phis:
                v = inc[fr.blk]
                vals.append(regs[v[1]] if v[0] else v[1])
            for (d, inc, ty), v in zip(phis, vals):
                regs[d] = v
        fr.blk = dst
        fr.ip = 0

    def branch(self, st, fr, c, t, f):
        nc = z3.Not(c)
        pt = self.possible(st, c)
        pf = self.possible(st, nc)
        if pt and pf:
            if self.merge and self.try_merge(st, fr, c):
                return
            s2 = self.fork(st)
            self.add(s2, nc)
            self.jump(s2, s2.threads[s2.cur][-1], f)
            self.work.append(s2)
            self.add(st, c)
            self.jump(st, fr, t)
        elif pt:
            self.jump(st, fr, t)
        elif pf:
            self.jump(st, fr, f)
        else:
            raise Inconclusive("infeasible path")

    # -- if-conversion: a symbolic branch over a small acyclic region without
    # side effects is evaluated on both sides and joined by ite at the
    # immediate postdominator instead of forking the path.
    PURE = frozenset(('bin', 'icmp', 'cast', 'gep', 'select', 'load', 'nop',
                      'freeze', 'extractvalue', 'insertvalue'))

    def succs(self, code):
        t = code[-1]
        if t[0] == 'br':
            return [t[2]]
        if t[0] == 'condbr':
            return [t[3], t[4]]
        return None

    def region(self, fn, b):
        key = (fn.name, b)
        if key in self.regions:
            return self.regions[key]
        r = self.regions[key] = self.find_region(fn, b)
        return r

    def find_region(self, fn, b):
        """(join block, blocks in topological order) or None"""
        blocks = fn.blocks
        start = self.succs(blocks[b][1])
        # candidate joins: any block; the region is everything reachable
        # before it; the nearest one that closes the region wins
        seen = []
        order = []
        todo = list(start)
        cand = []
        lim = 0
        while todo and lim < 24:
            x = todo.pop(0)
            lim += 1
            if x in cand:
                continue
            cand.append(x)
            su = self.succs(blocks[x][1])
            if su:
                todo += su
        for j in cand:
            reg = []
            ok = True
            st = [x for x in start if x != j]
            while st and ok:
                x = st.pop()
                if x in reg:
                    continue
                code = blocks[x][1]
                su = self.succs(code)
                if su is None or x == b or len(reg) >= 10 or any(
                        i[0] not in self.PURE for i in code[:-1]):
                    ok = False
                    break
                reg.append(x)
                st += [y for y in su if y != j]
            if not ok or (not reg and start[0] != start[1]):
                continue
            # topological order, rejecting cycles
            order = []
            state = {}

            def visit(x):
                if state.get(x) == 1:
                    return False
                if state.get(x) == 2:
                    return True
                state[x] = 1
                for y in self.succs(blocks[x][1]):
                    if y != j and not visit(y):
                        return False
                state[x] = 2
                order.append(x)
                return True
            if all(visit(x) for x in start if x != j):
                order.reverse()
                return (j, order)
        return None

    def try_merge(self, st, fr, c):
        fn = fr.fn
        b = fr.blk
        rg = self.region(fn, b)
        if rg is None or len(st.threads) > 1:
            return False
        j, order = rg
        code = fn.blocks[b][1]
        t, f = code[-1][3], code[-1][4]
        edges = {}     # dst -> list of (src, guard)
        edges.setdefault(t, []).append((b, c))
        edges.setdefault(f, []).append((b, simpb(z3.Not(c))))
        regs = list(fr.regs)
        pc0, model0 = st.pc, st.model
        nforks = self.stats["forks"]

        def val(o):
            return regs[o[1]] if o[0] else o[1]

        def phi(dst):
            out = []
            inc = edges[dst]
            for d, m, ty in fn.blocks[dst][0]:
                v = val(m[inc[-1][0]])
                for src, g in reversed(inc[:-1]):
                    v2 = val(m[src])
                    if v is v2 or (isint(v) and isint(v2) and v == v2):
                        continue
                    v = self.select(st, ty, g, v2, v)
                out.append((d, v))
            return out
        saved = fr.regs
        try:
            for x in order:
                inc = edges.get(x)
                if not inc:
                    continue
                g = inc[0][1] if len(inc) == 1 else simpb(
                    z3.Or([tobool(gg) for _, gg in inc]))
                for d, v in phi(x):
                    regs[d] = v
                st.pc = PC(pc0, tobool(g))
                st.model = None
                for ins in fn.blocks[x][1]:
                    op = ins[0]
                    if op == 'bin':
                        regs[ins[1]] = self.binop(st, ins[2], ins[3],
                                                  val(ins[4]), val(ins[5]),
                                                  ins[6])
                    elif op == 'icmp':
                        regs[ins[1]] = self.icmp(st, ins[2], ins[3],
                                                 val(ins[4]), val(ins[5]))
                    elif op == 'cast':
                        regs[ins[1]] = self.cast(st, ins[2], ins[3], ins[4],
                                                 val(ins[5]))
                    elif op == 'select':
                        regs[ins[1]] = self.select(st, ins[2], val(ins[3]),
                                                   val(ins[4]), val(ins[5]))
                    elif op == 'gep':
                        p = val(ins[2])
                        if not isint(p):
                            return False
                        p += ins[3]
                        for iv, stride, lim, w in ins[4]:
                            xx = val(iv)
                            if not isint(xx):
                                return False
                            p += sgn(xx, w) * stride
                        regs[ins[1]] = p & M64
                    elif op == 'load':
                        p = val(ins[3])
                        if not isint(p):
                            return False
                        o = self.find(st, p)
                        n = ty_size(ins[2])
                        if o is None or p + n > o.base + o.size or \
                                ins[2][0] not in 'ip':
                            return False
                        regs[ins[1]] = self.do_load(st, ins[2], p, ins[4])
                    elif op == 'freeze':
                        a = val(ins[3])
                        regs[ins[1]] = self.undef_of(st, ins[2]) \
                            if a is UNDEF else a
                    elif op == 'nop':
                        pass
                    elif op == 'br':
                        edges.setdefault(ins[2], []).append((x, g))
                    elif op == 'condbr':
                        cc = val(ins[2])
                        if cc is UNDEF:
                            return False
                        for dst, c2 in ((ins[3], cc), (ins[4], notb(cc))):
                            gg = simpb(z3.And(tobool(g), tobool(c2)))
                            if isint(gg) and not gg:
                                continue
                            edges.setdefault(dst, []).append((x, gg))
                    else:
                        return False
            st.pc, st.model = pc0, model0
            res = phi(j)
        finally:
            st.pc, st.model = pc0, model0
        for d, v in res:
            fr.regs[d] = v
        fr.blk = j
        fr.ip = 0
        self.stats["merges"] = self.stats.get("merges", 0) + 1
        return True

    def switch(self, st, fr, v, ins):
        w = ins[3]
        if isint(v):
            for c, d in ins[5]:
                if c == v:
                    return self.jump(st, fr, d)
            return self.jump(st, fr, ins[4])
        targets = {}
        for c, d in ins[5]:
            targets.setdefault(d, []).append(v == BV(c, w))
        neg = z3.And([v != BV(c, w) for c, d in ins[5]]) if ins[5] \
            else z3.BoolVal(True)
        opts = [(z3.Or(cs) if len(cs) > 1 else cs[0], d)
                for d, cs in targets.items()] + [(neg, ins[4])]
        feas = [(c, d) for c, d in opts if self.possible(st, c)]
        if not feas:
            raise Inconclusive("infeasible switch")
        for c, d in feas[1:]:
            s2 = self.fork(st)
            self.add(s2, c)
            self.jump(s2, s2.threads[s2.cur][-1], d)
            self.work.append(s2)
        c, d = feas[0]
        if len(feas) > 1:
            self.add(st, c)
        self.jump(st, fr, d)

    def select(self, st, ty, c, a, b):
        if c is UNDEF:
            c = self.fresh(st, 1) == BV(1, 1)
        if isint(c):
            return a if c else b
        if a is UNDEF:
            a = self.undef_of(st, ty)
        if b is UNDEF:
            b = self.undef_of(st, ty)
        if isinstance(a, tuple):
            tys = ty[1] if ty[0] == 's' else [ty[2]] * ty[1]
            return tuple(self.select(st, t, c, x, y)
                         for t, x, y in zip(tys, a, b))
        w = 64 if ty[0] == 'p' else ty[1]
        r = ite(c, a, b, w)
        return r

    def insert(self, ty, a, b, idx):
        if not idx:
            return b
        if a is UNDEF:
            n = len(ty[1]) if ty[0] == 's' else ty[1]
            a = tuple(UNDEF for _ in range(n))
        i = idx[0]
        ety = ty[1][i] if ty[0] == 's' else ty[2]
        return a[:i] + (self.insert(ety, a[i], b, idx[1:]),) + a[i + 1:]

    def binop(self, st, op, ty, a, b, fl):
        if ty[0] == 'v':
            return tuple(self.binop(st, op, ty[2], x, y, fl)
                         for x, y in zip(a, b))
        w = ty[1]
        if a is UNDEF:
            a = self.undef_of(st, ty)
        if b is UNDEF:
            b = self.undef_of(st, ty)
        ia = type(a) is int
        ib = type(b) is int
        mask = (1 << w) - 1
        if w == 1:
            if ia and ib:
                if op in ('add', 'sub', 'xor'):
                    return a ^ b
                if op in ('and', 'mul'):
                    return a & b
                if op == 'or':
                    return a | b
                raise Inconclusive("i1 " + op)
            A, B = tobool(a), tobool(b)
            if op in ('add', 'sub', 'xor'):
                return simpb(z3.Xor(A, B))
            if op in ('and', 'mul'):
                return simpb(z3.And(A, B))
            if op == 'or':
                return simpb(z3.Or(A, B))
            raise Inconclusive("i1 " + op)
        if ia and ib:
            if op == 'add':
                r = a + b
                if fl & 1:
                    s = sgn(a, w) + sgn(b, w)
                    self.ubc(st, -(1 << (w - 1)) <= s < (1 << (w - 1)),
                             "signed overflow in addition")
                if fl & 2:
                    self.ubc(st, r <= mask, "unsigned overflow (nuw add)")
                return r & mask
            if op == 'sub':
                if fl & 1:
                    s = sgn(a, w) - sgn(b, w)
                    self.ubc(st, -(1 << (w - 1)) <= s < (1 << (w - 1)),
                             "signed overflow in subtraction")
                return (a - b) & mask
            if op == 'mul':
                if fl & 1:
                    s = sgn(a, w) * sgn(b, w)
                    self.ubc(st, -(1 << (w - 1)) <= s < (1 << (w - 1)),
                             "signed overflow in multiplication")
                return (a * b) & mask
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                self.ubc(st, b < w, "shift by %d in %d bits" % (b, w))
                if op == 'shl':
                    return (a << b) & mask
                if op == 'lshr':
                    return a >> b
                return (sgn(a, w) >> b) & mask
            self.ubc(st, b != 0, "division by zero")
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            self.ubc(st, not (sb == -1 and sa == -(1 << (w - 1))),
                     "signed division overflow")
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & mask
            return (sa - q * sb) & mask
        # ---- symbolic
        if op == 'add':
            if ib and b == 0:
                return a
            if ia and a == 0:
                return b
            A, B = bv(a, w), bv(b, w)
            if fl & 1:
                self.ubs(st, z3.And(z3.BVAddNoOverflow(A, B, True),
                                    z3.BVAddNoUnderflow(A, B)),
                         "signed overflow in addition")
            if fl & 2:
                self.ubs(st, z3.BVAddNoOverflow(A, B, False),
                         "unsigned overflow (nuw add)")
            return addx(a, b, w)
        if op == 'sub':
            if ib and b == 0:
                return a
            A, B = bv(a, w), bv(b, w)
            if fl & 1:
                self.ubs(st, z3.And(z3.BVSubNoOverflow(A, B),
                                    z3.BVSubNoUnderflow(A, B, True)),
                         "signed overflow in subtraction")
            return subx(a, b, w)
        if op == 'mul':
            A, B = bv(a, w), bv(b, w)
            for x, y in ((A, B), (B, A)):
                d = self.quotients.get(x.get_id())
                if d is not None and d[2].eq(y):
                    # (n / d) * d is n - n % d, and no larger than n
                    rem = z3.SRem if d[0] == 'sdiv' else z3.URem
                    if fl & 2 and d[0] == 'sdiv':
                        self.ubs(st, z3.BVMulNoOverflow(A, B, False),
                                 "unsigned overflow (nuw mul)")
                    if not (fl & 1 and d[0] == 'udiv'):
                        return simp(d[1] - rem(d[1], d[2]))
            if fl & 1:
                self.ubs(st, z3.And(z3.BVMulNoOverflow(A, B, True),
                                    z3.BVMulNoUnderflow(A, B)),
                         "signed overflow in multiplication")
            if ia:
                a, b, ia, ib = b, a, ib, ia
            if ib and b and not b & (b - 1):
                return simp(bv(a, w) << BV(b.bit_length() - 1, w))
            n, la, _ = split2(a, 0, w) if ib else (0, 0, 0)
            if n and la == 0:
                r = join(simp(bv(hipart(a, n, w), w - n) *
                              BV(b & ((1 << (w - n)) - 1), w - n)),
                         0, n, w)
            else:
                r = simp(A * B)
            if fl & 1 and (ib or ia) and not isint(r):
                x, c = (a, b) if ib else (b, a)
                if c < 1 << (w - 1):
                    self.products[r.get_id()] = (
                        x, c, simpb(z3.And(
                            z3.BVMulNoOverflow(x, BV(c, w), True),
                            z3.BVMulNoUnderflow(x, BV(c, w)))), r)
            return r
        if op in ('and', 'or', 'xor'):
            return bitx(op, a, b, w)
        A, B = bv(a, w), bv(b, w)
        if op in ('shl', 'lshr', 'ashr'):
            if not ib:
                self.ubs(st, z3.ULT(B, BV(w, w)),
                         "shift amount not below the width %d" % w)
            else:
                self.ubc(st, b < w, "shift by %d in %d bits" % (b, w))
            if op == 'shl':
                return simp(A << B)
            if op == 'lshr':
                return simp(z3.LShR(A, B))
            return simp(A >> B)
        if ib:
            self.ubc(st, b != 0, "division by zero")
        else:
            self.ubs(st, B != BV(0, w), "division by zero")
        if op in ('udiv', 'urem') and not ib and self.is_pow2(st, B):
            if op == 'urem':
                return bitx('and', a, subx(b, 1, w), w)
            # the logarithm of a power of two, bit by bit
            k = BV(0, w)
            for j in range((w - 1).bit_length()):
                m = sum(1 << i for i in range(w) if i >> j & 1)
                k = k | z3.If(B & BV(m, w) != BV(0, w), BV(1 << j, w),
                              BV(0, w))
            return simp(z3.LShR(A, k))
        if op in ('udiv', 'sdiv') and ib and 0 < b < 1 << (w - 1):
            # n / c / d is n / (c * d), and that is found equal more easily
            d = self.quotients.get(A.get_id())
            if d is not None and d[0] == op and z3.is_bv_value(d[2]):
                c = d[2].as_long()
                if 0 < c and c * b < 1 << (w - 1):
                    A, b = d[1], c * b
                    B = BV(b, w)
        if op == 'sdiv' and ib and 0 < b < 1 << (w - 1):
            # x * c / d with a common divisor of c and d
            x = self.products.get(A.get_id())
            if x is not None and math.gcd(x[1], b) > 1 and \
                    (x[2] == 1 if isint(x[2]) else
                         not self.possible(st, z3.Not(x[2]))):
                g = math.gcd(x[1], b)
                a = x[0] if x[1] == g else simp(x[0] * BV(x[1] // g, w))
                if b == g:
                    return a
                A, b = bv(a, w), b // g
                B = BV(b, w)
                self.products[A.get_id()] = (x[0], x[1] // g, x[2], A)
        if op == 'udiv':
            r = simp(z3.UDiv(A, B))
            if not isint(r):
                self.quotients[r.get_id()] = (op, A, B, r)
            return r
        if op == 'urem':
            return simp(z3.URem(A, B))
        if not (ib and b != mask):
            self.ubs(st, z3.Not(z3.And(B == BV(mask, w),
                                       A == BV(1 << (w - 1), w))),
                     "signed division overflow")
        if op == 'sdiv':
            r = simp(A / B)
            if not isint(r):
                self.quotients[r.get_id()] = (op, A, B, r)
            return r
        return simp(z3.SRem(A, B))

    def is_pow2(self, st, B):
        """is B a power of two on this path, provably? (B is not 0)"""
        w = B.size()
        c = simpb(B & (B - BV(1, w)) == BV(0, w))
        if isint(c):
            return bool(c)
        f = st.facts.get(c.get_id())
        if f is not None:
            return f[1]
        try:
            if st.model is not None and z3.is_false(
                    st.model.eval(c, model_completion=True)):
                return False
            if self.query(st, z3.Not(c)) is not None:
                return False
        except Inconclusive:
            return False
        self.fact(st, c, True)
        return True

    def ubc(self, st, ok, msg):
        if not ok and self.checks_ub:
            self.must(st, 0, "ub", msg)

    def ubs(self, st, cond, msg):
        if self.checks_ub:
            self.stats["ubchecks"] += 1
            self.must(st, cond, "ub", msg)

    def icmp(self, st, pred, ty, a, b):
        if a is UNDEF:
            a = self.undef_of(st, ty)
        if b is UNDEF:
            b = self.undef_of(st, ty)
        w = 64 if ty[0] == 'p' else ty[1]
        if isint(a) and isint(b):
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            p = pred[1:]
            return int(a > b if p == 'gt' else a >= b if p == 'ge' else
                       a < b if p == 'lt' else a <= b)
        if w == 1:
            A, B = tobool(a), tobool(b)
            if pred == 'eq':
                return simpb(A == B)
            if pred == 'ne':
                return simpb(A != B)
            raise Inconclusive("i1 icmp")
        if pred[0] != 's':
            return cmpx(pred, a, b, w)
        A, B = bv(a, w), bv(b, w)
        if pred == 'eq':
            e = A == B
        elif pred == 'ne':
            e = A != B
        elif pred == 'ugt':
            e = z3.UGT(A, B)
        elif pred == 'uge':
            e = z3.UGE(A, B)
        elif pred == 'ult':
            e = z3.ULT(A, B)
        elif pred == 'ule':
            e = z3.ULE(A, B)
        elif pred == 'sgt':
            e = A > B
        elif pred == 'sge':
            e = A >= B
        elif pred == 'slt':
            e = A < B
        else:
            e = A <= B
        return simpb(e)

    def cast(self, st, op, t1, t2, a):
        if t1[0] == 'v':
            return tuple(self.cast(st, op, t1[2], t2[2], x) for x in a)
        if a is UNDEF:
            a = self.undef_of(st, t1)
        w1 = 64 if t1[0] == 'p' else t1[1]
        w2 = 64 if t2[0] == 'p' else t2[1]
        if op == 'bitcast':
            return a
        if op in ('ptrtoint', 'inttoptr'):
            op = 'trunc' if w2 < w1 else 'zext'
        if w1 == w2:
            return a
        if isint(a):
            if op == 'trunc':
                return a & ((1 << w2) - 1)
            if op == 'zext':
                return a
            return sgn(a, w1) & ((1 << w2) - 1)
        if op == 'trunc':
            if w2 == 1:
                return simpb(z3.Extract(0, 0, a) == BV(1, 1))
            return simp(z3.Extract(w2 - 1, 0, a))
        if w1 == 1:
            one = 1 if op == 'zext' else (1 << w2) - 1
            return z3.If(a, BV(one, w2), BV(0, w2))
        if op == 'zext':
            return simp(z3.ZeroExt(w2 - w1, a))
        return simp(z3.SignExt(w2 - w1, a))

    def access(self, st, p, n, what, write):
        """resolves an access of n bytes at p to (object, offset), forking
        over the feasible addresses; any feasible invalid address is a
        violation"""
        if p is UNDEF:
            self.must(st, 0, "memory", what + " through undefined pointer")
        if not isint(p):
            p = simp(p)
            if not isint(p) and st.known:
                p = simp(self.subst(st, p))
        if not isint(p):
            self.addr_valid(st, p, n, what, write)
            p = self.concretize(st, p, 64, "address")
        o = self.find(st, p)
        if o is None or p + n > o.base + o.size or p < o.base:
            if n == 0:
                return None, 0
            self.must(st, 0, "memory", "%s of %d bytes at invalid address "
                      "(%s)" % (what, n, self.describe(st, p)))
        if write and o.ro:
            self.must(st, 0, "memory", "write to constant " + o.name)
        if st.cur and "hb" in st.flags:
            self.race(st, p, n, o, write)
        return o, p - o.base

    def describe(self, st, p):
        if p < 4096:
            return "null%+d" % p
        o = self.find(st, p)
        if o is not None:
            if o.kind == "global":
                return "%d bytes past %s %s" % (
                    p - o.base - o.size, o.kind, o.name)
            return "%d bytes past a %s object of %d bytes" % (
                p - o.base - o.size, o.kind, o.size)
        return "not an object the code may touch"

    def addr_valid(self, st, p, n, what, write):
        """one query: may p lie outside the object a model puts it in?"""
        m = self.getmodel(st)
        v = m.eval(p, model_completion=True).as_long()
        o = self.find(st, v)
        if o is None or v + n > o.base + o.size:
            self.violation(st, "memory", "%s of %d bytes at invalid address "
                           "(%s)" % (what, n, self.describe(st, v)), m)

    def do_load(self, st, ty, p, al):
        k = ty[0]
        if k in ('a', 's'):
            n = ty_size(ty)
            o, off = self.access(st, p, n, "read", False)
            return self.load_agg(st, ty, o, off)
        n = store_size(ty) if k == 'i' else ty_size(ty)
        if not isint(p) and p is not UNDEF:
            r = self.table_load(st, p, n, ty)
            if r is not None:
                return r
        o, off = self.access(st, p, n, "read", False)
        if k == 'v':
            return self.load_agg(st, ty, o, off)
        v = self.load(st, o, off, n)
        return self.fit(v, ty, n)

    def fit(self, v, ty, n):
        if ty[0] == 'i' and ty[1] != 8 * n:
            w = ty[1]
            if isint(v):
                return v & ((1 << w) - 1)
            if w == 1:
                return simpb(z3.Extract(0, 0, v) == BV(1, 1))
            return simp(z3.Extract(w - 1, 0, v))
        return v

    def table_load(self, st, p, n, ty):
        """a read of a constant table at base + stride*index: one ite chain"""
        m = self.getmodel(st)
        v = m.eval(p, model_completion=True).as_long()
        o = self.find(st, v)
        if o is None or not o.ro or o.kind != "global" or o.size > 8192:
            return None
        lo, hi = BV(o.base, 64), BV(o.base + o.size - n, 64)
        bad = z3.Or(z3.ULT(p, lo), z3.UGT(p, hi))
        mm = self.query(st, bad)
        if mm is not None:
            vv = mm.eval(p, model_completion=True).as_long()
            oo = self.find(st, vv)
            if oo is None or vv + n > oo.base + oo.size:
                self.violation(
                    st, "memory", "read of %d bytes at invalid address (%s)"
                    % (n, self.describe(st, vv)), mm)
            return None
        key = ("tbl", o.base, n)
        off = z3.simplify(p - lo)
        stride = n
        # alignment of the index
        if n > 1 and self.query(st, z3.URem(off, BV(n, 64)) != 0) is not None:
            return None
        cnt = o.size // stride
        vals = [self.load(st, o, i * stride, n) for i in range(cnt)]
        idx = z3.UDiv(off, BV(n, 64)) if n > 1 else off
        bits = max(1, (cnt - 1).bit_length())
        idx = z3.simplify(z3.Extract(bits - 1, 0, idx))

        def tree(lo_, bit):
            if lo_ >= cnt:
                return vals[cnt - 1]
            if bit < 0:
                return vals[lo_]
            a = tree(lo_, bit - 1)
            b = tree(lo_ + (1 << bit), bit - 1)
            if isint(a) and isint(b) and a == b:
                return a
            return z3.If(z3.Extract(bit, bit, idx) == BV(1, 1),
                         bv(b, 8 * n), bv(a, 8 * n))
        return self.fit(tree(0, bits - 1), ty, n)

    def load_agg(self, st, ty, o, off):
        k = ty[0]
        if k in ('a', 'v'):
            s = ty[3] if k == 'a' else ty_size(ty[2])
            return tuple(self.load_agg(st, ty[2], st.objs[o.base],
                                       off + i * s) for i in range(ty[1]))
        if k == 's':
            return tuple(self.load_agg(st, e, st.objs[o.base], off + ty[2][i])
                         for i, e in enumerate(ty[1]))
        n = store_size(ty) if k == 'i' else ty_size(ty)
        return self.fit(self.load(st, o, off, n), ty, n)

    def do_store(self, st, ty, v, p, al):
        k = ty[0]
        if k in ('a', 's', 'v'):
            n = ty_size(ty)
            o, off = self.access(st, p, n, "write", True)
            self.store_agg(st, ty, v, o, off)
            return
        n = store_size(ty) if k == 'i' else ty_size(ty)
        if v is UNDEF:
            v = self.undef_of(st, ty)
        if k == 'i' and ty[1] != 8 * n:
            if not isint(v):
                v = z3.If(v, BV(1, 8), BV(0, 8)) if ty[1] == 1 else \
                    simp(z3.ZeroExt(8 * n - ty[1], v))
        o, off = self.access(st, p, n, "write", True)
        self.store(st, o, off, v, n)

    def store_agg(self, st, ty, v, o, off):
        if v is UNDEF:
            return
        k = ty[0]
        if k in ('a', 'v'):
            s = ty[3] if k == 'a' else ty_size(ty[2])
            for i in range(ty[1]):
                self.store_agg(st, ty[2], v[i], o, off + i * s)
            return
        if k == 's':
            for i, e in enumerate(ty[1]):
                self.store_agg(st, e, v[i], o, off + ty[2][i])
            return
        n = store_size(ty) if k == 'i' else ty_size(ty)
        if k == 'i' and ty[1] != 8 * n and not isint(v):
            v = z3.If(v, BV(1, 8), BV(0, 8)) if ty[1] == 1 else \
                simp(z3.ZeroExt(8 * n - ty[1], v))
        self.store(st, st.objs[o.base], off, v, n)

    # -- calls -----------------------------------------------------------------
    def call(self, st, fr, ins):
        _, d, name, callee, args, atys, rty, nd = ins
        regs = fr.regs
        av = [regs[a[1]] if a[0] else a[1] for a in args]
        if name is None:
            t = regs[callee[1]] if callee[0] else callee[1]
            if isinstance(t, tuple):
                raise Inconclusive("inline assembly in " + fr.fn.name)
            if not isint(t):
                t = self.concretize(st, t, 64, "called function")
            f = self.m.by_addr.get(t)
            if f is None:
                self.must(st, 0, "memory", "call through a pointer that is "
                          "not a function")
            name = f.name
        else:
            f = self.m.funcs.get(name)
        self.execute_call(st, fr, name, f, av, atys, rty, d, nd)

    def execute_call(self, st, fr, name, f, av, atys, rty, d, nd):
        h = self.ext.get(name)
        if h is None and (f is None or f.decl):
            for pre, hh in PREFIX:
                if name.startswith(pre):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, av, atys, rty, name)
            if r is not None:
                fr.regs[d] = r
            elif rty[0] != 'void':
                fr.regs[d] = UNDEF
            st.flags.pop("enum", None)
            if nd is not None:
                self.jump(st, fr, nd)
            return
        if f is None or f.decl:
            raise Inconclusive("call of %s, which has no body here" % name)
        self.push(st, f, av, d if rty[0] != 'void' else None, nd)


# ------------------------------------------------------------------ externals
def c_str(e, st, p):
    if not isint(p):
        return "?"
    c = e.strs.get(p)
    if c is not None:
        return c
    o = e.find(st, p)
    s = []
    off = p - o.base
    while off < o.size:
        b = e.load_byte(st, o, off)
        if not isint(b) or b == 0:
            break
        s.append(chr(b))
        off += 1
    if o.ro:
        e.strs[p] = "".join(s)
    return "".join(s)


def x_nop(e, st, a, t, r, n):
    return 0 if r[0] in ('i', 'p') else None


def mk_sym(w):
    def f(e, st, a, t, r, n):
        name = c_str(e, st, a[0])
        forced = e.forced.get(len(st.inputs)) if e.forced else None
        if forced is not None:
            v = forced
        else:
            v = z3.BitVec("%s#%d" % (name, len(st.inputs)), w)
        st.inputs.append((name, w, v))
        return v
    return f


Engine.forced = None


def x_sym_bool(e, st, a, t, r, n):
    v = z3.Bool("%s#%d" % (c_str(e, st, a[0]), len(st.inputs)))
    st.inputs.append((c_str(e, st, a[0]), 1, v))
    return v if r[1] == 1 else z3.If(v, BV(1, r[1]), BV(0, r[1]))


def x_sym_choose(e, st, a, t, r, n):
    """uint64 in [0, n): forks into one path per value"""
    k = a[1]
    if not isint(k):
        raise Inconclusive("sym_choose with a symbolic bound")
    name = c_str(e, st, a[0])
    if k == 0:
        raise PathEnd("dropped")
    fr = st.threads[st.cur][-1]
    if st.flags.get("choose") is not None:
        v = st.flags.pop("choose")
    else:
        v = 0
        for i in range(1, k):
            s2 = e.fork(st)
            s2.flags["choose"] = i
            e.rewind(s2)
            e.work.append(s2)
    st.inputs.append((name, 64, v))
    return v


def x_sym_bytes(e, st, a, t, r, n):
    p, cnt = a[1], a[2]
    cnt = e.concretize(st, cnt, 64, "sym_bytes size")
    o, off = e.access(st, p, cnt, "write", True)
    name = c_str(e, st, a[0])
    for i in range(cnt):
        v = z3.BitVec("%s[%d]#%d" % (name, i, len(st.inputs)), 8)
        st.inputs.append((name, 8, v))
        e.store(st, st.objs[o.base], off + i, v, 1)


def cond_of(x):
    if isint(x):
        return int(x != 0)
    if z3.is_bool(x):
        return x
    return simpb(x != BV(0, x.size()))


def x_assume(e, st, a, t, r, n):
    c = cond_of(a[0])
    if isint(c):
        if not c:
            raise PathEnd("dropped")
        return
    if not e.possible(st, c):
        raise PathEnd("dropped")
    e.add(st, c)


def x_assert(e, st, a, t, r, n):
    e.stats["asserts"] += 1
    e.must(st, cond_of(a[0]), "assert", c_str(e, st, a[1]))


def x_reach(e, st, a, t, r, n):
    a = [e.concretize(st, a[0], 64, "label")]
    st.labels.add(c_str(e, st, a[0]))


def x_observe(e, st, a, t, r, n):
    st.obs.append((c_str(e, st, a[0]), 64, a[1]))


def x_expect_abort(e, st, a, t, r, n):
    st.flags["abort_ok"] = a[0]


def x_concretize(e, st, a, t, r, n):
    return e.concretize(st, a[0], 64, "sym_concretize")


def x_is_valid(e, st, a, t, r, n):
    p, k = a
    if not (isint(p) and isint(k)):
        raise Inconclusive("sym_is_valid on symbolic pointer")
    o = e.find(st, p)
    return int(o is not None and p + k <= o.base + o.size)


def x_abort(e, st, a, t, r, n):
    why = n
    if n == "__assert_fail":
        why = "assertion `%s' in %s:%s" % (
            c_str(e, st, a[0]), c_str(e, st, a[1]).split("/")[-1], a[2])
    ok = st.flags.get("abort_ok", 0)
    if ok:
        st.flags["end"] = "abort"
        st.labels.add("aborted")
        e.stats["aborts"] += 1
        raise PathEnd("abort")
    e.must(st, 0, "abort", "unexpected " + why)


def x_ub(e, st, a, t, r, n):
    e.must(st, 0, "ub", "trap (%s)" % n)


def x_fail(e, st, a, t, r, n):
    e.must(st, 0, "abort", "library error " + n)


def x_exit(e, st, a, t, r, n):
    e.must(st, 0, "abort", "the process exits")


def x_memcpy(e, st, a, t, r, n):
    d, s, k = a[0], a[1], a[2]
    k = e.concretize(st, k, 64, n + " size")
    if k:
        d = e.access_pin(st, d, k, "write by " + n, True)
        s = e.access_pin(st, s, k, "read by " + n, False)
        do, doff = d
        so, soff = s
        if "memcpy" in n and do is so and not (
                doff + k <= soff or soff + k <= doff or doff == soff):
            e.must(st, 0, "ub", "memcpy on overlapping ranges")
        e.copy_range(st, st.objs[so.base], soff, st.objs[do.base], doff, k)
    return a[0] if r[0] == 'p' else None


def access_pin(self, st, p, n, what, write):
    return self.access(st, p, n, what, write)


Engine.access_pin = access_pin


def x_memset(e, st, a, t, r, n):
    d, v, k = a[0], a[1], a[2]
    w = t[1][1]
    if v is UNDEF:
        v = 0
    v = (v & 255) if isint(v) else (simp(z3.Extract(7, 0, v)) if w > 8 else v)
    k = e.concretize(st, k, 64, "memset size")
    if k:
        o, off = e.access(st, d, k, "write by memset", True)
        o = e.wr(st, o)
        e.split(o, off)
        e.split(o, off + k)
        if isint(v) and off == 0 and k == o.size:
            o.cells.clear()
            o.fill = v
        else:
            j = off
            for j in range(off, off + k):
                o.cells[j] = (v, 1)
    return a[0] if r[0] == 'p' else None


def x_memcmp(e, st, a, t, r, n):
    k = e.concretize(st, a[2], 64, "memcmp size")
    if k == 0:
        return 0
    o1, f1 = e.access(st, a[0], k, "read by memcmp", False)
    o2, f2 = e.access(st, a[1], k, "read by memcmp", False)
    res = 0
    for i in range(k - 1, -1, -1):
        x = e.load_byte(st, st.objs[o1.base], f1 + i)
        y = e.load_byte(st, st.objs[o2.base], f2 + i)
        if isint(x) and isint(y):
            if x != y:
                res = 1 if x > y else M64 >> 32
        else:
            X, Y = bv(x, 8), bv(y, 8)
            res = z3.If(X == Y, bv(res, 32),
                        z3.If(z3.UGT(X, Y), BV(1, 32), BV(0xffffffff, 32)))
    return simp(res) if not isint(res) else res


def x_strlen(e, st, a, t, r, n):
    return len(c_str(e, st, a[0]))


def x_malloc(e, st, a, t, r, n):
    k = e.concretize(st, a[0], 64, "malloc size")
    return e.new_heap(st, k, 16, n)


def x_new_al(e, st, a, t, r, n):
    k = e.concretize(st, a[0], 64, "new size")
    al = e.concretize(st, a[1], 64, "new alignment")
    return e.new_heap(st, k, al, n)


def x_free(e, st, a, t, r, n):
    p = a[0]
    if not isint(p):
        p = e.concretize(st, p, 64, "freed pointer")
    if p == 0:
        return
    o = e.find(st, p)
    if o is None or o.base != p or o.kind != "heap":
        e.must(st, 0, "memory", "free of a pointer that is not a live heap "
               "allocation")
    z = st.flags.get("zfree")
    if z and z[0] == p:
        for i in range(z[1]):
            b = e.load_byte(st, o, i)
            if isint(b):
                ok = int(b == 0)
            elif b is UNDEF:
                ok = 0
            else:
                ok = simpb(b == BV(0, 8))
            e.stats["asserts"] += 1
            e.must(st, ok, "assert", "memory given back holds its contents no "
                   "more")
    del st.objs[p]


def x_free_zeroed(e, st, a, t, r, n):
    """from here on the first n bytes of the heap object p must be zero when
    it is freed"""
    st.flags["zfree"] = (a[0], e.concretize(st, a[1], 64, "size"))


def x_sym_object(e, st, a, t, r, n):
    size = e.concretize(st, a[0], 64, "object size")
    al = e.concretize(st, a[1], 64, "object alignment")
    off = e.concretize(st, a[2], 64, "object offset")
    return e.new_heap(st, size, al, "object", off)


def x_minmax(e, st, a, t, r, n):
    k = n.split(".")[1]
    p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k]
    return e.select(st, t[0], e.icmp(st, p, t[0], a[0], a[1]), a[0], a[1])


def x_cttz(e, st, a, t, r, n):
    w = r[1]
    x, zp = a[0], a[1]
    if isint(x):
        if x == 0:
            if zp:
                e.ubc(st, 0, "count of zero bits of zero")
            return w
        if "cttz" in n:
            return (x & -x).bit_length() - 1
        return w - x.bit_length()
    if zp:
        e.ubs(st, x != BV(0, w), "count of zero bits of zero")
    res = BV(w, w)
    rng = range(w - 1, -1, -1) if "cttz" in n else range(w)
    for i in rng:
        c = i if "cttz" in n else w - 1 - i
        res = z3.If(z3.Extract(i, i, x) == BV(1, 1), BV(c, w), res)
    return res


def x_ctpop(e, st, a, t, r, n):
    w = r[1]
    x = a[0]
    if isint(x):
        return bin(x).count("1")
    s = BV(0, w)
    for i in range(w):
        s = s + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
    return s


def x_bswap(e, st, a, t, r, n):
    w = r[1]
    x = a[0]
    if isint(x):
        return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x)
                            for i in range(w // 8)]))


def x_ovf(e, st, a, t, r, n):
    k = n.split(".")[1]
    w = t[0][1]
    sg, op = k[0] == 's', k[1:4]
    x, y = a
    if isint(x) and isint(y):
        X, Y = (sgn(x, w), sgn(y, w)) if sg else (x, y)
        v = X + Y if op == 'add' else X - Y if op == 'sub' else X * Y
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else \
            (0, (1 << w) - 1)
        return (v & ((1 << w) - 1), int(not lo <= v <= hi))
    X, Y = bv(x, w), bv(y, w)
    if op == 'add':
        v = X + Y
        ok = z3.BVAddNoOverflow(X, Y, sg)
        if sg:
            ok = z3.And(ok, z3.BVAddNoUnderflow(X, Y))
    elif op == 'sub':
        v = X - Y
        ok = z3.BVSubNoUnderflow(X, Y, sg)
        if sg:
            ok = z3.And(ok, z3.BVSubNoOverflow(X, Y))
    else:
        v = X * Y
        ok = z3.BVMulNoOverflow(X, Y, sg)
        if sg:
            ok = z3.And(ok, z3.BVMulNoUnderflow(X, Y))
    return (simp(v), simpb(z3.Not(ok)))


def x_abs(e, st, a, t, r, n):
    w = r[1]
    x = a[0]
    if isint(x):
        return abs(sgn(x, w)) & ((1 << w) - 1)
    return z3.If(x < 0, -x, x)


def x_fsh(e, st, a, t, r, n):
    w = r[1]
    k = a[2]
    if not isint(k):
        k = e.concretize(st, k, w, "rotate amount")
    k %= w
    A, B = bv(a[0], w), bv(a[1], w)
    c = z3.Concat(A, B)
    if "fshl" in n:
        return simp(z3.Extract(2 * w - 1 - k, w - k, c)) if k else a[0]
    return simp(z3.Extract(k + w - 1, k, c)) if k else a[1]


def x_first(e, st, a, t, r, n):
    return a[0]


def x_llassume(e, st, a, t, r, n):
    e.must(st, cond_of(a[0]), "ub", "llvm.assume does not hold")


def x_zero(e, st, a, t, r, n):
    return 0


def x_guard_acquire(e, st, a, t, r, n):
    if st.cur:
        # another thread is initialising: wait until it is done
        own = st.flags.get("guards", {}).get(a[0])
        if own is not None and own != st.cur:
            blocked = st.flags.get("blocked", frozenset()) | {st.cur}
            st.flags["blocked"] = blocked
            cands = [i for i in range(1, len(st.threads))
                     if st.threads[i] and i not in blocked]
            if not cands:
                raise Inconclusive("deadlock in initialisation")
            e.rewind(st)
            e.pick(st, cands)
            return 0
        e.hb_sync(st, a[0], 4, 1)
    o, off = e.access(st, a[0], 1, "guard", False)
    e.atomic = False
    v = e.load(st, o, off, 1)
    if st.cur and v == 0:
        st.flags["guards"] = dict(st.flags.get("guards", {}))
        st.flags["guards"][a[0]] = st.cur
    return int(v == 0)


def x_guard_release(e, st, a, t, r, n):
    if st.cur:
        e.hb_sync(st, a[0], 5, 2)
        st.flags["guards"] = {k: v for k, v in st.flags.get(
            "guards", {}).items() if k != a[0]}
        st.flags["blocked"] = frozenset()
    o, off = e.access(st, a[0], 1, "guard", True)
    e.atomic = False
    e.store(st, o, off, 1, 1)


def x_div(e, st, a, t, r, n):
    w = 32 if n == "div" else 64
    q = e.binop(st, 'sdiv', ('i', w), a[0], a[1], 0)
    m = e.binop(st, 'srem', ('i', w), a[0], a[1], 0)
    if n == "div":
        if isint(q) and isint(m):
            return q | (m << 32)
        return simp(z3.Concat(bv(m, 32), bv(q, 32)))
    return (q, m)


def x_spawn(e, st, a, t, r, n):
    """sym_spawn(fn, arg): registers a thread; it starts at sym_join"""
    pend = list(st.flags.get("pending", ()))
    pend.append((a[0], a[1]))
    st.flags["pending"] = tuple(pend)


def x_join(e, st, a, t, r, n):
    pend = st.flags.pop("pending", ())
    st.flags["maxsw"] = a[0]
    st.flags["nsw"] = 0
    for fa, arg in pend:
        f = e.m.by_addr[fa]
        st.threads.append([])
        st.cur = len(st.threads) - 1
        e.push(st, f, [arg], None)
    k = len(st.threads)
    cands = list(range(1, k))
    st.flags["hb"] = ({i: tuple(int(i == j) for j in range(k))
                       for i in cands}, {}, {}, {})
    st.flags["hbacc"] = {}
    st.flags["hbstack"] = frozenset(o.base for o in st.objs.values()
                                    if o.kind == "stack")
    st.cur = 0
    # the frame of thread 0 must already have advanced
    e.pick(st, cands)


EXTERNS = {
    "sym_u8": mk_sym(8), "sym_u16": mk_sym(16), "sym_u32": mk_sym(32),
    "sym_u64": mk_sym(64), "sym_bool": x_sym_bool,
    "sym_choose": x_sym_choose, "sym_bytes": x_sym_bytes,
    "sym_assume": x_assume, "sym_assert": x_assert, "sym_reach": x_reach,
    "sym_observe": x_observe, "sym_expect_abort": x_expect_abort,
    "sym_concretize": x_concretize, "sym_is_valid": x_is_valid,
    "sym_free_zeroed": x_free_zeroed,
    "sym_object": x_sym_object, "sym_spawn": x_spawn, "sym_join": x_join,
    "abort": x_abort, "__assert_fail": x_abort,
    "_ZSt9terminatev": x_abort, "__cxa_pure_virtual": x_fail,
    "exit": x_exit, "_exit": x_exit, "_Exit": x_exit, "quick_exit": x_exit,
    "fputc": x_zero, "putc": x_zero, "putchar": x_zero, "snprintf": x_zero,
    "malloc": x_malloc, "_Znwm": x_malloc, "_Znam": x_malloc,
    "_ZnwmRKSt9nothrow_t": x_malloc,
    "_ZnwmSt11align_val_t": x_new_al, "_ZnamSt11align_val_t": x_new_al,
    "free": x_free, "_ZdlPv": x_free, "_ZdaPv": x_free, "_ZdlPvm": x_free,
    "_ZdaPvm": x_free, "_ZdlPvSt11align_val_t": x_free,
    "_ZdlPvmSt11align_val_t": x_free,
    "memcpy": x_memcpy, "memmove": x_memcpy, "memset": x_memset,
    "memcmp": x_memcmp, "bcmp": x_memcmp, "strlen": x_strlen,
    "div": x_div, "ldiv": x_div, "lldiv": x_div,
    "__cxa_guard_acquire": x_guard_acquire,
    "__cxa_guard_release": x_guard_release,
    "__cxa_atexit": x_zero, "vfprintf": x_zero, "fprintf": x_zero,
    "printf": x_zero, "puts": x_zero, "fflush": x_zero, "fputs": x_zero,
    "fwrite": x_zero, "perror": x_nop, "vsnprintf": x_zero,
    "_ZNSt8ios_base4InitC1Ev": x_nop, "_ZNSt8ios_base4InitD1Ev": x_nop,
}
PREFIX = [
    ("llvm.memcpy", x_memcpy), ("llvm.memmove", x_memcpy),
    ("llvm.memset", x_memset), ("llvm.lifetime", x_nop),
    ("llvm.dbg", x_nop), ("llvm.va_", x_nop), ("llvm.umin", x_minmax),
    ("llvm.umax", x_minmax), ("llvm.smin", x_minmax),
    ("llvm.smax", x_minmax), ("llvm.cttz", x_cttz), ("llvm.ctlz", x_cttz),
    ("llvm.ctpop", x_ctpop), ("llvm.bswap", x_bswap),
    ("llvm.uadd.with", x_ovf), ("llvm.sadd.with", x_ovf),
    ("llvm.usub.with", x_ovf), ("llvm.ssub.with", x_ovf),
    ("llvm.umul.with", x_ovf), ("llvm.smul.with", x_ovf),
    ("llvm.abs", x_abs), ("llvm.fshl", x_fsh), ("llvm.fshr", x_fsh),
    ("llvm.expect", x_first), ("llvm.assume", x_llassume),
    ("llvm.ubsantrap", x_ub), ("llvm.trap", x_ub),
    ("llvm.is.constant", x_zero), ("llvm.experimental.noalias", x_nop),
    ("llvm.launder", x_first), ("llvm.strip", x_first),
    ("llvm.threadlocal.address", x_first),
    ("_ZSt2", x_fail), ("_ZSt1", x_fail),
]
