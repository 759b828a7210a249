"""Symbolic execution of LLVM IR functions for contract checking.

All paths are explored (no bound) unless a loop without an invariant has a
symbolic trip count, in which case the run is marked bounded.  Memory is a set
of regions; a region's contents are a concrete-offset cell map or a write log
over an uninterpreted initial array, so symbolic sizes cost nothing."""
import time
import z3
from .ir import (Unsupported, Module, PTR, VOID)

z3.set_param('smt.random_seed', 1)

B64 = z3.BitVecSort(64)


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    pass


def is_z(v):
    return isinstance(v, z3.ExprRef)


def norm(v):
    """z3 numeral -> python int; true/false -> bool"""
    if isinstance(v, z3.BitVecNumRef):
        return v.as_long()
    if isinstance(v, z3.BoolRef):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def simp(v):
    if is_z(v):
        return norm(z3.simplify(v))
    return v


def bv(v, n=64):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), n)
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    if isinstance(v, Ptr):
        return v.addr()
    return v


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    if isinstance(v, z3.BitVecRef):
        return v != 0
    return v


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def zand(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    return z3.And(*[zb(x) for x in a])


class Region:
    """A block of memory with its own address space."""
    __slots__ = ('name', 'size', 'init', 'const', '_base', 'kind', 'info', 'ex')

    def __init__(self, name, size, init=None, const=False, kind='heap', base=None):
        self.name = name
        self.size = size          # int, BV64 or None (unknown)
        self.init = init          # None: uninitialised; else f(off, size)
        self.const = const
        self.kind = kind
        self._base = base
        self.ex = None
        self.info = {}

    @property
    def base(self):
        b = self._base
        if b is None:
            b = self._base = z3.BitVec('&' + self.name, 64)
            if self.ex is not None:
                self.ex.axioms.append(b != 0)
                self.ex.axioms.append(b & 15 == 0)
        return b

    @base.setter
    def base(self, v):
        self._base = v

    def __repr__(self):
        return '<%s>' % self.name


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=0):
        self.r = r
        self.o = o

    def addr(self):
        if isinstance(self.o, int) and self.o == 0:
            return self.r.base
        return self.r.base + bv(self.o)

    def __add__(self, d):
        return Ptr(self.r, add64(self.o, d))

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.r.name, self.o)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def addr(self):
        return z3.BitVec('&fn:' + self.name, 64)


class Label:
    """Address of a basic block."""
    __slots__ = ('fn', 'label')

    def __init__(self, fn, label):
        self.fn = fn
        self.label = label

    def addr(self):
        return z3.BitVec('&bb:%s:%s' % (self.fn, self.label), 64)


class CodeTok:
    """An unresolved entry of a table of code addresses."""
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r
        self.o = o

    def addr(self):
        return z3.Function('code:' + self.r.name, B64, B64)(bv(self.o))


POINTERS = (Ptr, FnPtr, Label, CodeTok)
M64 = (1 << 64) - 1


def add64(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & M64
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return simp(bv(a) + bv(b))


def mul64(a, k):
    if isinstance(a, int):
        return (a * k) & M64
    if k == 1:
        return a
    return bv(a) * z3.BitVecVal(k, 64)


class Undef:
    pass


UNDEF = Undef()


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'regs', 'prev', 'retreg', 'loops', 'names', 'tag', 'visits')

    def __init__(self, fn):
        self.fn = fn
        self.block = None
        self.idx = 0
        self.regs = {}
        self.prev = None
        self.retreg = None
        self.loops = {}     # header -> loop record
        self.names = {}     # alloca name -> Region
        self.tag = None
        self.visits = {}

    def clone(self):
        f = Frame(self.fn)
        f.block = self.block
        f.idx = self.idx
        f.regs = dict(self.regs)
        f.prev = self.prev
        f.retreg = self.retreg
        f.loops = dict(self.loops)
        f.names = dict(self.names)
        f.tag = self.tag
        f.visits = dict(self.visits)
        return f


class Cells:
    """Concrete-offset memory: offset -> (size, value); immutable."""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class Log:
    """Write log, newest first; immutable linked list.
    kinds: 'w' (off, size, value), 'b' bulk (cond(off,n)->in?, read(off,n)),"""
    __slots__ = ('prev', 'kind', 'off', 'size', 'val')

    def __init__(self, prev, kind, off, size, val):
        self.prev = prev
        self.kind = kind
        self.off = off
        self.size = size
        self.val = val


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.ghost = {}
        self.ret = None
        self.end = None
        self.trace = []

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.ret = self.ret
        s.end = self.end
        s.trace = list(self.trace)
        return s

    @property
    def top(self):
        return self.frames[-1]


class Obligation:
    def __init__(self, name, status, secs, backend, detail=None, model=None):
        self.name = name
        self.status = status      # proved / refuted / unknown
        self.secs = secs
        self.backend = backend
        self.detail = detail
        self.model = model


class Ex:
    def __init__(self, modules, feas_timeout=2000, prove_timeout=30000, max_paths=4000,
                 max_steps=2000000, unroll=64):
        self.mods = modules if isinstance(modules, list) else [modules]
        self.regions = {}
        self.nfresh = 0
        self.obls = []
        self.contracts = {}
        self.trusted = {}
        self.loop_specs = {}
        self.addr_hook = None       # address -> (map region, key), for heaps of objects
        self.feas_timeout = feas_timeout
        self.prove_timeout = prove_timeout
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.unroll = unroll
        self.bounded = []
        self.global_regions = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_timeout)
        self.sstack = []
        self.nsteps = 0
        self.npaths = 0
        self.nqueries = 0
        self.visited = set()      # functions executed
        self.axioms = []          # facts about region bases etc.
        self.world = self.region('W', None, kind='world')
        self.world.base = z3.BitVecVal(0, 64)
        self.world.init = self.word_init('W')
        self.check_nsw = False
        self.mute = 0
        self.lazy = None
        self.fits = {}
        self.rewrites = {}        # term id -> (term, equal term), justified by invariants in force
        self.loop_default = None
        self.frozen = {'@_gst_log2_sizes'}
        self.global_init = {}     # name -> function(ex, st, region)
        self.decide_cache = {}
        self.deadline = None
        self.quiet_bounds = False
        self.havoc_externals = {}
        self.used_trusted = set()
        self.keepalive = []

    # ------------------------------------------------------------ naming
    def fresh(self, name, n=64):
        self.nfresh += 1
        if n == 1:
            return z3.Bool('%s!%d' % (name, self.nfresh))
        return z3.BitVec('%s!%d' % (name, self.nfresh), n)

    def region(self, name, size, init=None, const=False, kind='heap', unique=True):
        nm = name
        k = 1
        while nm in self.regions:
            k += 1
            nm = '%s~%d' % (name, k)
        r = Region(nm, size, init, const, kind)
        self.regions[nm] = r
        if kind != 'world':
            r.ex = self
            if kind != 'alloca':
                r.base
        return r

    def byte_init(self, name):
        arr = z3.Array('mem8:' + name, B64, z3.BitVecSort(8))

        def rd(off, n):
            bs = [z3.Select(arr, bv(add64(off, i))) for i in range(n)]
            return bs[0] if n == 1 else z3.Concat(*bs[::-1])
        return rd

    def word_init(self, name, esz=8):
        """Contents as an array of esz-byte words at esz-aligned offsets."""
        arr = z3.Array('mem%d:%s' % (esz * 8, name), B64, z3.BitVecSort(esz * 8))

        def rd(off, n):
            if n == esz:
                return z3.Select(arr, bv(off))
            if n < esz:
                o = bv(off)
                w = z3.Select(arr, o & z3.BitVecVal(M64 ^ (esz - 1), 64))
                sh = (o & (esz - 1)) * 8
                w2 = z3.LShR(w, sh if esz == 8 else z3.Extract(esz * 8 - 1, 0, sh))
                return z3.Extract(n * 8 - 1, 0, w2)
            if n % esz == 0:
                ps = [z3.Select(arr, bv(add64(off, i * esz))) for i in range(n // esz)]
                return z3.Concat(*ps[::-1])
            raise Unsupported('word_init %d of %d' % (n, esz))
        return rd

    # ------------------------------------------------------------ solver
    def _sync(self, pc):
        st = self.sstack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        if len(st) > i:
            self.solver.pop(len(st) - i)
            del st[i:]
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def _check(self, pc, extra=None):
        self.nqueries += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        if len(self.axioms) != getattr(self, '_nax', 0):
            self.solver.pop(len(self.sstack)) if self.sstack else None
            del self.sstack[:]
            for a in self.axioms[getattr(self, '_nax', 0):]:
                self.solver.add(a)
            self._nax = len(self.axioms)
        self._sync(pc)
        if extra is None:
            return self.solver.check()
        self.solver.push()
        self.solver.add(extra)
        r = self.solver.check()
        self.solver.pop()
        return r

    def valid(self, st, cond):
        """pc => cond, quickly; unknown counts as not valid."""
        c = simp(cond)
        if c is True:
            return True
        if c is False:
            return False
        return self.decided(st, c) is True

    def decided(self, st, c):
        """True / False / None, for a simplified BoolRef."""
        if isinstance(c, bool):
            return c
        cid = c.get_id()
        for p in st.pc:
            if p.get_id() == cid:
                return True
        key = (tuple(p.get_id() for p in st.pc), cid, len(self.axioms))
        r = self.decide_cache.get(key, 0)
        if r != 0:
            return r
        a = self._check(st.pc, z3.Not(c))
        if a == z3.unsat:
            r = True
        else:
            b = self._check(st.pc, c)
            r = False if b == z3.unsat else None
        self.decide_cache[key] = r
        self.keepalive.append((c, list(st.pc)))
        return r

    def decide(self, st, cond):
        c = simp(cond)
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return c != 0
        if isinstance(c, z3.BitVecRef):
            c = simp(c != 0)
            if isinstance(c, bool):
                return c
        r = self.decided(st, c)
        if r is None:
            raise Fork(c)
        return r

    def assume(self, st, cond):
        c = simp(cond)
        if c is True:
            return
        st.pc.append(zb(c))

    # ------------------------------------------------------------ obligations
    def oblige(self, st, cond, name, detail=None, hints=(), timeout=None):
        c = simp(cond)
        t0 = time.time()
        if self.mute:
            # exploring an iteration: the fact is an obligation of the final pass
            if c is False:
                raise PathEnd('fails')
            if c is not True:
                st.pc.append(zb(c))
            return True
        if c is True:
            self.obls.append(Obligation(name, 'proved', 0.0, 'simplifier'))
            return True
        goal = zb(c)
        status, backend, model = self.prove(st.pc, goal, hints, timeout)
        o = Obligation(name, status, time.time() - t0, backend, detail, model)
        if status != 'proved':
            o.goal = goal
            o.trace = list(st.trace)[-40:]
        self.obls.append(o)
        return status == 'proved'

    def prove(self, pc, goal, hints=(), timeout=None):
        timeout = timeout or self.prove_timeout
        if self.deadline:
            timeout = max(1000, min(timeout, int((self.deadline - time.time()) * 1000)))
        # 1: quick incremental
        self.nqueries += 1
        s = z3.Solver()
        s.set('timeout', min(3000, timeout))
        s.add(*self.axioms)
        s.add(*pc)
        s.add(*hints)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', s.model()
        from .backends import race
        return race(list(self.axioms) + list(pc) + list(hints) + [z3.Not(goal)], timeout / 1000.0)

    # ------------------------------------------------------------ memory
    def global_region(self, name, st):
        r = self.global_regions.get(name)
        if r is not None:
            return r
        mod = None
        for m in self.mods:
            if name in m.globals:
                d = m.global_def(name)
                if mod is None or (d[2] is not None and mod.global_def(name)[2] is None):
                    mod = m
        if mod is None:
            raise Unsupported('unknown global ' + name)
        const, t, init = mod.global_def(name)
        try:
            size = mod.size(t)
        except Exception:
            size = None
        r = Region(name, size, None, const, 'global')
        self.regions[name] = r
        self.axioms.append(r.base != 0)
        self.global_regions[name] = r
        r.info['type'] = t
        r.info['mod'] = mod
        if name in self.global_init:
            r.init = self.global_init[name](self, r)
        elif (const or name in self.frozen) and init is not None:
            if not const:
                self.used_trusted.add('global table %s is never written' % name)
            cells = {}
            self.const_init(mod, t, init, 0, cells, st)
            r.info['const'] = Cells(cells)
        else:
            r.init = self.sym_init(name)
        return r

    def sym_init(self, name):
        cache = {}

        def rd(off, n):
            if isinstance(off, int):
                k = (off, n)
                if k not in cache:
                    cache[k] = z3.BitVec('%s+%d:%d' % (name, off, n), n * 8)
                return cache[k]
            arr = z3.Array('mem%d:%s' % (n * 8, name), B64, z3.BitVecSort(n * 8))
            return z3.Select(arr, bv(off))
        return rd

    def const_init(self, mod, t, v, off, cells, st):
        t = mod.resolve(t)
        if v[0] == 'zero' or v[0] == 'undef':
            sz = mod.size(t)
            if t[0] in ('i', 'ptr', 'f'):
                cells[off] = (sz, 0)
            elif t[0] == 'arr':
                es = mod.size(t[2])
                for i in range(t[1]):
                    self.const_init(mod, t[2], ('zero',), off + i * es, cells, st)
            elif t[0] == 'st':
                for i in range(len(t[1])):
                    o, ft = mod.field_off(t, i)
                    self.const_init(mod, ft, ('zero',), off + o, cells, st)
            return
        if t[0] == 'arr':
            es = mod.size(t[2])
            if v[0] == 'str':
                for i, b in enumerate(v[1]):
                    cells[off + i] = (1, b)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    self.const_init(mod, et, ev, off + i * es, cells, st)
            return
        if t[0] == 'st':
            for i, (et, ev) in enumerate(v[1]):
                o, ft = mod.field_off(t, i)
                self.const_init(mod, et, ev, off + o, cells, st)
            return
        cells[off] = (mod.size(t), self.operand(st, None, t, v, mod))

    def mem_get(self, st, r):
        m = st.mem.get(r.name)
        if m is None:
            m = r.info.get('const')
            if m is None:
                m = Cells({})
        return m

    def resolve_addr(self, st, p):
        """-> (region, offset)"""
        if isinstance(p, Ptr):
            o = p.o
            if is_z(o):
                o = simp(o)
            return p.r, o
        if isinstance(p, int):
            if p == 0:
                raise NullDeref()
            return self.world, p
        if isinstance(p, FnPtr) or isinstance(p, Label):
            raise Unsupported('deref code')
        e = simp(p)
        if isinstance(e, int):
            return self.resolve_addr(st, e)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            if self.decide(st, e.arg(0)):
                return self.resolve_addr(st, e.arg(1))
            return self.resolve_addr(st, e.arg(2))
        r = self.match_base(e)
        if r is not None:
            return r
        if self.addr_hook is not None:
            r = self.addr_hook(st, e)
            if r is not None:
                return r
        return self.world, e

    def match_base(self, e):
        """e == base_R + k ?"""
        parts = []
        stack = [e]
        while stack:
            x = stack.pop()
            if z3.is_app_of(x, z3.Z3_OP_BADD):
                stack.extend(x.children())
            else:
                parts.append(x)
        for x in parts:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm.startswith('&') and nm[1:] in self.regions:
                    r = self.regions[nm[1:]]
                    rest = [y for y in parts if y is not x]
                    if not rest:
                        return r, 0
                    o = rest[0]
                    for y in rest[1:]:
                        o = o + y
                    return r, simp(o)
        return None

    def bounds(self, st, r, o, n, what):
        self.not_stale(st, r, what)
        if r.size is None:
            return
        if isinstance(o, int) and isinstance(r.size, int):
            if o + n <= r.size:
                return
            self.oblige(st, False, what + ' in bounds of ' + r.name, 'offset %d size %d' % (o, n))
            raise PathEnd('out of bounds')
        sz = bv(r.size)
        c = z3.And(z3.UGE(sz, n), z3.ULE(bv(o), sz - n))
        cs = simp(c)
        if cs is True or self.decided(st, cs) is True:
            return
        ok = self.oblige(st, c, what + ' in bounds of ' + r.name)
        if not ok:
            st.pc.append(c)

    def load(self, st, p, n, what='load'):
        """n bytes at p -> int / BV(8n) / Ptr"""
        r, o = self.resolve_addr(st, p)
        if not self.quiet_bounds:
            self.bounds(st, r, o, n, what)
        return self.read(st, r, o, n)

    def read(self, st, r, o, n):
        m = self.mem_get(st, r)
        if isinstance(m, Cells):
            return self.read_cells(st, r, m, o, n)
        return self.read_log(st, r, m, o, n)

    def init_read(self, r, o, n):
        if r.init is None:
            self.nfresh += 1
            v = z3.BitVec('uninit:%s!%d' % (r.name, self.nfresh), n * 8)
            return v
        return r.init(o, n)

    def read_cells(self, st, r, m, o, n):
        d = m.d
        if isinstance(o, int):
            c = d.get(o)
            if c is not None and c[0] == n:
                return c[1]
            # overlapping cells?
            over = False
            for k in range(o - 15, o + n):
                c = d.get(k)
                if c is not None and k + c[0] > o:
                    over = True
                    break
            if not over:
                v = self.init_read(r, o, n)
                if r.init is None:
                    # give uninitialised memory a fixed arbitrary value
                    nd = dict(d)
                    nd[o] = (n, v)
                    st.mem[r.name] = Cells(nd)
                return v
            if c is not None and c[0] > n and isinstance(c[1], (int, z3.BitVecRef)) and o == k:
                v = c[1]
                if isinstance(v, int):
                    return v & ((1 << (8 * n)) - 1)
                return z3.Extract(8 * n - 1, 0, v)
            bs = [self.cell_byte(st, r, d, o + i) for i in range(n)]
            return concat_bytes(bs)
        # symbolic offset into cells: convert to a log
        if not d and r.init is not None:
            return r.init(o, n)
        if r.const or r.kind == 'global' or True:
            v = self.table_read(st, r, d, o, n)
            if v is not None:
                return v
        return self.read_log(st, r, self.cells_to_log(m), o, n)

    def table_read(self, st, r, d, o, n):
        """Symbolic index into a table of n-byte cells: nested ite."""
        if r.init is not None or not d or len(d) > 300:
            return None
        if n == 8 and all(c[0] == 8 and isinstance(c[1], Label) for c in d.values()):
            return CodeTok(r, o)
        if any(c[0] != n or not isinstance(c[1], (int, z3.BitVecRef)) for c in d.values()):
            return None
        arr = z3.K(B64, z3.BitVecVal(0, 8 * n))
        ks = sorted(d)
        for k in ks:
            arr = z3.Store(arr, z3.BitVecVal(k, 64), bv(d[k][1], 8 * n))
        return z3.Select(arr, bv(o))

    def cells_to_log(self, m):
        lg = None
        for k in sorted(m.d):
            sz, v = m.d[k]
            lg = Log(lg, 'w', k, sz, v)
        return lg if lg is not None else Log(None, 'nop', 0, 0, 0)

    def cell_byte(self, st, r, d, o):
        for k in range(o, o - 16, -1):
            c = d.get(k)
            if c is not None and k + c[0] > o:
                return byte_of(c[1], o - k, c[0])
        return norm(self.init_read(r, o, 1))

    def read_log(self, st, r, lg, o, n):
        """Functional read through the write log."""
        conds = []
        e = lg
        while e is not None:
            if e.kind == 'w':
                if r.kind == 'map':
                    rel = self.key_relation(st, o, n, e.off, e.size)
                else:
                    rel = self.relation(st, o, n, e.off, e.size)
                if rel == 'same':
                    return self.wrap_ite(st, conds, e.val)
                if rel == 'maybe':
                    conds.append((bv(o) == bv(e.off), e.val))
                elif rel == 'disjoint':
                    pass
                else:
                    if n == 1:
                        d = bv(o) - bv(e.off)
                        inside = simp(z3.ULT(d, e.size))
                        if inside is False:
                            e = e.prev
                            continue
                        val = bv(e.val, 8 * e.size)
                        sh = d if e.size == 8 else z3.ZeroExt(8 * e.size - 64, d) if e.size > 8 else z3.Extract(8 * e.size - 1, 0, d)
                        if e.size == 1:
                            byte = val
                        else:
                            byte = z3.Extract(7, 0, z3.LShR(val, sh * 8))
                        byte = simp(byte)
                        if inside is True:
                            return self.wrap_ite(st, conds, byte)
                        conds.append((inside, byte))
                    else:
                        bs = [self.read_log(st, r, e, add64(o, i), 1) for i in range(n)]
                        return self.wrap_ite(st, conds, concat_bytes(bs))
            elif e.kind == 'b' and r.kind == 'map':
                return self.wrap_ite(st, conds, e.val(o, n))
            elif e.kind == 'b':
                # bulk: off = start, size = length (BV), val = reader(rel_off, n)
                d = simp(bv(o) - bv(e.off))
                ln = bv(e.size)
                inside = simp(z3.And(z3.ULT(d if is_z(d) else bv(d), ln), z3.ULE(z3.BitVecVal(n, 64), ln - bv(d)))) if n > 1 else simp(z3.ULT(bv(d), ln))
                outside = simp(z3.And(z3.Not(z3.ULT(bv(d), ln)), z3.UGE(bv(e.off) - bv(o), n))) if n > 1 else simp(z3.Not(zb(inside)))
                di = self.decided(st, inside)
                if di is True:
                    return self.wrap_ite(st, conds, e.val(d, n))
                do = self.decided(st, outside) if n > 1 else (True if di is False else None)
                if do is True:
                    pass
                elif n == 1 or self.valid(st, z3.Or(zb(inside), zb(outside))):
                    conds.append((zb(inside), e.val(d, n)))
                else:
                    bs = [self.read_log(st, r, e, add64(o, i), 1) for i in range(n)]
                    return self.wrap_ite(st, conds, concat_bytes(bs))
            e = e.prev
        return self.wrap_ite(st, conds, self.init_read(r, o, n))

    def key_relation(self, st, o, n, a, m):
        """in a map region offsets are keys, equal or unrelated"""
        if n != m:
            raise Unsupported('access of %d bytes to a map of %d-byte values' % (n, m))
        c = simp(bv(o) == bv(a))
        if isinstance(c, bool):
            return 'same' if c else 'disjoint'
        x = self.decided(st, c)
        return 'maybe' if x is None else 'same' if x else 'disjoint'

    def relation(self, st, o, n, a, m):
        """same / disjoint / maybe (equal or disjoint, same size) / overlap"""
        if isinstance(o, int) and isinstance(a, int):
            if o == a and n == m:
                return 'same'
            if o + n <= a or a + m <= o:
                return 'disjoint'
            return 'overlap'
        d = simp(bv(o) - bv(a))
        if isinstance(d, int):
            sd = sgn(d, 64)
            if sd == 0 and n == m:
                return 'same'
            if sd >= m or -sd >= n:
                return 'disjoint'
            return 'overlap'
        # disjoint iff d >= m unsigned and -d >= n
        dis = z3.And(z3.UGE(d, m), z3.UGE(-d, n))
        x = self.decided(st, simp(dis))
        if x is True:
            return 'disjoint'
        if n == m:
            if x is False or x is None:
                if self.decided(st, simp(d == 0)) is True:
                    return 'same'
                if self.valid(st, z3.Or(dis, d == 0)):
                    return 'maybe'
        return 'overlap'

    def wrap_ite(self, st, conds, v):
        for c, w in reversed(conds):
            if isinstance(w, POINTERS) or isinstance(v, POINTERS):
                if isinstance(w, Ptr) and isinstance(v, Ptr) and w.r is v.r:
                    v = Ptr(v.r, simp(z3.If(c, bv(w.o), bv(v.o))))
                    continue
                w2 = w.addr() if isinstance(w, POINTERS) else bv(w)
                v2 = v.addr() if isinstance(v, POINTERS) else bv(v)
                v = z3.If(c, w2, v2)
            else:
                n = w.size() if is_z(w) else (v.size() if is_z(v) else None)
                if n is None:
                    if w == v:
                        continue
                    n = 64
                v = z3.If(c, bv(w, n), bv(v, n))
        return v

    def store(self, st, p, n, v, what='store'):
        r, o = self.resolve_addr(st, p)
        self.bounds(st, r, o, n, what)
        if r.const:
            self.oblige(st, False, 'store to read-only memory ' + r.name)
            raise PathEnd('store const')
        self.write(st, r, o, n, v)

    def write(self, st, r, o, n, v):
        if v is UNDEF:
            v = self.fresh('undef', 8 * n)
        if isinstance(v, (bool, z3.BoolRef)):
            v = simp(bv(v, 8 * n))
        m = self.mem_get(st, r)
        if isinstance(m, Cells) and isinstance(o, int) and r.kind not in ('world', 'map'):
            d = m.d
            c = d.get(o)
            nd = dict(d)
            if c is None or c[0] != n:
                for k in range(o - 15, o + n):
                    c = d.get(k)
                    if c is not None and k + c[0] > o:
                        # split partially overwritten cell into bytes
                        del nd[k]
                        for i in range(c[0]):
                            if not (o <= k + i < o + n):
                                nd[k + i] = (1, byte_of(c[1], i, c[0]))
            nd[o] = (n, v)
            st.mem[r.name] = Cells(nd)
            return
        if isinstance(m, Cells):
            m = self.cells_to_log(m)
        st.mem[r.name] = Log(m, 'w', o, n, v)

    def bulk(self, st, r, off, length, reader):
        """r[off .. off+length) := reader(rel, n)"""
        m = self.mem_get(st, r)
        if isinstance(m, Cells):
            m = self.cells_to_log(m)
        st.mem[r.name] = Log(m, 'b', off, length, reader)

    def snapshot_reader(self, st, r):
        """A function reading region r as it is now."""
        frozen = self.mem_get(st, r)
        pcst = st

        def rd(off, n):
            s2 = State()
            s2.pc = pcst.pc
            s2.mem = {r.name: frozen}
            if isinstance(frozen, Cells):
                return self.read_cells(s2, r, frozen, off, n)
            return self.read_log(s2, r, frozen, off, n)
        return rd

    def memcpy(self, st, dst, src, n, what='memcpy'):
        n = simp(n)
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int) and self.decided(st, simp(n == 0)) is True:
            return
        if not isinstance(n, int) and self.decided(st, simp(n == 0)) is None:
            if self.decide(st, n == 0):
                return
        rd_, od = self.resolve_addr(st, dst)
        rs, os_ = self.resolve_addr(st, src)
        if rs is rd_ and what.startswith('memcpy') and rs is not self.world and rs.kind != 'alloca':
            a, b = bv(od), bv(os_)
            self.oblige(st, z3.Or(a == b, z3.ULE(a + bv(n), b), z3.ULE(b + bv(n), a)), 'memcpy ranges do not overlap in ' + self.where(st))
        for (r, o, w) in ((rd_, od, what + ' destination'), (rs, os_, what + ' source')):
            self.bounds_range(st, r, o, n, w)
        if isinstance(n, int) and n <= 256 and isinstance(od, int) and isinstance(os_, int):
            m = self.mem_get(st, rs)
            if isinstance(m, Cells):
                # copy cell-wise where cells align, else bytes
                vals = []
                i = 0
                while i < n:
                    c = m.d.get(os_ + i)
                    if c is not None and i + c[0] <= n:
                        vals.append((i, c[0], c[1]))
                        i += c[0]
                    else:
                        w = 8 if (n - i >= 8 and all(m.d.get(os_ + i + k) is None for k in range(0, 8))) else 1
                        vals.append((i, w, self.read(st, rs, os_ + i, w)))
                        i += w
                for i, sz, v in vals:
                    self.write(st, rd_, od + i, sz, v)
                return
        snap = self.snapshot_reader(st, rs)

        def reader(rel, k):
            return snap(add64(os_, rel), k)
        self.bulk(st, rd_, od, n, reader)

    def not_stale(self, st, r, what):
        if r.name in st.ghost.get('stale', ()):
            self.oblige(st, False, what + ': object pointer %s is not kept across an allocation' % r.name.split('~')[0])
            raise PathEnd('stale')

    def bounds_range(self, st, r, o, n, what):
        self.not_stale(st, r, what)
        if r.size is None:
            return
        c = z3.And(z3.ULE(bv(o), bv(r.size)), z3.ULE(bv(n), bv(r.size) - bv(o)))
        cs = simp(c)
        if cs is True or (cs is not False and self.decided(st, cs) is True):
            return
        if not self.oblige(st, c, what + ' in bounds of ' + r.name):
            st.pc.append(c)

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, t, v, mod=None):
        k = v[0]
        if k == 'l':
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise Unsupported('undefined register %s (started mid-function?)' % v[1])
        if k == 'c':
            n = t[1] if t[0] == 'i' else 64
            if n == 1:
                return bool(v[1] & 1)
            return v[1] & ((1 << n) - 1)
        if k == 'null' or k == 'zero':
            if t[0] in ('st', 'arr', 'named'):
                return Agg([])
            if t == ('i', 1):
                return False
            return 0
        if k == 'undef':
            if t[0] == 'i':
                return self.fresh('undef', t[1])
            if t[0] == 'ptr':
                return self.fresh('undef', 64)
            if t[0] == 'f':
                return self.fresh('undef', t[1])
            return Agg([UNDEF] * 4)
        if k == 'g':
            return self.global_addr(st, v[1])
        if k == 'fc':
            return float_const(v[1], t[1])
        if k == 'ce':
            m = mod or fr.fn.mod
            if v[1] == 'gep':
                base = self.operand(st, fr, v[3][0][0], v[3][0][1], m)
                idx = [self.operand(st, fr, tt, vv, m) for tt, vv in v[3][1:]]
                its = [tt for tt, vv in v[3][1:]]
                return self.gep(st, m, v[2], base, idx, its)
            if v[1] == 'cast':
                x = self.operand(st, fr, v[3], v[4], m)
                return self.cast(v[2], v[3], x, v[5])
            if v[1] == 'bin':
                a = self.operand(st, fr, v[3], v[4], m)
                b = self.operand(st, fr, v[3], v[5], m)
                return self.binop(st, v[2], v[3], a, b, ())
            if v[1] == 'icmp':
                a = self.operand(st, fr, v[3], v[4], m)
                b = self.operand(st, fr, v[3], v[5], m)
                return self.icmp(v[2], v[3], a, b)
        if k == 'ba':
            return Label(v[1][1:], v[2])
        if k == 'agg':
            return Agg([self.operand(st, fr, tt, vv, mod) for tt, vv in v[1]])
        raise Unsupported('operand %r' % (v,))

    def find_fn(self, name):
        for m in self.mods:
            f = m.functions.get(name)
            if f is not None:
                return f
        return None

    def global_addr(self, st, name):
        n = name[1:]
        for m in self.mods:
            if name in m.globals:
                return Ptr(self.global_region(name, st), 0)
        return FnPtr(n)

    def gep(self, st, mod, bt, base, idx, its):
        off = 0
        t = bt
        for k, i in enumerate(idx):
            if isinstance(i, bool):
                i = int(i)
            if k == 0:
                es = mod.size(bt)
                off = add64(off, mul64(self.sext64(i, its[0]), es))
                continue
            t = mod.resolve(t)
            if t[0] == 'st':
                o, t = mod.field_off(t, i)
                off = add64(off, o)
            elif t[0] in ('arr', 'vec'):
                t = t[2]
                off = add64(off, mul64(self.sext64(i, its[k]), mod.size(t)))
            else:
                raise Unsupported('gep into %r' % (t,))
        if isinstance(base, Ptr):
            return base + off
        if isinstance(base, FnPtr):
            raise Unsupported('gep on function')
        if isinstance(base, int) and isinstance(off, int):
            return (base + off) & M64
        return add64(base, off)

    def sext64(self, v, t):
        n = t[1]
        if isinstance(v, Ptr):
            v = v.addr()
        if isinstance(v, int):
            return sgn(v, n) & M64
        if n < 64:
            return z3.SignExt(64 - n, v)
        return v

    # ------------------------------------------------------------ ops
    def cast(self, op, t, v, t2):
        if v is UNDEF:
            return UNDEF
        if op == 'ptrtoint':
            if t2[1] == 64:
                return v
            return self.cast('trunc', ('i', 64), v, t2)
        if op == 'inttoptr':
            if t[1] == 64:
                return v
            return self.cast('zext', t, v, ('i', 64))
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'trunc':
            n = t2[1]
            if isinstance(v, POINTERS):
                v = v.addr()
            if isinstance(v, int):
                return bool(v & 1) if n == 1 else v & ((1 << n) - 1)
            x = z3.Extract(n - 1, 0, bv(v, t[1]))
            if n == 1:
                return simp(x == 1)
            return simp(x)
        if op == 'zext':
            n = t2[1]
            if isinstance(v, (bool, z3.BoolRef)):
                if isinstance(v, bool):
                    return int(v)
                return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
            if isinstance(v, int):
                return v
            return z3.ZeroExt(n - t[1], v)
        if op == 'sext':
            n = t2[1]
            if isinstance(v, bool):
                return ((1 << n) - 1) if v else 0
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.BitVecVal((1 << n) - 1, n), z3.BitVecVal(0, n))
            if isinstance(v, int):
                return sgn(v, t[1]) & ((1 << n) - 1)
            return simp(z3.SignExt(n - t[1], v))
        if ('f', 80) in (t, t2):
            return x87(op, t[1], t2[1])(bv(v, t[1]))
        if op in ('sitofp', 'uitofp'):
            f = z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP
            return fbits(f(z3.RNE(), bv(v, t[1]), fsort(t2[1])))
        if op in ('fptosi', 'fptoui'):
            f = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
            return f(z3.RTZ(), tofp(v, t[1]), z3.BitVecSort(t2[1]))
        if op in ('fpext', 'fptrunc'):
            return fbits(z3.fpFPToFP(z3.RNE(), tofp(v, t[1]), fsort(t2[1])))
        raise Unsupported('cast ' + op)

    def binop(self, st, op, t, a, b, flags):
        if t[0] == 'f':
            return self.fbin(op, t[1], a, b)
        if t[0] == 'vec':
            raise Unsupported('vector op')
        n = t[1]
        if a is UNDEF:
            a = self.fresh('undef', n)
        if b is UNDEF:
            b = self.fresh('undef', n)
        if isinstance(a, POINTERS) or isinstance(b, POINTERS):
            if isinstance(a, Ptr) and op in ('add', 'sub') and not isinstance(b, POINTERS):
                if op == 'add':
                    return a + b
                return a + ((-b) & M64 if isinstance(b, int) else simp(-b))
            if isinstance(b, Ptr) and op == 'add' and not isinstance(a, POINTERS):
                return b + a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.r is b.r:
                return simp(bv(a.o) - bv(b.o))
            if isinstance(a, Ptr) and op == 'and' and isinstance(b, int):
                if b < 16 and isinstance(a.o, int):
                    return a.o & b      # regions are 16-aligned
                if b < 16:
                    return simp(bv(a.o) & b)
            a = a.addr() if isinstance(a, POINTERS) else a
            b = b.addr() if isinstance(b, POINTERS) else b
        if n == 1:
            a, b = zb(a), zb(b)
            if op == 'and':
                return simp(z3.And(a, b))
            if op == 'or':
                return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        mask = (1 << n) - 1
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            r = const_bin(op, n, a, b)
            if r is not None:
                return r
        if isinstance(a, z3.BoolRef):
            a = bv(a, n)
        if isinstance(b, z3.BoolRef):
            b = bv(b, n)
        A = bv(a, n)
        Bv = bv(b, n)
        if op in ('ashr', 'lshr') and isinstance(b, int) and self.fits:
            x = self.unshift(A, b)
            if x is not None:
                return x
        if 'exact' in flags and isinstance(b, int) and b > 0 and b & (b - 1) == 0 and op in ('sdiv', 'udiv'):
            # the compiler guarantees an exact division (pointer difference)
            k = b.bit_length() - 1
            return simp((A >> k) if op == 'sdiv' else z3.LShR(A, k))
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            self.oblige(st, Bv != 0, 'division by zero in ' + self.where(st))
            if op in ('sdiv', 'srem'):
                self.oblige(st, z3.Not(z3.And(A == z3.BitVecVal(1 << (n - 1), n), Bv == z3.BitVecVal(mask, n))),
                            'signed division overflow in ' + self.where(st))
        if op in ('shl', 'lshr', 'ashr') and not isinstance(b, int):
            self.oblige(st, z3.ULT(Bv, n), 'shift amount below width in ' + self.where(st))
        if op == 'add':
            r = A + Bv
        elif op == 'sub':
            r = A - Bv
        elif op == 'mul':
            r = A * Bv
        elif op == 'and':
            r = A & Bv
        elif op == 'or':
            r = A | Bv
        elif op == 'xor':
            r = A ^ Bv
        elif op == 'shl':
            r = A << Bv
        elif op == 'lshr':
            r = z3.LShR(A, Bv)
        elif op == 'ashr':
            r = A >> Bv
        elif op == 'sdiv':
            r = A / Bv
        elif op == 'udiv':
            r = z3.UDiv(A, Bv)
        elif op == 'srem':
            r = z3.SRem(A, Bv)
        elif op == 'urem':
            r = z3.URem(A, Bv)
        else:
            raise Unsupported('bin ' + op)
        if self.check_nsw and 'nsw' in flags and op in ('add', 'sub', 'mul'):
            if op == 'add':
                ok = z3.And(z3.BVAddNoOverflow(A, Bv, True), z3.BVAddNoUnderflow(A, Bv))
            elif op == 'sub':
                ok = z3.And(z3.BVSubNoOverflow(A, Bv), z3.BVSubNoUnderflow(A, Bv, True))
            else:
                ok = z3.And(z3.BVMulNoOverflow(A, Bv, True), z3.BVMulNoUnderflow(A, Bv))
            self.oblige(st, ok, 'no signed overflow in ' + self.where(st))
        if n == 32 and self.lazy and st.frames[-1].fn.name == self.lazy:
            return r        # a large word function: terms are normalised at the end
        r = simp(r)
        if self.rewrites and is_z(r):
            x = self.rewrites.get(r.get_id())
            if x is not None:
                return x[1]
        return r

    def unshift(self, A, k):
        """((x << k) | c) >> k is x when x is known to be small"""
        if not z3.is_app_of(A, z3.Z3_OP_CONCAT) or A.num_args() < 2:
            return None
        e = A.arg(0)
        low = sum(A.arg(i).size() for i in range(1, A.num_args()))
        if low == k and z3.is_app_of(e, z3.Z3_OP_EXTRACT):
            hi, lo = e.params()
            x = e.arg(0)
            if lo == 0 and x.size() == A.size() and x.get_id() in self.fits and self.fits[x.get_id()][1] <= hi:
                return x
        return None

    def small(self, x, bits):
        """x is assumed elsewhere to satisfy 0 <= x < 2^bits"""
        if is_z(x):
            self.fits[x.get_id()] = (x, bits)

    def fbin(self, op, n, a, b):
        A = tofp(a, n)
        Bv = tofp(b, n)
        rm = z3.RNE()
        if op == 'fadd':
            r = z3.fpAdd(rm, A, Bv)
        elif op == 'fsub':
            r = z3.fpSub(rm, A, Bv)
        elif op == 'fmul':
            r = z3.fpMul(rm, A, Bv)
        elif op == 'fdiv':
            r = z3.fpDiv(rm, A, Bv)
        else:
            raise Unsupported(op)
        return fbits(r)

    def icmp(self, pred, t, a, b):
        n = 64 if t[0] == 'ptr' else t[1]
        if a is UNDEF or b is UNDEF:
            return self.fresh('undefcmp', 1)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is b.r:
                a, b = a.o, b.o
            elif pred in ('eq', 'ne'):
                return pred == 'ne'
        elif isinstance(a, POINTERS) and isinstance(b, POINTERS):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                return (a.name == b.name) == (pred == 'eq')
        if pred in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (FnPtr, Label)) and isinstance(y, int) and y == 0:
                    return pred == 'ne'
                if isinstance(x, Ptr) and x.r.kind in ('alloca', 'global') and isinstance(y, int) and y == 0:
                    return pred == 'ne'
        if isinstance(a, POINTERS):
            a = a.addr()
        if isinstance(b, POINTERS):
            b = b.addr()
        if n == 1:
            x = z3.Xor(zb(a), zb(b))
            return simp(z3.Not(x)) if pred == 'eq' else simp(x)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return a != b
            if pred[0] == 's':
                a, b = sgn(a, n), sgn(b, n)
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
        A = bv(a, n)
        Bv = bv(b, n)
        f = {'eq': lambda: A == Bv, 'ne': lambda: A != Bv, 'slt': lambda: A < Bv, 'sle': lambda: A <= Bv,
             'sgt': lambda: A > Bv, 'sge': lambda: A >= Bv, 'ult': lambda: z3.ULT(A, Bv),
             'ule': lambda: z3.ULE(A, Bv), 'ugt': lambda: z3.UGT(A, Bv), 'uge': lambda: z3.UGE(A, Bv)}[pred]
        return simp(f())

    def fcmp(self, pred, n, a, b):
        A = tofp(a, n)
        Bv = tofp(b, n)
        un = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(Bv))
        base = {'eq': lambda: z3.fpEQ(A, Bv), 'ne': lambda: z3.Not(z3.fpEQ(A, Bv)), 'lt': lambda: z3.fpLT(A, Bv),
                'le': lambda: z3.fpLEQ(A, Bv), 'gt': lambda: z3.fpGT(A, Bv), 'ge': lambda: z3.fpGEQ(A, Bv)}
        if pred == 'ord':
            return simp(z3.Not(un))
        if pred == 'uno':
            return simp(un)
        c = base[pred[1:]]()
        if pred[0] == 'o':
            return simp(z3.And(z3.Not(un), c))
        return simp(z3.Or(un, c))

    def where(self, st):
        if not st.frames:
            return '?'
        return st.top.fn.name

    # ------------------------------------------------------------ running
    def start(self, st, fname, args):
        fn = self.find_fn(fname)
        if fn is None:
            raise Unsupported('no function ' + fname)
        self.push_frame(st, fn, args, None)
        return st

    def push_frame(self, st, fn, args, retreg):
        if len(st.frames) > 60:
            raise Unsupported('recursion too deep in ' + fn.name)
        fn.blocks
        self.visited.add(fn.name)
        f = Frame(fn)
        for (t, nm), a in zip(fn.params, args):
            if nm is not None:
                f.regs[nm] = a
        if fn.params and fn.params[0][1] is None:
            for i, a in enumerate(args):
                f.regs['%%%d' % i] = a
        f.block = fn.entry
        f.idx = 0
        f.retreg = retreg
        st.frames.append(f)

    def run(self, st, stop=None):
        """Run state until every path returns from the outermost frame (or
        stop(state, instr) says so).  Yields final states."""
        base = len(st.frames)
        work = [st]
        out = []
        while work:
            s = work.pop()
            try:
                while True:
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported('time budget exhausted')
                    fr = s.frames[-1]
                    ins = fr.fn.blocks[fr.block][fr.idx]
                    self.nsteps += 1
                    if self.nsteps > self.max_steps:
                        raise Unsupported('step budget exhausted')
                    if stop is not None and stop(s, ins):
                        s.end = 'stop'
                        out.append(s)
                        break
                    nxt = self.step(s, ins, base, work)
                    if nxt is None:
                        out.append(s)
                        break
            except Fork as f:
                self.npaths += 1
                if self.npaths > self.max_paths:
                    raise Unsupported('path budget exhausted')
                a = s.clone()
                b = s
                a.pc.append(zb(f.cond))
                b.pc.append(z3.Not(zb(f.cond)))
                work.append(b)
                work.append(a)
            except PathEnd as e:
                pass
            except NullDeref:
                if not self.mute:
                    self.oblige(s, False, 'null dereference in ' + self.where(s))
        return out

    def goto(self, s, fr, target):
        s_prev = fr.block
        # leaving loops
        if fr.loops:
            for h in list(fr.loops):
                if target not in fr.fn.loops[h]:
                    rec = fr.loops.pop(h)
                    cb = rec.get('exit')
                    if cb:
                        cb(self, s, rec)
                    fr.visits.pop(h, None)
        fr.prev = s_prev
        fr.block = target
        fr.idx = 0
        lp = fr.fn.loops
        if target in lp:
            self.at_loop(s, fr, target)

    def at_loop(self, s, fr, h):
        spec = self.loop_spec(fr.fn, h)
        if h in fr.loops:
            rec = fr.loops[h]
            if rec.get('spec') is not None:
                rec['spec'].back_edge(self, s, fr, h, rec)
                raise PathEnd('loop')
            n = fr.visits.get(h, 0) + 1
            fr.visits[h] = n
            if n > self.unroll:
                self.bounded.append('%s: loop %s unrolled %d times' % (fr.fn.name, h, self.unroll))
                raise PathEnd('unroll bound')
            return
        if spec is not None:
            rec = spec.enter(self, s, fr, h)
            rec.setdefault('spec', spec)
            fr.loops[h] = rec
            if rec['spec'] is None:
                fr.visits[h] = 0
        else:
            fr.loops[h] = {'spec': None}
            fr.visits[h] = 0

    def loop_spec(self, fn, h):
        f = self.loop_specs.get(fn.name, self.loop_default)
        if f is None:
            return None
        if callable(f):
            return f(self, fn, h)
        if isinstance(f, dict):
            order = [x for x in fn.order if x in fn.loops]
            return f.get(order.index(h))
        return f

    def step(self, s, ins, base, work):
        fr = s.frames[-1]
        op = ins.op
        regs = fr.regs
        if op == 'load':
            t, pv = ins.a
            p = self.operand(s, fr, PTR, pv)
            mod = fr.fn.mod
            t = mod.resolve(t)
            if t[0] in ('st', 'arr'):
                # aggregate load
                raise Unsupported('aggregate load')
            n = 10 if t == ('f', 80) else mod.size(t)
            v = self.load(s, p, n, 'load in ' + fr.fn.name)
            if t[0] == 'i' and t[1] < 8 * n:
                v = self.cast('trunc', ('i', 8 * n), v, t)
            regs[ins.res] = norm(v)
        elif op == 'store':
            t, v, pv = ins.a
            val = self.operand(s, fr, t, v)
            p = self.operand(s, fr, PTR, pv)
            t = fr.fn.mod.resolve(t)
            if t[0] in ('st', 'arr'):
                raise Unsupported('aggregate store')
            n = 10 if t == ('f', 80) else fr.fn.mod.size(t)
            self.store(s, p, n, val, 'store in ' + fr.fn.name)
        elif op == 'br':
            a = ins.a
            if a[0] == 'u':
                self.goto(s, fr, a[1])
            else:
                c = self.operand(s, fr, ('i', 1), a[1])
                if self.decide(s, c):
                    self.goto(s, fr, a[2])
                else:
                    self.goto(s, fr, a[3])
            return True
        elif op == 'gep':
            bt, ops = ins.a
            b = self.operand(s, fr, ops[0][0], ops[0][1])
            idx = [self.operand(s, fr, t, v) for t, v in ops[1:]]
            regs[ins.res] = self.gep(s, fr.fn.mod, bt, b, idx, [t for t, v in ops[1:]])
        elif op == 'bin':
            o, t, a, b, flags = ins.a
            regs[ins.res] = self.binop(s, o, t, self.operand(s, fr, t, a), self.operand(s, fr, t, b), flags)
        elif op == 'icmp':
            pred, t, a, b = ins.a
            regs[ins.res] = self.icmp(pred, t, self.operand(s, fr, t, a), self.operand(s, fr, t, b))
        elif op == 'cast':
            o, t, v, t2 = ins.a
            regs[ins.res] = self.cast(o, t, self.operand(s, fr, t, v), t2)
        elif op == 'alloca':
            t, n = ins.a
            k = self.operand(s, fr, ('i', 32), n)
            sz = fr.fn.mod.size(t)
            if isinstance(k, int):
                size = sz * k
            else:
                size = simp(bv(self.sext64(k, ('i', k.size()))) * sz)
            nm = ins.res
            r = self.region('%s.%s#%d' % (fr.fn.name, nm[1:], len(s.frames)), size, None, False, 'alloca')
            r.info['name'] = nm
            r.info['type'] = t
            fr.names[nm[1:]] = r
            regs[nm] = Ptr(r, 0)
        elif op == 'switch':
            t, v, d, cases = ins.a
            x = self.operand(s, fr, t, v)
            if isinstance(x, (bool, z3.BoolRef)):
                x = simp(bv(x, t[1]))
            target = None
            if isinstance(x, int):
                for c, l in cases:
                    if (c & ((1 << t[1]) - 1)) == x:
                        target = l
                        break
                if target is None:
                    target = d
            else:
                for c, l in cases:
                    if self.decide(s, x == z3.BitVecVal(c, t[1])):
                        target = l
                        break
                if target is None:
                    target = d
            self.goto(s, fr, target)
            return True
        elif op == 'phi':
            # evaluate all phis of the block together
            blk = fr.fn.blocks[fr.block]
            vals = []
            i = fr.idx
            while blk[i].op == 'phi':
                t, insl = blk[i].a
                for v, l in insl:
                    if l == fr.prev:
                        vals.append((blk[i].res, self.operand(s, fr, t, v)))
                        break
                else:
                    raise Unsupported('phi')
                i += 1
            for k, v in vals:
                regs[k] = v
            fr.idx = i
            return True
        elif op == 'select':
            c, t, a, b = ins.a
            cv = self.operand(s, fr, ('i', 1), c)
            x = self.operand(s, fr, t, a)
            y = self.operand(s, fr, t, b)
            if isinstance(cv, bool):
                regs[ins.res] = x if cv else y
            elif isinstance(x, POINTERS) or isinstance(y, POINTERS):
                regs[ins.res] = x if self.decide(s, cv) else y
            elif t == ('i', 1):
                regs[ins.res] = simp(z3.If(cv, zb(x), zb(y)))
            else:
                n = 64 if t[0] == 'ptr' else t[1]
                regs[ins.res] = simp(z3.If(cv, bv(x, n), bv(y, n)))
        elif op == 'call':
            return self.call(s, fr, ins)
        elif op == 'ret':
            t, v = ins.a
            val = None if v is None else self.operand(s, fr, t, v)
            # alloca regions die
            s.frames.pop()
            for r in fr.names.values():
                s.mem.pop(r.name, None)
            if len(s.frames) < base:
                s.ret = val
                s.end = 'ret'
                s.ghost['frame'] = fr
                return None
            cl = s.frames[-1]
            if fr.retreg is not None:
                cl.regs[fr.retreg] = val
            cl.idx += 1
            return True
        elif op == 'fcmp':
            pred, t, a, b = ins.a
            regs[ins.res] = self.fcmp(pred, t[1], self.operand(s, fr, t, a), self.operand(s, fr, t, b))
        elif op == 'fneg':
            t, v = ins.a
            x = self.operand(s, fr, t, v)
            regs[ins.res] = simp(bv(x, t[1]) ^ z3.BitVecVal(1 << (t[1] - 1), t[1]))
        elif op == 'extractvalue':
            t, v, idx = ins.a
            x = self.operand(s, fr, t, v)
            for i in idx:
                x = x.v[i]
            regs[ins.res] = x
        elif op == 'insertvalue':
            t, v, t2, e, idx = ins.a
            x = self.operand(s, fr, t, v)
            y = Agg(x.v)
            y.v[idx[0]] = self.operand(s, fr, t2, e)
            regs[ins.res] = y
        elif op == 'indirectbr':
            v = self.operand(s, fr, PTR, ins.a[0])
            if isinstance(v, Label):
                self.goto(s, fr, '%' + v.label[1:] if v.label[0] == '%' else v.label)
                return True
            raise Unsupported('indirectbr on symbolic target')
        elif op == 'unreachable':
            raise PathEnd('unreachable')
        elif op == 'fence':
            pass
        elif op == 'freeze':
            t, v = ins.a
            regs[ins.res] = self.operand(s, fr, t, v)
        else:
            raise Unsupported('instruction ' + ins.text.strip())
        fr.idx += 1
        return True

    # ------------------------------------------------------------ calls
    def call(self, s, fr, ins):
        t, callee, args = ins.a
        if callee[0] == 'asm':
            vals = [self.operand(s, fr, at, av) for at, av in args]
            r = self.inline_asm(s, callee, vals, t)
            if ins.res is not None:
                fr.regs[ins.res] = r
            fr.idx += 1
            return True
        if callee[0] == 'g':
            name = callee[1][1:]
        else:
            p = self.operand(s, fr, PTR, callee)
            if isinstance(p, FnPtr):
                name = p.name
            elif '*indirect' in self.contracts:
                vals = [self.operand(s, fr, at, av) for at, av in args]
                return self.contract_call(s, fr, ins, '*indirect', [p] + vals, t)
            else:
                raise Unsupported('indirect call in ' + fr.fn.name)
        if name.startswith('llvm.'):
            if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.prefetch') \
               or name in ('llvm.donothing', 'llvm.stackrestore.p0') or name.startswith('llvm.assume'):
                fr.idx += 1
                return True
            vals = [self.operand(s, fr, at, av) for at, av in args]
            s2 = s.clone()
            r = self.intrinsic(s2, name, vals, args)
            self.adopt(s, s2)
            fr = s.frames[-1]
            if ins.res is not None:
                fr.regs[ins.res] = r
            fr.idx += 1
            return True
        vals = [self.operand(s, fr, at, av) for at, av in args]
        if name in self.contracts:
            return self.contract_call(s, fr, ins, name, vals, t)
        fn = self.find_fn(name)
        if fn is not None:
            self.push_frame(s, fn, vals, ins.res)
            return True
        h = LIBC.get(name)
        if h is not None:
            self.used_trusted.add('libc:' + name)
            s2 = s.clone()
            r = h(self, s2, vals)
            self.adopt(s, s2)
            if ins.res is not None:
                s.frames[-1].regs[ins.res] = r
            s.frames[-1].idx += 1
            return True
        raise Unsupported('call to external %s (no contract)' % name)

    def adopt(self, s, s2):
        s.frames = s2.frames
        s.mem = s2.mem
        s.pc = s2.pc
        s.ghost = s2.ghost
        s.trace = s2.trace

    def contract_call(self, s, fr, ins, name, vals, t):
        s2 = s.clone()
        r = self.contracts[name](self, s2, vals)
        self.adopt(s, s2)
        fr = s.frames[-1]
        if ins.res is not None:
            fr.regs[ins.res] = norm(r) if is_z(r) else r
        fr.idx += 1
        return True

    def intrinsic(self, s, name, v, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(s, v[0], v[1], v[2], 'memcpy' if name.startswith('llvm.memcpy') else 'memmove')
            return None
        if name.startswith('llvm.memset'):
            n = simp(v[2])
            byte = v[1]
            if isinstance(n, int) and n == 0:
                return None
            if not isinstance(n, int) and self.decide(s, n == 0):
                return None
            r, o = self.resolve_addr(s, v[0])
            self.bounds_range(s, r, o, n, 'memset')
            if isinstance(n, int) and n <= 512 and isinstance(o, int) and r.kind != 'world' and isinstance(byte, int):
                i = 0
                w8 = int.from_bytes(bytes([byte]) * 8, 'little')
                while n - i >= 8:
                    self.write(s, r, o + i, 8, w8)
                    i += 8
                while i < n:
                    self.write(s, r, o + i, 1, byte)
                    i += 1
                return None

            def rd(rel, k):
                if isinstance(byte, int):
                    return int.from_bytes(bytes([byte]) * k, 'little')
                return byte if k == 1 else z3.Concat(*[byte] * k)
            self.bulk(s, r, o, n, rd)
            return None
        for nm in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul'):
            if name.startswith('llvm.%s.with.overflow' % nm):
                n = args[0][0][1]
                A, Bv = bv(v[0], n), bv(v[1], n)
                ext = z3.SignExt if nm[0] == 's' else z3.ZeroExt
                w = {'add': 1, 'sub': 1, 'mul': n}[nm[1:]]
                EA, EB = ext(w, A), ext(w, Bv)
                if nm[1:] == 'add':
                    full, r = EA + EB, A + Bv
                elif nm[1:] == 'sub':
                    full, r = EA - EB, A - Bv
                else:
                    full, r = EA * EB, A * Bv
                ov = simp(full != ext(w, r))
                return Agg([simp(r), ov])
        if name.startswith('llvm.expect'):
            return v[0]
        if name.startswith('llvm.bswap'):
            n = args[0][0][1]
            x = bv(v[0], n)
            return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n // 8)]))
        if name.startswith('llvm.fabs'):
            n = args[0][0][1]
            return simp(bv(v[0], n) & z3.BitVecVal((1 << (n - 1)) - 1, n))
        if name.startswith('llvm.fshl') or name.startswith('llvm.fshr'):
            n = args[0][0][1]
            a, b, c = bv(v[0], n), bv(v[1], n), bv(v[2], n)
            cat = z3.Concat(a, b)
            c2 = z3.ZeroExt(n, z3.URem(c, z3.BitVecVal(n, n)))
            if name.startswith('llvm.fshl'):
                return simp(z3.Extract(2 * n - 1, n, cat << c2))
            return simp(z3.Extract(n - 1, 0, z3.LShR(cat, c2)))
        for nm, f in (('smax', lambda a, b: z3.If(a > b, a, b)), ('smin', lambda a, b: z3.If(a < b, a, b)),
                      ('umax', lambda a, b: z3.If(z3.UGT(a, b), a, b)), ('umin', lambda a, b: z3.If(z3.ULT(a, b), a, b))):
            if name.startswith('llvm.' + nm):
                n = args[0][0][1]
                return simp(f(bv(v[0], n), bv(v[1], n)))
        if name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
            n = args[0][0][1]
            x = bv(v[0], n)
            r = z3.BitVecVal(n, n)
            rng = range(n) if name.startswith('llvm.ctlz') else range(n - 1, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(n - 1 - i if 'ctlz' in name else i, n), r)
            return simp(r)
        if name.startswith('llvm.stacksave'):
            return 0
        if name == 'llvm.trap':
            raise PathEnd('trap')
        if name.startswith('llvm.va_'):
            return None
        raise Unsupported('intrinsic ' + name)

    def inline_asm(self, s, callee, vals, t):
        tmpl, cons = callee[1], callee[2]
        tmpl = tmpl.replace('\\0A', '\n').replace('\\09', ' ')
        lines = [x.strip() for x in tmpl.replace(';', '\n').split('\n') if x.strip()]
        if not lines:
            return None
        cs = [c for c in cons.split(',')]
        outs = [c for c in cs if c.startswith('=')]
        ins_ = [c for c in cs if not c.startswith('=') and not c.startswith('~')]
        slots = {}
        for i, c in enumerate(ins_):
            slots[len(outs) + i] = vals[i]
        tied = {}
        for i, c in enumerate(ins_):
            if c.isdigit():
                tied[len(outs) + i] = int(c)
        val = {}
        for k, v in slots.items():
            key = tied.get(k, k)
            val[key] = v
        import re as _re
        of = None
        for ln in lines:
            m = _re.match(r'(\w+)\s+(.*)$', ln)
            opn, rest = m.group(1), [x.strip() for x in m.group(2).split(',')]

            def num(x):
                mm = _re.match(r'\$\{?(\d+)(?::\w)?\}?$', x)
                k = int(mm.group(1))
                return tied.get(k, k)
            if opn in ('addq', 'subq', 'imulq'):
                a, d = num(rest[0]), num(rest[1])
                A, D = bv(val[d]), bv(val[a])
                w = 64 if opn == 'imulq' else 1
                f = {'addq': lambda x, y: x + y, 'subq': lambda x, y: x - y, 'imulq': lambda x, y: x * y}[opn]
                full = f(z3.SignExt(w, A), z3.SignExt(w, D))
                r = f(A, D)
                of = simp(full != z3.SignExt(w, r))
                val[d] = simp(r)
            elif opn == 'seto':
                k = num(rest[0])
                old = val.get(k, 0)
                n = 32
                val[k] = simp((bv(old, n) & z3.BitVecVal(0xffffff00, n)) | bv(of, n))
            else:
                raise Unsupported('asm ' + opn)
        rs = [val.get(i, UNDEF) for i in range(len(outs))]
        return rs[0] if len(rs) == 1 else Agg(rs)

    # ------------------------------------------------------------ harness help
    def split(self, states, f):
        """Run f(state) for every state, forking on undecided conditions."""
        work = list(states)
        while work:
            s = work.pop()
            s2 = s.clone()
            try:
                f(s2)
            except Fork as fk:
                a = s.clone()
                a.pc.append(zb(fk.cond))
                s.pc.append(z3.Not(zb(fk.cond)))
                work.append(s)
                work.append(a)
            except PathEnd:
                pass


class NullDeref(Exception):
    pass


def byte_of(v, i, size):
    if isinstance(v, POINTERS):
        v = v.addr()
    if isinstance(v, int):
        return (v >> (8 * i)) & 255
    if size == 1:
        return v
    return simp(z3.Extract(8 * i + 7, 8 * i, v))


def concat_bytes(bs):
    if all(isinstance(b, int) for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    if len(bs) == 1:
        return bs[0]
    return simp(z3.Concat(*[bv(b, 8) for b in bs[::-1]]))


def const_bin(op, n, a, b):
    mask = (1 << n) - 1
    if op == 'add':
        return (a + b) & mask
    if op == 'sub':
        return (a - b) & mask
    if op == 'mul':
        return (a * b) & mask
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl' and b < n:
        return (a << b) & mask
    if op == 'lshr' and b < n:
        return a >> b
    if op == 'ashr' and b < n:
        return (sgn(a, n) >> b) & mask
    if op == 'udiv' and b:
        return a // b
    if op == 'urem' and b:
        return a % b
    if op in ('sdiv', 'srem') and b:
        x, y = sgn(a, n), sgn(b, n)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            if q == 1 << (n - 1):
                return None
            return q & mask
        return (x - q * y) & mask
    return None


def x87(op, n, m):
    """80-bit conversions are uninterpreted functions of their bits"""
    return z3.Function('x87.%s.%d.%d' % (op, n, m), z3.BitVecSort(n), z3.BitVecSort(m))


def fsort(n):
    return {32: z3.Float32(), 64: z3.Float64(), 80: z3.FPSort(15, 64)}[n]


def tofp(v, n):
    if n == 80:
        x = bv(v, 80)
        raise Unsupported('x87')
    return z3.fpBVToFP(bv(v, n), fsort(n))


def fbits(f):
    return z3.fpToIEEEBV(f)


def float_const(x, n):
    import struct
    if x.startswith('0x') and x[2] in 'KLMHR':
        return int(x[3:], 16)
    if x.startswith('0x'):
        v = int(x, 16)
        d = struct.unpack('<d', struct.pack('<Q', v))[0]
    else:
        d = float(x)
    if n == 64:
        return struct.unpack('<Q', struct.pack('<d', d))[0]
    if n == 32:
        return struct.unpack('<I', struct.pack('<f', d))[0]
    raise Unsupported('float const')


# ---------------------------------------------------------------- libc
def _memmove(ex, s, v):
    ex.memcpy(s, v[0], v[1], v[2], 'memmove')
    return v[0]


def _memcpy(ex, s, v):
    ex.memcpy(s, v[0], v[1], v[2], 'memcpy')
    return v[0]


class Compared:
    """What a call of memcmp (or strncmp) established: bytes before `upto` agree"""
    def __init__(self, a, b, upto, n, w):
        self.a, self.b, self.upto, self.n, self.w = a, b, upto, n, w

    def at(self, k):
        return z3.Implies(z3.ULT(bv(k), bv(self.upto)), bv(self.a(bv(k)), 8) == bv(self.b(bv(k)), 8))


def _memcmp(ex, s, v, text=False):
    n = simp(v[2])
    z = ex.fresh('cmp', 32)
    if ex.decide(s, bv(n) == 0):
        return 0
    ra, oa = ex.resolve_addr(s, v[0])
    rb, ob = ex.resolve_addr(s, v[1])
    if not text:
        ex.bounds_range(s, ra, oa, n, 'memcmp')
        ex.bounds_range(s, rb, ob, n, 'memcmp')
    sa, sb = ex.snapshot_reader(s, ra), ex.snapshot_reader(s, rb)
    a = lambda k: sa(add64(oa, k), 1)
    b = lambda k: sb(add64(ob, k), 1)
    s.ghost = dict(s.ghost)
    # (no case split here: a contract must not split on its own fresh values)
    end = n
    if text:
        # equal up to a terminator, if there is one
        end = ex.fresh('textend')
        s.pc.append(z3.ULE(end, bv(n)))
        s.pc.append(z3.Implies(z == 0, z3.Or(end == bv(n), z3.And(bv(a(end), 8) == 0, bv(b(end), 8) == 0))))
    w = ex.fresh('differ')
    x, y = bv(a(w), 8), bv(b(w), 8)
    s.pc.append(z3.Implies(z != 0, z3.And(z3.ULT(w, bv(n)), x != y, (z < 0) == z3.ULT(x, y))))
    c = Compared(a, b, z3.If(z == 0, bv(end), w), n, w)
    c.z = z
    s.ghost['compared'] = list(s.ghost.get('compared', ())) + [c]
    return z


def _strlen(ex, s, v):
    n = ex.fresh('strlen')
    r, o = ex.resolve_addr(s, v[0])
    sr = ex.snapshot_reader(s, r)
    s.pc += [z3.ULT(n, 1 << 31), bv(sr(add64(o, n), 1), 8) == 0]
    s.ghost = dict(s.ghost)
    s.ghost['strlen'] = list(s.ghost.get('strlen', ())) + [(v[0], n)]
    return n


def _abort(ex, s, v):
    ex.oblige(s, False, 'abort unreachable in ' + ex.where(s))
    raise PathEnd('abort')


LIBC = {
    'memmove': _memmove, 'memcpy': _memcpy,
    'memcmp': _memcmp, 'bcmp': _memcmp, 'strncmp': lambda ex, s, v: _memcmp(ex, s, v, True),
    'strlen': _strlen,
    'abort': _abort,
}
