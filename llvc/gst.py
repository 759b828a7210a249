"""Symbolic GNU Smalltalk heap objects for contracts over libgst functions.

Well-formedness of an object (the precondition the VM maintains):
  oop      16-byte aligned slot {object pointer, flags}
  object   {objSize = SmallInteger(words incl. 2 header words), objClass, body}
  words    2 + fixed + ceil(indexed bytes / 8), below 2^45
  flags&7  number of unused bytes in the last word (0 for word-sized elements)
"""
import z3
from .exec import *
from .exec import Ptr, simp, bv, zb

# shape -> (kind value in the instance spec, element size)
SHAPES = {
    'schar': (32, 1), 'uchar': (34, 1), 'character': (36, 1), 'short': (38, 2), 'ushort': (40, 2),
    'int': (42, 4), 'uint': (44, 4), 'float': (46, 4), 'int64': (48, 8), 'uint64': (50, 8),
    'double': (52, 8), 'utf32': (54, 4), 'pointer': (62, 8),
}
MINST = -(1 << 62)
MAXST = (1 << 62) - 1


def from_int(v):
    """FROM_INT on BV64/int"""
    if isinstance(v, int):
        return ((v << 1) | 1) & ((1 << 64) - 1)
    return simp((v << 1) | 1)


def to_int(v):
    return simp(bv(v) >> 1)


def is_int(v):
    return simp((bv(v) & 1) == 1)


class Obj:
    """One symbolic heap object."""
    def __init__(self, ex, st, name, words=None, cls=None, body='bytes', flags=None, maxwords=1 << 45):
        self.ex = ex
        self.name = name
        self.words = words if words is not None else ex.fresh(name + '.words')      # total words
        w = self.words
        if is_z(w):
            ex.assume(st, z3.And(w >= 2, w < maxwords))
        self.flags = flags if flags is not None else ex.fresh(name + '.flags')
        size = w * 8 if isinstance(w, int) else simp(w * 8)
        init = ex.byte_init(name + '.body') if body == 'bytes' else ex.word_init(name + '.body', 8)
        self.oop_r = ex.region(name + '.oop', 16, None)
        self.obj_r = ex.region(name + '.obj', size, init)
        self.init = init
        self.oop = Ptr(self.oop_r, 0)
        self.obj = Ptr(self.obj_r, 0)
        self.cls = cls if cls is not None else ex.fresh(name + '.class')
        ex.write(st, self.oop_r, 0, 8, self.obj)
        ex.write(st, self.oop_r, 8, 8, self.flags)
        sz = from_int(w)
        if is_z(w) and w.get_id() in ex.fits:
            sz = z3.Concat(z3.Extract(62, 0, w), z3.BitVecVal(1, 1))
        ex.write(st, self.obj_r, 0, 8, sz)
        c = self.cls.oop if isinstance(self.cls, Obj) else self.cls
        ex.write(st, self.obj_r, 8, 8, c)


    def reg(self, st):
        """region holding the object now (objects move when memory is allocated)"""
        return self.ex.read(st, self.oop_r, 0, 8).r


class Heap:
    """Contract of the allocator: a fresh zero-flag object of the requested
    size; every object may move, so older object pointers become stale."""
    def __init__(self, ex, offs, objs=()):
        self.ex = ex
        self.objs = list(objs)
        self.n = 0
        self.offs = offs
        ex.contracts['_gst_alloc_obj'] = self.alloc
        ex.contracts['_gst_inc_grow_registry'] = lambda e, s, a: 0

    def setup(self, st):
        """the incubator (GC registry) has room"""
        ex = self.ex
        r = ex.region('incubator', None, ex.word_init('incubator', 8))
        self.reg = r
        g = ex.global_region('@_gst_mem', st)
        for f, o in (('inc_base', 0), ('inc_ptr', 1 << 12), ('inc_end', 1 << 20)):
            ex.write(st, g, self.offs[f], 8, Ptr(r, o))

    def move(self, st):
        ex = self.ex
        for o in self.objs:
            old = ex.read(st, o.oop_r, 0, 8)
            if not isinstance(old, Ptr):
                continue
            nr = ex.region(old.r.name.split('~')[0], old.r.size, old.r.init)
            if old.r.name in st.mem:
                st.mem[nr.name] = st.mem[old.r.name]
            ex.write(st, o.oop_r, 0, 8, Ptr(nr, old.o))
            st.ghost = dict(st.ghost)
            st.ghost['stale'] = frozenset(st.ghost.get('stale', ())) | {old.r.name}

    def alloc(self, ex, st, a):
        size, p = a
        ex.used_trusted.add('contract _gst_alloc_obj (a fresh object of the requested size; objects may move)')
        self.move(st)
        self.n += 1
        o = Obj.__new__(Obj)
        o.ex = ex
        o.name = 'new%d' % self.n
        o.oop_r = ex.region(o.name + '.oop', 16, None)
        o.obj_r = ex.region(o.name + '.obj', size, ex.word_init('%s.body!%d' % (o.name, self.n), 8))
        o.oop = Ptr(o.oop_r, 0)
        o.flags = ex.fresh(o.name + '.flags')
        ex.assume(st, (o.flags & 7) == 0)
        ex.write(st, o.oop_r, 0, 8, Ptr(o.obj_r, 0))
        ex.write(st, o.oop_r, 8, 8, o.flags)
        w = simp(z3.LShR(bv(size), 3))
        if is_z(w):
            ex.small(w, 61)
            sz = z3.Concat(z3.Extract(62, 0, w), z3.BitVecVal(1, 1))
        else:
            sz = from_int(w)
        ex.oblige(st, (bv(size) & 7) == 0, 'allocation size is a whole number of words')
        ex.write(st, o.obj_r, 0, 8, sz)
        ex.store(st, p, 8, o.oop)
        o.words = w
        st.ghost = dict(st.ghost)
        st.ghost['allocs'] = list(st.ghost.get('allocs', ())) + [(o, size)]
        self.objs.append(o)
        return Ptr(o.obj_r, 0)


class GClass(Obj):
    """A class object: only the instance spec matters (4th slot of gst_class)."""
    SPEC_OFF = 32

    def __init__(self, ex, st, name, spec):
        Obj.__init__(self, ex, st, name, words=16, body='words')
        self.spec = spec
        # in the object: instanceSpec field holds FROM_INT-style word already marked
        ex.write(st, self.obj_r, self.SPEC_OFF, 8, spec)


def indexed_object(ex, st, name, shape, fixed=None, es=None):
    """Well-formed indexed object of a shape; returns (obj, spec, fixed, count)."""
    kind, esz = SHAPES[shape]
    F = fixed if fixed is not None else ex.fresh(name + '.fixed')
    if is_z(F):
        ex.assume(st, z3.And(F >= 0, F < (1 << 17)))
    spec = (bv(F) << 13) | z3.BitVecVal(kind | 1, 64)
    hi = ex.fresh(name + '.specbits')     # bits 6..12 are unconstrained
    ex.assume(st, (hi & z3.BitVecVal(0x1fc0, 64)) == hi)
    spec = simp(spec | hi)
    cls = GClass(ex, st, name + '.cls', spec)
    o = Obj(ex, st, name, cls=cls, body='words' if shape == 'pointer' else 'bytes')
    W = o.words - 2
    ex.assume(st, W >= bv(F))
    empty = o.flags & 7
    if esz == 8:
        ex.assume(st, empty == 0)
        count = W - bv(F)
    else:
        ex.assume(st, empty % esz == 0 if False else (empty & (esz - 1)) == 0)
        ex.assume(st, z3.Implies(W == bv(F), empty == 0))
        count = z3.UDiv((W - bv(F)) * 8 - empty, z3.BitVecVal(esz, 64))
    o.count = simp(count)
    o.fixed = F
    o.spec = spec
    o.shape = shape
    o.es = esz
    return o


def setup_stack(ex, st, depth=8, concrete=False):
    """_gst_sp into a stack region; returns (region, sp offset)."""
    r = ex.region('stack', None, ex.word_init('stack', 8))
    if concrete:
        # the region's base address is symbolic, so this is any address
        off = 1 << 20
    else:
      off = ex.fresh('sp')
      ex.assume(st, z3.And((off & 7) == 0, z3.UGT(off, 1 << 16), z3.ULT(off, 1 << 40)))
    g = ex.global_region('@_gst_sp', st)
    ex.write(st, g, 0, 8, Ptr(r, off))
    return r, off


def push_args(ex, st, r, off, vals):
    """Place vals so that the last is on top of stack (at off)."""
    n = len(vals)
    for i, v in enumerate(vals):
        o = add64(off, ((i - (n - 1)) * 8) & M64)
        ex.write(st, r, o, 8, v)


def sp_of(ex, st):
    g = ex.global_region('@_gst_sp', st)
    return ex.read(st, g, 0, 8)


def global_val(ex, st, name, off=0, n=8):
    g = ex.global_region(name, st)
    return ex.read(st, g, off, n)


def eq(a, b):
    """Equality of two values (pointers or BVs)."""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r is b.r:
            return simp(bv(a.o) == bv(b.o))
        return False
    if isinstance(a, POINTERS):
        a = a.addr()
    if isinstance(b, POINTERS):
        b = b.addr()
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    n = a.size() if is_z(a) else b.size()
    return simp(bv(a, n) == bv(b, n))


def frame(ex, st0, st1, allowed, name):
    """Everything outside `allowed` is unchanged.
    allowed: {region name: None (anything) | function(k)->Bool true where writable}"""
    for rn in list(st1.mem):
        r = ex.regions.get(rn)
        if r is None or r.kind == 'alloca':
            continue
        if rn in allowed and allowed[rn] is None:
            continue
        a = st0.mem.get(rn)
        b = st1.mem[rn]
        if a is b:
            continue
        if isinstance(b, Cells):
            base = a.d if a is not None else {}
            for o, (n, v) in b.d.items():
                if o in base and base[o][0] == n and (base[o][1] is v or (isinstance(v, int) and base[o][1] == v)):
                    continue
                ok = allowed[rn](o) if rn in allowed else False
                if ok is True:
                    continue
                old = ex.read(st0, r, o, n)
                same = eq(old, v) if v is not UNDEF else True
                ex.oblige(st1, z3.Or(zb(ok), zb(same)), '%s: nothing else changes in %s+%d' % (name, rn, o))
        else:
            k = ex.fresh('k')
            n = 1 if not (r.init is not None and getattr(r, 'info', {}).get('w8')) else 8
            old = ex.read(st0, r, k, 1)
            new = ex.read(st1, r, k, 1)
            ok = allowed[rn](k) if rn in allowed else False
            pre = []
            if r.size is not None:
                pre = [z3.ULT(k, bv(r.size))]
            ex.oblige(st1, z3.Implies(zand(*pre) if pre else z3.BoolVal(True), z3.Or(zb(ok), zb(eq(old, new)))),
                      '%s: nothing else changes in %s' % (name, rn))
