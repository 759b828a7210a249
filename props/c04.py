"""C04: C values cross the VM boundary unchanged."""
from .vmlib import *
from .prim import Prim
from . import bc as B
from .bc import set_builtins
from llvc.auto import Auto
from llvc.exec import x87

OFFS = {}
CT = {}                 # C type codes of cint.h
U = z3.ULT
B64_ = z3.BitVecSort(64)
# classes the conversions distinguish, with their ancestors
CLASSES = {
    'small_integer': ['integer'], 'large_positive_integer': ['integer'], 'large_negative_integer': ['integer'],
    'char': [], 'unicode_character': [], 'floatd': ['float'], 'floate': ['float'], 'floatq': ['float'],
    'string': [], 'symbol': ['string'], 'byte_array': [], 'unicode_string': [], 'c_object': [], 'undefined_object': [],
    'true': [], 'false': [], 'integer': [], 'float': [], 'array': [], 'c_type': [],
}
BYTE = {'large_positive_integer', 'large_negative_integer', 'floatd', 'floate', 'floatq', 'string', 'symbol', 'byte_array'}
SPEC = {'unicode_character': (1 << 13) | 1, 'char': (1 << 13) | 1, 'unicode_string': 54 | 1,
        'c_object': (2 << 13) | 48 | 1, 'array': 63, 'undefined_object': 1, 'true': 1, 'false': 1}
KINDS = ['small', 'largepos', 'largeneg', 'floatd', 'floate', 'floatq', 'char', 'unichar', 'true', 'false', 'nil', 'cobject', 'other']
KCLS = dict(largepos='large_positive_integer', largeneg='large_negative_integer', floatd='floatd', floate='floate', floatq='floatq',
            char='char', unichar='unicode_character', cobject='c_object')


class World:
    """nil/true/false, the classes, a heap with room, an initialised VM."""
    def __init__(self, ex, mod):
        self.ex = ex
        st = self.st = State()
        self.nil, self.true, self.false = set_builtins(ex, st)
        ob = bv(ot_base(ex, st, ex.mods[0]))
        ex.assume(st, z3.And(z3.UGT(ob, 1 << 20), z3.ULT(ob, 1 << 47)))
        self.cls = {}
        for k in CLASSES:
            c = GClass(ex, st, 'class_' + k, SPEC.get(k, 35 if k in BYTE else 1))
            self.cls[k] = c
            g = '@_gst_%s_class' % k
            if any(g in m.globals for m in ex.mods):
                ex.write(st, ex.global_region(g, st), 0, 8, c.oop)
        self.other = GClass(ex, st, 'class_other', ex.fresh('spec_other'))
        self.heap = Heap(ex, OFFS, [])
        self.heap.setup(st)
        g = '@_gst_smalltalk_initialized'
        if any(g in m.globals for m in ex.mods):
            ex.write(st, ex.global_region(g, st), 0, 4, 1)
        ex.contracts['is_a_kind_of'] = self.kind_of
        self.of = {c.oop_r.name: k for k, c in self.cls.items()}
        ex.contracts['_gst_errorf'] = self.error
        self.obj = None

    def error(self, ex, st, a):
        st.ghost = dict(st.ghost)
        st.ghost['error'] = True
        return None

    def kind_of(self, ex, st, a):
        """contract of is_a_kind_of on the class hierarchy (unit is_a_kind_of)"""
        ex.used_trusted.add('contract is_a_kind_of (follows the superclass chain; unit is_a_kind_of), and the hierarchy of the built-in classes')
        c, x = a
        if not (isinstance(c, Ptr) and isinstance(x, Ptr)):
            raise Unsupported('is_a_kind_of on an unknown class')
        k, y = self.of.get(c.r.name), self.of.get(x.r.name)
        return k is not None and y is not None and (k == y or y in CLASSES[k])

    def make(self, kind):
        """-> the object; self.V its integer value (72-bit) if any"""
        ex, st = self.ex, self.st
        self.kind = kind
        self.V = None
        self.norm = True
        if kind == 'small':
            v = ex.fresh('value')
            ex.assume(st, (v & 1) == 1)
            self.V = z3.SignExt(8, simp(v >> 1))
            return v
        if kind in ('true', 'false', 'nil'):
            v = {'true': self.true, 'false': self.false, 'nil': self.nil}[kind]
            c = {'true': 'true', 'false': 'false', 'nil': 'undefined_object'}[kind]
            # their OOP table entries point at instances of their classes
            m, off = self.ot_entry(st, v)
            o = Obj(ex, st, kind, cls=self.cls[c], words=2)
            ex.write(st, m, off, 8, o.obj)
            ex.write(st, m, simp(bv(off) + 8), 8, o.flags)
            return v
        c = self.other if kind == 'other' else self.cls[KCLS[kind]]
        o = self.obj = Obj(ex, st, 'val', cls=c, body='bytes' if kind not in ('char', 'unichar', 'cobject') else 'words')
        self.heap.objs.append(o)
        ex.assume(st, o.words >= 3)
        for b in (self.nil, self.true, self.false):
            ex.assume(st, o.oop.addr() != b)
        if kind in ('char', 'unichar'):
            n = self.code = ex.fresh('code')
            ex.assume(st, z3.And(n >= (0 if kind == 'char' else 128), n <= (255 if kind == 'char' else 0x10ffff)))
            ex.write(st, o.obj_r, 16, 8, from_int(n))
        elif kind in ('floatd', 'floate'):
            self.bits = ex.fresh('bits', 64 if kind == 'floatd' else 32)
            ex.write(st, o.obj_r, 16, self.bits.size() // 8, self.bits)
        elif kind == 'floatq':
            ex.assume(st, o.words >= 4)
            self.bits = ex.fresh('bits', 80)
            ex.write(st, o.obj_r, 16, 10, self.bits)
        elif kind == 'cobject':
            ex.assume(st, o.words == 5)
            self.storage = ex.fresh('storage')
            ex.write(st, o.obj_r, 16, 8, self.nil)      # type, storage, address
            ex.write(st, o.obj_r, 24, 8, self.nil)
            self.addr = ex.fresh('address')
            ex.write(st, o.obj_r, 32, 8, self.addr)
        elif kind in ('largepos', 'largeneg'):
            # two's complement, little endian, sign of the class
            nb = self.nb = ex.fresh('nbytes')
            ex.assume(st, z3.And(nb >= 1, nb <= 64))
            ex.assume(st, o.words == simp(2 + z3.LShR(nb + 7, 3)))
            ex.small(o.words, 8)
            ex.assume(st, (o.flags & 15) == (8 | ((8 - (nb & 7)) & 7)))
            bs = [bv(ex.read(st, o.obj_r, 16 + i, 1), 8) for i in range(9)]
            self.bytes = bs
            neg = kind == 'largeneg'
            V = None
            fits72 = nb <= 9
            for n in range(9, 0, -1):
                x = simp(z3.Concat(*bs[:n][::-1])) if n > 1 else bs[0]
                ex.assume(st, z3.Implies(nb == n, (x < 0) if neg else (x >= 0)))
                w = z3.SignExt(72 - 8 * n, x) if n < 9 else x
                V = w if V is None else z3.If(nb == n, w, V)
            self.V = simp(V)
            lo64, hi64 = z3.BitVecVal(MINST, 72), z3.BitVecVal(MAXST, 72)
            # normal form: not a SmallInteger, and no shorter encoding
            self.norm = z3.And(nb >= 8, z3.Implies(fits72, z3.Or(self.V < lo64, self.V > hi64)),
                               z3.Implies(nb == 9, z3.Extract(7, 0, bs[8]) != z3.If(bs[7] < 0, z3.BitVecVal(255, 8), z3.BitVecVal(0, 8))))
            self.fits72 = fits72
        return o.oop

    def ot_entry(self, st, v):
        """region of the OOP table (entries are oop records)"""
        ex = self.ex
        r, o = ex.resolve_addr(st, v)
        return r, o

    def in_range(self, signed, w):
        """the value of the Integer fits a C integer of w bits"""
        lo = -(1 << (w - 1)) if signed else 0
        hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
        c = z3.And(self.V >= z3.BitVecVal(lo, 72), self.V <= z3.BitVecVal(hi, 72))
        if self.kind != 'small':
            c = z3.And(self.fits72, c)
        return c


def spec_int(ex, W, s, r, V, what):
    """r is the Integer object of the 72-bit value V"""
    lo, hi = z3.BitVecVal(MINST, 72), z3.BitVecVal(MAXST, 72)
    small = z3.And(V >= lo, V <= hi)
    V64 = z3.Extract(63, 0, V)
    if isinstance(r, Ptr):
        al = [o for o, size in s.ghost.get('allocs', ()) if o.oop_r is r.r]
        if len(al) != 1 or r.o != 0:
            ex.oblige(s, False, what + ': a new Integer is answered')
            return
        o = al[0]
        ex.oblige(s, z3.Not(small), what + ': a SmallInteger exactly when it is in range')
        reg = o.reg(s)
        c = ex.read(s, reg, 8, 8)
        neg = ex.decide(s, V < 0)
        ex.oblige(s, zb(eq(c, W.cls['large_negative_integer' if neg else 'large_positive_integer'].oop)), what + ': of the class of its sign')
        fl = bv(ex.read(s, o.oop_r, 8, 8))
        words = bv(o.words)
        n = simp((words - 2) * 8 - (fl & 7))
        nb = ex.concrete(s, n) if hasattr(ex, 'concrete') else None
        for k in (8, 9):
            if ex.decide(s, n == k):
                nb = k
                break
        else:
            ex.oblige(s, False, what + ': a LargeInteger of 8 or 9 bytes')
            return
        ex.oblige(s, (fl & 8) != 0, what + ': flagged as holding bytes')
        bs = [bv(ex.read(s, reg, 16 + i, 1), 8) for i in range(nb)]
        x = z3.Concat(*bs[::-1])
        ex.oblige(s, (z3.SignExt(72 - 8 * nb, x) if nb < 9 else x) == V, what + ': its bytes are the value')
    else:
        ex.oblige(s, z3.And(small, zb(eq(r, from_int(simp(V64))))), what + ': the SmallInteger of the value')


def ext(v, w, signed):
    return z3.SignExt(72 - w, v) if signed else z3.ZeroExt(72 - w, v)


def from_units(mods):
    units = []
    for fn, w, signed in (('from_c_int_32', 32, True), ('from_c_uint_32', 32, False), ('from_c_int_64', 64, True), ('from_c_uint_64', 64, False)):
        def body(ex, fn=fn, w=w, signed=signed):
            W = World(ex, mods[0])
            st = W.st
            x = ex.fresh('x', w)
            ex.start(st, fn, [x])
            ex.split(ex.run(st), lambda s: spec_int(ex, W, s, s.ret, ext(x, w, signed), fn))
        units.append((fn, llvc_unit(mods, body)))
    for fn, w in (('floatd_new', 64), ('floate_new', 64), ('floatq_new', 80)):
        def body(ex, fn=fn, w=w):
            W = World(ex, mods[0])
            x = ex.fresh('x', w)
            ex.start(W.st, fn, [x])
            ex.split(ex.run(W.st), lambda s: spec_float(ex, W, s, s.ret, fn[:6], x, fn))
        units.append((fn, llvc_unit(mods, body)))

    def body(ex):
        W = World(ex, mods[0])
        x = ex.fresh('code', 32)
        st0 = W.st.clone()
        ex.start(W.st, 'char_new', [x])
        ex.split(ex.run(W.st), lambda s: spec_char(ex, W, st0, s, s.ret, x, 'char_new'))
    units.append(('char_new', llvc_unit(mods, body)))
    return units


def new_object(ex, s, r):
    if not isinstance(r, Ptr):
        return None
    al = [o for o, size in s.ghost.get('allocs', ()) if o.oop_r is r.r]
    return al[0] if len(al) == 1 and r.o == 0 else None


def spec_float(ex, W, s, r, cls, x, what):
    o = new_object(ex, s, r)
    if o is None:
        ex.oblige(s, False, what + ': a new Float is answered')
        return
    reg = o.reg(s)
    ex.oblige(s, zb(eq(ex.read(s, reg, 8, 8), W.cls[cls].oop)), what + ': of the right class')
    n = {'floatd': 8, 'floate': 4, 'floatq': 16}[cls]
    fl = bv(ex.read(s, o.oop_r, 8, 8))
    ex.oblige(s, (bv(o.words) - 2) * 8 - (fl & 7) == n, what + ': of the right size')
    if cls == 'floatq':
        want = x
        got = bv(ex.read(s, reg, 16, 10), 80)
    else:
        got = bv(ex.read(s, reg, 16, n), 8 * n)
        want = x if x.size() == 8 * n else fbits(z3.fpFPToFP(z3.RNE(), tofp(x, x.size()), fsort(8 * n)))
    ex.oblige(s, same_float(got, want), what + ': the value is kept bit for bit')


def same_float(a, b):
    """equal bits (or both NaN after a conversion)"""
    if a.eq(b):
        return z3.BoolVal(True)
    if a.size() == 80:
        return a == b
    return z3.Or(a == b, z3.And(z3.fpIsNaN(tofp(a, a.size())), z3.fpIsNaN(tofp(b, b.size()))))


def char_at(ex, W, st, code):
    return simp(bv(ot_base(ex, st, ex.mods[0])) + (bv(code, 64) + CT['CHAR_BASE']) * 16)


def spec_char(ex, W, st0, s, r, x, what, limit=0x7f):
    """the Character of an unsigned code point"""
    X = z3.ZeroExt(64 - x.size(), x)
    o = new_object(ex, s, r)
    if o is None:
        lim = z3.ULE(X, limit)
        ex.oblige(s, z3.And(lim, zb(eq(r, char_at(ex, W, st0, X)))), what + ': the Character of the code point')
        return
    ex.oblige(s, z3.UGT(X, limit), what + ': small code points have unique Characters')
    reg = o.reg(s)
    ex.oblige(s, zb(eq(ex.read(s, reg, 8, 8), W.cls['unicode_character'].oop)), what + ': a UnicodeCharacter')
    want = z3.If(z3.UGT(X, 0x10ffff), z3.BitVecVal(0xfffd, 64), X)
    ex.oblige(s, zb(eq(ex.read(s, reg, 16, 8), from_int(want))), what + ': of the code point (the replacement character for values that are none)')


def truth(r):
    if isinstance(r, (bool, int)):
        return z3.BoolVal(bool(r))
    if isinstance(r, z3.BoolRef):
        return r
    return bv(r) != 0 if not hasattr(r, 'size') else r != 0


INTK = ['small', 'largepos', 'largeneg']


def to_units(mods):
    units = []
    for fn, w, signed in (('is_c_int_32', 32, True), ('is_c_uint_32', 32, False), ('is_c_int_64', 64, True), ('is_c_uint_64', 64, False)):
        for kind in INTK + ['floatd', 'other']:
            def body(ex, fn=fn, w=w, signed=signed, kind=kind):
                W = World(ex, mods[0])
                v = W.make(kind)
                ex.start(W.st, fn, [v])

                def post(s):
                    t = truth(s.ret)
                    if kind not in INTK:
                        ex.oblige(s, z3.Not(t), '%s: only Integers are accepted' % fn)
                        return
                    ok = W.in_range(signed, w)
                    ex.oblige(s, z3.Implies(t, ok), '%s of %s: only representable values are accepted' % (fn, kind))
                    ex.oblige(s, z3.Implies(z3.And(zb(W.norm), ok), t), '%s of %s: every representable value is accepted' % (fn, kind))
                ex.split(ex.run(W.st), post)
            units.append(('%s/%s' % (fn, kind), llvc_unit(mods, body)))
    for fn, w, both in (('to_c_int_32', 32, True), ('to_c_int_64', 64, True), ('to_c_uint_64', 64, False)):
        for kind in INTK:
            def body(ex, fn=fn, w=w, kind=kind):
                W = World(ex, mods[0])
                v = W.make(kind)
                if kind != 'small':
                    ex.assume(W.st, W.nb >= 4)
                if kind != 'small' and fn == 'to_c_uint_64':
                    ex.assume(W.st, W.in_range(False, 64))
                elif kind != 'small':
                    ex.assume(W.st, z3.Or(W.in_range(True, w), W.in_range(False, w)))
                ex.start(W.st, fn, [v])
                ex.split(ex.run(W.st), lambda s: ex.oblige(s, bv(s.ret, w) == z3.Extract(w - 1, 0, W.V), '%s of %s: the value' % (fn, kind)))
            units.append(('%s/%s' % (fn, kind), llvc_unit(mods, body)))

    def body(ex):
        # the chain: seq(0) is the class, seq(j+1) the superclass of seq(j)
        st = State()
        nil, _, _ = set_builtins(ex, st)
        c, x = ex.fresh('class'), ex.fresh('ancestor')
        ex.assume(st, z3.And(c != 0, x != 0, c != nil))
        SEQ = z3.Function('seq', B64_, B64_)
        ex.assume(st, SEQ(z3.BitVecVal(0, 64)) == c)
        st0 = st.clone()

        def sup(k):
            return bv(ex.read(st0, ex.world, simp(bv(ex.read(st0, ex.world, simp(bv(k)), 8)) + 16), 8))

        def link(j):
            return SEQ(j + 1) == sup(SEQ(j))

        def t(ex_, s_, j, v, w):
            if isinstance(v, Ptr) or w != 64 or not (is_z(v) or isinstance(v, int)):
                return None
            return bv(v) == SEQ(bv(j))
        t.rewrite = True
        spec = Auto(cell_templates=[t], hints=lambda e, s_, j: [link(bv(j))])
        spec.cand_hints = lambda e, s_, j: [link(bv(j))]
        ex.loop_default = spec
        ex.start(st, 'is_a_kind_of', [c, x])
        i = ex.fresh('i')

        def post(s):
            recs = s.ghost.get('loops', ())
            J = recs[-1].J if recs else z3.BitVecVal(0, 64)
            facts = [r.hist(i) for r in recs] + [link(J), link(i)]
            if ex.decide(s, truth(s.ret)):
                ex.oblige(s, z3.And(SEQ(J) == x, z3.Implies(U(i, J), SEQ(i + 1) != nil)), 'is_a_kind_of: yes means the class is on the chain', hints=facts)
            else:
                ex.oblige(s, z3.And(SEQ(J + 1) == nil, z3.Implies(U(i, J) if False else z3.ULE(i, J), SEQ(i) != x)), 'is_a_kind_of: no means the class is nowhere on the chain', hints=facts)
        outs = ex.run(st)
        ex.oblige(st, len(outs) >= 2, 'is_a_kind_of: answers')
        ex.split(outs, post)
    units.append(('is_a_kind_of', llvc_unit(mods, body)))
    return units


ITYPES = {'CHAR': (8, True), 'UCHAR': (8, False), 'SHORT': (16, True), 'USHORT': (16, False), 'INT': (32, True), 'UINT': (32, False),
          'LONG': (64, True), 'ULONG': (64, False), 'LONGLONG': (64, True), 'ULONGLONG': (64, False)}
FTYPES = {'FLOAT': 32, 'DOUBLE': 64, 'LONG_DOUBLE': 80}
ALLT = ['CHAR', 'UCHAR', 'SHORT', 'USHORT', 'INT', 'UINT', 'LONG', 'ULONG', 'LONGLONG', 'ULONGLONG', 'FLOAT', 'DOUBLE', 'LONG_DOUBLE',
        'BOOLEAN', 'WCHAR', 'OOP', 'COBJECT', 'COBJECT_PTR', 'UNKNOWN']
# libffi types: name -> (class, bytes)
FFI = {}
for _n in (8, 16, 32, 64):
    FFI['@ffi_type_sint%d' % _n] = FFI['@ffi_type_uint%d' % _n] = ('int', _n // 8)
FFI.update({'@ffi_type_pointer': ('ptr', 8), '@ffi_type_float': ('float', 4), '@ffi_type_double': ('double', 8), '@ffi_type_longdouble': ('longdouble', 16)})


def ffi_ok(r, ct):
    """the libffi type described carries a C value of type ct"""
    if not isinstance(r, Ptr) or r.o != 0 or r.r.name not in FFI:
        return False
    k, n = FFI[r.r.name]
    if ct in ITYPES:
        w = ITYPES[ct][0] // 8
        return k == 'int' and (n == 8 if w == 8 else n == 4)
    if ct in ('BOOLEAN', 'WCHAR'):
        return k == 'int' and n == 4
    if ct in FTYPES:
        return k == {'FLOAT': 'float', 'DOUBLE': 'double', 'LONG_DOUBLE': 'longdouble'}[ct]
    return k == 'ptr'


def to_float(x, kind, w, W):
    """bits of the number converted to a float of w bits; None where 80-bit
    arithmetic is left uninterpreted"""
    if kind in INTK:
        i = z3.Extract(63, 0, W.V)
        if w == 80:
            return x87('sitofp', 64, 80)(i)
        return fbits(z3.fpSignedToFP(z3.RNE(), i, fsort(w)))
    b = W.bits
    n = b.size()
    if n == w:
        return b
    if 80 in (n, w):
        return None
    return fbits(z3.fpFPToFP(z3.RNE(), tofp(b, n), fsort(w)))


UNKNOWN_AS = dict(small='LONG', largepos='LONG', largeneg='LONG', floatd='DOUBLE', floate='DOUBLE', floatq='DOUBLE', char='CHAR', unichar='WCHAR',
                  true='BOOLEAN', false='BOOLEAN', nil='COBJECT', cobject='COBJECT', other='OOP')


def cint_units(mods, fmods):
    units = []

    def common(ex):
        W = World(ex, mods[0])
        ex.contracts['bad_type'] = lambda e, s, a: W.error(e, s, a)
        return W

    for kind in KINDS:
        for ct in ALLT:
            if ct == 'COBJECT' and kind in ('largepos', 'largeneg', 'floatd', 'floate', 'floatq', 'other'):
                continue        # passes a pointer to the bytes of the object
            if ct in ('COBJECT_PTR',) and kind == 'other':
                continue

            def body(ex, kind=kind, ct=ct):
                W = common(ex)
                st = W.st
                v = W.make(kind)
                if W.V is not None:
                    ex.assume(st, zb(W.norm))
                cp = ex.region('cparam', 32, None)
                ex.start(st, 'smalltalk_to_c', [v, Ptr(cp, 0), CT[ct]])
                what = 'passing %s as #%s' % (kind, ct.lower())

                def post(s):
                    refuse = s.ghost.get('error')
                    null = ex.decide(s, eq(s.ret, 0)) if not isinstance(s.ret, Ptr) else False
                    t = UNKNOWN_AS[kind] if ct == 'UNKNOWN' else ct
                    rd = lambda n, o=0: bv(ex.read(s, cp, o, n), 8 * n)
                    want = None
                    if t == 'OOP':
                        want = eq(ex.read(s, cp, 0, 8), v)
                    elif kind in INTK and t in ITYPES:
                        w, sg = ITYPES[t]
                        n = max(4, w // 8)
                        fits = z3.And(W.in_range(sg, w))
                        want = z3.Implies(fits, rd(n) == z3.Extract(8 * n - 1, 0, W.V))
                    elif kind in INTK and t in ('FLOAT', 'DOUBLE'):
                        w = FTYPES[t]
                        want = z3.Implies(W.in_range(True, 64), same_float(rd(w // 8), to_float(v, kind, w, W)))
                    elif kind in ('true', 'false') and (t in ITYPES or t == 'BOOLEAN'):
                        n = ITYPES[t][0] // 8 if t in ITYPES else 4
                        want = rd(max(4, n)) == (1 if kind == 'true' else 0)
                    elif kind == 'char' and t in ('CHAR', 'UCHAR', 'WCHAR') or kind == 'unichar' and t == 'WCHAR':
                        want = rd(4) == z3.Extract(31, 0, W.code)
                    elif kind in ('floatd', 'floate', 'floatq') and t in FTYPES:
                        w = FTYPES[t]
                        e = to_float(v, kind, w, W)
                        if e is not None:
                            want = same_float(rd(w // 8), e)
                        else:
                            want = True         # 80-bit rounding is not modelled
                    elif kind == 'nil' and t in ('COBJECT', 'COBJECT_PTR'):
                        want = rd(8) == 0
                    elif kind == 'cobject' and t == 'COBJECT':
                        want = rd(8) == W.addr
                    elif kind == 'cobject' and t == 'COBJECT_PTR':
                        want = z3.And(zb(eq(ex.read(s, cp, 0, 8), Ptr(cp, 8))), rd(8, 8) == W.addr, zb(eq(ex.read(s, cp, 16, 8), v)))
                    if want is None:
                        if kind in INTK and t == 'LONG_DOUBLE':
                            if not null:
                                ex.oblige(s, rd(10) == to_float(v, kind, 80, W), what + ': the value')
                            return
                        ex.oblige(s, bool(null and refuse), what + ': is refused')
                        return
                    ex.oblige(s, bool(not null and not refuse), what + ': is accepted')
                    ex.oblige(s, ffi_ok(s.ret, t), what + ': described to libffi as that type')
                    ex.oblige(s, want, what + ': C receives the value')
                    ex.oblige(s, eq(ex.read(s, cp, 24, 4), CT[t]), what + ': the parameter records its type')
                outs = ex.run(st)
                ex.oblige(st, len(outs) > 0, what + ': answers')
                ex.split(outs, post)
            units.append(('smalltalk_to_c/%s/%s' % (kind, ct), llvc_unit(mods, body)))

    # results
    RET = ['CHAR', 'UCHAR', 'WCHAR', 'BOOLEAN', 'INT', 'UINT', 'SHORT', 'USHORT', 'LONG', 'ULONG', 'LONGLONG', 'ULONGLONG', 'FLOAT', 'DOUBLE',
           'LONG_DOUBLE', 'OOP', 'COBJECT', 'VOID', 'ctype', 'STRING', 'SYMBOL', 'WSTRING', 'STRING_OUT', 'SYMBOL_OUT', 'WSTRING_OUT']
    for ct in RET:
        def body(ex, ct=ct):
            W = common(ex)
            st = W.st
            cp = ex.region('cparam', 32, ex.byte_init('result'))
            recv = ex.fresh('receiver')
            log = {}

            def rec(name):
                def h(e, s, a):
                    e.used_trusted.add('contract %s (called with the C result)' % name)
                    r = e.fresh(name)
                    e.assume(s, r != 0)
                    s.ghost = dict(s.ghost)
                    s.ghost[name] = (tuple(a), r)
                    return r
                return h
            for f in ('_gst_c_object_new_base', '_gst_string_new', '_gst_unicode_string_new', '_gst_intern_string'):
                ex.contracts[f] = rec(f)

            def freed(e, s, a):
                s.ghost = dict(s.ghost)
                s.ghost['freed'] = s.ghost.get('freed', ()) + (a[0],)
            for f in ('free', 'xfree'):
                ex.contracts[f] = freed
            rt = from_int(CT[ct]) if ct != 'ctype' else Obj(ex, st, 'ctype').oop
            st0 = st.clone()
            raw = lambda n: bv(ex.read(st0, cp, 0, n), 8 * n)
            ex.start(st, 'c_to_smalltalk', [Ptr(cp, 0), recv, rt])
            what = 'a #%s result' % ct.lower()

            def post(s):
                r = s.ret
                p = raw(8)
                if ct in ('CHAR', 'UCHAR'):
                    ex.oblige(s, eq(r, char_at(ex, W, st0, z3.ZeroExt(56, raw(1)))), what + ': the Character')
                elif ct == 'WCHAR':
                    spec_char(ex, W, st0, s, r, raw(4), what)
                elif ct == 'BOOLEAN':
                    ex.oblige(s, z3.If(raw(8) != 0, zb(eq(r, W.true)), zb(eq(r, W.false))) if True else None, what + ': the Boolean')
                elif ct in ITYPES:
                    w, sg = ITYPES[ct]
                    spec_int(ex, W, s, r, ext(raw(w // 8), w, sg), what)
                elif ct in FTYPES:
                    w = FTYPES[ct]
                    spec_float(ex, W, s, r, {32: 'floate', 64: 'floatd', 80: 'floatq'}[w], raw(w // 8), what)
                elif ct == 'VOID':
                    ex.oblige(s, eq(r, recv), what + ': the receiver')
                elif ct == 'OOP':
                    ex.oblige(s, z3.If(p == 0, zb(eq(r, W.nil)), zb(eq(r, p))), what + ': the object')
                else:
                    fn = {'COBJECT': '_gst_c_object_new_base', 'ctype': '_gst_c_object_new_base', 'STRING': '_gst_string_new', 'SYMBOL': '_gst_intern_string',
                          'WSTRING': '_gst_unicode_string_new'}[ct.replace('_OUT', '')]
                    if ex.decide(s, p == 0):
                        ex.oblige(s, eq(r, W.nil), what + ': NULL is nil')
                        ex.oblige(s, fn not in s.ghost, what + ': NULL is not dereferenced')
                        return
                    if fn not in s.ghost:
                        ex.oblige(s, False, what + ': converted')
                        return
                    a, res = s.ghost[fn]
                    ex.oblige(s, eq(r, res), what + ': answered')
                    if fn == '_gst_c_object_new_base':
                        ex.oblige(s, zand(zb(eq(a[0], W.nil)), zb(eq(a[1], p)), zb(eq(a[2], W.nil if ct == 'COBJECT' else rt)), zb(eq(a[3], W.cls['c_object'].oop))),
                                  what + ': a CObject at the address, of the type')
                    else:
                        ex.oblige(s, eq(a[0], p), what + ': from the C string')
                    fr = s.ghost.get('freed', ())
                    if ct.endswith('_OUT'):
                        ex.oblige(s, len(fr) == 1 and eq(fr[0], p), what + ': C memory is released once')
                    else:
                        ex.oblige(s, len(fr) == 0, what + ': C memory is not released')
            outs = ex.run(st)
            ex.oblige(st, len(outs) > 0, what + ': answers')
            ex.split(outs, post)
        units.append(('c_to_smalltalk/' + ct, llvc_unit(mods, body)))

        def body(ex, ct=ct):
            W = common(ex)
            st = W.st
            rt = from_int(CT[ct]) if ct != 'ctype' else Obj(ex, st, 'ctype').oop
            ex.start(st, 'get_ffi_type', [rt])

            def post(s):
                if ct == 'VOID':
                    ex.oblige(s, isinstance(s.ret, Ptr), 'a void result is described')
                    return
                ex.oblige(s, ffi_ok(s.ret, ct), 'a #%s result is described to libffi as that type' % ct.lower())
            ex.split(ex.run(st), post)
        units.append(('get_ffi_type/' + ct, llvc_unit(mods, body)))

    SZ = dict(CHAR=1, UCHAR=1, SHORT=2, USHORT=2, INT=4, UINT=4, LONG=8, ULONG=8, LONGLONG=8, ULONGLONG=8, FLOAT=4, DOUBLE=8, LONG_DOUBLE=16, OOP=8, STRING=8,
              WCHAR=4, COBJECT=8)

    def body(ex):
        for t, n in SZ.items():
            st = State()
            ex.start(st, '_gst_c_type_size', [CT[t]])
            for s in ex.run(st):
                ex.oblige(s, eq(s.ret, n), 'the size of #%s' % t.lower())
    units.append(('c_type_size', llvc_unit(mods, body)))
    return units


def callin_units(mods):
    units = []

    def unit(name, body):
        units.append((name, llvc_unit(mods, body)))

    def simple(fn, w, f):
        def body(ex):
            W = World(ex, mods[0])
            x = ex.fresh('x', w)
            st0 = W.st.clone()
            ex.start(W.st, fn, [x])
            outs = ex.run(W.st)
            ex.oblige(W.st, len(outs) > 0, fn + ': answers')
            ex.split(outs, lambda s: f(ex, W, st0, s, x))
        unit(fn, body)
    simple('_gst_int_to_oop', 64, lambda ex, W, st0, s, x: spec_int(ex, W, s, s.ret, ext(x, 64, True), '_gst_int_to_oop'))
    simple('_gst_uint_to_oop', 64, lambda ex, W, st0, s, x: spec_int(ex, W, s, s.ret, ext(x, 64, False), '_gst_uint_to_oop'))
    simple('_gst_bool_to_oop', 32, lambda ex, W, st0, s, x: ex.oblige(s, z3.If(x != 0, zb(eq(s.ret, W.true)), zb(eq(s.ret, W.false))), '_gst_bool_to_oop: true for non-zero'))
    simple('_gst_char_to_oop', 8, lambda ex, W, st0, s, x: ex.oblige(s, eq(s.ret, char_at(ex, W, st0, z3.ZeroExt(56, x))), '_gst_char_to_oop: the Character of the byte'))
    simple('_gst_wchar_to_oop', 32, lambda ex, W, st0, s, x: spec_char(ex, W, st0, s, s.ret, x, '_gst_wchar_to_oop'))
    simple('_gst_float_to_oop', 64, lambda ex, W, st0, s, x: spec_float(ex, W, s, s.ret, 'floatd', x, '_gst_float_to_oop'))
    simple('_gst_long_double_to_oop', 80, lambda ex, W, st0, s, x: spec_float(ex, W, s, s.ret, 'floatq', x, '_gst_long_double_to_oop'))

    def back(fn, kind, f, norm=True):
        def body(ex):
            W = World(ex, mods[0])
            v = W.make(kind)
            if W.V is not None:
                ex.assume(W.st, zb(W.norm))
            ex.start(W.st, fn, [v])
            outs = ex.run(W.st)
            ex.oblige(W.st, len(outs) > 0, '%s of %s: answers' % (fn, kind))
            ex.split(outs, lambda s: f(ex, W, s, v, '%s of %s' % (fn, kind)))
        unit('%s/%s' % (fn, kind), body)
    num = lambda ex, W, s, v, what: ex.oblige(s, z3.Implies(z3.Or(W.in_range(True, 64), W.in_range(False, 64)), bv(s.ret) == z3.Extract(63, 0, W.V)), what + ': the value')
    for k in INTK:
        back('_gst_oop_to_int', k, num)
        back('_gst_oop_to_c', k, num)
    const = lambda n: (lambda ex, W, s, v, what: ex.oblige(s, eq(s.ret, n), what + ': %d' % n))
    back('_gst_oop_to_c', 'true', const(1))
    back('_gst_oop_to_c', 'false', const(0))
    back('_gst_oop_to_c', 'nil', const(0))
    code = lambda w: (lambda ex, W, s, v, what: ex.oblige(s, bv(s.ret, w) == z3.Extract(w - 1, 0, W.code), what + ': the code point'))
    for k in ('char', 'unichar'):
        back('_gst_oop_to_c', k, code(64))
        back('_gst_oop_to_wchar', k, code(32))
    back('_gst_oop_to_char', 'char', code(8))
    back('_gst_oop_to_c', 'cobject', lambda ex, W, s, v, what: ex.oblige(s, bv(s.ret) == W.addr, what + ': the address'))
    back('_gst_oop_to_c', 'other', const(0))
    for k in ('true', 'false', 'nil', 'small', 'other'):
        back('_gst_oop_to_bool', k, const(1 if k == 'true' else 0))
    for k in ('small', 'floatd', 'floate', 'floatq'):
        for fn, w in (('_gst_oop_to_float', 64), ('_gst_oop_to_long_double', 80)):
            if k == 'floatq' and w == 64 or k in ('floatd', 'floate') and w == 80:
                continue
            back(fn, k, lambda ex, W, s, v, what, k=k, w=w: ex.oblige(s, same_float(bv(s.ret, w), to_float(v, k, w, W)), what + ': the value'))
    return units


PID = {}
SIZES = dict(CHAR=1, UCHAR=1, SHORT=2, USHORT=2, INT=4, UINT=4, LONG=8, ULONG=8, LONGLONG=8, ULONGLONG=8, FLOAT=4, DOUBLE=8, LONG_DOUBLE=16, OOP=8)


def cobject(ex, W, where):
    """a CObject on raw memory or on the bytes of an object;
    -> (oop, region(st), offset of its address, bytes or None)"""
    st = W.st
    c = Obj(ex, st, 'cobj', cls=W.cls['c_object'], words=5, body='words')
    W.heap.objs.append(c)
    ex.write(st, c.obj_r, 16, 8, W.nil)
    if where == 'raw':
        mem = ex.region('cmem', None, ex.byte_init('cmem'))
        a = ex.fresh('address')
        ex.write(st, c.obj_r, 24, 8, W.nil)
        ex.write(st, c.obj_r, 32, 8, Ptr(mem, a))
        return c, (lambda s: mem), a, None
    b = Obj(ex, st, 'bytes', cls=W.cls['byte_array'], body='bytes')
    W.heap.objs.append(b)
    ex.small(b.words, 45)
    for x in (W.nil, W.true, W.false):
        ex.assume(st, b.oop.addr() != x)
    ex.assume(st, (b.flags & 8) != 0)
    ex.assume(st, z3.Implies(b.words == 2, (b.flags & 7) == 0))
    a = ex.fresh('address')
    ex.write(st, c.obj_r, 24, 8, b.oop)
    ex.write(st, c.obj_r, 32, 8, a)
    n = simp((b.words - 2) * 8 - (b.flags & 7))
    return c, (lambda s: b.reg(s)), a, n


def memory_units(mods):
    units = []

    def inside(a, off, n, size):
        """the whole C value lies in the bytes of the object"""
        if n is None:
            return z3.BoolVal(True)
        p = z3.SignExt(8, a) + z3.SignExt(8, off)
        return z3.And(p >= 0, p + size <= z3.SignExt(8, n))

    def place(a, off, n):
        return simp(a + off) if n is None else simp(a + off + 16)

    def common(ex, where):
        W = World(ex, mods[0])
        c, reg, a, n = cobject(ex, W, where)
        off = ex.fresh('offset')
        ov = from_int(off)
        off = simp(ov >> 1)
        for f in ('_gst_c_object_new_base', '_gst_string_new'):
            def rec(e, s, x, f=f):
                e.used_trusted.add('contract %s' % f)
                r = e.fresh(f)
                e.assume(s, r != 0)
                s.ghost = dict(s.ghost)
                s.ghost[f] = (tuple(x), r)
                return r
            ex.contracts[f] = rec
        return W, c, reg, a, n, ov, off

    for where in ('raw', 'object'):
        for ct in list(SIZES) + ['STRING', 'VOID', 'BOOLEAN']:
            def body(ex, where=where, ct=ct):
                W, c, reg, a, n, ov, off = common(ex, where)
                P = Prim(ex, W.st, 'VMpr_CObject_at', [c.oop, ov, from_int(CT[ct])], pid=PID['VMpr_CObject_at'])
                what = 'reading a #%s from %s' % (ct.lower(), where)
                known = ct in SIZES or ct == 'STRING'
                sz = SIZES.get(ct, 8)

                def post(s):
                    ins = inside(a, off, n, sz)
                    if P.failed(s):
                        P.unchanged(s, what)
                        if known:
                            ex.oblige(s, z3.Not(ins), what + ': a value inside the memory is read')
                        return
                    P.succeeded(s, what)
                    if not known:
                        ex.oblige(s, False, what + ': unknown types are refused')
                        return
                    if not ex.oblige(s, ins, what + ': nothing outside the object is read'):
                        return
                    r = P.top(s)
                    raw = bv(ex.read(P.st0, reg(P.st0), place(a, off, n), 10 if ct == 'LONG_DOUBLE' else sz), 80 if ct == 'LONG_DOUBLE' else sz * 8)
                    if ct in ('CHAR', 'UCHAR'):
                        ex.oblige(s, eq(r, char_at(ex, W, P.st0, z3.ZeroExt(56, raw))), what + ': the Character')
                    elif ct in ITYPES:
                        spec_int(ex, W, s, r, ext(raw, *ITYPES[ct]), what)
                    elif ct in FTYPES:
                        spec_float(ex, W, s, r, {'FLOAT': 'floate', 'DOUBLE': 'floatd', 'LONG_DOUBLE': 'floatq'}[ct], raw, what)
                    elif ct == 'OOP':
                        ex.oblige(s, eq(r, raw), what + ': the object')
                    elif ex.decide(s, raw == 0):
                        ex.oblige(s, eq(r, W.nil), what + ': NULL is nil')
                    else:
                        g = s.ghost.get('_gst_string_new')
                        ex.oblige(s, g is not None and zand(zb(eq(g[0][0], raw)), zb(eq(g[1], r))), what + ': a String of the C string')
                outs = P.run(W.st)
                ex.oblige(W.st, len(outs) > 0, what + ': answers')
                ex.split(outs, post)
            units.append(('CObject_at/%s/%s' % (where, ct), llvc_unit(mods, body)))
            if ct in ('VOID', 'BOOLEAN', 'STRING'):
                continue
            for kind in KINDS:
                if where == 'object' and (kind, ct) not in (('small', 'CHAR'), ('small', 'INT'), ('largepos', 'LONG'), ('floatd', 'DOUBLE'), ('floate', 'LONG_DOUBLE'), ('small', 'SHORT')):
                    continue

                def body(ex, where=where, ct=ct, kind=kind):
                    W, c, reg, a, n, ov, off = common(ex, where)
                    v = W.make(kind)
                    if W.V is not None:
                        ex.assume(W.st, zb(W.norm))
                    P = Prim(ex, W.st, 'VMpr_CObject_atPut', [c.oop, ov, v, from_int(CT[ct])])
                    what = 'storing %s as #%s in %s' % (kind, ct.lower(), where)
                    sz = SIZES[ct]
                    must, want = z3.BoolVal(False), None       # must be accepted; bits then stored
                    may = z3.BoolVal(False)
                    wn = sz
                    if ct == 'OOP':
                        must, want = z3.BoolVal(True), bv(v.addr() if isinstance(v, Ptr) else v)
                    elif ct in ('CHAR', 'UCHAR') and kind in ('char', 'unichar'):
                        must, want = z3.BoolVal(kind == 'char'), z3.Extract(7, 0, W.code)
                    elif ct in ITYPES and kind in INTK:
                        w, sg = ITYPES[ct]
                        must, want = W.in_range(sg, w), z3.Extract(w - 1, 0, W.V)
                        may = W.in_range(not sg, w) if w >= 32 else z3.BoolVal(True)
                        if w < 32 and kind != 'small':
                            may = z3.BoolVal(False)
                    elif ct in FTYPES and kind in ('small', 'floatd', 'floate', 'floatq'):
                        must = z3.BoolVal(True)
                        e = to_float(v, kind, FTYPES[ct], W)
                        want = e if e is not None else 'any'
                        wn = FTYPES[ct] // 8

                    def post(s):
                        ins = inside(a, off, n, sz)
                        if P.failed(s):
                            P.unchanged(s, what)
                            ex.oblige(s, z3.Not(z3.And(ins, must)), what + ': a representable value is stored')
                            P.frame(s, {}, what)
                            return
                        if not ex.oblige(s, z3.And(ins, z3.Or(must, may)), what + ': only representable values are stored, and inside the memory'):
                            return
                        ex.oblige(s, P.sp_is(s, 0), what + ': the arguments are popped')
                        p = place(a, off, n)
                        got = bv(ex.read(s, reg(s), p, wn), 8 * wn)
                        if not isinstance(want, str):
                            ex.oblige(s, z3.Implies(must, same_float(got, want) if ct in FTYPES else got == want), what + ': the memory holds the value')
                        P.frame(s, {reg(s).name: lambda k: U(bv(k) - bv(p), sz)}, what)
                    outs = P.run(W.st)
                    ex.oblige(W.st, len(outs) > 0, what + ': answers')
                    ex.split(outs, post)
                units.append(('CObject_atPut/%s/%s/%s' % (where, kind, ct), llvc_unit(mods, body)))

        # pointers: deref and address arithmetic
        for deref in (True, False):
            def body(ex, where=where, deref=deref):
                W, c, reg, a, n, ov, off = common(ex, where)
                ty = Obj(ex, W.st, 'type', cls=W.cls['c_type'], body='words')
                W.heap.objs.append(ty)
                nm = 'VMpr_CObject_derefAt' if deref else 'VMpr_CObject_at'
                P = Prim(ex, W.st, 'VMpr_CObject_at', [c.oop, ov, ty.oop], pid=PID[nm])
                what = '%s with a type on %s' % ('derefAt' if deref else 'at', where)

                def post(s):
                    ins = inside(a, off, n, 8) if deref else z3.BoolVal(True)
                    if P.failed(s):
                        P.unchanged(s, what)
                        ex.oblige(s, z3.Not(ins), what + ': succeeds inside the memory')
                        return
                    P.succeeded(s, what)
                    if not ex.oblige(s, ins, what + ': nothing outside the object is read'):
                        return
                    if deref:
                        p = bv(ex.read(P.st0, reg(P.st0), place(a, off, n), 8))
                        if ex.decide(s, p == 0):
                            ex.oblige(s, eq(P.top(s), W.nil), what + ': NULL is nil')
                            return
                        base = W.nil
                    else:
                        base = W.nil if n is None else ex.read(P.st0, c.obj_r, 24, 8)
                        p = bv(Ptr(reg(P.st0), a).addr() if n is None else a) + off
                    g = s.ghost.get('_gst_c_object_new_base')
                    if g is None:
                        ex.oblige(s, False, what + ': answers a CObject')
                        return
                    x, r = g
                    ex.oblige(s, zand(zb(eq(x[0], base)), zb(eq(x[1], p)), zb(eq(x[2], ty.oop)), zb(eq(r, P.top(s)))), what + ': a CObject of the type at the address')
                ex.split(P.run(W.st), post)
            units.append(('CObject_%s/%s' % ('deref' if deref else 'adjust', where), llvc_unit(mods, body)))

        def body(ex, where=where):
            W, c, reg, a, n, ov, off = common(ex, where)
            P = Prim(ex, W.st, 'VMpr_CObject_address', [c.oop])
            what = 'CObject address on ' + where

            def post(s):
                P.succeeded(s, what)
                x = bv(Ptr(reg(P.st0), a).addr()) if n is None else a
                spec_int(ex, W, s, P.top(s), ext(x, 64, n is not None), what)
            ex.split(P.run(W.st), post)
        units.append(('CObject_address/' + where, llvc_unit(mods, body)))
        for kind in INTK + ['floatd', 'other']:
            def body(ex, where=where, kind=kind):
                W, c, reg, a, n, ov, off = common(ex, where)
                v = W.make(kind)
                if W.V is not None:
                    ex.assume(W.st, zb(W.norm))
                P = Prim(ex, W.st, 'VMpr_CObject_addressColon', [c.oop, v])
                what = 'CObject address: %s on %s' % (kind, where)

                def post(s):
                    ok = W.in_range(n is not None, 64) if W.V is not None else z3.BoolVal(False)
                    if P.failed(s):
                        P.unchanged(s, what)
                        ex.oblige(s, z3.Not(ok), what + ': an address is accepted')
                        P.frame(s, {}, what)
                        return
                    ex.oblige(s, ok, what + ': only addresses are accepted')
                    if W.V is not None:
                        ex.oblige(s, bv(ex.read(s, c.reg(s), 32, 8)) == z3.Extract(63, 0, W.V), what + ': becomes the address')
                    P.frame(s, {c.obj_r.name: lambda k: zb(k == 32) if isinstance(k, int) else bv(k) == 32}, what)
                ex.split(P.run(W.st), post)
            units.append(('CObject_addressColon/%s/%s' % (where, kind), llvc_unit(mods, body)))

    def body(ex):
        W = World(ex, mods[0])
        st = W.st
        case = ex.fresh('case')
        for typed in (False, True):
            s0 = st.clone()
            base, p, dc = ex.fresh('base'), ex.fresh('address'), W.cls['c_object'].oop
            if typed:
                ty = Obj(ex, s0, 'type', cls=W.cls['c_type'], body='words')
                W.heap.objs.append(ty)
                ex.assume(s0, z3.And(ty.words >= 3, ty.oop.addr() != W.nil))
                assoc = Obj(ex, s0, 'assoc', body='words', words=5)
                ex.write(s0, ty.obj_r, 16, 8, assoc.oop)
                want = GClass(ex, s0, 'class_sub', (2 << 13) | 48 | 1)
                ex.write(s0, assoc.obj_r, 24, 8, want.oop)
                args = [base, p, ty.oop, dc]
                tv = ty.oop
                want = want.oop
            else:
                args = [base, p, W.nil, dc]
                tv, want = W.nil, dc

            def inst(e, s, a, want=want):
                e.used_trusted.add('contract instantiate_with (a nil-filled object of the requested size; proved in C03)')
                e.oblige(s, zand(zb(eq(a[0], want)), zb(eq(a[1], 1))), 'a CObject of the class of its type')
                w = from_int(5)
                r = e.region('new.obj', 40, e.word_init('new', 8))
                o = e.region('new.oop', 16, None)
                e.write(s, o, 0, 8, Ptr(r, 0))
                e.write(s, r, 0, 8, w)
                e.store(s, a[2], 8, Ptr(o, 0))
                s.ghost = dict(s.ghost)
                s.ghost['made'] = (r, o)
                return Ptr(r, 0)
            ex.contracts['instantiate_with'] = inst
            ex.start(s0, '_gst_c_object_new_base', args)
            for s in ex.run(s0):
                m = s.ghost.get('made')
                if not m:
                    ex.oblige(s, False, 'a CObject is made')
                    continue
                r, o = m
                ex.oblige(s, zand(zb(eq(s.ret, Ptr(o, 0))), zb(eq(ex.read(s, r, 16, 8), tv)), zb(eq(ex.read(s, r, 24, 8), base)), zb(eq(ex.read(s, r, 32, 8), p))),
                          'a new CObject has its type, storage and address')
    units.append(('c_object_new_base', llvc_unit([mods[1], mods[0], mods[2]], body)))
    return units


def string_units(mods):
    """strings and byte arrays made from and copied to C memory"""
    units = []

    def make(fn, shape, es, cls, how):
        def body(ex):
            W = World(ex, mods[0])
            ex.loop_default = Auto()
            st = W.st
            kind = SHAPES[shape][0]
            c = GClass(ex, st, 'class_made', kind | 1)
            ex.write(st, ex.global_region('@_gst_%s_class' % cls, st), 0, 8, c.oop)
            src = ex.region('src', None, ex.byte_init('src'))
            n = ex.fresh('n')
            ex.assume(st, z3.ULT(n, 1 << 30))
            ex.small(n, 30)

            def length(e, s, a):
                e.oblige(s, zb(eq(a[0], Ptr(src, 0))), fn + ': the length is that of the argument')
                return n
            ex.contracts['strlen'] = ex.contracts['wcslen'] = length
            null = how == 'null'
            args = [0 if null else Ptr(src, 0)] + ([n] if how == 'counted' else [])
            N = z3.BitVecVal(0, 64) if null else n
            st0 = st.clone()
            ex.start(st, fn, args)
            k = ex.fresh('k')

            def post(s):
                al = s.ghost.get('allocs', ())
                ex.oblige(s, len(al) == 1, fn + ': one object')
                if len(al) != 1:
                    return
                o, size = al[0]
                ex.oblige(s, zb(eq(s.ret, o.oop)), fn + ': answers it')
                r = o.reg(s)
                ex.oblige(s, zb(eq(ex.read(s, r, 8, 8), c.oop)), fn + ': of the right class')
                ex.oblige(s, bv(size) == ((N * es + 16 + 7) & ~z3.BitVecVal(7, 64)), fn + ': with room for the characters')
                ex.oblige(s, (bv(ex.read(s, o.oop_r, 8, 8)) & 15) == ((0 - N * es) & 7) | 8, fn + ': with exactly as many elements')
                ex.oblige(s, z3.Implies(U(k, N * es), bv(ex.read(s, r, simp(16 + k), 1), 8) == bv(ex.read(st0, src, k, 1), 8)), fn + ': every byte of the argument')
                al = {x: None for x in (o.oop_r.name, o.obj_r.name, r.name)}
                frame(ex, st0, s, al, fn)
            ex.split(ex.run(st), post)
        units.append(('%s/%s' % (fn, how), llvc_unit(mods, body)))
    make('_gst_string_new', 'character', 1, 'string', 'z')
    make('_gst_string_new', 'character', 1, 'string', 'null')
    make('_gst_unicode_string_new', 'utf32', 4, 'unicode_string', 'z')
    make('_gst_unicode_string_new', 'utf32', 4, 'unicode_string', 'null')
    make('_gst_counted_string_new', 'character', 1, 'string', 'counted')
    make('_gst_byte_array_new', 'uchar', 1, 'byte_array', 'counted')

    def copy(fn, shape, term):
        def body(ex):
            st = State()
            ex.loop_default = Auto()
            o = indexed_object(ex, st, 'rec', shape, fixed=0)
            ex.assume(st, z3.And(o.words < (1 << 27), (o.flags & 8) != 0))
            ex.small(o.words, 27)
            es = o.es
            blk = []

            def c_malloc(e, s, a):
                r = e.region('malloc', a[0], e.byte_init('malloc'))
                blk.append((r, a[0]))
                return Ptr(r, 0)
            ex.contracts['xmalloc'] = c_malloc
            args = [o.oop]
            src = ex.region('src', None, ex.byte_init('src'))
            if term is None:
                args.append(Ptr(src, 0))
            st0 = st.clone()
            ex.start(st, fn, args)
            k = ex.fresh('k')
            n = o.count

            def post(s):
                if term is None:
                    ex.oblige(s, z3.Implies(U(k, n), bv(ex.read(s, o.reg(s), simp(16 + k), 1), 8) == bv(ex.read(st0, src, k, 1), 8)), fn + ': every byte is set')
                    frame(ex, st0, s, {o.obj_r.name: lambda j: z3.And(z3.UGE(bv(j), 16), U(bv(j) - 16, n))}, fn)
                    return
                ex.oblige(s, len(blk) >= 1 and isinstance(s.ret, Ptr) and s.ret.r in [b[0] for b in blk] and s.ret.o == 0, fn + ': answers a new block')
                r = s.ret.r
                ex.oblige(s, z3.Implies(U(k, n * es), bv(ex.read(s, r, k, 1), 8) == bv(ex.read(st0, o.reg(st0), simp(16 + k), 1), 8)), fn + ': holds every character')
                if term:
                    ex.oblige(s, zb(eq(bv(ex.read(s, r, simp(n * es), es), 8 * es), 0)), fn + ': and ends with a NUL')
                frame(ex, st0, s, {b[0].name: None for b in blk}, fn)
            ex.split(ex.run(st), post)
        units.append((fn, llvc_unit(mods, body)))
    copy('_gst_to_cstring', 'character', True)
    copy('_gst_to_wide_cstring', 'utf32', True)
    copy('_gst_to_byte_array', 'uchar', False)
    copy('_gst_set_oop_bytes', 'uchar', None)
    return units


def main():
    s = Scratch()
    c = Check('C04')
    mods = load(s, 'interp.c', 'dict.c')
    B.BUILTIN_OFF[:] = header_consts(s, ['NIL_OOP_INDEX', 'TRUE_OOP_INDEX', 'FALSE_OOP_INDEX'])
    names = ['inc_base', 'inc_ptr', 'inc_end']
    OFFS.update(zip(names, header_consts(s, ['offsetof(struct memory_space, %s)' % n for n in names])))
    CT['CHAR_BASE'] = header_consts(s, ['CHAR_OBJECT_BASE'])[0]
    names = sorted(set(ALLT + ['VOID', 'STRING', 'SYMBOL', 'WSTRING', 'STRING_OUT', 'SYMBOL_OUT', 'WSTRING_OUT', 'BYTEARRAY']))
    CT.update(zip(names, header_consts(s, ['CDATA_' + n for n in names])))
    cm = load(s, 'cint.c', 'callin.c', 'interp.c', 'dict.c')
    units = from_units(mods) + to_units(mods) + cint_units(cm, mods) + callin_units(cm) + memory_units(mods + cm[:1]) + string_units([mods[1], mods[0]])
    PID.update(prim_ids(s))
    import os
    if os.environ.get('ONLY'):
        units = [u for u in units if os.environ['ONLY'] in u[0]]
    c.run(units)
    if os.environ.get('VERBOSE'):
        verbose(c)
    from . import d_conv
    return c.finish(confirm=lambda f, u: d_conv.confirm(s))
