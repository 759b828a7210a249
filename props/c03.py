"""C03: object creation yields exactly the requested, fully initialised object."""
from .vmlib import *
from .prim import Prim
from . import bc as B
from .bc import set_builtins
from llvc.auto import Auto

OFFS = {}
K = {}
U = z3.ULT


def wide(v, n=128):
    v = bv(v)
    return z3.ZeroExt(n - v.size(), v)


class W:
    """A class with an arbitrary instance specification of one shape."""
    def __init__(self, ex, mod, shape, F=None):
        self.ex = ex
        st = self.st = State()
        ex.loop_default = Auto()
        self.nil, self.true, self.false = set_builtins(ex, st)
        ob = bv(ot_base(ex, st, ex.mods[0]))
        ex.assume(st, z3.And(z3.UGT(ob, 1 << 20), U(ob, 1 << 47)))
        self.ob = ob
        self.heap = Heap(ex, OFFS, [])
        self.heap.setup(st)
        self.shape = shape
        F = self.F = ex.fresh('fixed') if F is None else F
        if is_z(F):
            ex.assume(st, z3.And(F >= 0, F < (1 << 17)))
            ex.small(F, 17)
        kind, self.es = SHAPES[shape] if shape else (0, 0)
        hi = ex.fresh('specbits')
        ex.assume(st, (hi & z3.BitVecVal(0x1fc0, 64)) == hi)
        self.spec = simp((bv(F) << 13) | z3.BitVecVal(kind | 1, 64) | hi)
        self.cls = GClass(ex, st, 'class', self.spec)
        # a class is an object of the image, not a built-in singleton
        ex.assume(st, z3.And(*[self.cls.oop.addr() != b for b in (self.nil, self.true, self.false)]))
        ex.contracts['_gst_errorf'] = lambda e, s, a: e.oblige(s, False, 'no internal error is reported')

    def total(self, n):
        """bytes of the object, in integer arithmetic (128 bits)"""
        return simp(16 + 8 * wide(self.F) + wide(n) * self.es)

    def spare(self, n):
        return simp(z3.BitVecVal(0, 64) - bv(n) * self.es & 7) if self.es < 8 else 0

    def created(self, s, what, n, oop, inited=True, other=None):
        """the object `oop` is a new object of the class with n elements"""
        ex = self.ex
        al = s.ghost.get('allocs', ())
        ex.oblige(s, len(al) == 1, what + ': one object is allocated')
        if len(al) != 1:
            return None
        o, size = al[0]
        ex.oblige(s, eq(oop, o.oop), what + ': the result is the new object')
        T = self.total(n)
        pad = z3.BitVecVal(7, 128)
        ex.oblige(s, wide(size) == ((T + pad) & ~pad), what + ': the object has room for exactly the fixed variables and elements requested')
        r = o.reg(s)
        ex.oblige(s, eq(ex.read(s, r, 8, 8), self.cls.oop), what + ': the class is the receiver')
        ex.oblige(s, eq(ex.read(s, r, 0, 8), ex.read(s, r, 0, 8)), what + ': size')
        ex.oblige(s, (bv(ex.read(s, r, 0, 8)) == simp((z3.LShR(bv(size), 3) << 1) | 1)), what + ': the size in the header')
        fl = bv(ex.read(s, o.oop_r, 8, 8))
        if self.es and self.es < 8 or (self.shape and self.shape != 'pointer'):
            ex.oblige(s, simp(fl & 7) == bv(self.spare(n)), what + ': basicSize equals the request')
        else:
            ex.oblige(s, simp(fl & 7) == 0, what + ': no spare bytes')
        if self.es and self.es < 8:
            ex.oblige(s, simp(fl & 8) == 8, what + ': marked as not word sized')
        g = s.ghost.get('inst')
        if g and inited:
            ex.oblige(s, zand(zb(eq(g[0], bv(n))), zb(g[1] is o), zb(g[2] is s.mem.get(r.name))), what + ': initialised for that many elements and not touched since')
        elif inited:
            i = ex.fresh('i')
            cnt = self.F if self.shape != 'pointer' else simp(bv(self.F) + bv(n))
            ex.oblige(s, z3.Implies(U(i, bv(cnt)), eq(ex.read(s, r, simp(16 + i * 8), 8), self.nil)), what + ': every variable is nil')
            if self.shape and self.shape != 'pointer':
                k = ex.fresh('k')
                ex.oblige(s, z3.Implies(U(k, bv(n) * self.es), eq(ex.read(s, r, simp(16 + bv(self.F) * 8 + k), 1), 0)), what + ': every element is zero')
        return o

    def frame(self, s, st0, what, extra=()):
        al = {}
        for o, _ in s.ghost.get('allocs', ()):
            al[o.oop_r.name] = al[o.obj_r.name] = al[o.reg(s).name] = None
        al['@_gst_mem'] = None if 'mem' in extra else (lambda k: False)
        al['@_gst_sp'] = None
        al['@_gst_primitives_executed'] = None
        for e in extra:
            al[e] = None
        for rn in list(s.mem):
            if rn.split('~')[0] in al and rn not in al:
                al[rn] = None
        frame(self.ex, st0, s, al, what)


    def contract(self):
        """instantiate / instantiate_with at call sites (units instantiate/*)"""
        ex = self.ex

        def inst(e, s, a):
            wn = len(a) == 3
            n = a[1] if wn else z3.BitVecVal(0, 64)
            e.used_trusted.add('contract instantiate_with (units instantiate/<shape>), instantiate (unit instantiate/None)')
            e.oblige(s, eq(a[0], self.cls.oop), 'requires: the class is the one asked for')
            e.oblige(s, z3.ULT(self.total(n), z3.BitVecVal(1 << 63, 128)), 'requires: the size in bytes can be represented')
            T = self.total(n)
            size = simp((z3.Extract(63, 0, T) + 7) & ~z3.BitVecVal(7, 64))
            s.pc.append((size & 7) == 0)
            r = self.heap.alloc(e, s, [size, a[-1]])
            o, _ = s.ghost['allocs'][-1]
            e.write(s, o.obj_r, 8, 8, a[0])
            if self.shape and self.shape != 'pointer':
                e.write(s, o.oop_r, 8, 8, simp(o.flags | 8 | self.spare(n)))
            s.ghost = dict(s.ghost)
            s.ghost['inst'] = (n, o, s.mem.get(o.obj_r.name))
            return r
        ex.contracts['instantiate_with'] = ex.contracts['instantiate'] = inst


def new_units(mods):
    units = []

    def direct(shape):
        def body(ex):
            w = W(ex, mods, shape)
            st = w.st
            n = ex.fresh('n')
            ex.assume(st, z3.ULT(w.total(n), z3.BitVecVal(1 << 63, 128)))
            out = ex.region('out', 8, None, kind='alloca')
            what = 'instantiate%s (%s)' % ('_with' if shape else '', shape)
            st0 = st.clone()
            ex.start(st, 'instantiate_with' if shape else 'instantiate', [w.cls.oop] + ([n] if shape else []) + [Ptr(out, 0)])

            def post(s):
                o = w.created(s, what, n if shape else 0, ex.read(s, out, 0, 8))
                if o is not None:
                    ex.oblige(s, eq(s.ret, Ptr(o.reg(s), 0)), what + ': answers the body')
                w.frame(s, st0, what)
            ex.split(ex.run(st), post)
        units.append(('instantiate/%s' % shape, llvc_unit(mods, body)))
    for sh in list(SHAPES) + [None]:
        direct(sh)

    def nf():
        def body(ex):
            st = State()
            ex.loop_default = Auto()
            nil, _, _ = set_builtins(ex, st)
            n = ex.fresh('count')
            ex.assume(st, U(n, 1 << 45))
            ex.small(n, 45)
            r = ex.region('array', None, ex.word_init('array', 8))
            st0 = st.clone()
            ex.start(st, 'nil_fill', [Ptr(r, 64), n])
            i = ex.fresh('i')

            def post(s):
                ex.oblige(s, z3.Implies(U(i, n), eq(ex.read(s, r, simp(64 + 8 * i), 8), nil)), 'nil_fill: every slot is nil')
                frame(ex, st0, s, {r.name: lambda k: z3.And(z3.UGE(bv(k), 64), U(bv(k) - 64, n * 8))}, 'nil_fill')
            ex.split(ex.run(st), post)
        units.append(('nil_fill', llvc_unit(mods, body)))
    nf()

    def colon(prim, shape, receiver='class'):
        def body(ex):
            w = W(ex, mods, shape)
            st = w.st
            a = ex.fresh('arg')
            n = simp(a >> 1)
            rec = w.cls.oop if receiver == 'class' else from_int(ex.fresh('receiver'))
            ok = z3.And((a & 1) == 1, n >= 0)
            T = w.total(n)
            ini = prim.endswith('Initialize')
            if ini:
                def send(e, s, x):
                    s.ghost = dict(s.ghost)
                    e.oblige(s, 'sent' not in s.ghost, prim + ': initialize is sent once')
                    s.ghost['sent'] = True
                    e.oblige(s, zand(zb(eq(x[0], e.read(s, e.global_region('@_gst_initialize_symbol', s), 0, 8))), zb(eq(x[1], 0))),
                             prim + ': the message is initialize, without arguments')
                    e.oblige(s, eq(x[2], P.top(s)), prim + ': initialize is sent to the new object')
                    return None
                ex.contracts['_gst_send_message_internal'] = send
            if prim.endswith('FixedColon'):
                ex.contracts['_gst_make_oop_fixed'] = fixed_contract
            w.contract()
            P = Prim(ex, st, prim, [rec, a])
            what = '%s (%s)' % (prim, shape or 'not indexable')

            def post(s):
                if P.failed(s):
                    P.unchanged(s, what)
                    if receiver == 'class' and shape:
                        ex.oblige(s, z3.Not(z3.And(ok, z3.ULT(T, z3.BitVecVal(1 << 47, 128)))), what + ': a valid request succeeds')
                    return
                if not shape or receiver != 'class':
                    ex.oblige(s, False, what + ': must fail')
                    return
                ex.oblige(s, ok, what + ': the size is a non-negative SmallInteger')
                ex.oblige(s, z3.ULT(T, z3.BitVecVal(1 << 63, 128)), what + ': the size in bytes can be represented')
                P.succeeded(s, what)
                w.created(s, what, n, P.top(s))
                if ini:
                    ex.oblige(s, 'sent' in s.ghost, what + ': initialize is sent')
                w.frame(s, P.st0, what, [P.r.name] + (['mem'] if 'Fixed' in prim else []))
            ex.split(P.run(st), post)
        units.append(('%s/%s/%s' % (prim[5:], shape, receiver), llvc_unit(mods, body)))
    for p in ('VMpr_Behavior_basicNewColon', 'VMpr_Behavior_newColonInitialize', 'VMpr_Behavior_basicNewFixedColon'):
        for sh in list(SHAPES) + [None]:
            colon(p, sh)

    def plain(prim, shape, receiver='class'):
        def body(ex):
            w = W(ex, mods, shape)
            st = w.st
            rec = w.cls.oop if receiver == 'class' else from_int(ex.fresh('receiver'))
            ini = prim.endswith('Initialize')
            if ini:
                def send(e, s, x):
                    s.ghost = dict(s.ghost)
                    e.oblige(s, 'sent' not in s.ghost, prim + ': initialize is sent once')
                    s.ghost['sent'] = True
                    e.oblige(s, zand(zb(eq(x[0], e.read(s, e.global_region('@_gst_initialize_symbol', s), 0, 8))), zb(eq(x[1], 0))),
                             prim + ': the message is initialize, without arguments')
                    e.oblige(s, eq(x[2], P.top(s)), prim + ': initialize is sent to the new object')
                    return None
                ex.contracts['_gst_send_message_internal'] = send
            if prim.endswith('Fixed'):
                ex.contracts['_gst_make_oop_fixed'] = fixed_contract
            w.contract()
            P = Prim(ex, st, prim, [rec])
            what = '%s (%s)' % (prim, shape or 'not indexable')

            def post(s):
                if P.failed(s):
                    P.unchanged(s, what)
                    ex.oblige(s, bool(shape) or receiver != 'class', what + ': a class without indexed variables is instantiated')
                    return
                if shape or receiver != 'class':
                    ex.oblige(s, False, what + ': must fail')
                    return
                P.succeeded(s, what)
                w.created(s, what, 0, P.top(s))
                if ini:
                    ex.oblige(s, 'sent' in s.ghost, what + ': initialize is sent')
                w.frame(s, P.st0, what, [P.r.name] + (['mem'] if 'Fixed' in prim else []))
            ex.split(P.run(st), post)
        units.append(('%s/%s/%s' % (prim[5:], shape, receiver), llvc_unit(mods, body)))
    for p in ('VMpr_Behavior_basicNew', 'VMpr_Behavior_newInitialize', 'VMpr_Behavior_basicNewFixed'):
        for sh in ('pointer', 'uchar', 'double', None):
            plain(p, sh)

    # new_instance / new_instance_with leave the contents to the caller
    def inst(shape):
        def body(ex):
            w = W(ex, mods, shape)
            st = w.st
            n = ex.fresh('n')
            ex.assume(st, z3.ULT(w.total(n), z3.BitVecVal(1 << 47, 128)))
            out = ex.region('out', 8, None, kind='alloca')
            what = 'new_instance%s (%s)' % ('_with' if shape else '', shape)
            st0 = st.clone()
            if shape:
                ex.start(st, 'new_instance_with', [w.cls.oop, n, Ptr(out, 0)])
            else:
                ex.start(st, 'new_instance', [w.cls.oop, Ptr(out, 0)])

            def post(s):
                o = w.created(s, what, n if shape else 0, ex.read(s, out, 0, 8), inited=False)
                if o is not None:
                    ex.oblige(s, eq(s.ret, Ptr(o.reg(s), 0)), what + ': answers the body')
                w.frame(s, st0, what)
            ex.split(ex.run(st), post)
        units.append(('new_instance/%s' % shape, llvc_unit(mods, body)))
    for sh in list(SHAPES) + [None]:
        inst(sh)
    return units


def fixed_contract(ex, st, a):
    ex.used_trusted.add('contract _gst_make_oop_fixed (moves the object; contents unchanged; unit make_oop_fixed)')
    return None


def copy_units(mods):
    units = []

    def copy(shape, prim):
        def body(ex):
            st = State()
            ex.loop_default = Auto()
            nil, _, _ = set_builtins(ex, st)
            ob = bv(ot_base(ex, st, ex.mods[0]))
            ex.assume(st, z3.And(z3.UGT(ob, 1 << 20), U(ob, 1 << 47)))
            heap = Heap(ex, OFFS, [])
            heap.setup(st)
            sp = None
            if shape in ('SmallInteger', 'builtin'):
                v = from_int(ex.fresh('value')) if shape == 'SmallInteger' else ex.fresh('builtin')
                if shape == 'builtin':
                    ex.assume(st, z3.And(U(v, ob), (v & 15) == (ob & 15), z3.UGE(v, 1 << 16)))
                o = None
            elif shape is None:
                F = ex.fresh('fixed')
                ex.assume(st, z3.And(F >= 0, F < (1 << 17)))
                hi = ex.fresh('specbits')
                ex.assume(st, (hi & z3.BitVecVal(0x1fc0, 64)) == hi)
                cls = GClass(ex, st, 'class', simp((bv(F) << 13) | 1 | hi))
                o = Obj(ex, st, 'rec', cls=cls, body='words')
                ex.assume(st, z3.And(o.words == 2 + F, (o.flags & 15) == 0))
                v = o.oop
            else:
                o = indexed_object(ex, st, 'rec', shape)
                v = o.oop
            if o is not None:
                ex.assume(st, z3.And(z3.UGE(o.oop.addr(), ob), U(o.oop.addr() - ob, 1 << 40), o.words < (1 << 27)))
                ex.small(o.words, 27)
                # F_BYTE marks every object whose size is not a whole number of words
                ex.assume(st, z3.Implies((o.flags & 7) != 0, (o.flags & 8) != 0))
                if shape and o.es < 8:
                    ex.assume(st, (o.flags & 8) != 0)
                heap.objs.append(o)
            what = '%s of %s' % (prim or '_gst_object_copy', shape or 'object')
            if o is not None:
                def inst(e, s, a):
                    e.used_trusted.add('contract instantiate_with (units instantiate/<shape>)')
                    e.oblige(s, eq(a[0], o.cls.oop), what + ': of the same class')
                    es = getattr(o, 'es', 0)
                    T = simp(16 + 8 * wide(F0) + wide(bv(a[1])) * es)
                    e.oblige(s, z3.ULT(T, z3.BitVecVal(1 << 63, 128)), 'requires: the size in bytes can be represented')
                    if not shape:
                        e.oblige(s, bv(a[1]) == 0, what + ': no indexed variables')
                    size = simp((z3.Extract(63, 0, T) + 7) & ~z3.BitVecVal(7, 64))
                    s.pc.append((size & 7) == 0)
                    r = heap.alloc(e, s, [size, a[2]])
                    n, _ = s.ghost['allocs'][-1]
                    e.write(s, n.obj_r, 8, 8, a[0])
                    if shape and shape != 'pointer':
                        e.write(s, n.oop_r, 8, 8, simp(n.flags | 8 | ((0 - bv(a[1]) * es) & 7)))
                    return r
                F0 = o.fixed if shape else F
                ex.contracts['instantiate_with'] = inst
            if prim:
                P = Prim(ex, st, prim, [v])
                outs = P.run(st)
                st0 = P.st0
            else:
                st0 = st.clone()
                ex.start(st, '_gst_object_copy', [v])
                outs = ex.run(st)
            wr = ex.fresh('w')

            def post(s):
                if prim:
                    if P.failed(s):
                        ex.oblige(s, False, what + ': succeeds')
                        return
                    P.succeeded(s, what)
                    res = P.top(s)
                else:
                    res = s.ret
                if o is None:
                    ex.oblige(s, eq(res, v), what + ': is the object itself')
                    ex.oblige(s, not s.ghost.get('allocs'), what + ': nothing is allocated')
                    return
                al = s.ghost.get('allocs', ())
                ex.oblige(s, len(al) == 1, what + ': one new object')
                if len(al) != 1:
                    return
                n, size = al[0]
                ex.oblige(s, eq(res, n.oop), what + ': a new object')
                nr, r0 = n.reg(s), o.reg(st0)
                ex.oblige(s, wide(size) == wide(o.words) * 8, what + ': of the same size')
                ex.oblige(s, z3.Implies(U(wr, o.words), eq(ex.read(s, nr, simp(wr * 8), 8), ex.read(st0, r0, simp(wr * 8), 8))), what + ': same class, size and contents')
                fl, f0 = bv(ex.read(s, n.oop_r, 8, 8)), o.flags
                ex.oblige(s, (fl & 7) == (f0 & 7), what + ': same number of elements')
                ex.oblige(s, z3.Implies(U(wr, o.words), eq(ex.read(s, o.reg(s), simp(wr * 8), 8), ex.read(st0, r0, simp(wr * 8), 8))), what + ': the receiver does not change')
                ex.oblige(s, eq(ex.read(s, o.oop_r, 8, 8), f0), what + ': nor its flags')
            ex.split(outs, post)
        units.append(('copy/%s/%s' % (shape, 'prim' if prim else 'c'), llvc_unit(mods, body)))
    for sh in list(SHAPES) + [None, 'SmallInteger', 'builtin']:
        copy(sh, None)
    copy('pointer', 'VMpr_Object_shallowCopy')
    copy('uchar', 'VMpr_Object_shallowCopy')
    return units


def alloc_units(mods):
    units = []

    def alloc(big):
        def body(ex):
            st = State()
            eden = ex.region('eden', None, ex.word_init('eden', 8))
            old = ex.region('oldspace', None, ex.word_init('oldspace', 8))
            g = ex.global_region('@_gst_mem', st)
            a, m = ex.fresh('alloc'), ex.fresh('max')
            ex.assume(st, z3.And((a & 7) == 0, (m & 7) == 0, z3.ULE(a, m), U(m, 1 << 40), z3.UGE(a, 1 << 12)))
            ex.write(st, g, OFFS['allocPtr'], 8, Ptr(eden, a))
            ex.write(st, g, OFFS['maxPtr'], 8, Ptr(eden, m))
            thr = ex.fresh('threshold')
            ex.assume(st, U(thr, 1 << 40))
            ex.write(st, g, OFFS['big_object_threshold'], 8, thr)
            act = ex.fresh('active')
            ex.assume(st, z3.And((act & 15) == 0, U(act, 1 << 20)))
            ex.write(st, g, OFFS['active_flag'], 8, act)
            size = ex.fresh('size')
            ex.assume(st, z3.And(z3.UGE(size, 16), U(size, 1 << 46)))
            R = simp((size + 7) & ~z3.BitVecVal(7, 64))
            ex.assume(st, z3.UGE(R, thr) if big else U(R, thr))

            def scavenge(e, s, x):
                # afterwards eden is empty and holds any object below the threshold
                e.used_trusted.add('contract _gst_scavenge (eden has room for any object below the threshold)')
                a2, m2 = e.fresh('alloc2'), e.fresh('max2')
                s.pc += [(a2 & 7) == 0, (m2 & 7) == 0, z3.ULE(a2, m2), U(m2, 1 << 41), z3.UGE(a2, 1 << 12), U(thr, m2 - a2)]
                e.write(s, g, OFFS['allocPtr'], 8, Ptr(eden, a2))
                e.write(s, g, OFFS['maxPtr'], 8, Ptr(eden, m2))
                s.ghost = dict(s.ghost)
                s.ghost['eden'] = (a2, m2)
                return None
            ex.contracts['_gst_scavenge'] = scavenge
            ex.contracts['_gst_global_gc'] = lambda e, s, x: None
            ex.contracts['compact'] = lambda e, s, x: None
            blocks = []

            def mem_alloc(e, s, x):
                e.used_trusted.add('contract _gst_mem_alloc (a block of the size asked for, or NULL)')
                e.oblige(s, z3.UGE(bv(x[1]), R), 'the old space block has room for the object')
                if e.decide(s, room[min(len(room) - 1, s.ghost.get('tries', 0))]):
                    r = e.region('block', x[1], e.word_init('block', 8))
                    blocks.append(r)
                    return Ptr(r, 0)
                s.ghost = dict(s.ghost)
                s.ghost['tries'] = s.ghost.get('tries', 0) + 1
                return 0
            room = [ex.fresh('room%d' % i, 1) for i in range(3)]
            ex.assume(st, z3.Or(*room))
            ex.contracts['_gst_mem_alloc'] = mem_alloc
            ent = ex.region('entry', 16, ex.word_init('entry', 8))

            def alloc_oop(e, s, x):
                e.used_trusted.add('contract alloc_oop (an unused OOP table entry, set to the object and flags)')
                e.write(s, ent, 0, 8, x[0])
                e.write(s, ent, 8, 8, x[1])
                return Ptr(ent, 0)
            ex.contracts['alloc_oop'] = alloc_oop
            out = ex.region('out', 8, None, kind='alloca')
            st0 = st.clone()
            ex.start(st, '_gst_alloc_obj', [size, Ptr(out, 0)])
            what = '_gst_alloc_obj (%s)' % ('large' if big else 'small')

            def post(s):
                ex.oblige(s, zb(eq(ex.read(s, out, 0, 8), Ptr(ent, 0))), what + ': an OOP is made for the object')
                ob = ex.read(s, ent, 0, 8)
                ex.oblige(s, zb(eq(ob, s.ret)), what + ': and designates it')
                fl = bv(ex.read(s, ent, 8, 8))
                ex.oblige(s, (fl & 7) == 0, what + ': without spare bytes')
                if not isinstance(ob, Ptr):
                    ex.oblige(s, False, what + ': answers an object')
                    return
                ex.oblige(s, zb(eq(bv(ex.read(s, ob.r, ob.o, 8)), (z3.LShR(R, 3) << 1) | 1)), what + ': its size is the size asked for, in words')
                if big:
                    ex.oblige(s, ob.r in blocks and ob.o == 0, what + ': is a block of old space')
                    ex.oblige(s, zb(eq(fl, OFFS['F_OLD'])), what + ': marked old')
                    al = {}
                    frame(ex, st0, s, {x.name: None for x in blocks + [ent, out]}, what)
                    return
                ex.oblige(s, zb(eq(fl, act)), what + ': marked as in the active space')
                a2, m2 = s.ghost.get('eden', (a, m))
                ex.oblige(s, zand(ob.r is eden, zb(eq(ob.o, a2))), what + ': starts at the first free word of eden')
                p = ex.read(s, g, OFFS['allocPtr'], 8)
                ex.oblige(s, zand(isinstance(p, Ptr) and p.r is eden, zb(eq(p.o, a2 + R))), what + ': eden is used up to the end of the object')
                ex.oblige(s, z3.ULE(a2 + R, m2), what + ': the object ends within eden')
                frame(ex, st0, s, {'eden': lambda k: z3.And(z3.UGE(bv(k), a2), U(bv(k), a2 + R)), 'entry': None, 'out': None,
                                   '@_gst_mem': lambda k: k in (OFFS['allocPtr'], OFFS['maxPtr'])}, what)
            outs = ex.run(st)
            ex.oblige(st, len(outs) > 0, what + ': answers')
            ex.split(outs, post)
        units.append(('alloc_obj/%s' % ('large' if big else 'small'), llvc_unit(mods, body)))
    alloc(False)
    alloc(True)

    def fixed(fn):
        def body(ex):
            st = State()
            o = Obj(ex, st, 'rec', cls=ex.fresh('class'), body='words')
            ex.assume(st, o.words < (1 << 28))
            ex.small(o.words, 28)
            st0 = st.clone()
            blocks = []

            def mem_alloc(e, s, x):
                e.oblige(s, wide(x[1]) == wide(o.words) * 8, fn + ': asks for as much memory as the object has')
                r = e.region('block', simp(o.words * 8), e.word_init('block', 8))
                blocks.append(r)
                return Ptr(r, 0)
            ex.contracts['_gst_mem_alloc'] = mem_alloc
            ex.contracts['_gst_mem_free'] = lambda e, s, x: e.oblige(s, zb(eq(x[1], o.obj)), fn + ': frees the old copy')
            ex.start(st, fn, [o.oop])
            w = ex.fresh('w')
            OLD, FIX = OFFS['F_OLD'], OFFS['F_FIXED']

            def post(s):
                nr = o.reg(s)
                if ex.read(s, o.oop_r, 0, 8).o != 0:
                    ex.oblige(s, False, fn + ': the object starts at its block')
                    return
                ex.oblige(s, z3.Implies(U(w, o.words), zb(eq(ex.read(s, nr, simp(w * 8), 8), ex.read(st0, o.obj_r, simp(w * 8), 8)))), fn + ': same class, size and contents')
                fl = bv(ex.read(s, o.oop_r, 8, 8))
                want = OLD | (FIX if 'fixed' in fn else 0)
                ex.oblige(s, z3.Or((fl & want) == want, (o.flags & (FIX if 'fixed' in fn else OLD)) != 0), fn + ': the flags say where it lives')
                keep = OFFS['F_READONLY'] | 15 | OFFS['F_WEAK'] | OFFS['F_CONTEXT'] | OFFS['F_EPHEMERON']
                ex.oblige(s, (fl & keep) == (o.flags & keep), fn + ': the other attributes are unchanged')
                frame(ex, st0, s, {o.oop_r.name: None, nr.name: None, '@_gst_mem': None}, fn)
            ex.split(ex.run(st), post)
        units.append((fn, llvc_unit(mods, body)))
    fixed('_gst_make_oop_fixed')
    fixed('_gst_tenure_oop')
    return units


def main():
    s = Scratch()
    c = Check('C03')
    mods = load(s, 'interp.c', 'dict.c')
    B.BUILTIN_OFF[:] = header_consts(s, ['NIL_OOP_INDEX', 'TRUE_OOP_INDEX', 'FALSE_OOP_INDEX'])
    names = ['inc_base', 'inc_ptr', 'inc_end']
    OFFS.update(zip(names, header_consts(s, ['offsetof(struct memory_space, %s)' % n for n in names])))
    om = load(s, 'oop.c')
    fl = ['eden.allocPtr', 'eden.maxPtr', 'big_object_threshold', 'active_flag']
    OFFS.update(zip([f.split('.')[-1] for f in fl], header_consts(s, ['offsetof(struct memory_space, %s)' % n for n in fl])))
    fl = ['F_OLD', 'F_FIXED', 'F_READONLY', 'F_WEAK', 'F_CONTEXT', 'F_EPHEMERON']
    OFFS.update(zip(fl, header_consts(s, fl)))
    units = new_units(mods) + copy_units(mods[::-1]) + alloc_units(om)
    import os
    if os.environ.get('ONLY'):
        units = [u for u in units if os.environ['ONLY'] in u[0]]
    c.run(units)
    if os.environ.get('VERBOSE'):
        verbose(c)
    from . import d_new
    return c.finish(confirm=lambda f, u: d_new.confirm(s))
