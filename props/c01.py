"""C01: indexed access is bounds-checked and exact for every object shape."""
from .vmlib import *
from .prim import Prim, is_int_oop


def elem_oop(ex, st, mod, shape, raw):
    """The object that denotes an element with these raw bits."""
    if shape in ('schar', 'short'):
        return from_int(z3.SignExt(64 - raw.size(), raw))
    if shape in ('uchar', 'ushort', 'uint'):
        return from_int(z3.ZeroExt(64 - raw.size(), raw))
    if shape == 'int':
        return from_int(z3.SignExt(32, raw))
    if shape == 'int64':
        return INT64_OOP(raw)
    if shape == 'uint64':
        return UINT64_OOP(raw)
    if shape == 'double':
        return FLOATD_OOP(raw)
    if shape == 'float':
        return FLOATE_OOP(fbits(z3.fpFPToFP(z3.RNE(), tofp(raw, 32), z3.Float64())))
    if shape == 'utf32':
        return CHAR_OOP(raw)
    if shape == 'character':
        # Character objects follow the OOP table base
        return bv(ot_base(ex, st, mod)) + (z3.ZeroExt(56, raw) + CHAR_BASE(mod)) * 16
    return raw


def CHAR_BASE(mod):
    return z3.BitVecVal((-259) & M64, 64) if False else z3.BitVecVal(CHAR_BASE_VALUE[0], 64)


CHAR_BASE_VALUE = [None]


def valid_index(o, idx):
    return z3.And(idx >= 1, idx <= o.count)


def elem_off(o, idx):
    return simp(16 + bv(o.fixed) * 8 + (idx - 1) * o.es)


def raw_at(ex, st, o, idx):
    return bv(ex.read(st, o.obj_r, elem_off(o, idx), o.es), 8 * o.es)


def well_formed(ex, st, mods, o, idx):
    """Elements of pointer objects are OOPs (never null); the OOP table is
    a mapped area, so its entries have non-zero, non-wrapping addresses."""
    if o.shape == 'pointer':
        ex.assume(st, raw_at(ex, st, o, idx) != 0)
    b = bv(ot_base(ex, st, mods[0]))
    ex.assume(st, z3.And(z3.UGT(b, 1 << 20), z3.ULT(b, 1 << 47)))


def storable(ex, st, o, v, env):
    """(condition that v fits the element type, raw bits stored)."""
    shape = o.shape
    V = bv(v)
    I = (V & 1) == 1
    n = V >> 1
    rng = {'schar': (-128, 127, 8), 'uchar': (0, 255, 8), 'short': (-32768, 32767, 16), 'ushort': (0, 65535, 16)}
    if shape in rng:
        a, b, w = rng[shape]
        return z3.And(I, n >= a, n <= b), z3.Extract(w - 1, 0, n)
    if shape == 'int':
        return z3.And(I, n >= -(1 << 31), n <= (1 << 31) - 1), z3.Extract(31, 0, n)
    if shape == 'uint':
        return z3.And(I, n >= 0, n <= (1 << 32) - 1), z3.Extract(31, 0, n)
    if shape == 'pointer':
        return z3.BoolVal(True), V
    raise KeyError(shape)


def read_units(mods):
    units = []
    for shape in SHAPES:
        def body(ex, shape=shape):
            std_contracts(ex)
            st = State()
            o = indexed_object(ex, st, 'rec', shape)
            idx = ex.fresh('index')
            well_formed(ex, st, mods, o, idx)
            st0 = st.clone()
            ex.start(st, 'index_oop_spec', [o.oop, o.obj, idx, o.spec])
            outs = ex.run(st)
            ok = valid_index(o, idx)

            def post(s):
                r = s.ret
                if ex.decide(s, eq(r, 0)):
                    ex.oblige(s, z3.Not(ok), '%s: a valid index is accepted' % shape)
                else:
                    if not ex.oblige(s, ok, '%s: an index outside 1..size is rejected' % shape):
                        return
                    want = elem_oop(ex, st0, mods[0], shape, raw_at(ex, st0, o, idx))
                    ex.oblige(s, eq(r, want), '%s: the element at the index is answered' % shape)
                frame(ex, st0, s, {}, '%s read' % shape)
            ex.split(outs, post)
        units.append(('index_oop_spec/' + shape, llvc_unit(mods, body)))
    return units


def float_conv(ex, st, v, shape):
    return None


def put_units(mods):
    units = []
    for shape in SHAPES:
        for vk in value_kinds(shape):
            def body(ex, shape=shape, vk=vk):
                std_contracts(ex)
                st = State()
                o = indexed_object(ex, st, 'rec', shape)
                idx = ex.fresh('index')
                v, fits, raw = make_value(ex, st, mods, o, vk)
                st0 = st.clone()
                ex.start(st, 'index_oop_put_spec', [o.oop, o.obj, idx, v, o.spec])
                outs = ex.run(st)
                ok = z3.And(valid_index(o, idx), fits)

                def post(s):
                    r = s.ret
                    if not ex.decide(s, eq(r, 0)):
                        if not ex.oblige(s, ok, '%s put %s: only a valid index and storable value are accepted' % (shape, vk)):
                            return
                        off = elem_off(o, idx)
                        got = ex.read(s, o.obj_r, off, o.es)
                        ex.oblige(s, eq(got, raw), '%s put %s: the element becomes the value' % (shape, vk))
                        frame(ex, st0, s, {o.obj_r.name: lambda k: z3.And(z3.UGE(bv(k), off), z3.ULT(bv(k) - off, o.es))},
                              '%s put %s' % (shape, vk))
                    else:
                        ex.oblige(s, z3.Not(ok), '%s put %s: a valid store is accepted' % (shape, vk))
                        frame(ex, st0, s, {}, '%s put %s failing' % (shape, vk))
                ex.split(outs, post)
            units.append(('index_oop_put_spec/%s/%s' % (shape, vk), llvc_unit(mods, body)))
    return units


def value_kinds(shape):
    if shape in ('schar', 'uchar', 'short', 'ushort', 'int', 'uint', 'int64', 'uint64'):
        return ['small', 'largepos', 'largeneg', 'other']
    if shape in ('character', 'utf32'):
        return ['small', 'char', 'unichar', 'other']
    if shape in ('float', 'double'):
        return ['small', 'floate', 'floatd', 'other']
    return ['any']


NAMED = {'largepos': '@_gst_large_positive_integer_class', 'largeneg': '@_gst_large_negative_integer_class',
         'char': '@_gst_char_class', 'unichar': '@_gst_unicode_character_class', 'floate': '@_gst_floate_class',
         'floatd': '@_gst_floatd_class', 'floatq': '@_gst_floatq_class'}


def make_value(ex, st, mods, o, vk):
    """-> (value, fits condition, raw stored bits)"""
    shape = o.shape
    if vk == 'any':
        v = ex.fresh('value')
        return v, z3.BoolVal(True), v
    if vk == 'small':
        v = ex.fresh('value')
        ex.assume(st, (v & 1) == 1)
        n = simp(v >> 1)
        if shape in ('schar', 'uchar', 'short', 'ushort', 'int', 'uint'):
            c, raw = storable(ex, st, o, v, None)
            return v, c, raw
        if shape == 'int64':
            return v, z3.BoolVal(True), n
        if shape == 'uint64':
            return v, n >= 0, n
        if shape == 'float':
            return v, z3.BoolVal(True), fbits(z3.fpSignedToFP(z3.RNE(), n, z3.Float32()))
        if shape == 'double':
            return v, z3.BoolVal(True), fbits(z3.fpSignedToFP(z3.RNE(), n, z3.Float64()))
        return v, z3.BoolVal(False), n
    # a heap object of a named class: classes are distinct
    classes = {}
    for k, g in NAMED.items():
        c = GClass(ex, st, 'class_' + k, ex.fresh('spec_' + k))
        classes[k] = c
        ex.write(st, ex.global_region(g, st), 0, 8, c.oop)
    if vk == 'other':
        c = GClass(ex, st, 'class_other', ex.fresh('spec_other'))
        v = Obj(ex, st, 'val', cls=c)
        return v.oop, z3.BoolVal(False), None
    c = classes[vk]
    v = Obj(ex, st, 'val', cls=c)
    # a FloatD/FloatE/Character object has its value in the body
    ex.assume(st, v.words >= 3)
    if vk in ('char', 'unichar'):
        code = ex.fresh('code')        # SmallInteger value of the character
        ex.assume(st, z3.And(code >= 0, code <= (255 if vk == 'char' else 0x10ffff)))
        ex.write(st, v.obj_r, 16, 8, from_int(code))
        if shape == 'character':
            return v.oop, z3.BoolVal(vk == 'char'), z3.Extract(7, 0, code)
        if shape == 'utf32':
            return v.oop, (code <= 127) if vk == 'char' else z3.BoolVal(True), z3.Extract(31, 0, code)
    if vk in ('floate', 'floatd'):
        bits = ex.fresh('bits', 32 if vk == 'floate' else 64)
        ex.write(st, v.obj_r, 16, bits.size() // 8, bits)
        if shape in ('float', 'double'):
            w = 32 if shape == 'float' else 64
            if bits.size() == w:
                return v.oop, z3.BoolVal(True), bits
            return v.oop, z3.BoolVal(True), fbits(z3.fpFPToFP(z3.RNE(), tofp(bits, bits.size()), fsort(w)))
    if vk in ('largepos', 'largeneg'):
        # normalised LargeInteger of 8 or 9 bytes (see C04 for the encoding)
        kind = 34
        ex.write(st, c.obj_r, 32, 8, (kind | 1))
        nb = ex.fresh('nbytes')
        ex.assume(st, z3.And(nb >= 8, nb <= 64))
        w = simp(2 + z3.LShR(nb + 7, 3))
        ex.assume(st, v.words == w)
        ex.assume(st, (v.flags & 15) == (8 | ((8 - (nb & 7)) & 7)))
        bs = [bv(ex.read(st, v.obj_r, 16 + i, 1), 8) for i in range(8)]
        lo = simp(z3.Concat(*bs[::-1]))
        top = bv(ex.read(st, v.obj_r, 24, 1), 8)
        if vk == 'largepos':
            # value > MAXST; stored two's complement with a clear sign bit
            ex.assume(st, z3.Implies(nb == 8, z3.UGT(lo, z3.BitVecVal(MAXST, 64))))
            ex.assume(st, z3.Implies(nb == 8, lo >= 0))
            ex.assume(st, z3.Implies(nb == 9, z3.And(top >= 0, z3.Or(top != 0, lo < 0))))
            if shape == 'int64':
                return v.oop, nb == 8, lo
            if shape == 'uint64':
                return v.oop, z3.Or(nb == 8, z3.And(nb == 9, top == 0)), lo
        else:
            ex.assume(st, z3.Implies(nb == 8, lo < z3.BitVecVal(MINST & M64, 64)))
            if shape == 'int64':
                return v.oop, nb == 8, lo
            if shape == 'uint64':
                return v.oop, z3.BoolVal(False), None
        return v.oop, z3.BoolVal(False), None
    return v.oop, z3.BoolVal(False), None



IDX_GET = z3.Function('ElementAt', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))   # index, spec -> OOP


def accessor_contracts(ex, o, spec=None, fits=None):
    """index_oop_spec / index_oop_put_spec by their contracts (proved above)."""
    want = bv(spec if spec is not None else o.spec)

    def pre(ex, st, args, fn):
        ex.oblige(st, zand(zb(eq(args[0], o.oop)), zb(eq(args[1], o.obj))), 'caller of %s passes the object and its body' % fn)
        ex.oblige(st, (bv(args[-1]) & 0xffffe03e) == (want & 0xffffe03e) if False else eq(args[-1], want),
                  'caller of %s passes the instance spec of the class' % fn)

    def get(ex, st, args):
        pre(ex, st, args, 'index_oop_spec')
        idx = bv(args[2])
        e = IDX_GET(idx, want)
        ex.assume(st, e != 0)
        ex.used_trusted.add('contract index_oop_spec (proved in the index_oop_spec/* units)')
        return simp(z3.If(valid_index(o, idx), e, z3.BitVecVal(0, 64)))

    def put(ex, st, args):
        pre(ex, st, args, 'index_oop_put_spec')
        idx = bv(args[2])
        ex.used_trusted.add('contract index_oop_put_spec (proved in the index_oop_put_spec/* units)')
        ok = zand(valid_index(o, idx), fits if fits is not None else z3.Bool('fits'))
        st.ghost['puts'] = st.ghost.get('puts', ()) + ((idx, args[3], ok),)
        return simp(ok)
    ex.contracts['index_oop_spec'] = get
    ex.contracts['index_oop_put_spec'] = put


def small_words(ex, st, o):
    ex.assume(st, o.words < (1 << 28))     # the heap is limited to 2 GiB areas


def one_put(ex, s, o, idx, v, what):
    """On success there was exactly one store, of the value, at the index."""
    puts = s.ghost.get('puts', ())
    if len(puts) != 1:
        ex.oblige(s, False, what + ': exactly one element store happens')
        return
    i, val, ok = puts[0]
    ex.oblige(s, zand(zb(eq(i, idx)), zb(eq(val, v)), zb(ok)), what + ': the value is stored at the index')


def no_put(ex, s, what):
    for i, val, ok in s.ghost.get('puts', ()):
        ex.oblige(s, z3.Not(zb(ok)), what + ': nothing is stored')


PRIM_SHAPES = ['uchar', 'short', 'uint', 'character', 'utf32', 'int64', 'pointer']


def prim_units(mods):
    units = []
    nil = '@_gst_nil_oop'

    def at(fname, shape, ikind, spec_of=None, nargs=1):
        def body(ex):
            st = State()
            o = indexed_object(ex, st, 'rec', shape)
            sp = spec_of(o) if spec_of else o.spec
            if sp is not None:
                accessor_contracts(ex, o, sp)
            if ikind == 'int':
                idx = ex.fresh('index')
                iv = from_int(idx)
                n = simp(iv >> 1)
            else:
                iv = Obj(ex, st, 'idx').oop
                n = None
            P = Prim(ex, st, fname, [o.oop, iv] + [ex.fresh('extra') for _ in range(nargs - 1)])
            what = '%s on %s with %s index' % (fname, shape, ikind)

            def post(s):
                if P.failed(s):
                    P.unchanged(s, what)
                    if n is not None and sp is not None:
                        ex.oblige(s, z3.Not(valid_index(o, n)), what + ': a valid index succeeds')
                else:
                    P.succeeded(s, what)
                    if n is None or sp is None:
                        ex.oblige(s, False, what + ': must fail')
                        return
                    ex.oblige(s, valid_index(o, n), what + ': an invalid index fails')
                    ex.oblige(s, eq(P.top(s), IDX_GET(n, bv(sp))), what + ': answers the element')
                P.frame(s, {}, what)
            ex.split(P.run(st), post)
        units.append(('%s/%s/%s/%d' % (fname, shape, ikind, nargs), llvc_unit(mods, body)))

    def atput(fname, shape, ikind, spec_of=None):
        def body(ex):
            st = State()
            o = indexed_object(ex, st, 'rec', shape)
            sp = spec_of(o) if spec_of else o.spec
            if sp is not None:
                accessor_contracts(ex, o, sp)
            if ikind == 'int':
                iv = from_int(ex.fresh('index'))
                n = simp(iv >> 1)
            else:
                iv = Obj(ex, st, 'idx').oop
                n = None
            v = ex.fresh('value')
            P = Prim(ex, st, fname, [o.oop, iv, v])
            ro = (o.flags & 0x20) != 0
            what = '%s on %s with %s index' % (fname, shape, ikind)

            def post(s):
                if P.failed(s):
                    P.unchanged(s, what)
                    no_put(ex, s, what)
                    if n is not None and sp is not None:
                        ex.oblige(s, z3.Not(zand(valid_index(o, n), z3.Not(ro), z3.Bool('fits'))), what + ': a valid store succeeds')
                else:
                    P.succeeded(s, what)
                    if n is None or sp is None:
                        ex.oblige(s, False, what + ': must fail')
                        return
                    ex.oblige(s, z3.Not(ro), what + ': a read-only object is not written')
                    one_put(ex, s, o, n, v, what)
                    ex.oblige(s, eq(P.top(s), v), what + ': answers the stored value')
                P.frame(s, {}, what)
            ex.split(P.run(st), post)
        units.append(('%s/%s/%s' % (fname, shape, ikind), llvc_unit(mods, body)))

    for sh in PRIM_SHAPES:
        at('VMpr_Object_basicAt', sh, 'int')
        at('VMpr_Object_basicAt', sh, 'int', nargs=2)
        atput('VMpr_Object_basicAtPut', sh, 'int')
    at('VMpr_Object_basicAt', 'pointer', 'object')
    atput('VMpr_Object_basicAtPut', 'pointer', 'object')
    for sh, kind in (('character', 34), ('utf32', 44)):
        f = lambda o, kind=kind: simp((o.spec & z3.BitVecVal(~0x3e & M64, 64)) | kind)
        at('VMpr_CharacterArray_valueAt', sh, 'int', f)
        atput('VMpr_CharacterArray_valueAtPut', sh, 'int', f)
        at('VMpr_CharacterArray_valueAt', sh, 'object', f)
        atput('VMpr_CharacterArray_valueAtPut', sh, 'object', f)
    for sh in ('uchar', 'uint', 'pointer', 'int64'):
        at('VMpr_CharacterArray_valueAt', sh, 'int', lambda o: None)
        atput('VMpr_CharacterArray_valueAtPut', sh, 'int', lambda o: None)

    # at: / at:put: through the inline cache
    def cached(shape, put, ikind):
        def body(ex):
            st = State()
            o = indexed_object(ex, st, 'rec', shape)
            accessor_contracts(ex, o)
            if ikind == 'int':
                iv = from_int(ex.fresh('index'))
                n = simp(iv >> 1)
            else:
                iv = Obj(ex, st, 'idx').oop
                n = None
            v = ex.fresh('value')
            fname = 'cached_index_oop_put_primitive' if put else 'cached_index_oop_primitive'
            vals = [o.oop, iv] + ([v] if put else [])
            P = Prim(ex, st, fname, vals)
            P.st0 = st.clone()
            ex.start(st, fname, vals + [o.spec])
            ro = (o.flags & 0x20) != 0
            what = '%s on %s with %s index' % (fname, shape, ikind)

            def post(s):
                r = s.ret
                r = r if isinstance(r, (bool, int)) else r
                taken = not ex.decide(s, eq(r, 1) if not isinstance(r, z3.BoolRef) else r)
                if not taken:
                    P.unchanged(s, what)
                    no_put(ex, s, what)
                else:
                    ex.oblige(s, P.sp_is(s, 0), what + ': one result replaces receiver and arguments')
                    P.below(s, what)
                    if n is None:
                        ex.oblige(s, False, what + ': must not be taken')
                        return
                    ex.oblige(s, valid_index(o, n), what + ': an invalid index is not accepted')
                    if put:
                        ex.oblige(s, z3.Not(ro), what + ': a read-only object is not written')
                        one_put(ex, s, o, n, v, what)
                        ex.oblige(s, eq(P.top(s), v), what + ': answers the stored value')
                    else:
                        ex.oblige(s, eq(P.top(s), IDX_GET(n, bv(o.spec))), what + ': answers the element')
                P.frame(s, {}, what)
            ex.split(ex.run(st), post)
        units.append(('cached at:%s/%s/%s' % ('put:' if put else '', shape, ikind), llvc_unit(mods, body)))
    for sh in ('uchar', 'character', 'pointer'):
        for put in (False, True):
            cached(sh, put, 'int')
    cached('pointer', False, 'object')
    cached('pointer', True, 'object')

    # fixed instance variables
    def ivar(put, receiver):
        def body(ex):
            st = State()
            fname = 'VMpr_Object_instVarAt' + ('Put' if put else '')
            if receiver == 'object':
                o = indexed_object(ex, st, 'rec', 'pointer')
                rec = o.oop
            else:
                o = None
                rec = from_int(ex.fresh('rec'))
            iv = from_int(ex.fresh('index'))
            n = simp(iv >> 1)
            v = ex.fresh('value')
            P = Prim(ex, st, fname, [rec, iv] + ([v] if put else []))
            what = '%s on %s' % (fname, receiver)

            def post(s):
                if P.failed(s):
                    P.unchanged(s, what)
                    if o is not None:
                        ok = z3.And(n >= 1, n <= bv(o.fixed))
                        if put:
                            ok = z3.And(ok, (o.flags & 0x20) == 0)
                        ex.oblige(s, z3.Not(ok), what + ': a valid access to a fixed variable succeeds')
                    P.frame(s, {}, what)
                    return
                P.succeeded(s, what) if not put else None
                if o is None:
                    ex.oblige(s, False, what + ': must fail')
                    return
                ex.oblige(s, z3.And(n >= 1, n <= bv(o.fixed)), what + ': an index outside 1..instSize fails')
                off = simp(16 + (n - 1) * 8)
                if put:
                    ex.oblige(s, (o.flags & 0x20) == 0, what + ': a read-only object is not written')
                    ex.oblige(s, eq(ex.read(s, o.obj_r, off, 8), v), what + ': stores the value')
                    P.frame(s, {o.obj_r.name: lambda k: z3.And(z3.UGE(bv(k), off), z3.ULT(bv(k) - off, 8))}, what)
                else:
                    ex.oblige(s, eq(P.top(s), ex.read(P.st0, o.obj_r, off, 8)), what + ': answers the variable')
                    P.frame(s, {}, what)
            ex.split(P.run(st), post)
        units.append(('instVarAt%s/%s' % ('Put' if put else '', receiver), llvc_unit(mods, body)))
    for put in (False, True):
        ivar(put, 'object')
        ivar(put, 'SmallInteger')

    # size
    def size(shape):
        def body(ex):
            st = State()
            o = indexed_object(ex, st, 'rec', shape)
            small_words(ex, st, o)
            # F_BYTE marks every object whose size is not a whole number of words
            ex.assume(st, z3.Implies((o.flags & 7) != 0, (o.flags & 8) != 0))
            if o.es < 8:
                ex.assume(st, (o.flags & 8) != 0)
            P = Prim(ex, st, 'VMpr_Object_basicSize', [o.oop])
            what = 'basicSize of %s' % shape

            def post(s):
                if P.failed(s):
                    ex.oblige(s, False, what + ': succeeds')
                    return
                P.succeeded(s, what)
                ex.oblige(s, eq(P.top(s), from_int(o.count)), what + ': answers the number of indexed elements')
                P.frame(s, {}, what)
            ex.split(P.run(st), post)
        units.append(('basicSize/' + shape, llvc_unit(mods, body)))
    for sh in SHAPES:
        size(sh)
    return units


def prepare(s):
    mods = load(s, 'interp.c', 'dict.c')
    CHAR_BASE_VALUE[0] = char_base(s)
    return mods


def char_base(s):
    """CHAR_OBJECT_BASE as the current headers define it."""
    import subprocess
    from common.scratch import CLANG, sh, BuildError
    f = s.path('libgst', 'vq.c')
    open(f, 'w').write('#include "gstpriv.h"\nlong long vq = CHAR_OBJECT_BASE;\n')
    rc, out = sh([CLANG, '-S', '-emit-llvm', '-w'] + s.inc() + [f, '-o', s.path('vq.ll')])
    if rc:
        raise BuildError(out)
    import re
    m = re.search(r'@vq = .*global i64 (-?\d+)', open(s.path('vq.ll')).read())
    return int(m.group(1)) & M64


def main():
    c = Check('C01')
    s = Scratch()
    mods = prepare(s)
    units = read_units(mods) + put_units(mods) + prim_units(mods)
    c.run(units)
    import os
    if os.environ.get('VERBOSE'):
        for r in c.results:
            print(r.name, len(r.obls), r.secs, r.error, r.crash)
            for o in r.obls:
                if o['status'] != 'proved':
                    print('   ', o['status'], o['name'], o['model'])
    from common.stdrive import run_cases
    from . import d_access
    return c.finish(confirm=lambda f, u: run_cases(s, d_access.cases(), d_access.SETUP))
