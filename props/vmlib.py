"""Shared setup for properties over libgst: IR modules and callee contracts."""
import z3
from common.scratch import Scratch
from common.check import Check, llvc_unit
from llvc.ir import Module, Unsupported
from llvc.exec import *
from llvc.exec import Ptr, simp, bv, zb, sgn, add64, M64
from llvc.gst import *

_mods = {}


def load(s, *files):
    paths = s.ir(*files)
    return [Module(open(paths[f]).read(), f) for f in files]


# ---- contracts assumed at call sites (each proved in the unit named)
def uf(name, *sorts):
    return z3.Function(name, *sorts)


def oop_fn(fname, width, tag):
    """Callee answering an OOP that is a function of its (bit) argument."""
    F = z3.Function(tag, z3.BitVecSort(width), z3.BitVecSort(64))

    def h(ex, st, args):
        v = bv(args[0], width)
        r = F(v)
        ex.assume(st, r != 0)
        ex.used_trusted.add('contract:%s (answers the object denoting its argument)' % fname)
        return r
    return h, F


INT64_OOP = z3.Function('OopOfInt64', z3.BitVecSort(64), z3.BitVecSort(64))
UINT64_OOP = z3.Function('OopOfUInt64', z3.BitVecSort(64), z3.BitVecSort(64))
FLOATD_OOP = z3.Function('OopOfDouble', z3.BitVecSort(64), z3.BitVecSort(64))
FLOATE_OOP = z3.Function('OopOfFloatE', z3.BitVecSort(64), z3.BitVecSort(64))   # arg is a double
CHAR_OOP = z3.Function('OopOfUnicodeChar', z3.BitVecSort(32), z3.BitVecSort(64))


def value_contract(F, width, name):
    def h(ex, st, args):
        r = F(bv(args[0], width))
        ex.assume(st, r != 0)
        ex.used_trusted.add(name)
        return r
    return h


def std_contracts(ex):
    ex.contracts['from_c_int_64'] = value_contract(INT64_OOP, 64, 'contract from_c_int_64 (proved in C04)')
    ex.contracts['from_c_uint_64'] = value_contract(UINT64_OOP, 64, 'contract from_c_uint_64 (proved in C04)')
    ex.contracts['floatd_new'] = value_contract(FLOATD_OOP, 64, 'contract floatd_new (allocates a FloatD with the bits)')
    ex.contracts['floate_new'] = value_contract(FLOATE_OOP, 64, 'contract floate_new (allocates a FloatE)')
    ex.contracts['char_new'] = value_contract(CHAR_OOP, 32, 'contract char_new (the Character/UnicodeCharacter of a code point)')


def ot_base(ex, st, mod):
    """The value of _gst_mem.ot"""
    off, t = mod.field_off(('named', '%struct.memory_space'), 8)
    g = ex.global_region('@_gst_mem', st)
    return ex.read(st, g, off, 8)


def header_consts(s, names):
    """Values of C constant expressions as the current headers define them."""
    import re
    from common.scratch import CLANG, sh, BuildError
    f = s.path('libgst', 'vqc.c')
    open(f, 'w').write('#include "gstpriv.h"\n' + ''.join('long long vq%d = (long long)(%s);\n' % (i, n) for i, n in enumerate(names)))
    rc, out = sh([CLANG, '-S', '-emit-llvm', '-w'] + s.inc() + [f, '-o', s.path('vqc.ll')])
    if rc:
        raise BuildError(out)
    t = open(s.path('vqc.ll')).read()
    r = []
    for i in range(len(names)):
        m = re.search(r'^@vq%d = .*global i64 (-?\d+)' % i, t, re.M)
        r.append(int(m.group(1)))
    return r


def verbose(c):
    for r in c.results:
        print(r.name, len(r.obls), round(r.secs, 1), str(r.error)[:200] if r.error else '', (r.crash or '')[-600:])
        for o in r.obls:
            if o['status'] != 'proved':
                print('   ', o['status'], o['name'], str(o['model'])[:300])


def prim_ids(s):
    """{primitive name: id passed to its function}, from the generated table"""
    import re
    t = open(s.path('libgst', 'prims.inl')).read()
    return {n: int(i) & 0xffffffff for n, i in re.findall(r'\]\.name = "(VMpr_\w+)";.*?\]\.id = (-?\d+);', t, re.S)}
