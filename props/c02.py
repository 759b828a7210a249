"""C02: SmallInteger arithmetic is exact or hands over to a general method."""
from .vmlib import *
from .prim import Prim
from . import bc
from .bc import Interp, CODE0

MINI, MAXI = -(1 << 62), (1 << 62) - 1
W = 136        # wide enough for every exact result below


def wide(x):
    return z3.SignExt(W - 64, bv(x))


def fits(w):
    return z3.And(w >= z3.BitVecVal(MINI, W), w <= z3.BitVecVal(MAXI, W))


def as_int_oop(w):
    return from_int(z3.Extract(63, 0, w))


def trunc_div(a, b):
    """64-bit truncated quotient of SmallInteger values (|a| <= 2^62)"""
    return bv(a) / bv(b)          # sdiv


def spec(op, a, b):
    """(defined, answer object, in SmallInteger range) for SmallIntegers a, b (BV64)"""
    T = z3.BoolVal(True)
    if op in ('plus', 'minus', 'times'):
        f = {'plus': lambda x, y: x + y, 'minus': lambda x, y: x - y, 'times': lambda x, y: x * y}[op]
        if op != 'times':
            r = f(bv(a), bv(b))          # no 64-bit wrap for 63-bit operands
            return T, from_int(r), z3.And(r >= MINI, r <= MAXI)
        lo = bv(a) * bv(b)
        ov = z3.And(z3.BVMulNoOverflow(bv(a), bv(b), True), z3.BVMulNoUnderflow(bv(a), bv(b)))
        return T, from_int(lo), z3.And(ov, lo >= MINI, lo <= MAXI)
    if op in ('bitAnd', 'bitOr', 'bitXor'):
        f = {'bitAnd': lambda x, y: x & y, 'bitOr': lambda x, y: x | y, 'bitXor': lambda x, y: x ^ y}[op]
        return T, from_int(f(bv(a), bv(b))), T
    if op == 'bitShift':
        neg = bv(b) < 0
        sh = -bv(b)
        right = z3.If(z3.UGE(sh, 63), z3.If(bv(a) < 0, z3.BitVecVal(M64, 64), z3.BitVecVal(0, 64)), bv(a) >> sh)
        left = bv(a) << bv(b)
        okl = z3.Or(bv(a) == 0, z3.And(bv(b) < 63, (left >> bv(b)) == bv(a), left >= MINI, left <= MAXI))
        # shifting 0 by any amount is 0; a large left shift of 0 may decline
        return T, from_int(z3.If(neg, right, z3.If(bv(a) == 0, z3.BitVecVal(0, 64), left))), z3.Or(neg, okl)
    if op in CMP:
        c = CMP[op](bv(a), bv(b))
        return T, c, T
    nz = bv(b) != 0
    q = bv(a) / bv(b)
    r = z3.SRem(bv(a), bv(b))
    if op == 'quo':
        return nz, q, q <= MAXI
    if op == 'rem':
        return nz, r, T
    if op == 'divide':
        return z3.And(nz, r == 0), q, q <= MAXI
    adj = z3.And(r != 0, (r ^ bv(b)) < 0)
    if op == 'intDiv':
        f = z3.If(adj, q - 1, q)
        return nz, f, f <= MAXI
    if op == 'modulo':
        return nz, z3.If(adj, r + bv(b), r), T
    raise KeyError(op)


CMP = {'lt': lambda a, b: a < b, 'gt': lambda a, b: a > b, 'le': lambda a, b: a <= b, 'ge': lambda a, b: a >= b,
       'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}
DIVS = ('divide', 'intDiv', 'quo', 'modulo')
ARITH = ('plus', 'minus', 'times', 'bitAnd', 'bitOr', 'bitXor', 'bitShift')
BYTECODES = {'plus': 0, 'minus': 1, 'lt': 2, 'gt': 3, 'le': 4, 'ge': 5, 'eq': 6, 'ne': 7, 'times': 8, 'divide': 9,
             'modulo': 10, 'bitXor': 11, 'bitShift': 12, 'intDiv': 13, 'bitAnd': 14, 'bitOr': 15}


def ints(ex, st):
    oa, ob = ex.fresh('a'), ex.fresh('b')
    ex.assume(st, (oa & 1) == 1)
    ex.assume(st, (ob & 1) == 1)
    return oa >> 1, ob >> 1, oa, ob


def int_result(ex, s, got, op, A, B, what):
    """`got` is the object that denotes the exact result."""
    defined, val, inrange = spec(op, A, B)
    if not ex.oblige(s, defined, what + ': answers only when the result is defined'):
        return
    if op in DIVS:
        goal = division_goal(ex, s, got, op, A, B)
        return ex.oblige(s, goal, what + ': the exact result')
    if not ex.oblige(s, inrange, what + ': answers only results in SmallInteger range'):
        return
    ex.oblige(s, eq(got, val), what + ': the exact result')


def division_goal(ex, s, got, op, A, B):
    defined, val, inrange = spec(op, A, B)
    return z3.Or(z3.And(inrange, bv(got) == from_int(val)), z3.And(z3.Not(inrange), bv(got) == INT64_OOP(val)),
                 z3.And(inrange, bv(got) == INT64_OOP(val)))


def int64_contract(ex):
    def h(e, s, args):
        v = bv(args[0])
        e.used_trusted.add('contract from_c_int_64 (proved in C04)')
        inr = z3.And(v >= MINI, v <= MAXI)
        r = INT64_OOP(v)
        e.assume(s, r != 0)
        if e.decide(s, inr):
            return from_int(v)
        return r
    for n in ('from_c_int_64',):
        ex.contracts[n] = h


def obj_arg(ex, st, name):
    o = Obj(ex, st, name, words=4)
    return o


def not_float(ex, st, o):
    for g in ('_gst_floatd_class',):
        c = ex.read(st, ex.global_region('@' + g, st), 0, 8)
        ex.assume(st, z3.Not(zb(eq(c, o.cls))))


def prim_units(mods):
    units = []

    def unit(op, kinds):
        def body(ex):
            st = State()
            A, B, oa, ob = ints(ex, st)
            va, vb = oa, ob
            if kinds[1] == 'o':
                o = obj_arg(ex, st, 'arg')
                not_float(ex, st, o)
                vb = o.oop
            int64_contract(ex)
            name = 'VMpr_SmallInteger_' + op
            nil, true, false = bc.set_builtins(ex, st)
            P = Prim(ex, st, name, [va, vb])
            what = '%s/%s' % (name, kinds)

            def post(s):
                if P.failed(s):
                    P.unchanged(s, what)
                    P.frame(s, {}, what)
                    if kinds == 'ii':
                        defined, val, inrange = spec(op, A, B)
                        if op in CMP or op in ('bitAnd', 'bitOr', 'bitXor', 'modulo', 'plus', 'minus'):
                            ex.oblige(s, z3.Not(z3.And(defined, inrange)), what + ': declines only what has no SmallInteger answer')
                    return
                if kinds != 'ii':
                    ex.oblige(s, False, what + ': declines an argument that is not a SmallInteger')
                    return
                P.succeeded(s, what)
                if op in CMP:
                    ex.oblige(s, eq(P.top(s), z3.If(spec(op, A, B)[1], true, false)), what + ': the exact comparison')
                else:
                    int_result(ex, s, P.top(s), op, A, B, what)
                P.frame(s, {}, what)
            ex.split(P.run(st), post)
        units.append(('prim/%s/%s' % (op, kinds), llvc_unit(mods, body)))
    for op in list(CMP) + list(DIVS) + list(ARITH):
        for k in ('ii', 'io'):
            unit(op, k)
    return units


def bc_units(mods):
    units = []
    SEND = 30

    def unit(op, kinds, follow):
        def body(ex):
            st = State()
            A, B, oa, ob = ints(ex, st)
            vals = [oa, ob]
            for i in (0, 1):
                if kinds[i] == 'o':
                    o = obj_arg(ex, st, 'arg%d' % i)
                    not_float(ex, st, o)
                    vals[i] = o.oop
            int64_contract(ex)
            opc = BYTECODES[op]
            code = [opc, ex.fresh('arg', 8)]
            J = 77
            if follow == 'send':
                code += [SEND, 200]
            elif follow == 'dup':
                code += [52, ex.fresh('darg', 8), SEND, 200]
            elif follow in ('jt', 'jf'):
                code += [{'jt': 42, 'jf': 43}[follow], J, SEND, 200] + [None] * (J - 2) + [SEND, 201]
            I = Interp(ex, st, vals, code)
            I.set_numargs(st, 200, 0)
            I.set_numargs(st, 201, 0)
            what = 'bytecode %d (%s)/%s/%s' % (opc, op, kinds, follow)

            def post(s):
                sent = I.sent(s)
                if sent is None:
                    ex.oblige(s, False, what + ': reaches the next bytecode')
                    return
                name, args = sent
                selector_of_op = ex.decide(s, eq(args[0], I.selector(s, opc)))
                if selector_of_op and ex.decide(s, eq(I.ip(s), Ptr(I.code_r, CODE0 + 2))):
                    # declined: an ordinary send of the same message
                    ex.oblige(s, I.sp_at(s, 0), what + ': declining keeps both operands')
                    ex.oblige(s, z3.And(zb(eq(I.slot(s, 0), vals[1])), zb(eq(I.slot(s, -1), vals[0]))), what + ': declining keeps both operands')
                    ex.oblige(s, args[1] == 1 if isinstance(args[1], int) else bv(args[1], 32) == 1, what + ': sends one argument')
                    ex.oblige(s, eq(args[2], vals[0]), what + ': sends to the receiver')
                    I.stack_frame(s, -2, what)
                    if kinds == 'ii':
                        defined, val, inrange = spec(op, A, B)
                        if op in CMP or op in ('bitAnd', 'bitOr', 'bitXor', 'modulo', 'plus', 'minus'):
                            ex.oblige(s, z3.Not(z3.And(defined, inrange)), what + ': declines only what has no SmallInteger answer')
                    return
                if kinds != 'ii':
                    ex.oblige(s, False, what + ': declines an operand that is not a SmallInteger')
                    return
                if op in CMP:
                    c = spec(op, A, B)[1]
                    want = z3.If(c, I.true, I.false)
                    if follow in ('jt', 'jf'):
                        tk = c if follow == 'jt' else z3.Not(c)
                        taken = ex.decide(s, tk)
                        ex.oblige(s, I.ip_at(s, 4 + J + 2 if taken else 6), what + ': takes exactly the right branch')
                        ex.oblige(s, I.sp_at(s, -2), what + ': consumes both operands')
                        I.stack_frame(s, -2, what)
                        return
                    n = 2 if follow == 'dup' else 1
                    ex.oblige(s, I.sp_at(s, -2 + n), what + ': two operands become one result')
                    for i in range(n):
                        ex.oblige(s, eq(I.slot(s, -1 + i), want), what + ': the exact comparison')
                else:
                    ex.oblige(s, I.sp_at(s, -1), what + ': two operands become one result')
                    int_result(ex, s, I.slot(s, -1), op, A, B, what)
                ex.oblige(s, I.ip_at(s, len(code)), what + ': continues with the next bytecode')
                I.stack_frame(s, -2, what)
            ex.split(I.run(st), post)
        units.append(('bytecode/%s/%s/%s' % (op, kinds, follow), llvc_unit(mods, body)))
    for op in BYTECODES:
        for k in ('ii', 'io', 'oi', 'oo'):
            unit(op, k, 'send')
        if op in CMP:
            for f in ('dup', 'jt', 'jf'):
                unit(op, 'ii', f)
    return units


def prepare(s):
    mods = load(s, 'interp.c', 'dict.c')
    bc.BUILTIN_OFF[:] = header_consts(s, ['NIL_OOP_INDEX', 'TRUE_OOP_INDEX', 'FALSE_OOP_INDEX'])
    f = Ex(mods).find_fn('_gst_interpret')      # parsed once, before the workers fork
    f.blocks
    f.loops
    return mods


def main():
    c = Check('C02')
    s = Scratch()
    mods = prepare(s)
    units = prim_units(mods) + bc_units(mods)
    import os
    if os.environ.get('ONLY'):
        units = [u for u in units if os.environ['ONLY'] in u[0]]
    c.run(units)
    if os.environ.get('VERBOSE'):
        verbose(c)
    from common.stdrive import run_cases
    from . import d_smallint
    return c.finish(confirm=lambda f, u: run_cases(s, d_smallint.cases(), d_smallint.SETUP))
