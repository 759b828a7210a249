"""Bit-vector goals as integer goals (sound for validity: what is not
translated exactly becomes an unconstrained value of its type)."""
import z3
from z3 import Z3_OP_BADD, Z3_OP_BSUB, Z3_OP_BMUL, Z3_OP_BNEG


class Blast:
    def __init__(self, linear=False):
        self.linear = linear
        self.prods = {}
        self.memo = {}
        self.bmemo = {}
        self.side = []
        self.n = 0
        self.keep = []
        self.apps = {}

    def fresh(self, lo=None, hi=None):
        self.n += 1
        v = z3.Int('ib!%d' % self.n)
        if lo is not None:
            self.side.append(v >= lo)
        if hi is not None:
            self.side.append(v <= hi)
        return v

    def mul(self, x, y):
        if not self.linear or z3.is_int_value(x) or z3.is_int_value(y):
            return x * y
        k = tuple(sorted((x.get_id(), y.get_id())))
        if k not in self.prods:
            self.prods[k] = (self.fresh(), x, y)
        return self.prods[k][0]

    def wrap(self, e, lo, hi, w):
        m, M = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if lo >= m and hi <= M:
            return e, lo, hi
        k = self.fresh((lo - M) // (1 << w) if lo < m else 0, -((m - hi) // (1 << w)) if hi > M else 0)
        v = self.fresh(m, M)
        self.side.append(v == e - k * (1 << w))
        return v, m, M

    def any(self, w):
        m, M = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self.fresh(m, M), m, M

    def U(self, t):
        e, lo, hi = self.S(t)
        w = t.size()
        if lo >= 0:
            return e, lo, hi
        if hi < 0:
            return e + (1 << w), lo + (1 << w), hi + (1 << w)
        return z3.If(e < 0, e + (1 << w), e), 0, (1 << w) - 1

    def floordiv(self, e, lo, hi, k):
        """floor(e / 2^k), e mod 2^k"""
        if k == 0:
            return (e, lo, hi), (z3.IntVal(0), 0, 0)
        q = self.fresh(lo >> k, hi >> k)
        r = self.fresh(0, (1 << k) - 1)
        self.side.append(e == q * (1 << k) + r)
        return (q, lo >> k, hi >> k), (r, 0, (1 << k) - 1)

    def S(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.S1(t)
            e, lo, hi = r
            if not z3.is_int_value(e) and not (z3.is_const(e)):
                v = self.fresh(lo, hi)
                self.side.append(v == e)
                # keep structure for products: expanding stays possible through the equation
                r = (e, lo, hi)
            self.memo[i] = r
            self.keep.append(t)
        return r

    def S1(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            return z3.IntVal(v), v, v
        k = t.decl().kind()
        ch = t.children()
        if k == Z3_OP_BADD or k == Z3_OP_BSUB:
            rs = [self.S(c) for c in ch]
            e, lo, hi = rs[0]
            for a, l, h in rs[1:]:
                if k == Z3_OP_BADD:
                    e, lo, hi = e + a, lo + l, hi + h
                else:
                    e, lo, hi = e - a, lo - h, hi - l
            return self.wrap(e, lo, hi, w)
        if k == Z3_OP_BMUL:
            if len(ch) == 2:
                for x, y in ((ch[0], ch[1]), (ch[1], ch[0])):
                    if x.decl().kind() in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) and x.arg(1).eq(y):
                        # (a / b) * b = a - a rem b
                        a, b = x.arg(0), y
                        q = self.S(x)
                        r = self.S(z3.SRem(a, b))
                        ae, al, ah = self.S(a)
                        be = self.S(b)[0]
                        key = ('div', a.get_id(), b.get_id())
                        return z3.If(be == 0, z3.IntVal(0), ae - self.memo[key][1][0]), min(al, 0), max(ah, 0)
            rs = [self.S(c) for c in ch]
            e, lo, hi = rs[0]
            for a, l, h in rs[1:]:
                ps = [lo * l, lo * h, hi * l, hi * h]
                e, lo, hi = self.mul(e, a), min(ps), max(ps)
            return self.wrap(e, lo, hi, w)
        if k == Z3_OP_BNEG:
            e, lo, hi = self.S(ch[0])
            return self.wrap(-e, -hi, -lo, w)
        if k == z3.Z3_OP_BNOT:
            e, lo, hi = self.S(ch[0])
            return -e - 1, -hi - 1, -lo - 1
        if k == z3.Z3_OP_ITE:
            c = self.B(ch[0])
            a, b = self.S(ch[1]), self.S(ch[2])
            return z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if k == z3.Z3_OP_CONCAT:
            e, lo, hi = self.S(ch[0])
            for c in ch[1:]:
                u, ul, uh = self.U(c)
                m = 1 << c.size()
                e, lo, hi = e * m + u, lo * m + ul, hi * m + uh
            return e, lo, hi
        if k == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            e, lo, hi = self.S(ch[0])
            (q, ql, qh), _ = self.floordiv(e, lo, hi, l)
            return self.wrap(q, ql, qh, w)
        if k == z3.Z3_OP_SIGN_EXT:
            return self.S(ch[0])
        if k == z3.Z3_OP_ZERO_EXT:
            return self.U(ch[0])
        if k in (z3.Z3_OP_BASHR, z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            if n < w:
                if k == z3.Z3_OP_BASHR:
                    e, lo, hi = self.S(ch[0])
                    return self.floordiv(e, lo, hi, n)[0]
                if k == z3.Z3_OP_BLSHR:
                    e, lo, hi = self.U(ch[0])
                    q, ql, qh = self.floordiv(e, lo, hi, n)[0]
                    return self.wrap(q, ql, qh, w)
                e, lo, hi = self.S(ch[0])
                return self.wrap(e * (1 << n), lo << n, hi << n, w)
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            key = ('div', ch[0].get_id(), ch[1].get_id())
            if key not in self.memo:
                a, al, ah = self.S(ch[0])
                b, bl, bh = self.S(ch[1])
                M = max(abs(al), abs(ah))
                q = self.fresh(-M, M)
                mb = max(abs(bl), abs(bh))
                rm = self.fresh(-min(M, mb), min(M, mb))
                self.side.append(z3.Implies(b != 0, z3.And(a == self.mul(q, b) + rm,
                    z3.Implies(b > 0, z3.And(rm < b, rm > -b)), z3.Implies(b < 0, z3.And(rm < -b, rm > b)),
                    z3.Implies(a >= 0, rm >= 0), z3.Implies(a <= 0, rm <= 0),
                    # consequences that spare the solver nonlinear reasoning
                    z3.Implies(z3.Or(z3.And(a >= 0, b > 0), z3.And(a <= 0, b < 0)), q >= 0),
                    z3.Implies(z3.Or(z3.And(a >= 0, b < 0), z3.And(a <= 0, b > 0)), q <= 0),
                    z3.Implies(z3.Or(b > 1, b < -1), z3.And(2 * q <= z3.If(a < 0, -a, a), -2 * q <= z3.If(a < 0, -a, a))),
                    z3.Implies(b == 1, q == a), z3.Implies(b == -1, q == -a))))
                self.memo[key] = ((q, -M, M), (rm, -min(M, mb), min(M, mb)))
                self.keep += [ch[0], ch[1]]
            b0 = self.S(ch[1])[0]
            r = self.memo[key][0 if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else 1]
            o = self.any(w)
            zero = self.S(ch[1])
            e, lo, hi = self.wrap(r[0], r[1], r[2], w)
            if zero[1] > 0 or zero[2] < 0:
                return e, lo, hi
            # division by zero: leave unconstrained, shared per term
            v, m, M = self.any(w)
            self.side.append(z3.Implies(b0 != 0, v == e))
            return v, m, M
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR) and len(ch) == 2:
            for x, y in ((ch[0], ch[1]), (ch[1], ch[0])):
                if z3.is_bv_value(y) and k == z3.Z3_OP_BAND:
                    m = y.as_long()
                    if m & (m + 1) == 0 and m < (1 << (w - 1)):
                        e, lo, hi = self.S(x)
                        return self.floordiv(e, lo, hi, m.bit_length())[1]
            a, b = self.S(ch[0]), self.S(ch[1])
            v, m, M = self.any(w)
            na, nb = a[0] < 0, b[0] < 0
            s = {z3.Z3_OP_BAND: z3.And(na, nb), z3.Z3_OP_BOR: z3.Or(na, nb), z3.Z3_OP_BXOR: na != nb}[k]
            self.side.append((v < 0) == s)
            return v, m, M
        v, m, M = self.any(w)
        if ch and all(z3.is_bv(c) for c in ch) and k == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name()
            args = [self.S(c)[0] for c in ch]
            for a2, v2 in self.apps.get(nm, ()):
                self.side.append(z3.Implies(z3.And(*[x == y for x, y in zip(args, a2)]), v == v2))
            self.apps.setdefault(nm, []).append((args, v))
        return v, m, M

    def B(self, f):
        i = f.get_id()
        r = self.bmemo.get(i)
        if r is None:
            r = self.B1(f)
            self.bmemo[i] = r
            self.keep.append(f)
        return r

    def B1(self, f):
        if z3.is_true(f) or z3.is_false(f):
            return f
        k = f.decl().kind()
        ch = f.children()
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.B(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.B(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.B(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.B(ch[0]), self.B(ch[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.B(ch[0]), self.B(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.B(ch[0]), self.B(ch[1]), self.B(ch[2]))
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_DISTINCT and len(ch) == 2:
            if z3.is_bool(ch[0]):
                e = self.B(ch[0]) == self.B(ch[1])
            elif z3.is_bv(ch[0]):
                e = self.S(ch[0])[0] == self.S(ch[1])[0]
            else:
                e = None
            if e is not None:
                return e if k == z3.Z3_OP_EQ else z3.Not(e)
        S, U = self.S, self.U
        cmp = {z3.Z3_OP_SLT: (S, '<'), z3.Z3_OP_SLEQ: (S, '<='), z3.Z3_OP_SGT: (S, '>'), z3.Z3_OP_SGEQ: (S, '>='),
               z3.Z3_OP_ULT: (U, '<'), z3.Z3_OP_ULEQ: (U, '<='), z3.Z3_OP_UGT: (U, '>'), z3.Z3_OP_UGEQ: (U, '>=')}
        if k in cmp:
            g, op = cmp[k]
            a, b = g(ch[0])[0], g(ch[1])[0]
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if k in (z3.Z3_OP_BSMUL_NO_OVFL, z3.Z3_OP_BSMUL_NO_UDFL):
            w = ch[0].size()
            p = self.mul(S(ch[0])[0], S(ch[1])[0])
            return p <= (1 << (w - 1)) - 1 if k == z3.Z3_OP_BSMUL_NO_OVFL else p >= -(1 << (w - 1))
        self.n += 1
        return z3.Bool('ibb!%d' % self.n)


def blast(assertions, linear=False):
    b = Blast(linear)
    out = []
    for a in assertions:
        out.append(b.B(a))
    return out + b.side
