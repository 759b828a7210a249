"""A normal form for words built from sums, bitwise operations, shifts and rotations.

A word is a sum modulo 2^w of other words, or a list of segments; in each segment
every bit is the same boolean function (in algebraic normal form: a set of monomials) of
bits of atoms at fixed distances.  Atoms are leaves of the term and sums.  The rules are equations of
modular arithmetic and of boolean algebra, so two terms with one normal form
are equal; both sides are also evaluated on random inputs as a self-check."""
import random
import z3

ZERO, ONE = frozenset(), frozenset([()])
LIMIT = 4096


class Norm:
    def __init__(self):
        self.ids, self.keys = {}, []
        self.memo, self.keep = {}, []

    def id(self, key):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.keys)
            self.keys.append(key)
        return i

    # values are ('B', w, segments) or ('S', w, const, ((id of a B, coefficient)...))
    def const(self, w, v):
        segs, j = [], 0
        while j < w:
            b, k = v >> j & 1, j
            while k < w and v >> k & 1 == b:
                k += 1
            segs.append((j, k - 1, ONE if b else ZERO))
            j = k
        return ('B', w, tuple(segs))

    def atom(self, key, w):
        return ('B', w, ((0, w - 1, frozenset([((self.id(key), 0),)])),))

    def bits(self, x):
        if x[0] == 'B':
            return x
        _, w, c, ts = x
        if not ts:
            return self.const(w, c)
        if len(ts) == 1 and c == 0 and ts[0][1] == 1:
            return self.keys[ts[0][0]]
        if len(ts) == 1 and c == (1 << w) - 1 and ts[0][1] == c:
            return self.neg(self.keys[ts[0][0]])
        return self.atom(x, w)

    def as_const(self, x):
        if x[0] == 'S':
            return x[2] if not x[3] else None
        v = 0
        for lo, hi, f in x[2]:
            if f != ZERO and f != ONE:
                return None
            if f:
                v |= ((1 << (hi - lo + 1)) - 1) << lo
        return v

    def sum(self, x):
        if x[0] == 'S':
            return x
        w = x[1]
        c = self.as_const(x)
        if c is not None:
            return ('S', w, c, ())
        if len(x[2]) == 1:
            f = x[2][0][2]
            ms = [m for m in f if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 0:
                k = self.keys[ms[0][0][0]]
                if k[0] == 'S' and k[1] == w:
                    return k if len(f) == 1 else self.scale(k, -1, -1)
                if len(f) == 2:
                    m = (1 << w) - 1
                    return ('S', w, m, ((self.id(self.neg(x)), m),))
        return ('S', w, 0, ((self.id(x), 1),))

    def scale(self, x, f, c=0):
        m = (1 << x[1]) - 1
        return ('S', x[1], (x[2] * f + c) & m, tuple((i, k * f & m) for i, k in x[3] if k * f & m))

    def add(self, xs):
        w = xs[0][1]
        m, c, d = (1 << w) - 1, 0, {}
        for x in xs:
            c += x[2]
            for i, k in x[3]:
                d[i] = d.get(i, 0) + k
        return ('S', w, c & m, tuple(sorted((i, k & m) for i, k in d.items() if k & m)))

    def join(self, w, segs):
        out = []
        for lo, hi, f in segs:
            if out and out[-1][2] == f:
                out[-1] = (out[-1][0], hi, f)
            else:
                out.append((lo, hi, f))
        return ('B', w, tuple(out))

    def neg(self, x):
        return ('B', x[1], tuple((lo, hi, f ^ ONE) for lo, hi, f in x[2]))

    def and_(self, a, b):
        if len(a) * len(b) > LIMIT:
            raise NotImplementedError('too many monomials')
        r = set()
        for m in a:
            for n in b:
                r ^= {tuple(sorted(set(m) | set(n)))}
        return frozenset(r)

    def fn(self, k, a, b):
        if k == z3.Z3_OP_BXOR:
            return a ^ b
        if k == z3.Z3_OP_BAND:
            return self.and_(a, b)
        if a == ZERO or b == ZERO:
            return a | b
        return a ^ b ^ self.and_(a, b)

    def bitwise(self, f, x, y):
        w = x[1]
        i = j = 0
        out = []
        lo = 0
        while lo < w:
            a, b = x[2][i], y[2][j]
            hi = min(a[1], b[1])
            out.append((lo, hi, self.fn(f, a[2], b[2])))
            if a[1] == hi:
                i += 1
            if b[1] == hi:
                j += 1
            lo = hi + 1
        return self.join(w, out)

    def slice(self, x, lo, hi, to):
        """the segments of bits lo..hi of x, moved to position `to`"""
        d = to - lo
        return [(max(a, lo) + d, min(b, hi) + d, self.shift(f, d)) for a, b, f in x[2] if a <= hi and b >= lo]

    def shift(self, f, d):
        return frozenset(tuple((q, k - d) for q, k in m) for m in f) if d else f

    def place(self, w, parts):
        """parts: (x, lo, hi) from bit 0 up, or (None, n, bit) for constant bits"""
        out, p = [], 0
        for x, lo, hi in parts:
            if x is None:
                if lo:
                    out.append((p, p + lo - 1, ONE if hi else ZERO))
                    p += lo
            elif hi >= lo:
                out += self.slice(x, lo, hi, p)
                p += hi - lo + 1
        return self.join(w, out)

    def norm(self, roots):
        st = [(r, False) for r in roots]
        while st:
            e, done = st.pop()
            i = e.get_id()
            if i in self.memo:
                continue
            k = e.decl().kind()
            cs = [] if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_ITE) else e.children()
            if not done:
                st.append((e, True))
                st += [(c, False) for c in cs]
                continue
            self.keep.append(e)
            self.memo[i] = self.value(e, k, [self.memo[c.get_id()] for c in cs])
        return [self.sum(self.memo[e.get_id()]) for e in roots]

    def value(self, e, k, v):
        w = e.size()
        if z3.is_bv_value(e):
            return self.const(w, e.as_long())
        B = self.bits
        if k == z3.Z3_OP_BADD:
            return self.add([self.sum(x) for x in v])
        if k == z3.Z3_OP_BSUB:
            return self.add([self.sum(v[0])] + [self.scale(self.sum(x), -1) for x in v[1:]])
        if k == z3.Z3_OP_BNEG:
            return self.scale(self.sum(v[0]), -1)
        if k == z3.Z3_OP_BMUL:
            c, rest = 1, []
            for x in v:
                q = self.as_const(x)
                if q is None:
                    rest.append(x)
                else:
                    c *= q
            if len(rest) == 0:
                return self.const(w, c & ((1 << w) - 1))
            if len(rest) == 1:
                return self.scale(self.sum(rest[0]), c)
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            r = B(v[0])
            for x in v[1:]:
                r = self.bitwise(k, r, B(x))
            return r
        if k == z3.Z3_OP_BNOT:
            return self.neg(B(v[0]))
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR):
            n = self.as_const(v[1])
            if n is not None:
                n = min(n, w)
                x = B(v[0])
                if k == z3.Z3_OP_BSHL:
                    return self.place(w, [(None, n, 0), (x, 0, w - n - 1)])
                return self.place(w, [(x, n, w - 1), (None, n, 0)])
        if k in (z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_ROTATE_RIGHT):
            n = e.params()[0] % w
            if k == z3.Z3_OP_ROTATE_RIGHT:
                n = (w - n) % w
            return self.place(w, [(B(v[0]), w - n, w - 1), (B(v[0]), 0, w - n - 1)])
        if k == z3.Z3_OP_CONCAT:
            return self.place(w, [(B(x), 0, x[1] - 1) for x in reversed(v)])
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            if lo == 0 and v[0][0] == 'S':
                # the low bits of a sum are the sum of the low bits
                m = (1 << w) - 1
                return self.add([('S', w, v[0][2] & m, ())] + [self.scale(self.sum(self.place(w, [(self.keys[i], 0, hi)])), c & m) for i, c in v[0][3]])
            return self.place(w, [(B(v[0]), lo, hi)])
        if k == z3.Z3_OP_ZERO_EXT:
            return self.place(w, [(B(v[0]), 0, v[0][1] - 1), (None, w - v[0][1], 0)])
        return self.atom(('L', e.get_id()), w)


def same(pairs, samples=3):
    """-> for each pair of terms, whether the normal forms agree"""
    n = Norm()
    fa, fb = n.norm([a for a, b in pairs]), n.norm([b for a, b in pairs])
    got = [x == y for x, y in zip(fa, fb)]
    rng = random.Random(7)
    for _ in range(samples):
        for (a, b), g in zip(pairs, got):
            if g and a.size() != b.size():
                raise AssertionError('bitnorm: sizes')
    # self-check: equal normal forms evaluate equally
    if any(got):
        leaves, st, seen = {}, [x for p in pairs for x in p], set()
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if not z3.is_bv(e):
                continue
            k = e.decl().kind()
            if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_ITE) and not z3.is_bv_value(e):
                leaves[e.get_id()] = e
            else:
                st += e.children()
        for _ in range(samples):
            sub = [(e, z3.BitVecVal(rng.getrandbits(e.size()), e.size())) for e in leaves.values()]
            for (a, b), g in zip(pairs, got):
                if g:
                    x, y = z3.simplify(z3.substitute(a, *sub)), z3.simplify(z3.substitute(b, *sub))
                    if not (z3.is_bv_value(x) and z3.is_bv_value(y) and x.as_long() == y.as_long()):
                        raise AssertionError('bitnorm: a normal form is wrong')
    return got
