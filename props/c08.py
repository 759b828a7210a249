"""C08: MD5 and SHA-1 (packages/digest, lib-src).

process_block is proved to be the fold of the RFC block function over the
64-byte blocks of its argument (loop contract with a ghost chaining value); a
ghost stream records the bytes given to it, and process_bytes / finish_ctx are
proved to put exactly the bytes hashed, the padding and the length into it."""
import math
import os
from .vmlib import *
from llvc.auto import Auto, Collector
from llvc.bitnorm import same
from .c06 import Rec0

U = z3.ULT
b32 = lambda v: z3.BitVecVal(v & 0xffffffff, 32)


def rol(x, s):
    return (x << s) | z3.LShR(x, 32 - s)


def bswap(x):
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(4)])


# ---- the block functions, from RFC 1321 and FIPS 180-1
def md5_block(H, M):
    S = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]]
    a, b, c, d = H
    sm = lambda x: x
    for i in range(64):
        r = i // 16
        if r == 0:
            f, g = (b & c) | (~b & d), i
        elif r == 1:
            f, g = (d & b) | (~d & c), (5 * i + 1) % 16
        elif r == 2:
            f, g = b ^ c ^ d, (3 * i + 5) % 16
        else:
            f, g = c ^ (b | ~d), (7 * i) % 16
        T = int(abs(math.sin(i + 1)) * 2 ** 32)
        x = sm(a + sm(f) + M[g] + b32(T))
        a, b, c, d = d, sm(b + sm(rol(x, S[r][i % 4]))), b, c
    return [sm(x + y) for x, y in zip(H, (a, b, c, d))]


def sha1_block(H, M):
    sm = lambda x: x
    W = list(M)
    for t in range(16, 80):
        W.append(sm(rol(sm(W[t - 3] ^ W[t - 8] ^ W[t - 14] ^ W[t - 16]), 1)))
    a, b, c, d, e = H
    for t in range(80):
        if t < 20:
            f, K = (b & c) | (~b & d), 0x5a827999
        elif t < 40:
            f, K = b ^ c ^ d, 0x6ed9eba1
        elif t < 60:
            f, K = (b & c) | (b & d) | (c & d), 0x8f1bbcdc
        else:
            f, K = b ^ c ^ d, 0xca62c1d6
        x = sm(sm(rol(a, 5)) + sm(f) + e + W[t] + b32(K))
        a, b, c, d, e = x, a, sm(rol(b, 30)), c, d
    return [sm(x + y) for x, y in zip(H, (a, b, c, d, e))]


class Alg:
    def __init__(self, name, mod, words, block, big, init):
        self.name, self.mod, self.words, self.block, self.big, self.init = name, mod, words, block, big, init
        self.total = 4 * words
        self.buflen = 4 * words + 8
        self.buf = 4 * words + 12
        self.size = self.buf + 128

    def fn(self, f):
        return '%s_%s' % (self.name, f)

    def message(self, ex, s, r, off):
        """the 16 words of the block at off, in the byte order of the standard"""
        xs = [bv(ex.read(s, r, simp(bv(off) + 4 * j), 4), 32) for j in range(16)]
        return [bswap(x) for x in xs] if self.big else xs


IV = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]


class W:
    """a context, with N bytes processed so far, and the ghost stream"""
    def __init__(self, ex, st, A, maxbuf=64):
        self.ex, self.A = ex, A
        self.ctx = ex.region('ctx', A.size, ex.byte_init('ctx'))
        self.H = [ex.fresh('H%d' % k, 32) for k in range(A.words)]
        for k, h in enumerate(self.H):
            ex.write(st, self.ctx, 4 * k, 4, h)
        self.N = ex.fresh('N')
        ex.assume(st, z3.And((self.N & 63) == 0, U(self.N, 1 << 61)))
        self.set_total(st, self.N)
        self.bl = ex.fresh('buflen', 32)
        ex.assume(st, z3.ULE(self.bl, maxbuf))
        ex.write(st, self.ctx, A.buflen, 4, self.bl)
        self.stream = ex.region('stream', None, ex.byte_init('stream'), kind='ghost')
        self.cnt = ex.region('stream length', 8, kind='ghost')
        ex.write(st, self.cnt, 0, 8, self.N)

    def set_total(self, st, n):
        ex, A = self.ex, self.A
        ex.write(st, self.ctx, A.total, 4, simp(z3.Extract(31, 0, n)))
        ex.write(st, self.ctx, A.total + 4, 4, simp(z3.Extract(63, 32, n)))

    def count(self, s):
        return bv(self.ex.read(s, self.cnt, 0, 8))

    def byte(self, s, r, o):
        return bv(self.ex.read(s, r, o, 1), 8)

    def use_block(self):
        """contract of process_block (proved in its unit)"""
        ex, A = self.ex, self.A
        fn = A.fn('process_block')

        def h(e, s, a):
            p, n, c = a[0], bv(a[1]), a[2]
            rp, op = ex.resolve_addr(s, p)
            rc, oc = ex.resolve_addr(s, c)
            ex.oblige(s, z3.And((n & 63) == 0, U(n, 1 << 32)), fn + ' is given whole blocks')
            if rc is not self.ctx or simp(oc) != 0:
                ex.oblige(s, False, fn + ' is given the context')
                return None
            ex.bounds_range(s, rp, op, n, fn + ' reads')
            rd = ex.snapshot_reader(s, rp)
            N = self.count(s)
            ex.bulk(s, self.stream, N, n, lambda rel, k: rd(add64(op, rel), k))
            ex.write(s, self.cnt, 0, 8, simp(N + n))
            self.set_total(s, N + n)
            k = ex.nblocks = getattr(ex, 'nblocks', 0) + 1
            s.ghost = dict(s.ghost)
            hs = [ex.fresh('H%d' % k, 32) for k in range(A.words)]
            s.ghost['H'] = hs
            for j, x in enumerate(hs):
                ex.write(s, self.ctx, 4 * j, 4, x)
            return None
        ex.contracts[fn] = h
        ex.used_trusted.add('contract %s (proved in unit %s)' % (fn, fn))


class Fold(Auto):
    """The loop over the blocks: the cells that hold the chaining value at the
    entry hold H(i) after i blocks; the others change by a constant or are dead."""
    def __init__(self, w, inp, off, n, size=64):
        Auto.__init__(self)
        self.w, self.inp, self.off, self.n = w, inp, off, n
        self.active = False

    def enter(self, ex, s, fr, h):
        if self.active:
            rec = Rec0()
            rec['spec'] = None
            return rec
        self.active = True
        w = self.w
        P = s.clone()
        depth = len(P.frames)
        i = ex.fresh('i')
        Hi = [ex.fresh('Hi%d' % k, 32) for k in range(w.A.words)]
        M, logs, diff = {}, set(), {}
        G = P
        try:
            for rnd in range(6):
                G = self.head(ex, P, M, i, Hi, diff)
                G.pc.append(U(i, self.n))
                Bs = self.explore(ex, G, h)
                new = self.diffs(ex, P, G, Bs, M)
                grew = self.changed(ex, G, Bs, depth, M, logs)
                for k, d in new.items():
                    if diff.get(k, d) != d:
                        diff[k] = None
                        grew = True
                    elif k not in diff:
                        diff[k] = d
                        grew = True
                if not grew:
                    break
            else:
                raise Unsupported('loop frame does not stabilise')
        finally:
            self.active = False
        if logs:
            raise Unsupported('the loop over the blocks writes to %s' % sorted(logs))
        G = self.head(ex, P, M, i, Hi, diff)
        G.pc.append(z3.ULE(i, self.n))
        s.mem = dict(G.mem)
        s.pc = list(G.pc)
        s.ghost = dict(s.ghost)
        s.ghost['fold'] = (i, Hi)
        rec = Rec0()
        rec['fold'] = (i, Hi, M, diff, P)
        return rec

    def val(self, ex, s, k):
        m = s.mem.get(k[0])
        c = m.d.get(k[1]) if isinstance(m, Cells) else None
        return c[1] if c is not None and c[0] == k[2] else None

    def role(self, ex, P, k):
        v = self.val(ex, P, k)
        if v is not None and not isinstance(v, (Ptr, Undef)) and k[2] == 4:
            for j, x in enumerate(self.w.H):
                if bv(v, 32).eq(x):
                    return j
        return None

    def head(self, ex, P, M, i, Hi, diff):
        G = P.clone()
        for k in M:
            rn, o, n = k
            j = self.role(ex, P, k)
            v0 = self.val(ex, P, k)
            d = diff.get(k)
            if j is not None:
                v = Hi[j]
            elif d is not None and v0 is not None and not isinstance(v0, Undef):
                if isinstance(v0, Ptr):
                    v = Ptr(v0.r, simp(bv(v0.o) + i * z3.BitVecVal(d & M64, 64)))
                else:
                    w = 8 * n
                    ii = i if w == 64 else z3.Extract(w - 1, 0, i)
                    v = simp(bv(v0, w) + ii * z3.BitVecVal(d & ((1 << w) - 1), w))
            elif isinstance(v0, Ptr):
                v = Ptr(v0.r, ex.fresh('junk'))
            else:
                v = ex.fresh('junk', 8 * n)
            m = dict(G.mem[rn].d) if rn in G.mem else {}
            m[o] = (n, v)
            G.mem[rn] = Cells(m)
        return G

    def diffs(self, ex, P, G, Bs, M):
        out = {}
        for k in M:
            if self.role(ex, P, k) is not None:
                continue
            ds = set()
            for b in Bs:
                g, v = self.val(ex, G, k), self.val(ex, b, k)
                if isinstance(g, Ptr) and isinstance(v, Ptr) and g.r is v.r:
                    d = simp(bv(v.o) - bv(g.o))
                elif isinstance(g, (Ptr, Undef)) or isinstance(v, (Ptr, Undef)) or v is None or g is None:
                    d = None
                else:
                    d = simp(bv(v, 8 * k[2]) - bv(g, 8 * k[2]))
                ds.add(d if isinstance(d, int) else None)
            out[k] = ds.pop() if len(ds) == 1 else None
        return out

    def back_edge(self, ex, s, fr, h, rec):
        fn = self.w.A.fn('process_block')
        A = self.w.A
        i, Hi, M, diff, P = rec['fold']
        ex.oblige(s, U(i, self.n), fn + ': reads no further than its blocks')
        nxt = self.head(ex, P, M, simp(i + 1), Hi, diff)
        words = A.message(ex, P, self.inp, simp(bv(self.off) + i * 64))
        spec = A.block(Hi, words)
        hash_ = {}
        for k in M:
            j = self.role(ex, P, k)
            if j is not None:
                hash_[k] = j
            elif diff.get(k) is not None:
                g, v = self.val(ex, nxt, k), self.val(ex, s, k)
                if isinstance(g, Ptr):
                    ex.oblige(s, isinstance(v, Ptr) and v.r is g.r and bv(v.o) == bv(g.o), fn + ': goes on with the next block')
                else:
                    ex.oblige(s, bv(g, 8 * k[2]) == bv(v, 8 * k[2]), fn + ': goes on with the next block')
        ks = sorted(hash_)
        code = [bv(self.val(ex, s, k), 32) for k in ks]
        got = same([(c, spec[hash_[k]]) for k, c in zip(ks, code)])
        ex.used_trusted.add('terms with one normal form of sums and bitwise operations are equal (llvc/bitnorm.py)')
        for k, g, c in zip(ks, got, code):
            ex.oblige(s, True if g else c == spec[hash_[k]], fn + ': the chaining value after a block is that of the standard', timeout=3000)
        if len(set(hash_.values())) != A.words:
            ex.oblige(s, False, fn + ': every word of the chaining value is updated')


class Logical:
    """the bytes hashed so far and those of the input: T(q)"""
    def __init__(self, ex, st, w, inp=None, off=0, n=0):
        self.w, self.N, self.bl, self.n = w, w.N, z3.ZeroExt(32, w.bl), n
        self.stream = ex.snapshot_reader(st, w.stream)
        self.ctx = ex.snapshot_reader(st, w.ctx)
        self.inp = ex.snapshot_reader(st, inp) if inp is not None else None
        self.off = off
        self.len = simp(self.N + self.bl + n)

    def at(self, q):
        q = bv(q)
        r = bv(self.ctx(simp(self.w.A.buf + q - self.N), 1), 8)
        if self.inp is not None:
            r = z3.If(U(q, self.N + self.bl), r, bv(self.inp(simp(bv(self.off) + q - self.N - self.bl), 1), 8))
        return z3.If(U(q, self.N), bv(self.stream(simp(q), 1), 8), r)


class Chunks(Fold):
    """A loop that hashes one block of the input per iteration."""
    def __init__(self, w, T):
        Fold.__init__(self, w, None, None, None)
        self.T = T

    OWN = ('ctx', 'stream', 'stream length')

    def enter(self, ex, s, fr, h):
        if self.active:
            rec = Rec0()
            rec['spec'] = None
            return rec
        self.active = True
        P = s.clone()
        depth = len(P.frames)
        i = ex.fresh('i')
        M, logs, diff = {}, set(), {}
        try:
            for rnd in range(6):
                G = self.head(ex, P, M, i, None, diff)
                Bs = self.explore(ex, G, h)
                new = self.diffs(ex, P, G, Bs, M)
                M0 = set(M)
                self.changed(ex, G, Bs, depth, M, logs)
                for k in list(M):
                    if k[0] in self.OWN:
                        del M[k]
                grew = set(M) != M0
                for k, d in new.items():
                    if k not in diff:
                        diff[k] = d
                        grew = True
                    elif diff[k] != d:
                        grew = grew or diff[k] is not None
                        diff[k] = None
                if not grew:
                    break
            else:
                raise Unsupported('loop frame does not stabilise')
        finally:
            self.active = False
        if logs - set(self.OWN):
            raise Unsupported('the loop writes to %s' % sorted(logs))
        fn = self.w.A.fn('process_bytes')
        ex.oblige(s, z3.ULE(self.w.count(s), self.T.len), fn + ': hashes no more than its input')
        ex.oblige(s, bv(ex.read(s, self.w.ctx, self.w.A.buflen, 4), 32) == 0, fn + ': the buffer is empty when blocks of the input are hashed')
        G = self.head(ex, P, M, i, None, diff)
        ex.oblige(s, self.inv(ex, P, z3.BitVecVal(0, 64)), fn + ': loop entry')
        s.mem, s.pc, s.ghost = dict(G.mem), list(G.pc), dict(G.ghost)
        rec = Rec0()
        rec['chunks'] = (i, M, diff, P)
        return rec

    def inv(self, ex, P, i):
        return z3.And(U(i, 1 << 26), z3.ULE(self.w.count(P) + 64 * i, self.T.len))

    def role(self, ex, P, k):
        return None

    def head(self, ex, P, M, i, Hi, diff):
        w = self.w
        G = Fold.head(self, ex, P, M, i, None, diff)
        G.ghost = dict(P.ghost)
        N0 = w.count(P)
        G.pc.append(self.inv(ex, P, i))
        n = simp(64 * i)
        ex.bulk(G, w.stream, N0, n, lambda rel, k: self.T.at(N0 + bv(rel)))
        ex.write(G, w.cnt, 0, 8, simp(N0 + n))
        junk = ex.region('junk', None, ex.byte_init('junk'))
        rd = ex.snapshot_reader(G, junk)
        ex.bulk(G, w.ctx, w.A.buf, 128, rd)
        w.set_total(G, N0 + n)
        hs = [ex.fresh('H%d' % k, 32) for k in range(w.A.words)]
        G.ghost['H'] = hs
        for j, x in enumerate(hs):
            ex.write(G, w.ctx, 4 * j, 4, x)
        return G

    def back_edge(self, ex, s, fr, h, rec):
        i, M, diff, P = rec['chunks']
        w = self.w
        fn = w.A.fn('process_bytes')
        N0 = w.count(P)
        j = simp(i + 1)
        ex.oblige(s, self.inv(ex, P, j), fn + ': takes no more than its input')
        ex.oblige(s, w.count(s) == N0 + 64 * j, fn + ': one block per iteration')
        wf_ctx(ex, s, w, fn)
        ex.oblige(s, bv(ex.read(s, w.ctx, w.A.buflen, 4), 32) == bv(ex.read(P, w.ctx, w.A.buflen, 4), 32), fn + ': leaves the buffer empty')
        q = ex.fresh('q')
        s2 = s.clone()
        s2.pc.append(U(q, N0 + 64 * j))
        ex.oblige(s2, w.byte(s2, w.stream, q) == self.T.at(q), fn + ': hashes the bytes of its input in order')
        # the locals are those of the head of the next iteration
        nxt = Fold.head(self, ex, P, M, j, None, diff)
        for k in M:
            if diff.get(k) is not None:
                g, v = self.val(ex, nxt, k), self.val(ex, s, k)
                if isinstance(g, Ptr):
                    ex.oblige(s, isinstance(v, Ptr) and v.r is g.r and bv(v.o) == bv(g.o), fn + ': goes on with the next block')
                else:
                    ex.oblige(s, bv(g, 8 * k[2]) == bv(v, 8 * k[2]), fn + ': goes on with the next block')


def wf_ctx(ex, s, w, what):
    """the context agrees with the ghost state"""
    A = w.A
    tot = z3.Concat(bv(ex.read(s, w.ctx, A.total + 4, 4), 32), bv(ex.read(s, w.ctx, A.total, 4), 32))
    ex.oblige(s, tot == w.count(s), what + ': total counts the bytes hashed')
    H = s.ghost.get('H', w.H)
    for k in range(A.words):
        ex.oblige(s, bv(ex.read(s, w.ctx, 4 * k, 4), 32) == H[k], what + ': the chaining value is that of the last block')


def outer_only(spec):
    """the contract for the outermost loops"""
    def f(ex, fn, h):
        for x, body in fn.loops.items():
            if x != h and h in body:
                return None
        return spec
    return f


def alg_units(A):
    units = []
    mods = [A.mod]
    tag = A.name if not A.tag else A.name + A.tag

    def unit(name, body):
        units.append(('%s/%s' % (tag, name), llvc_unit(mods, body)))

    def init(ex):
        st = State()
        w = W(ex, st, A)
        st0 = st.clone()
        ex.start(st, A.fn('init_ctx'), [Ptr(w.ctx, 0)])

        def post(s):
            for k in range(A.words):
                ex.oblige(s, bv(ex.read(s, w.ctx, 4 * k, 4), 32) == b32(IV[k]), 'init_ctx: the initial chaining value')
            for o in (A.total, A.total + 4, A.buflen):
                ex.oblige(s, bv(ex.read(s, w.ctx, o, 4), 32) == 0, 'init_ctx: nothing hashed yet')
            frame(ex, st0, s, {'ctx': None}, 'init_ctx')
        ex.split(ex.run(st), post)
    unit('init_ctx', init)

    def readc(ex):
        st = State()
        w = W(ex, st, A)
        out = ex.region('result', 4 * A.words, ex.byte_init('result'))
        st0 = st.clone()
        ex.start(st, A.fn('read_ctx'), [Ptr(w.ctx, 0), Ptr(out, 0)])

        def post(s):
            digest(ex, s, A, out, w.H, 'read_ctx')
            frame(ex, st0, s, {'result': None}, 'read_ctx')
        ex.split(ex.run(st), post)
    unit('read_ctx', readc)

    def block(own):
        def body(ex):
            st = State()
            w = W(ex, st, A)
            if own:
                n, off, inp = z3.BitVecVal(own, 64), A.buf, w.ctx
            else:
                n = ex.fresh('blocks')
                ex.assume(st, U(n, 1 << 26))
                inp = ex.region('input', None, ex.byte_init('input'))
                off = ex.fresh('start')
                ex.assume(st, U(off, 1 << 40))
            ex.lazy = A.fn('process_block')
            st0 = st.clone()
            if not own:
                ex.loop_specs[A.fn('process_block')] = outer_only(Fold(w, inp, off, n))
            ex.start(st, A.fn('process_block'), [Ptr(inp, off), simp(n * 64), Ptr(w.ctx, 0)])
            fn = A.fn('process_block')

            def post(s):
                if own:
                    spec = w.H
                    for q in range(own):
                        spec = A.block(spec, A.message(ex, st0, inp, off + 64 * q))
                    code = [bv(ex.read(s, w.ctx, 4 * k, 4), 32) for k in range(A.words)]
                    for g, c, x in zip(same(list(zip(code, spec))), code, spec):
                        ex.oblige(s, True if g else c == x, fn + ': the chaining value is that of the standard', timeout=3000)
                elif 'fold' not in s.ghost:
                    # no block at all
                    ex.oblige(s, n == 0, fn + ': processes every block')
                    for k in range(A.words):
                        ex.oblige(s, bv(ex.read(s, w.ctx, 4 * k, 4), 32) == w.H[k], fn + ': leaves the chaining value in the context')
                else:
                    i, H = s.ghost['fold']
                    ex.oblige(s, i == n, fn + ': processes every block')
                    for k in range(A.words):
                        ex.oblige(s, bv(ex.read(s, w.ctx, 4 * k, 4), 32) == H[k], fn + ': leaves the chaining value in the context')
                tot = z3.Concat(bv(ex.read(s, w.ctx, A.total + 4, 4), 32), bv(ex.read(s, w.ctx, A.total, 4), 32))
                ex.oblige(s, tot == w.N + n * 64, fn + ': counts the bytes')
                ex.oblige(s, bv(ex.read(s, w.ctx, A.buflen, 4), 32) == w.bl, fn + ': leaves the buffer alone')
                q = ex.fresh('q')
                ex.oblige(s, z3.Implies(U(q, 128), w.byte(s, w.ctx, simp(A.buf + q)) == w.byte(st0, w.ctx, simp(A.buf + q))), fn + ': leaves the buffer alone')
                frame(ex, st0, s, {'ctx': None}, fn)
            outs = ex.run(st)
            if not outs:
                ex.oblige(st, False, fn + ': returns')
            ex.split(outs, post)
        return body
    unit('process_block', block(0))
    unit('process_block/one block of the buffer', block(1))
    unit('process_block/two blocks of the buffer', block(2))

    def bytes_(ex):
        st = State()
        w = W(ex, st, A)
        w.use_block()
        fn = A.fn('process_bytes')
        n = ex.fresh('len')
        ex.assume(st, U(n, 1 << 31))
        inp = ex.region('input', None, ex.byte_init('input'))
        off = ex.fresh('start')
        ex.assume(st, U(off, 1 << 40))
        T = Logical(ex, st, w, inp, off, n)
        ex.loop_default = None
        ex.loop_specs[fn] = Chunks(w, T)
        st0 = st.clone()
        ex.start(st, fn, [Ptr(inp, off), n, Ptr(w.ctx, 0)])

        def post(s):
            N1 = w.count(s)
            bl = z3.ZeroExt(32, bv(ex.read(s, w.ctx, A.buflen, 4), 32))
            wf_ctx(ex, s, w, fn)
            ex.oblige(s, z3.And((N1 & 63) == 0, z3.ULE(bl, 64)), fn + ': hashes whole blocks and keeps at most one')
            ex.oblige(s, N1 + bl == T.len, fn + ': every byte of the input is hashed or kept')
            q = ex.fresh('q')
            s2 = s.clone()
            s2.pc.append(U(q, N1))
            ex.oblige(s2, w.byte(s2, w.stream, q) == T.at(q), fn + ': hashes the bytes of its input in order')
            s2 = s.clone()
            s2.pc.append(U(q, bl))
            ex.oblige(s2, w.byte(s2, w.ctx, simp(A.buf + q)) == T.at(N1 + q), fn + ': keeps the rest of its input in order')
            frame(ex, st0, s, {'ctx': None, 'stream': None, 'stream length': None}, fn)
        ex.split(ex.run(st), post)
    unit('process_bytes', bytes_)

    def finish(ex):
        st = State()
        w = W(ex, st, A)
        w.use_block()
        fn = A.fn('finish_ctx')
        out = ex.region('result', 4 * A.words, ex.byte_init('result'))
        T = Logical(ex, st, w)
        st0 = st.clone()
        ex.start(st, fn, [Ptr(w.ctx, 0), Ptr(out, 0)])

        def post(s):
            N2 = w.count(s)
            H = s.ghost.get('H')
            if H is None:
                ex.oblige(s, False, fn + ': hashes the padding')
                return
            wf = z3.And((N2 & 63) == 0, z3.UGE(N2, T.len + 9), U(N2, T.len + 9 + 64))
            ex.oblige(s, wf, fn + ': pads up to the next whole block that has room for the length')
            q = ex.fresh('q')
            s2 = s.clone()
            s2.pc.append(U(q, T.len))
            ex.oblige(s2, w.byte(s2, w.stream, q) == T.at(q), fn + ': hashes what was kept in the buffer')
            ex.oblige(s, w.byte(s, w.stream, T.len) == 0x80, fn + ': a one bit follows the message')
            s2 = s.clone()
            s2.pc.append(z3.And(U(T.len, q), U(q, N2 - 8)))
            ex.oblige(s2, w.byte(s2, w.stream, q) == 0, fn + ': zero bits up to the length')
            bits = simp(T.len * 8)
            for k in range(8):
                j = 7 - k if A.big else k
                ex.oblige(s, w.byte(s, w.stream, simp(N2 - 8 + k)) == z3.Extract(8 * j + 7, 8 * j, bits), fn + ': ends with the length in bits')
            digest(ex, s, A, out, H, fn)
            r = s.ret
            ex.oblige(s, isinstance(r, Ptr) and r.r is out and bv(r.o) == 0, fn + ': answers its result')
            frame(ex, st0, s, {'ctx': None, 'stream': None, 'stream length': None, 'result': None}, fn)
        ex.split(ex.run(st), post)
    unit('finish_ctx', finish)

    def buffer(ex):
        st = State()
        w = W(ex, st, A)
        fn = A.fn('buffer')
        n = ex.fresh('len')
        inp = ex.region('input', None, ex.byte_init('input'))
        off = ex.fresh('start')
        out = ex.region('result', 4 * A.words, ex.byte_init('result'))
        seen = ex.region('calls', 1, kind='ghost')
        ex.write(st, seen, 0, 1, 0)

        def process(e, s, a):
            ex.oblige(s, bv(ex.read(s, seen, 0, 1), 8) == 0, fn + ': hashes its argument once')
            ex.write(s, seen, 0, 1, 1)
            rp, op = ex.resolve_addr(s, a[0])
            ex.oblige(s, rp is inp and bv(op) == off and True, fn + ': hashes its argument')
            ex.oblige(s, bv(a[1]) == n, fn + ': hashes all of its argument')
            rc, oc = ex.resolve_addr(s, a[2])
            for k in range(A.words):
                ex.oblige(s, bv(ex.read(s, rc, simp(bv(oc) + 4 * k), 4), 32) == b32(IV[k]), fn + ': starts from the initial context')
            for o in (A.total, A.total + 4, A.buflen):
                ex.oblige(s, bv(ex.read(s, rc, simp(bv(oc) + o), 4), 32) == 0, fn + ': starts from the initial context')
            s.ghost = dict(s.ghost)
            s.ghost['ctx'] = (rc, oc)
            s.ghost['hs'] = [ex.fresh('c%d' % k, 32) for k in range(A.size // 4)]
            for k, x in enumerate(s.ghost['hs']):
                ex.write(s, rc, simp(bv(oc) + 4 * k), 4, x)
            return None

        def fin(e, s, a):
            rc, oc = ex.resolve_addr(s, a[0])
            c = s.ghost.get('ctx')
            if c is None:
                ex.oblige(s, False, fn + ': hashes its argument before it finishes')
                return a[1]
            ex.oblige(s, rc is c[0] and bv(oc) == bv(c[1]) and True, fn + ': finishes the same context')
            for k, x in enumerate(s.ghost['hs']):
                ex.oblige(s, bv(ex.read(s, rc, simp(bv(oc) + 4 * k), 4), 32) == x, fn + ': finishes the same context')
            rp, op = ex.resolve_addr(s, a[1])
            ex.oblige(s, rp is out and bv(op) == 0 and True, fn + ': puts the digest in its result')
            s.ghost = dict(s.ghost)
            s.ghost['done'] = True
            return a[1]
        ex.contracts[A.fn('process_bytes')] = process
        ex.contracts[A.fn('finish_ctx')] = fin
        ex.start(st, fn, [Ptr(inp, off), n, Ptr(out, 0)])

        def post(s):
            ex.oblige(s, bool(s.ghost.get('done')), fn + ': finishes')
            r = s.ret
            ex.oblige(s, isinstance(r, Ptr) and r.r is out, fn + ': answers its result')
        ex.split(ex.run(st), post)
    unit('buffer', buffer)
    return units


def digest(ex, s, A, out, H, what, off=0):
    for k in range(A.words):
        v = bv(ex.read(s, out, off + 4 * k, 4), 32)
        ex.oblige(s, v == (bswap(H[k]) if A.big else H[k]), what + ': the result is the chaining value in the byte order of the standard')


def main():
    s = Scratch()
    c = Check('C08')
    s.sources()
    import shutil
    from common.scratch import REPO
    d = s.path('digest')
    os.makedirs(d)
    for f in os.listdir(os.path.join(REPO, 'packages', 'digest')):
        if f.endswith(('.c', '.h')):
            shutil.copy(os.path.join(REPO, 'packages', 'digest', f), os.path.join(d, f))
    p = s.ir(os.path.join(d, 'md5.c'), extra=['-I' + d])
    md5 = Module(open(p[os.path.join(d, 'md5.c')]).read(), 'md5.c')
    p = s.ir(os.path.join(d, 'sha1.c'), extra=['-I' + d])
    sha1 = Module(open(p[os.path.join(d, 'sha1.c')]).read(), 'sha1.c')
    lib = s.ir(s.path('lib-src', 'md5.c'))
    lib = Module(open(list(lib.values())[0]).read(), 'lib-src/md5.c')
    units = []
    for name, mod, words, block, big, tag in (('md5', md5, 4, md5_block, False, ''), ('sha1', sha1, 5, sha1_block, True, ''), ('md5', lib, 4, md5_block, False, ' (lib-src)')):
        A = Alg(name, mod, words, block, big, IV)
        A.tag = tag
        units += alg_units(A)
    if os.environ.get('ONLY'):
        units = [u for u in units if os.environ['ONLY'] in u[0]]
    c.run(units)
    if os.environ.get('VERBOSE'):
        verbose(c)
    from . import d_digest
    dirs = [(d, d), (s.path('lib-src'), d)]
    return c.finish(confirm=None if os.environ.get('NODRV') else lambda f, u: d_digest.confirm(s, dirs[0]) or d_digest.confirm(s, dirs[1]))
