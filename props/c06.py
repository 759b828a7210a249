"""C06: process queues and semaphores (interp.c).

The queues are linked lists of any length among any number of processes.  The
heap is one array; every object has its own part of it.  A View gives the
pointers of the queues as functions; rank() is the (ghost) position of a
process in its queue.  The representation invariant wf() says that the pointers
spell out the sequence given by rank(); the lemma units prove that the three
list operations keep it and change the sequence as their name says, for any
process and any queue; the function units prove that the compiled code performs
exactly these operations, at an arbitrary address of the heap."""
from .vmlib import *
from . import bc as B
from .bc import set_builtins
from llvc.auto import Auto, Collector
from .c07sym import ret_width

U = z3.ULT
BODY = z3.Function('Body', B64, B64)
SLOT = z3.Function('Slot', B64, B64, B64)
RANK = z3.Function('Rank', B64, B64)
PRED = z3.Function('Pred', B64, B64)
TYPE = z3.Function('Type', B64, z3.BitVecSort(4))
LEVEL = z3.Function('Level', B64, B64)
PROC, LIST, CTX, ARR, PSR, NIL = 1, 2, 3, 4, 5, 6
O = {}


class View:
    def __init__(self, **k):
        self.__dict__.update(k)

    def but(self, **k):
        d = dict(self.__dict__)
        d.update(k)
        return View(**d)


def remove(V, p):
    n = V.nil
    L = V.ml(p)
    on = L != n
    pr, nx, fst = V.pred(p), V.next(p), V.first(L) == p
    return V.but(
        next=lambda a: z3.If(a == p, n, z3.If(z3.And(on, z3.Not(fst), a == pr), nx, V.next(a))),
        ml=lambda a: z3.If(a == p, n, V.ml(a)),
        first=lambda M: z3.If(z3.And(on, M == L, fst), nx, V.first(M)),
        last=lambda M: z3.If(z3.And(on, M == L, V.last(L) == p), z3.If(fst, n, pr), V.last(M)),
        pred=lambda a: z3.If(z3.And(on, nx != n, a == nx), pr, V.pred(a)),
        rank=lambda a: V.rank(a) - z3.If(z3.And(on, V.ml(a) == L, z3.UGT(V.rank(a), V.rank(p))), bv(1), bv(0)))


def add_first(V, L, p):
    n = V.nil
    f = V.first(L)
    return V.but(
        next=lambda a: z3.If(a == p, f, V.next(a)),
        ml=lambda a: z3.If(a == p, L, V.ml(a)),
        first=lambda M: z3.If(M == L, p, V.first(M)),
        last=lambda M: z3.If(z3.And(M == L, V.last(L) == n), p, V.last(M)),
        pred=lambda a: z3.If(z3.And(f != n, a == f), p, V.pred(a)),
        rank=lambda a: z3.If(a == p, bv(0), V.rank(a) + z3.If(V.ml(a) == L, bv(1), bv(0))))


def add_last(V, L, p):
    n = V.nil
    l = V.last(L)
    return V.but(
        next=lambda a: z3.If(a == p, n, z3.If(z3.And(l != n, a == l), p, V.next(a))),
        ml=lambda a: z3.If(a == p, L, V.ml(a)),
        first=lambda M: z3.If(z3.And(M == L, l == n), p, V.first(M)),
        last=lambda M: z3.If(M == L, p, V.last(M)),
        pred=lambda a: z3.If(z3.And(a == p, l != n), l, V.pred(a)),
        rank=lambda a: z3.If(a == p, z3.If(l == n, bv(0), V.rank(l) + 1), V.rank(a)))


def mix(c, V, W):
    k = {n: (lambda a, n=n: z3.If(c, getattr(V, n)(a), getattr(W, n)(a))) for n in ('next', 'ml', 'first', 'last', 'pred', 'rank')}
    return V.but(**k)


def wf(V, a):
    """the invariant at process a"""
    n = V.nil
    L, nx, pr = V.ml(a), V.next(a), V.pred(a)
    isp = lambda x: TYPE(x) == PROC
    return z3.Implies(isp(a), z3.And(
        z3.Implies(L == n, nx == n),
        z3.Implies(L != n, z3.And(
            TYPE(L) == LIST, U(V.rank(a), 1 << 40),
            z3.If(nx == n, V.last(L) == a, z3.And(isp(nx), V.ml(nx) == L, V.rank(nx) == V.rank(a) + 1, V.pred(nx) == a, V.last(L) != a)),
            (V.first(L) == a) == (V.rank(a) == 0),
            V.last(L) != n, z3.ULE(V.rank(a), V.rank(V.last(L))),
            z3.Implies(V.rank(a) != 0, z3.And(isp(pr), V.next(pr) == a, V.ml(pr) == L, V.rank(pr) + 1 == V.rank(a)))))))


def wfl(V, L):
    """the invariant at list L"""
    n = V.nil
    f, l = V.first(L), V.last(L)
    isp = lambda x: TYPE(x) == PROC
    return z3.Implies(TYPE(L) == LIST, z3.And(
        (f == n) == (l == n),
        z3.Implies(f != n, z3.And(isp(f), V.ml(f) == L, V.rank(f) == 0, isp(l), V.ml(l) == L, V.next(l) == n))))


def unique(V, a, b):
    n = V.nil
    return z3.Implies(z3.And(TYPE(a) == PROC, TYPE(b) == PROC, V.ml(a) != n, V.ml(a) == V.ml(b), V.rank(a) == V.rank(b)), a == b)


class Heap:
    """Objects as maps: field f of the object with OOP a is F<f>[a]; computed
    offsets are words X[(a, offset)].  Loading the body of an OOP answers BODY(a)."""
    def __init__(self, ex):
        self.ex = ex
        self.maps = {}
        self.slots = []             # computed offsets seen
        self.dyn = set()            # objects all of whose words are in X
        ex.world.init = self.world
        ex.addr_hook = self.hook
        ex.used_trusted.add('heap: distinct objects do not overlap; object pointers are only dereferenced and compared')

    def world(self, off, n):
        e = bv(off)
        c = 0
        for x in ([e] if not z3.is_app_of(e, z3.Z3_OP_BADD) else e.children()):
            if z3.is_bv_value(x):
                c = x.as_long() & 15
        if n == 8 and c == 0:
            return BODY(e)
        return z3.Function('Flags%d' % n, B64, z3.BitVecSort(8 * n))(e)

    def map(self, f):
        if f not in self.maps:
            F = z3.Function('Field%s' % f, B64, B64)
            r = self.ex.region('F%s' % f, None, kind='map')

            def init(off, n):
                if n != 8:
                    raise Unsupported('reading %d bytes of a field' % n)
                return F(bv(off))
            r.init = init
            self.maps[f] = r
        return self.maps[f]

    def loc(self, a, f, st=None):
        a = bv(a)
        f = simp(f)
        if isinstance(f, int) and f < 16:
            return self.map(f), a
        if not isinstance(f, int) or any(a.eq(d) for d in self.dyn):
            f = bv(f)
            for b, g in self.slots:
                if a.eq(b) and (f.eq(g) or st is not None and self.ex.valid(st, f == g)):
                    return self.map('X'), SLOT(a, g)
            self.slots.append((a, f))
            return self.map('X'), SLOT(a, f)
        return self.map(f), a

    def hook(self, st, e):
        parts, stack = [], [e]
        while stack:
            x = stack.pop()
            if z3.is_app_of(x, z3.Z3_OP_BADD):
                stack.extend(x.children())
            else:
                parts.append(x)
        for x in parts:
            if z3.is_app(x) and x.decl().eq(BODY):
                rest = bv(0)
                for y in parts:
                    if y is not x:
                        rest = rest + y
                a = x.arg(0)
                while z3.is_app_of(a, z3.Z3_OP_ITE):
                    a = bv(simp(a.arg(1) if self.ex.decide(st, a.arg(0)) else a.arg(2)))
                return self.loc(a, rest, st)
        return None

    def fld(self, st, a, f):
        r, k = self.loc(a, f, st)
        return bv(self.ex.read(st, r, k, 8))

    def set(self, st, a, f, v):
        r, k = self.loc(a, f, st)
        self.ex.write(st, r, k, 8, v)


class Sched(Heap):
    """symbolic heap with processes, queues and the scheduler"""
    def __init__(self, ex, st, mods):
        Heap.__init__(self, ex)
        self.mods = mods
        self.nil = bv(set_builtins(ex, st)[0])
        ex.assume(st, TYPE(self.nil) == NIL)
        self.psr = ex.fresh('processor')
        self.typed(st, self.psr, PSR)
        ex.write(st, ex.global_region('@_gst_processor_oop', st), 0, 8, self.psr)
        self.pl = self.fld(st, self.psr, O['processLists'])
        self.typed(st, self.pl, ARR)
        self.dyn.add(self.pl)
        self.n = O['NUM_PRIORITIES']
        self.set(st, self.pl, 0, ((self.n + 2) << 1) | 1)
        cls = ex.fresh('Array')
        ex.assume(st, TYPE(cls) == 7)
        self.set(st, self.pl, 8, cls)
        self.set(st, cls, O['instanceSpec'], z3.BitVecVal(0x3f, 64))
        self.active = self.fld(st, self.psr, O['activeProcess'])
        self.sw = ex.fresh('switch_to')
        ex.write(st, ex.global_region('@switch_to_process', st), 0, 8, self.sw)
        self.V = self.view(st)
        ex.contracts['_gst_check_process_state'] = lambda e, s, a: None

    def typed(self, st, a, t):
        self.ex.assume(st, TYPE(a) == t)

    def view(self, st):
        st = st.clone()
        g = lambda f: (lambda a: self.fld(st, a, f))
        return View(nil=self.nil, next=g(O['nextLink']), ml=g(O['myList']), first=g(O['firstLink']), last=g(O['lastLink']),
                    pred=lambda a: PRED(a), rank=lambda a: RANK(a))

    def proc(self, st, name):
        p = self.ex.fresh(name)
        self.typed(st, p, PROC)
        self.wf(st, p)
        return p

    def list(self, st, name):
        L = self.ex.fresh(name)
        self.typed(st, L, LIST)
        self.wfl(st, L)
        return L

    def wf(self, st, p, depth=1):
        V = self.V
        self.ex.assume(st, wf(V, p))
        self.ex.assume(st, z3.Implies(TYPE(p) == PROC, self.pri_ok(st, p)))
        if depth:
            L = V.ml(p)
            self.ex.assume(st, z3.Implies(L != self.nil, wfl(V, L)))
            for q in (V.pred(p), V.next(p)):
                self.wf(st, q, 0)

    def wfl(self, st, L):
        V = self.V
        self.ex.assume(st, wfl(V, L))
        for q in (V.first(L), V.last(L)):
            self.wf(st, q, 0)

    def pri_ok(self, st, p):
        x = self.fld(st, p, O['priority'])
        return z3.And((x & 1) == 1, to_int(x) >= 1, to_int(x) <= self.n)

    def pri(self, st, p):
        return to_int(self.fld(st, p, O['priority']))

    def level(self, st, k):
        """the queue of priority k"""
        return self.fld(st, self.pl, simp(16 + (bv(k) - 1) * 8))

    def ctx(self, st, p):
        """the suspended context of a process: nil or a context"""
        c = self.fld(st, p, O['suspendedContext'])
        self.ex.assume(st, z3.Or(c == self.nil, TYPE(c) == CTX))
        i = self.fld(st, p, O['interrupts'])
        return c

    def levels(self, st, ks):
        for k in ks:
            L = self.level(st, k)
            self.typed(st, L, LIST)
            self.ex.assume(st, LEVEL(L) == bv(k))
            self.wfl(st, L)

    def scheduled(self, st, sw=True):
        """the active process is a process; switch_to is nil or one"""
        self.typed(st, self.active, PROC)
        self.wf(st, self.active)
        if sw:
            self.ex.assume(st, z3.Or(self.sw == self.nil, TYPE(self.sw) == PROC))
            self.wf(st, self.sw)
        else:
            self.ex.assume(st, self.sw == self.nil)
        return z3.If(self.sw == self.nil, self.active, self.sw)

    def post(self, st0, s, V, what, extra=()):
        """the queues are as V says; all other words are as before, but for
        the (oop, field, value) in extra"""
        ex = self.ex
        a = z3.BitVec('any object', 64)
        s = s.clone()
        for x in (wf(self.V, a), wfl(self.V, a), wf(self.V, self.V.pred(a)), wf(self.V, self.V.next(a)), wf(self.V, self.V.last(a))):
            s.pc.append(x)
        for x in (RANK(a), ):
            s.pc.append(U(x, 1 << 40))
        isp, isl = TYPE(a) == PROC, TYPE(a) == LIST
        links = {O['nextLink']: [('the order of the processes', isp, V.next)], O['myList']: [('the queue each process is on', isp, V.ml)]}
        links.setdefault(O['firstLink'], []).append(('the first process of each queue', isl, V.first))
        links.setdefault(O['lastLink'], []).append(('the last process of each queue', isl, V.last))
        for f, r in sorted(self.maps.items(), key=str):
            now = bv(ex.read(s, r, a, 8))
            was = bv(ex.read(st0, r, a, 8))
            other = []
            for nm, c, fn in links.get(f, ()):
                ex.oblige(s, z3.Implies(c, now == fn(a)), what + ': ' + nm)
                other.append(c)
            for q, g, v in extra:
                r2, k = self.loc(q, g)
                if r2 is r:
                    ex.oblige(s, z3.Implies(a == k, now == bv(v)), what + ': the value stored')
                    other.append(a == k)
            if s.mem.get(r.name) is not st0.mem.get(r.name):
                ex.oblige(s, z3.Or(now == was, *other), what + ': nothing else changes')
            elif other:
                pass

    def frame(self, st0, s, what, allowed=()):
        al = {r.name: None for r in self.maps.values()}
        for x in allowed:
            al[x] = None
        frame(self.ex, st0, s, al, what)

    def glob(self, s, name):
        return bv(self.ex.read(s, self.ex.global_region('@' + name, s), 0, 8))

    def become(self, s, V):
        ex = self.ex
        s.ghost = dict(s.ghost)
        s.ghost['V'] = V
        for f, p, l in ((O['nextLink'], V.next, V.first), (O['myList'], V.ml, None), (O['lastLink'], None, V.last)):
            r = self.map(f)
            old = ex.snapshot_reader(s, r)

            def rd(o, n, p=p, l=l, old=old):
                o = bv(o)
                v = bv(old(o, n))
                if p is not None:
                    v = z3.If(TYPE(o) == PROC, p(o), v)
                if l is not None:
                    v = z3.If(TYPE(o) == LIST, l(o), v)
                return v
            ex.bulk(s, r, 0, 1 << 63, rd)

    # ---- contract of remove_process_from_list at its call sites
    def use_remove(self, *more):
        """The link functions as operations on the queues.  Each is proved in
        the unit of its name, for queues that satisfy the invariant; the lemma
        units prove that every operation keeps it."""
        ex = self.ex

        def cur(s):
            return s.ghost.get('V', self.V)

        become = self.become

        def isproc(s, p, fn):
            ex.oblige(s, TYPE(p) == PROC, fn + ' is given a process')

        def islist(s, L, fn):
            ex.oblige(s, TYPE(L) == LIST, fn + ' is given a queue')

        def rm(e, s, a):
            p = bv(a[0])
            if ex.decide(s, p == self.nil):
                return None
            isproc(s, p, 'remove_process_from_list')
            become(s, remove(cur(s), p))

        def add(fn, op):
            def h(e, s, a):
                L, p = bv(a[0]), bv(a[1])
                islist(s, L, fn)
                isproc(s, p, fn)
                become(s, op(remove(cur(s), p), L, p))
            return h

        def rf(e, s, a):
            L = bv(a[0])
            V = cur(s)
            islist(s, L, 'remove_first_link')
            p = simp(V.first(L))
            ex.oblige(s, bv(p) != self.nil, 'remove_first_link is given a queue with a process')
            ex.assume(s, wfl(V, L))
            become(s, remove(V, bv(p)))
            return p
        hs = {'remove_process_from_list': rm, 'add_first_link': add('add_first_link', add_first), 'add_last_link': add('add_last_link', add_last), 'remove_first_link': rf}
        for k in ('remove_process_from_list',) + more:
            ex.contracts[k] = hs[k]
            ex.used_trusted.add('contract %s (proved in unit %s)' % (k, k))

    def use_links(self):
        self.use_remove('add_first_link', 'add_last_link', 'remove_first_link')

    def use_pick(self):
        """highest_priority_process: the first ready process of the highest
        priority leaves its queue (None when nothing else is ready); when the
        running process came first it goes to the end of its queue."""
        ex = self.ex

        def hp(e, s, a):
            V = s.ghost.get('V', self.V)
            r, rot = ex.fresh('pick'), ex.fresh('rotated', 1)
            W = mix(rot, add_last(remove(V, self.active), V.ml(self.active), self.active), V)
            W = mix(r != self.nil, remove(W, r), W)
            ex.assume(s, z3.Or(r == self.nil, TYPE(r) == PROC))
            ex.assume(s, z3.Implies(r != self.nil, z3.And(self.pri_ok(s, r), TYPE(self.level(s, self.pri(s, r))) == LIST)))
            ex.assume(s, z3.Implies(rot, z3.And(V.ml(self.active) != self.nil, V.first(V.ml(self.active)) == self.active)))
            ex.assume(s, z3.Implies(r != self.nil, z3.And(V.ml(r) != self.nil, r != self.active)))
            self.become(s, W)
            s.ghost['pick'] = s.ghost.get('pick', ()) + ((V, r, W), )
            return r
        ex.contracts['highest_priority_process'] = hp
        ex.used_trusted.add('contract highest_priority_process (proved in unit highest_priority_process)')


class ListLoop(Auto):
    """Loop along a queue: the changed locals keep, where it is inductive, being
    a process of the queue of p that comes before p."""
    def __init__(self, S, p):
        Auto.__init__(self)
        self.S, self.p = S, p

    def enter(self, ex, s, fr, h):
        S = self.S
        P = s.clone()
        depth = len(P.frames)
        M, logs = {}, set()
        for rnd in range(4):
            G = self.havoc(ex, P, M)[0]
            self.facts(ex, G, M, None)
            Bs = self.explore(ex, G, h)
            if not self.changed(ex, G, Bs, depth, M, logs):
                break
        if logs:
            raise Unsupported('the loop along a queue writes to it')
        # houdini over the candidates
        G, vals = self.havoc(ex, P, M)
        cands = list(self.cands(M))
        ok = [c for c in cands if ex.valid(P, zb(self.inst(ex, P, c)))]
        while True:
            G = self.havoc(ex, P, M)[0]
            for c in ok:
                G.pc.append(zb(self.inst(ex, G, c)))
            self.know(ex, G, M)
            Bs = self.explore(ex, G, h)
            keep = [c for c in ok if all(ex.valid(b, zb(self.inst(ex, b, c))) for b in Bs)]
            if len(keep) == len(ok):
                break
            ok = keep
        s.mem = dict(G.mem)
        s.pc = list(G.pc)
        return Rec0()

    def back_edge(self, ex, s, fr, h, rec):
        return

    def havoc(self, ex, P, M):
        G = P.clone()
        for k in M:
            rn, o, n = k
            v = ex.read(P, ex.regions[rn], o, n) if o in getattr(P.mem.get(rn), 'd', {}) else None
            x = ex.fresh('loop', 8 * n)
            if v is not None and is_z(v) and z3.is_app(simp(v)) and simp(v).decl().eq(BODY):
                x = BODY(ex.fresh('loop'))
            ex.write(G, ex.regions[rn], o, n, x)
        return G, None

    def facts(self, ex, G, M, _):
        return

    def oopval(self, ex, s, k):
        """the process a local names, directly or by its body"""
        rn, o, n = k
        v = simp(bv(ex.read(s, ex.regions[rn], o, n)))
        if z3.is_app(v) and v.decl().eq(BODY):
            return v.arg(0)
        return bv(v)

    def cands(self, M):
        ks = [k for k in M if k[2] == 8]
        for k in ks:
            yield ('in', k)
        for k in ks:
            for j in ks:
                if k < j:
                    yield ('same', k, j)

    def inst(self, ex, s, c):
        S = self.S
        V = S.V
        if c[0] == 'same':
            return self.oopval(ex, s, c[1]) == self.oopval(ex, s, c[2])
        x = self.oopval(ex, s, c[1])
        return z3.Implies(wf(V, x), z3.And(TYPE(x) == PROC, V.ml(x) == V.ml(self.p), U(V.rank(x), V.rank(self.p))))

    def know(self, ex, G, M):
        for k in M:
            if k[2] == 8:
                x = self.oopval(ex, G, k)
                for f in (wf(self.S.V, x), wf(self.S.V, self.S.V.next(x)), unique(self.S.V, self.S.V.next(x), self.p)):
                    G.pc.append(f)


class Rec0(dict):
    pass


def lemma_units(mods):
    units = []

    def lemma(name, op):
        def body(ex):
            st = State()
            S = Sched(ex, st, mods)
            V = S.V
            p, L = ex.fresh('p'), ex.fresh('L')
            S.typed(st, p, PROC)
            S.typed(st, L, LIST)
            a, b, M = ex.fresh('a'), ex.fresh('b'), ex.fresh('M')
            if op is not remove:
                st.pc.append(V.ml(p) == S.nil)
            W = op(V, p) if op is remove else op(V, L, p)
            ks = [p, a, b, V.next(a), V.pred(a), V.next(p), V.pred(p), V.first(L), V.last(L), V.first(M), V.last(M), V.pred(V.last(M)), V.next(V.next(p)),
                  V.next(b), V.pred(b), V.last(V.ml(p)), V.last(V.ml(a)), V.pred(V.pred(a))]
            for x in ks:
                st.pc.append(wf(V, x))
            for x in (L, M, V.ml(p), V.ml(a), V.ml(b)):
                st.pc.append(wfl(V, x))
            us = [a, b, p, V.next(a), V.pred(a), V.pred(p), V.last(V.ml(p)), V.last(V.ml(a)), V.last(L)]
            for i, x in enumerate(us):
                for y in us[:i]:
                    st.pc.append(unique(V, x, y))
            for x in (V.rank(a), V.rank(p), V.rank(V.last(L))):
                st.pc.append(U(x, (1 << 40) - 8))
            ex.oblige(st, wf(W, a), name + ': keeps the links of every process', timeout=120000)
            ex.oblige(st, wfl(W, M), name + ': keeps the ends of every queue', timeout=120000)
            ex.oblige(st, unique(W, a, b), name + ': every process has its own place', timeout=120000)
            ex.oblige(st, z3.Implies(z3.And(a != p, b != p, TYPE(a) == PROC, TYPE(b) == PROC, V.ml(a) == V.ml(b), V.ml(a) != S.nil, U(V.rank(a), V.rank(b))),
                                     z3.And(U(W.rank(a), W.rank(b)), W.ml(a) == V.ml(a), W.ml(b) == V.ml(b))), name + ': the other processes keep their queue and their order')
            if op is remove:
                ex.oblige(st, W.ml(p) == S.nil, name + ': the process is on no queue')
            else:
                ex.oblige(st, z3.Implies(z3.And(TYPE(a) == PROC, a != p, V.ml(a) == L), U(W.rank(p), W.rank(a)) if op is add_first else U(W.rank(a), W.rank(p))),
                          name + ': the process comes ' + ('first' if op is add_first else 'last'))
                ex.oblige(st, W.ml(p) == L, name + ': the process is on the queue')
        units.append(('lemma/' + name, llvc_unit(mods, body)))
    lemma('remove', remove)
    lemma('add first', add_first)
    lemma('add last', add_last)
    return units


def link_units(mods):
    units = []

    def unit(name, f):
        units.append((name, llvc_unit(mods, f)))

    def removal(case):
        def body(ex):
            st = State()
            S = Sched(ex, st, mods)
            V = S.V
            if case == 'nil':
                p = S.nil
            else:
                p = S.proc(st, 'p')
                ex.assume(st, (V.ml(p) == S.nil) if case == 'free' else (V.ml(p) != S.nil))
                ex.loop_default = ListLoop(S, p)
            st0 = st.clone()
            ex.start(st, 'remove_process_from_list', [p])

            def post(s):
                S.post(st0, s, V if case == 'nil' else remove(V, p), 'remove_process_from_list')
                S.frame(st0, s, 'remove_process_from_list')
            outs = ex.run(st)
            if not outs:
                ex.oblige(st, False, 'remove_process_from_list: returns')
            ex.split(outs, post)
        return body
    for c in ('nil', 'free', 'queued'):
        unit('remove_process_from_list/' + c, removal(c))

    def adding(fn, op):
        def body(ex):
            st = State()
            S = Sched(ex, st, mods)
            S.use_remove()
            L, p = S.list(st, 'L'), S.proc(st, 'p')
            st0 = st.clone()
            ex.start(st, fn, [L, p])

            def post(s):
                S.post(st0, s, op(remove(S.V, p), L, p), fn)
                S.frame(st0, s, fn)
            outs = ex.run(st)
            ex.split(outs, post)
        return body
    unit('add_first_link', adding('add_first_link', add_first))
    unit('add_last_link', adding('add_last_link', add_last))

    def first(ex):
        st = State()
        S = Sched(ex, st, mods)
        L = S.list(st, 'L')
        p = S.V.first(L)
        ex.assume(st, p != S.nil)
        st0 = st.clone()
        ex.start(st, 'remove_first_link', [L])

        def post(s):
            ex.oblige(s, bv(s.ret) == p, 'remove_first_link: answers the first process')
            S.post(st0, s, remove(S.V, p), 'remove_first_link')
            S.frame(st0, s, 'remove_first_link')
        ex.split(ex.run(st), post)
    unit('remove_first_link', first)
    return units


def spec_add(S, D, V, L, p, op):
    """the process leaves its queue and joins L"""
    return op(remove(V, p), L, p)


def spec_activate(S, D, V, p, act, lvl):
    """-> (V, switch_to) ; act: who runs or is about to"""
    if D(p == S.nil):
        return V, None
    if not D(p == act):
        V = add_first(remove(V, p), lvl(p), p)
    return V, p


def spec_pick(S, D, V, sched, st0):
    """the first ready process other than the running one, of the highest
    priority that has one; it leaves its queue.  When the running process is
    the first of the queue it goes to its end."""
    for k in range(S.n, 0, -1):
        L = S.level(st0, k)
        f = V.first(L)
        if D(f == S.nil):
            continue
        if D(f == sched):
            n2 = V.next(sched)
            V = add_last(remove(V, sched), L, sched)
            if D(n2 == S.nil):
                continue
            return n2, remove(V, n2)
        return f, remove(V, f)
    return S.nil, V


REGS = ('@switch_to_process', '@dispatch_vec')


def sched_units(mods):
    units = []

    def unit(name, fn, setup, spec, ret=None, extra=None, regs=REGS, levels=False, loop=None):
        """setup(S, st) -> args; spec(S, D, st0, args, s) -> V, dict of expected globals"""
        def body(ex):
            st = State()
            S = Sched(ex, st, mods)
            S.use_links()
            if levels:
                S.levels(st, range(1, S.n + 1))
            args = setup(S, st)
            st0 = S.entry = st.clone()
            if loop:
                ex.loop_specs[fn] = loop(S, args)
            ex.start(st, fn, list(args))

            def post(s):
                D = lambda c: ex.decide(s, c)
                r = spec(S, D, st0, args, s)
                V, want = r[0], r[1]
                ex_ = r[2] if len(r) > 2 else ()
                if 'ret' in want:
                    w = want['ret']
                    got = bv(s.ret, 64) if isinstance(w, z3.BitVecRef) else None
                    if got is None:
                        n = ret_width(ex, fn)
                        ex.oblige(s, (bv(s.ret, n) != 0) == (zb(w) if not isinstance(w, bool) else z3.BoolVal(w)), fn + ': answers what it should')
                    else:
                        ex.oblige(s, got == w, fn + ': answers the right object')
                if 'switch' in want and want['switch'] is not None:
                    ex.oblige(s, S.glob(s, 'switch_to_process') == want['switch'], fn + ': who runs next')
                S.post(st0, s, V, fn, extra=ex_)
                S.frame(st0, s, fn, regs)
            outs = ex.run(st)
            if not outs:
                ex.oblige(st, False, fn + ': returns')
            ex.split(outs, post)
        units.append((name, llvc_unit(mods, body)))

    # ---- reading
    def s1(S, st):
        S.act = S.scheduled(st)
        return []
    unit('get_active_process', 'get_active_process', s1, lambda S, D, st0, a, s: (S.V, {'ret': S.act}))
    unit('get_scheduled_process', 'get_scheduled_process', s1, lambda S, D, st0, a, s: (S.V, {'ret': S.active}))
    unit('is_empty', 'is_empty', lambda S, st: [S.list(st, 'L')], lambda S, D, st0, a, s: (S.V, {'ret': S.V.first(a[0]) == S.nil}))
    unit('is_process_terminating', 'is_process_terminating', lambda S, st: [S.proc(st, 'p')],
         lambda S, D, st0, a, s: (S.V, {'ret': S.fld(st0, a[0], O['suspendedContext']) == S.nil}))
    unit('is_process_ready', 'is_process_ready', lambda S, st: [S.proc(st, 'p')],
         lambda S, D, st0, a, s: (S.V, {'ret': S.V.ml(a[0]) == S.level(st0, S.pri(st0, a[0]))}))

    def lvl(S, st0):
        return lambda p: S.level(st0, S.pri(st0, p))

    def one(S, st):
        p = S.proc(st, 'p')
        L = S.level(st, S.pri(st, p))
        S.typed(st, L, LIST)
        S.wfl(st, L)
        return [p]
    unit('sleep_process', 'sleep_process', one, lambda S, D, st0, a, s: (spec_add(S, D, S.V, lvl(S, st0)(a[0]), a[0], add_last), {}))

    def act1(S, st):
        S.act = S.scheduled(st)
        return one(S, st)

    def spec_act(S, D, st0, a, s):
        V, sw = spec_activate(S, D, S.V, a[0], S.act, lvl(S, st0))
        return V, {'switch': sw, 'ret': a[0]}
    unit('activate_process', 'activate_process', act1, spec_act)
    unit('activate_process/nil', 'activate_process', lambda S, st: (s1(S, st), [S.nil])[1], lambda S, D, st0, a, s: (S.V, {'ret': a[0], 'switch': S.sw}))

    # ---- resuming
    def spec_resume(S, D, st0, V, p, force, act):
        """-> V, switch or None, answer"""
        if D(p == act):
            V = remove(V, p)
        elif D(S.pri(st0, p) >= S.pri(st0, act)):
            force = True
        if D(S.fld(st0, p, O['suspendedContext']) == S.nil):
            return V, None, False
        if force:
            if not D(V.ml(act) == S.nil):
                V = add_last(remove(V, act), lvl(S, st0)(act), act)
            V, sw = spec_activate(S, D, V, p, act, lvl(S, st0))
            return V, sw, True
        return add_first(remove(V, p), lvl(S, st0)(p), p), None, True

    def resume(force, how):
        def setup(S, st):
            ex = S.ex
            act = S.act = z3.simplify(S.active if how == 'running' else S.sw)
            S.scheduled(st)
            ex.assume(st, (S.sw == S.nil) if how == 'running' else (S.sw != S.nil))
            p = one(S, st)[0]
            if force:
                ex.assume(st, p != act)
            ex.assume(st, p != S.nil)
            L = S.level(st, S.pri(st, act))
            S.typed(st, L, LIST)
            S.wfl(st, L)
            S.wf(st, S.V.pred(S.V.pred(p)), 0)
            S.ctx(st, p)
            return [p, force]

        def spec(S, D, st0, a, s):
            V, sw, r = spec_resume(S, D, st0, S.V, a[0], bool(force), S.act)
            return V, {'switch': sw if sw is not None else S.sw, 'ret': r}
        return setup, spec
    for force in (0, 1):
        for how in ('running', 'switching'):
            a, b = resume(force, how)
            unit('resume_process/%s/%s' % ('always' if force else 'by priority', how), 'resume_process', a, b)

    # ---- choosing
    def pick(S, st):
        S.scheduled(st, sw=False)
        return []

    def spec_hp(S, D, st0, a, s):
        r, V = spec_pick(S, D, S.V, S.active, st0)
        return V, {'ret': r}
    unit('highest_priority_process', 'highest_priority_process', pick, spec_hp, levels=True)

    # ---- yielding
    def picked(S, s, fn, V0):
        """the one choice made on the way, which was made from the queues V0"""
        ex = S.ex
        ps = s.ghost.get('pick', ())
        if len(ps) != 1:
            ex.oblige(s, False, fn + ': chooses the next process once')
            return S.nil, V0
        V, r, W = ps[0]
        a = z3.BitVec('any object', 64)
        for nm in ('next', 'ml'):
            ex.oblige(s, z3.Implies(TYPE(a) == PROC, getattr(V, nm)(a) == getattr(V0, nm)(a)), fn + ': chooses from the right queues')
        for nm in ('first', 'last'):
            ex.oblige(s, z3.Implies(TYPE(a) == LIST, getattr(V, nm)(a) == getattr(V0, nm)(a)), fn + ': chooses from the right queues')
        return r, W

    def ready(S, D, st0, V, p):
        return D(V.ml(p) == S.level(st0, S.pri(st0, p)))

    def spec_next(S, D, st0, s, fn, V):
        """-> V, process or nil, further changes"""
        r, W = picked(S, s, fn, V)
        if not D(r == S.nil):
            return W, r, ()
        if ready(S, D, st0, W, S.active):
            return W, S.nil, ()
        return W, S.nil, ((S.psr, O['activeProcess'], S.nil), )

    def with_act(S, st):
        S.act = S.scheduled(st)
        S.use_pick()
        for x in (S.active, S.sw):
            S.ex.assume(st, z3.Implies(TYPE(x) == PROC, TYPE(S.level(st, S.pri(st, x))) == LIST))

    def nx(S, st):
        with_act(S, st)
        return []

    def spec_nx(S, D, st0, a, s):
        V, r, more = spec_next(S, D, st0, s, 'next_scheduled_process', S.V)
        return V, {'ret': r}, more
    unit('next_scheduled_process', 'next_scheduled_process', nx, spec_nx)

    def lev(S, st, ps):
        for x in ps:
            L = S.level(st, S.pri(st, x))
            S.ex.assume(st, z3.Implies(TYPE(x) == PROC, TYPE(L) == LIST))

    def spec_yield(S, D, st0, a, s):
        fn = 'active_process_yield'
        r, V = picked(S, s, fn, S.V)
        lv = lvl(S, st0)
        if ready(S, D, st0, V, S.act):
            V = add_last(remove(V, S.act), lv(S.act), S.act)
        t = S.act if D(r == S.nil) else r
        V, sw = spec_activate(S, D, V, t, S.act, lv)
        return V, {'switch': sw}
    unit('active_process_yield', 'active_process_yield', nx, spec_yield)

    def after_next(S, D, st0, V, r, more):
        """activate the process chosen, if any"""
        act = S.act if not more or not D(S.sw == S.nil) else S.nil
        return spec_activate(S, D, V, r, act, lvl(S, st0))

    def spec_susp(fn, more0=()):
        def f(S, D, st0, a, s):
            p = a[0]
            V = remove(S.V, p)
            more0 = ((p, O['suspendedContext'], S.nil), ) if fn == '_gst_terminate_process' else ()
            if not D(p == S.active):
                return V, {'switch': S.sw}, more0
            V, r, more = spec_next(S, D, st0, s, fn, V)
            V, sw = after_next(S, D, st0, V, r, more)
            return V, {'switch': S.sw if sw is None else sw}, more0 + more
        return f

    def susp(S, st):
        with_act(S, st)
        p = S.proc(st, 'p')
        return [p]
    for fn in ('suspend_process', '_gst_terminate_process'):
        unit(fn, fn, susp, spec_susp(fn))

    # ---- semaphores
    def signals(S, st, sem):
        x = S.fld(st, sem, O['signals'])
        S.ex.assume(st, z3.And((x & 1) == 1, to_int(x) > -(1 << 61), to_int(x) < (1 << 61)))
        return x

    def sig_setup(incr, how):
        def setup(S, st):
            ex = S.ex
            S.act = z3.simplify(S.active if how == 'running' else S.sw)
            S.scheduled(st)
            ex.assume(st, (S.sw == S.nil) if how == 'running' else (S.sw != S.nil))
            sem = S.list(st, 'sem')
            signals(S, st, sem)
            p = z3.simplify(S.V.first(sem))
            c = S.ctx(st, p)
            top = S.fld(st, c, O['spOffset'])
            ex.assume(st, z3.Implies(TYPE(c) == CTX, z3.And((top & 1) == 1, to_int(top) >= -1, to_int(top) < (1 << 30))))
            S.wf(st, p)
            lev(S, st, (p, S.act))
            return [sem, incr]
        return setup

    def sig_dead(S, D, st0, a, s, fn):
        """after a signal found a terminated process"""
        sem = a[0]
        p = z3.simplify(S.V.first(sem))
        S.ex.oblige(s, p != S.nil, fn + ': only a waiting process is taken from the queue')
        S.ex.oblige(s, S.fld(st0, p, O['suspendedContext']) == S.nil, fn + ': only a terminated process is passed over')
        S.ex.oblige(s, S.glob(s, 'switch_to_process') == S.sw, fn + ': a terminated process is not activated')
        S.post(st0, s, remove(S.V, p), fn + ': a terminated process')
        S.frame(st0, s, fn, REGS)

    def spec_sig(S, D, st0, a, s):
        fn = '_gst_sync_signal'
        sem, incr = a
        p = z3.simplify(S.V.first(sem))
        if D(p == S.nil):
            n = S.fld(st0, sem, O['signals'])
            return S.V, {'ret': False, 'switch': S.sw}, (((sem, O['signals'], n + 2), ) if incr else ())
        V, sw, r = spec_resume(S, D, st0, remove(S.V, p), p, False, S.act)
        c = S.fld(st0, p, O['suspendedContext'])
        top = S.fld(st0, c, O['spOffset'])
        slot = simp(O['contextStack'] + bv(to_int(top)) * 8)
        S.ex.oblige(s, z3.BoolVal(bool(r)), fn + ': resumes a process that was not terminated')
        return V, {'ret': True, 'switch': S.sw if sw is None else sw}, ((c, slot, sem), )

    class Again:
        """every round starts from some well-formed queues, as the first one does"""
        def __init__(self, S, args):
            self.S, self.args, self.n = S, args, 0

        def enter(self, ex, s, fr, h):
            self.st0 = s.clone()
            return Rec0()

        def back_edge(self, ex, s, fr, h, rec):
            self.n += 1
            sig_dead(self.S, lambda c: ex.decide(s, c), self.S.entry, self.args, s, '_gst_sync_signal')
    for incr in (0, 1):
        for how in ('running', 'switching'):
            unit('_gst_sync_signal/%s/%s' % ('count' if incr else 'do not count', how), '_gst_sync_signal', sig_setup(incr, how), spec_sig, loop=Again)

    def wait_setup(who):
        def setup(S, st):
            ex = S.ex
            with_act(S, st)
            S.stack, S.sp = setup_stack(ex, st, concrete=True)
            sem = S.list(st, 'sem')
            signals(S, st, sem)
            S.new = ex.fresh('environment')

            def env(e, s, a):
                s.ghost = dict(s.ghost)
                s.ghost['env'] = s.ghost.get('env', 0) + 1
                ex.assume(s, z3.And(TYPE(S.new) == PROC, S.new != S.nil, S.pri_ok(s, S.new), TYPE(S.level(s, S.pri(s, S.new))) == LIST))
                return S.new
            ex.contracts['_gst_prepare_execution_environment'] = env
            ex.contracts['snv_printf'] = lambda e, s, a: z3.BitVecVal(0, 32)
            ex.used_trusted.add('_gst_prepare_execution_environment answers a new process and leaves the queues alone; it is only used when nothing can run')
            if who == 'nil':
                S.who = z3.simplify(S.act)
                return [sem, S.nil]
            S.who = S.proc(st, 'p')
            ex.assume(st, S.who != S.nil)
            return [sem, S.who]
        return setup

    def spec_wait(fn):
        def f(S, D, st0, a, s):
            ex = S.ex
            sem, p = a[0], S.who
            n = S.fld(st0, sem, O['signals'])
            top = bv(ex.read(s, S.stack, S.sp, 8))
            envs = s.ghost.get('env', 0)
            if D(to_int(n) > 0):
                ex.oblige(s, z3.BoolVal(not s.ghost.get('pick') and not envs), fn + ': a pending signal does not suspend the caller')
                ex.oblige(s, top == bv(ex.read(st0, S.stack, S.sp, 8)), fn + ': the stack is unchanged')
                return S.V, {'switch': S.sw}, ((sem, O['signals'], n - 2), )
            ex.oblige(s, top == S.nil, fn + ': the wait answers nil until it is signalled')
            V = add_last(remove(S.V, p), sem, p)
            if not D(p == S.act):
                ex.oblige(s, z3.BoolVal(not s.ghost.get('pick') and not envs), fn + ': another process is suspended without rescheduling')
                return V, {'switch': S.sw}
            V, r, more = spec_next(S, D, st0, s, fn, V)
            act = S.nil if more and D(S.sw == S.nil) else S.act
            if D(r == S.nil):
                ex.oblige(s, z3.BoolVal(envs == 1), fn + ': when nothing can run a new environment is made')
                r = S.new
            else:
                ex.oblige(s, z3.BoolVal(not envs), fn + ': a new environment is only made when nothing can run')
            V, sw = spec_activate(S, D, V, r, act, lvl(S, st0))
            return V, {'switch': S.sw if sw is None else sw}, more
        return f
    R2 = REGS + ('stack', )
    unit('sync_wait_process/the active process', 'sync_wait_process', wait_setup('nil'), spec_wait('sync_wait_process'), regs=R2)
    unit('sync_wait_process/any process', 'sync_wait_process', wait_setup('p'), spec_wait('sync_wait_process'), regs=R2)
    unit('_gst_sync_wait', '_gst_sync_wait', lambda S, st: wait_setup('nil')(S, st)[:1], spec_wait('_gst_sync_wait'), regs=R2)

    def wr(S, st):
        S.act = S.scheduled(st)
        L = S.V.ml(S.active)
        for k in range(1, S.n + 1):
            # a ready process is on the queue of its priority
            S.ex.assume(st, z3.Implies(L == S.level(st, k), S.pri(st, S.active) == k))
        return []

    def spec_wr(S, D, st0, a, s):
        """would anything else run if the running process yielded?  (answers
        true when nothing would)"""
        if not D(S.sw == S.nil):
            return S.V, {'ret': False}
        pa = S.pri(st0, S.active)
        other = z3.BoolVal(False)
        for k in range(1, S.n + 1):
            L = S.level(st0, k)
            f = S.V.first(L)
            alone = z3.And(f == S.active, S.V.last(L) == f)
            other = z3.Or(other, z3.And(z3.BitVecVal(k, 64) >= pa, f != S.nil, z3.Not(alone)))
        return S.V, {'ret': z3.Not(other)}
    unit('would_reschedule_process', 'would_reschedule_process', wr, spec_wr, levels=True)
    return units


def main():
    s = Scratch()
    c = Check('C06')
    mods = load(s, 'interp.c', 'oop.c')
    B.BUILTIN_OFF[:] = header_consts(s, ['NIL_OOP_INDEX', 'TRUE_OOP_INDEX', 'FALSE_OOP_INDEX'])
    fl = {'nextLink': 'process', 'myList': 'process', 'priority': 'process', 'suspendedContext': 'process', 'interrupts': 'process', 'firstLink': 'semaphore', 'lastLink': 'semaphore', 'signals': 'semaphore',
          'processLists': 'processor_scheduler', 'activeProcess': 'processor_scheduler', 'spOffset': 'method_context', 'contextStack': 'method_context', 'instanceSpec': 'class'}
    O.update(zip(fl, header_consts(s, ['offsetof(struct gst_%s, %s)' % (v, k) for k, v in fl.items()])))
    O['NUM_PRIORITIES'] = header_consts(s, ['NUM_PRIORITIES'])[0]
    units = sched_units(mods) + lemma_units(mods) + link_units(mods)
    units.sort(key=lambda u: not u[0].startswith(("highest", "would_res")))
    import os
    if os.environ.get('ONLY'):
        units = [u for u in units if os.environ['ONLY'] in u[0]]
    c.run(units)
    if os.environ.get('VERBOSE'):
        verbose(c)
    from . import d_sched
    return c.finish(confirm=None if os.environ.get('NODRV') else lambda f, u: d_sched.confirm(s))
