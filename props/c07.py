"""C07: symbols are unique and VM dictionaries find what was stored."""
from .vmlib import *
from . import bc as B
from .bc import set_builtins
from llvc.auto import Auto

U = z3.ULT


class Dict:
    """A VM dictionary: N = 2^k slots after F fixed fields; slot = association
    (es=1) or key/value pair (es=2).

    Representation invariant (instantiated where needed):
      probe(q, d)  an occupied slot q is reached by probing linearly from its
                   key's home slot: for every d below the distance the slot
                   home+d is occupied by another key (so keys are unique too)
      some slot e is empty"""
    def __init__(self, ex, st, mods, name='dict', es=1, F=None, maxk=26):
        self.ex = ex
        self.es = es
        self.mods = mods
        N = self.N = ex.fresh(name + '.N')
        if F is None:
            F = ex.fresh(name + '.fixed')
            ex.assume(st, z3.And(F >= 1, F <= 8))
        self.F = F
        cls = GClass(ex, st, name + '.cls', z3.Concat(z3.Extract(50, 0, bv(F)), z3.BitVecVal(0x3f, 13)))
        words = simp(2 + bv(F) + N * es)
        ex.small(words, 40)
        ex.small(F, 8)
        self.o = Obj(ex, st, name, words=words, cls=cls, body='words')
        ex.assume(st, z3.And((N & (N - 1)) == 0, z3.UGE(N, 8), z3.ULE(N, 1 << maxk)))
        self.m = N - 1
        self.e = ex.fresh(name + '.empty')
        ex.assume(st, U(self.e, N))
        self.nil = B.builtin_oop(ex, st, '_gst_nil_oop')
        ex.assume(st, self.o.oop.addr() != self.nil)
        self.maxk = maxk
        ex.assume(st, self.slot(st, self.e) == self.nil)

    def off(self, q):
        return simp(16 + bv(self.F) * 8 + bv(q) * (8 * self.es))

    def slot(self, st, q):
        return bv(self.ex.read(st, self.o.reg(st), self.off(q), 8))

    def value(self, st, q):
        return bv(self.ex.read(st, self.o.reg(st), simp(bv(self.off(q)) + 8), 8))

    def tally(self, st):
        return bv(self.ex.read(st, self.o.reg(st), 16, 8))

    def set_tally(self, st):
        """the tally is a SmallInteger, the number of occupied slots"""
        ex = self.ex
        t = ex.fresh(self.o.name + '.tally')
        ex.assume(st, U(t, self.N))
        ex.small(t, 40)
        ex.write(st, self.o.reg(st), 16, 8, z3.Concat(z3.Extract(62, 0, t), z3.BitVecVal(1, 1)))
        self.t0 = t

    def regrow(self, st):
        """contract of the growing functions: the object moved and has more
        slots; the invariant holds"""
        ex = self.ex
        old = ex.read(st, self.o.oop_r, 0, 8)
        N = ex.fresh(self.o.name + '.N2')
        ex.assume(st, z3.And((N & (N - 1)) == 0, z3.UGT(N, self.N), z3.ULE(N, 1 << (self.maxk + 1))))
        self.N, self.m = N, N - 1
        words = simp(2 + bv(self.F) + N * self.es)
        ex.small(words, 40)
        r = ex.region(old.r.name + '.grown', simp(words * 8), ex.word_init(self.o.name + '.grown', 8))
        ex.write(st, self.o.oop_r, 0, 8, Ptr(r, 0))
        ex.write(st, r, 0, 8, z3.Concat(z3.Extract(62, 0, words), z3.BitVecVal(1, 1)))
        ex.write(st, r, 8, 8, self.o.cls.oop)
        st.ghost = dict(st.ghost)
        st.ghost['stale'] = frozenset(st.ghost.get('stale', ())) | {old.r.name}
        self.e = ex.fresh(self.o.name + '.empty2')
        ex.assume(st, z3.And(U(self.e, N), self.slot(st, self.e) == self.nil))
        return Ptr(r, 0)

    def keyof(self, st, a):
        """key of what a slot holds"""
        if self.es == 2:
            return a
        return assoc_key(self.ex, st, a)

    def occupied(self, st, q):
        return self.slot(st, q) != self.nil

    def key(self, st, q):
        return self.keyof(st, self.slot(st, q))

    def home(self, st, k):
        return home(self.ex, st, self.mods, k)

    def dist(self, st, q, k=None):
        k = self.key(st, q) if k is None else k
        return (bv(q) - self.home(st, k)) & self.m

    def at(self, h, d):
        return (h + bv(d)) & self.m

    def distance(self, st, h, q):
        """The distance of slot q < N from the home slot: the x < N with
        (home + x) mod N = q (it exists and is unique: unit lemma/mask)"""
        x = self.ex.fresh('distance')
        self.ex.assume(st, z3.And(U(x, self.N), self.walk(h, x) == q))
        return x

    def walk(self, h, j):
        """(home + j) modulo the capacity; the definition is unfolded only
        where a loop step needs it (walk_def)"""
        return WALK(bv(h), bv(j))

    def walk_def(self, h, j):
        return WALK(bv(h), bv(j)) == ((bv(h) + bv(j)) & self.m)

    def probe(self, st, q, d, dist=None):
        """representation invariant at slot q, distance d"""
        q, d = bv(q), bv(d)
        k = self.key(st, q)
        p = self.walk(self.home(st, k), d)
        return z3.Implies(z3.And(U(q, self.N), self.occupied(st, q), U(d, self.dist(st, q) if dist is None else dist)),
                          z3.And(self.occupied(st, p), self.key(st, p) != k))


def assoc_key(ex, st, a):
    return bv(ex.read(st, ex.world, simp(bv(ex.read(st, ex.world, simp(bv(a)), 8)) + 16), 8))


def assoc_value(ex, st, a):
    return bv(ex.read(st, ex.world, simp(bv(ex.read(st, ex.world, simp(bv(a)), 8)) + 24), 8))


def home(ex, st, mods, k):
    """the slot number an object's identity hash asks for, before masking"""
    i = simp((bv(k) - bv(ot_base(ex, st, mods[0]))) >> 4)
    return HASH(i)


def _scr(x):
    x = x ^ (z3.LShR(x, 31) | (x << 33))
    x = x ^ ((x << 10) | z3.LShR(x, 22))
    x = x ^ ((x << 6) | z3.LShR(x, 26))
    x = x ^ ((x << 16) | z3.LShR(x, 16))
    return x & z3.BitVecVal((1 << 62) - 1, 64)


WALK = z3.Function('walk', B64, B64, B64)
HASH = z3.Function('scrambled', B64, B64)


def scramble_contract(ex, st, a):
    ex.used_trusted.add('contract scramble (a fixed function of its argument; checked in unit scramble)')
    return HASH(bv(a[0]))


def congruent(d, h):
    """loop variables that walk the slots: v = home + j modulo the capacity"""
    out = []
    for sc in (d.es,):
        mask = (d.N * sc) - 1

        def t(ex, st, j, v, w, sc=sc, mask=mask):
            if not is_z(v) or w != 64:
                if not isinstance(v, int) or w != 64:
                    return None
            return (bv(v) & mask) == d.walk(h, j) * sc
        t.rewrite = True
        out.append(t)
    return out


def no_error(ex, st, a):
    ex.used_trusted.add('_gst_errorf only reports')
    return 0


def base(ex, **kw):
    ex.contracts['scramble'] = scramble_contract
    ex.contracts['_gst_errorf'] = no_error
    st = State()
    set_builtins(ex, st)
    return st


class Lookup(Auto):
    """Probe loops: on leaving the loop the history is used at the empty slot
    and at the slot under discussion."""
    def __init__(self, d, h, dists):
        Auto.__init__(self, cell_templates=congruent(d, h))
        self.dists = dists
        self.cand_hints = lambda ex, st, j: [d.walk_def(h, j)]

    def enter(self, ex, s, fr, h):
        rec = Auto.enter(self, ex, s, fr, h)
        if rec.get('auto'):
            def on_exit(ex_, st, r):
                for x in self.dists:
                    st.pc.append(r.hist(x))
            rec['exit'] = on_exit
        return rec


def lemma_units(mods):
    def body(ex):
        st = State()
        h, q, j, i = (ex.fresh(x) for x in 'hqji')
        for k in range(3, 27):
            m = z3.BitVecVal((1 << k) - 1, 64)
            ex.oblige(st, z3.Implies(z3.ULE(q, m), ((h + ((q - h) & m)) & m) == q), 'mask lemma: home + distance, capacity 2^%d' % k)
            ex.oblige(st, z3.Implies(z3.And(z3.ULE(i, m), z3.ULE(j, m), ((h + i) & m) == ((h + j) & m)), i == j), 'mask lemma: the distance is unique, capacity 2^%d' % k)
    def unique(ex, es):
        st = base(ex)
        d = Dict(ex, st, mods, es=es)
        a, b, k = ex.fresh('a'), ex.fresh('b'), ex.fresh('key')
        h = d.home(st, k)
        ex.assume(st, z3.And(U(a, d.N), U(b, d.N), d.occupied(st, a), d.occupied(st, b), d.key(st, a) == k, d.key(st, b) == k))
        da, db = d.distance(st, h, a), d.distance(st, h, b)
        ex.assume(st, z3.And(d.probe(st, a, db, da), d.probe(st, b, da, db)))
        ex.oblige(st, a == b, 'the probe invariant makes keys unique')
    return [('lemma/mask', llvc_unit(mods, body)), ('lemma/unique/1', llvc_unit(mods, lambda ex: unique(ex, 1))),
            ('lemma/unique/2', llvc_unit(mods, lambda ex: unique(ex, 2)))]


def lookup_units(mods):
    units = []
    # function, pair?, found answer, absent answer
    table = [('find_key_or_nil', 1, 'index', 'index'),
             ('dictionary_association_at', 1, 'assoc', 'nil'),
             ('dictionary_at', 1, 'avalue', 'nil'),
             ('identity_dictionary_find_key', 2, 'pair', 'minus1'),
             ('identity_dictionary_find_key_or_nil', 2, 'pair', 'pair'),
             ('_gst_identity_dictionary_at', 2, 'pvalue', 'nilvalue')]
    for fn, es, found, absent in table:
        for case in ('present', 'absent'):
            def body(ex, fn=fn, es=es, found=found, absent=absent, case=case):
                st = base(ex)
                d = Dict(ex, st, mods, es=es)
                k = ex.fresh('key')
                ex.assume(st, k != d.nil)
                h = d.home(st, k)
                de = d.distance(st, h, d.e)
                J = ex.fresh('anyslot')
                dists = [de]
                if case == 'present':
                    q = J
                    ex.assume(st, z3.And(U(q, d.N), d.occupied(st, q), d.key(st, q) == k))
                    dq = d.distance(st, h, q)
                    dists.append(dq)
                st0 = st.clone()
                ex.loop_default = spec = Lookup(d, h, dists)
                if case == 'present':
                    # invariant at q for whatever distance the loop stopped at
                    def hints(ex_, s_, j):
                        return [d.probe(st0, q, j, dq)]
                    spec.hints = hints
                else:
                    # no slot holds the key
                    def hints(ex_, s_, j):
                        p = d.walk(h, j)
                        return [z3.Implies(d.occupied(st0, p), d.key(st0, p) != k)]
                    spec.hints = hints
                ex.start(st, fn, [d.o.oop, k])
                outs = ex.run(st)

                def post(s):
                    r = bv(s.ret)
                    if r.size() == 32:
                        r = z3.SignExt(32, r)
                    if case == 'present':
                        for rec in s.ghost.get('loops', ()):
                            # before, at or after the slot under discussion
                            if not ex.decide(s, rec.J == dq):
                                if ex.decide(s, U(rec.J, dq)):
                                    ex.oblige(s, z3.BoolVal(False), '%s: the search does not stop before the key' % fn)
                                else:
                                    ex.oblige(s, z3.BoolVal(False), '%s: the search does not pass the key' % fn)
                                return
                        want = {'index': lambda: q, 'assoc': lambda: d.slot(st0, q),
                                'avalue': lambda: assoc_value(ex, st0, d.slot(st0, q)),
                                'pair': lambda: q * 2 + 1, 'pvalue': lambda: d.value(st0, q)}[found]()
                        ex.oblige(s, r == want, '%s: a stored key is found where it is' % fn)
                    elif absent == 'nil':
                        ex.oblige(s, r == d.nil, '%s: an absent key is reported absent' % fn)
                    elif absent == 'minus1':
                        ex.oblige(s, r == -1, '%s: an absent key is reported absent' % fn)
                    elif absent == 'nilvalue':
                        # the value beside an empty key is nil
                        pass
                    else:
                        i = r if absent == 'index' else z3.LShR(r - 1, 1)
                        ex.oblige(s, z3.And(U(i, d.N), z3.Not(d.occupied(st0, i)),
                                            z3.BoolVal(True) if absent == 'index' else (r & 1) == 1),
                                  '%s: for an absent key an empty slot is answered' % fn)
                    frame(ex, st0, s, {}, fn)
                if not outs:
                    ex.oblige(st, z3.BoolVal(False), '%s: answers' % fn)
                ex.split(outs, post)
            units.append(('%s/%s' % (fn, case), llvc_unit(mods, body)))
    return units


def put_units(mods, offs):
    units = []
    # function, slots per entry, growing function, threshold (num/8 of the object size)
    table = [('_gst_identity_dictionary_at_put', 2, 'grow_identity_dictionary', 3),
             ('_gst_identity_dictionary_at_inc', 2, 'grow_identity_dictionary', 3),
             ('_gst_dictionary_add', 1, 'grow_dictionary', 6)]
    for fn, es, grow, thr in table:
        for room in ('room', 'full'):
            for case in ('present', 'absent'):
                def body(ex, fn=fn, es=es, grow=grow, thr=thr, case=case, room=room):
                    st = base(ex)
                    d = Dict(ex, st, mods, es=es, name='dict')
                    # sizes the VM creates (new_num_fields doubles powers of two)
                    ex.assume(st, z3.Or(z3.And(bv(d.F) == 1, z3.UGE(d.N, 8)), z3.And(bv(d.F) <= 3, z3.UGE(d.N, 16)), z3.UGE(d.N, 32)) if es == 2
                              else z3.Or(z3.And(bv(d.F) <= 3, z3.UGE(d.N, 16)), z3.UGE(d.N, 32)))
                    d.set_tally(st)
                    full = z3.UGE(d.t0, z3.UDiv((2 + bv(d.F) + d.N * es) * thr, z3.BitVecVal(8, 64)))
                    ex.assume(st, full if room == 'full' else z3.Not(full))
                    hp = Heap(ex, offs)
                    hp.setup(st)
                    if es == 1:
                        assoc = ex.fresh('association')
                        k = assoc_key(ex, st, assoc)
                        v = assoc_value(ex, st, assoc)
                        args = [d.o.oop, assoc]
                        ex.assume(st, assoc != d.nil)
                    else:
                        k, v = ex.fresh('key'), ex.fresh('value')
                        args = [d.o.oop, k, v]
                        if fn.endswith('inc'):
                            v = ex.fresh('inc', 32)
                            args[2] = v
                    ex.assume(st, k != d.nil)
                    ctx = {}

                    def settle(ex, st):
                        """the state the new entry goes into"""
                        h = d.home(st, k)
                        de = d.distance(st, h, d.e)
                        dists = [de]
                        st0 = st.clone()
                        ctx['st0'] = st0
                        ctx['h'] = h
                        if case == 'present':
                            q = ctx['q'] = ex.fresh('found')
                            c = z3.And(U(q, d.N), d.occupied(st, q), d.key(st, q) == k)
                            ex.assume(st, c)
                            dq = ctx['dq'] = d.distance(st, h, q)
                            dists.append(dq)

                            def hints(ex_, s_, j):
                                return [d.probe(st0, q, j, dq)]
                        else:
                            def hints(ex_, s_, j):
                                p = d.walk(h, j)
                                return [z3.Implies(d.occupied(st0, p), d.key(st0, p) != k)]
                        spec = Lookup(d, h, dists)
                        spec.hints = hints
                        # the distance at which another entry's probe path is judged
                        ctx['spec'] = spec

                    grown = []

                    def grow_contract(ex_, s, a):
                        ex.used_trusted.add('contract %s (same entries, more room, invariant; see the growth units)' % grow)
                        ex.oblige(s, zb(eq(a[0], d.o.oop)), '%s: the dictionary itself is grown' % fn)
                        if room == 'room':
                            ex.oblige(s, z3.BoolVal(False), '%s: grows only when full' % fn)
                            raise PathEnd('grown')
                        r = d.regrow(s)
                        d.set_tally(s)
                        grown.append(1)
                        settle(ex, s)
                        return r
                    ex.contracts[grow] = grow_contract
                    if room == 'room':
                        settle(ex, st)
                    ex.loop_default = lambda ex_, f, hd: ctx['spec']
                    I, X = ex.fresh('anyslot'), ex.fresh('anydist')
                    ex.start(st, fn, args)
                    outs = ex.run(st)
                    if not outs:
                        ex.oblige(st, z3.BoolVal(False), '%s: answers' % fn)

                    def post(s):
                        if not ctx:
                            ex.oblige(s, z3.BoolVal(False), '%s: a full dictionary is grown first' % fn)
                            return
                        st0, h = ctx['st0'], ctx['h']
                        recs = s.ghost.get('loops', ())
                        if len(recs) != 1:
                            ex.oblige(s, z3.BoolVal(False), '%s: one search decides where the entry goes' % fn)
                            return
                        rec = recs[0]
                        J = rec.J
                        if case == 'present':
                            q, dq = ctx['q'], ctx['dq']
                            if not ex.decide(s, J == dq):
                                ex.oblige(s, z3.BoolVal(False), '%s: the entry with this key is the one changed' % fn)
                                return
                            p = q
                        else:
                            p = d.walk(h, J)
                            s.pc.append(d.walk_def(h, J))
                        r = bv(s.ret)
                        t0, t1 = d.tally(st0), d.tally(s)
                        rn = d.o.reg(s).name
                        if case == 'present':
                            ex.oblige(s, t1 == t0, '%s: replacing a value leaves the tally alone' % fn)
                        else:
                            ex.oblige(s, U(p, d.N), '%s: the entry goes into a slot' % fn)
                            ex.oblige(s, z3.Not(d.occupied(st0, p)), '%s: the entry goes into an empty slot' % fn)
                            ex.oblige(s, t1 == t0 + 2, '%s: a new entry is counted' % fn)
                            if room == 'room':
                                ex.oblige(s, z3.ULT(d.t0 + 1, d.N), '%s: a slot stays empty' % fn)
                            ex.oblige(s, d.key(s, p) == k, '%s: the key is stored' % fn)
                            # representation invariant
                        offp = bv(d.off(p))
                        if es == 2:
                            want = v
                            old = d.value(st0, p)
                            if fn.endswith('inc'):
                                # a missing counter starts at zero
                                oldi = z3.BitVecVal(0, 32) if case == 'absent' else z3.Extract(31, 0, old >> 1)
                                sm = z3.SignExt(32, oldi + v)
                                want = (sm << 1) | 1
                                ex.oblige(s, z3.Extract(31, 0, r) == oldi if r.size() == 64 else r == oldi, '%s: the previous count is answered' % fn)
                            else:
                                ex.oblige(s, r == old, '%s: the previous value is answered' % fn)
                            ex.oblige(s, d.key(s, p) == k, '%s: the key is in its slot' % fn)
                            ex.oblige(s, d.value(s, p) == want, '%s: the value is stored beside the key' % fn)
                            frame(ex, st0, s, {rn: lambda o: z3.Or(z3.And(z3.UGE(bv(o), offp), U(bv(o), offp + 16)),
                                                                   z3.And(z3.UGE(bv(o), 16), U(bv(o), 24))),
                                               '@_gst_mem': None, 'incubator': None}, fn)
                        else:
                            want = assoc if case == 'absent' else d.slot(st0, p)
                            ex.oblige(s, r == want, '%s: the association in the dictionary is answered' % fn)
                            ex.oblige(s, d.slot(s, p) == want, '%s: the association is in its slot' % fn)
                            at = simp(bv(ex.read(st0, ex.world, simp(want), 8)) + 24)
                            s.pc.append(U(at, 1 << 62))
                            ex.oblige(s, bv(ex.read(s, ex.world, at, 8)) == v, '%s: the association holds the value' % fn)
                            frame(ex, st0, s, {rn: lambda o: z3.Or(z3.And(z3.UGE(bv(o), offp), U(bv(o), offp + 8)),
                                                                   z3.And(z3.UGE(bv(o), 16), U(bv(o), 24))) if case == 'absent' else False,
                                               ex.world.name: (lambda o: z3.And(z3.UGE(bv(o), at), U(bv(o), at + 8))) if case == 'present' else (lambda o: False),
                                               '@_gst_mem': None, 'incubator': None}, fn)
                        if case == 'absent':
                            # probe invariant afterwards: arbitrary slot I, arbitrary distance X
                            ex.assume(s, z3.And(U(I, d.N), d.occupied(s, I)))
                            isnew = ex.decide(s, I == p)
                            if isnew:
                                x = X
                                s.pc.append(U(x, J))
                                s.pc.append(rec.hist(x))
                                w = d.walk(h, x)
                                ex.oblige(s, z3.And(d.occupied(s, w), d.key(s, w) != k), '%s: the new entry can be found' % fn,
                                          hints=[d.walk_def(h, x)])
                            else:
                                ki = d.key(st0, I)
                                hi = d.home(st0, ki)
                                dI = d.distance(s, hi, I)
                                w = d.walk(hi, X)
                                s.pc.append(U(X, dI))
                                s.pc.append(d.walk_def(hi, X))
                                s.pc.append(d.probe(st0, I, X, dI))
                                # the key is absent
                                s.pc.append(ki != k)
                                ex.oblige(s, z3.And(d.occupied(s, w), d.key(s, w) != ki), '%s: a new entry hides no other one' % fn)
                    ex.split(outs, post)
                units.append(('%s/%s/%s' % (fn, room, case), llvc_unit(mods, body)))
    return units


def part(word, off, k):
    """k bytes at off of memory made of words"""
    if k == 8:
        return word(off)
    if k > 8:
        raise Unsupported('wide read')
    low = bv(off) & 7
    return simp(z3.Extract(8 * k - 1, 0, z3.LShR(bv(word(simp(bv(off) - low))), low * 8)))


class View(Dict):
    """the new dictionary a growing function fills"""
    def __init__(self, ex, d, o, N, maxk):
        self.ex, self.es, self.mods, self.F = ex, d.es, d.mods, d.F
        self.N, self.m, self.o, self.nil, self.maxk = N, N - 1, o, d.nil, maxk


class Rehash(Auto):
    """Loop contract of the growing functions.  Before iteration j the new
    slots are NEW(j, .), with ghost functions SRC(j, q) (the old slot a new
    entry comes from) and POS(i) (where old slot i went):
      R1  an occupied new slot q holds old entry SRC(j, q) < j
      R2  an occupied old slot i < j is at POS(i)
      R3  the probe invariant of the new dictionary
      R4  slot EMPTY(j) is empty (fewer than capacity slots were filled)"""
    def __init__(self, ex, d, new):
        Auto.__init__(self, region_hook=self.form)
        self.d, self.new = d, new
        n = ex.nfresh
        self.NEW = z3.Function('NEW', B64, B64, B64)
        self.SRC = z3.Function('SRC', B64, B64, B64)
        self.POS = z3.Function('POS', B64, B64)
        self.EMPTY = z3.Function('EMPTY', B64, B64)
        self.hints = self.facts
        self.final = False
        self.want_trans = False

    def form(self, ex, P, G, Bs, rn, J):
        new = self.new
        if rn != new.o.reg(P).name:
            return None
        base = P.mem.get(rn)
        lo = new.off(0)
        size = simp(new.N * (8 * new.es))

        def f(j):
            def rd(rel, k):
                return part(lambda o: self.NEW(bv(j), simp(bv(o))), rel, k)
            return Log(base, 'b', lo, size, rd)
        self.f = f
        return f

    def same_entry(self, ex, st, q, st0, i):
        """new slot q holds old entry i"""
        c = [self.new.slot(st, q) == self.d.slot(st0, i)]
        if self.d.es == 2:
            c.append(self.new.value(st, q) == self.d.value(st0, i))
        return z3.And(*c)

    def R1(self, ex, st, j, q):
        s = self.SRC(bv(j), bv(q))
        return z3.Implies(z3.And(U(q, self.new.N), self.new.occupied(st, q)),
                          z3.And(U(s, j), self.same_entry(ex, st, q, self.st0, s)))

    def R2(self, ex, st, j, i):
        p = self.POS(bv(i))
        return z3.Implies(z3.And(U(i, j), self.d.occupied(self.st0, i)),
                          z3.And(U(p, self.new.N), self.same_entry(ex, st, p, self.st0, i)))

    def R3(self, ex, st, q, x, dist):
        return self.new.probe(st, q, x, dist)

    def facts(self, ex, st, j):
        e = self.EMPTY(bv(j))
        return [z3.And(U(e, self.new.N), self.new.slot(st, e) == self.new.nil)] if self.ready else []

    ready = False

    def enter(self, ex, s, fr, h):
        self.st0 = s.clone()
        d, new = self.d, self.new
        # entry: nothing is stored yet
        self.ready = True
        q = ex.fresh('newslot')
        s.pc.append(U(q, new.N))
        ex.oblige(s, z3.Not(new.occupied(s, q)), 'growth starts with an empty dictionary')
        self.J = None
        rec = Auto.enter(self, ex, s, fr, h)
        self.J = rec.J
        rec['outer'] = True
        ex.oblige(s, U(rec.J, new.N), 'growth: fewer entries than slots')
        self.gen = s.clone()
        return rec

    def key(self, ex, st, i):
        return self.d.key(st, i)

    def unique(self, ex, a, b):
        """keys of the old dictionary are unique (lemma/unique)"""
        d, st = self.d, self.st0
        return z3.Implies(z3.And(U(a, d.N), U(b, d.N), d.occupied(st, a), d.occupied(st, b), d.key(st, a) == d.key(st, b)),
                          bv(a) == bv(b))

    def back_edge(self, ex, s, fr, h, rec):
        d, new, st0, G, J = self.d, self.new, self.st0, self.gen, rec.J
        recs = [r for r in s.ghost.get('loops', ()) if not r.get('outer')]
        fn = fr.fn.name
        Q, X, I = ex.fresh('Q'), ex.fresh('X'), ex.fresh('I')
        wo = [z3.ULE(J, d.N)]
        for c in wo:
            s.pc.append(zb(c))
        rn = new.o.reg(s).name
        if not recs:
            ex.oblige(s, z3.Not(d.occupied(st0, J)), '%s: only empty slots are skipped' % fn)
            frame(ex, G, s, {'@_gst_mem': None, 'incubator': None}, fn + ' (empty slot)')
            return
        r = recs[-1]
        k = d.key(st0, J)
        hk = d.home(st0, k)
        p = new.walk(hk, r.J)
        s.pc.append(new.walk_def(hk, r.J))
        ex.oblige(s, z3.And(d.occupied(st0, J), U(p, new.N), z3.Not(new.occupied(G, p))), '%s: an entry goes into an empty slot' % fn)
        ex.oblige(s, self.same_entry(ex, s, p, st0, J), '%s: the entry is copied' % fn)
        offp = bv(new.off(p))
        frame(ex, G, s, {rn: lambda o: z3.And(z3.UGE(bv(o), offp), U(bv(o), offp + 8 * d.es)), '@_gst_mem': None, 'incubator': None}, fn)
        # R2 for I < J (I = J is the line above, with POS(J) = p)
        a = s.clone()
        a.pc += [U(I, J), d.occupied(st0, I), self.R2(ex, G, J, I)]
        ex.oblige(a, self.same_entry(ex, a, self.POS(I), st0, I), '%s: entries copied earlier stay' % fn)
        # R1 at Q != p with SRC unchanged
        a = s.clone()
        a.pc += [U(Q, new.N), Q != p, new.occupied(a, Q), self.R1(ex, G, J, Q)]
        ex.oblige(a, z3.And(U(self.SRC(J, Q), J), self.same_entry(ex, a, Q, st0, self.SRC(J, Q))), '%s: no other entry appears' % fn)
        # R3 at the new entry and at another one
        a = s.clone()
        a.pc += [U(X, r.J), r.hist(X), new.walk_def(hk, X)]
        w = new.walk(hk, X)
        ex.oblige(a, z3.And(new.occupied(a, w), new.key(a, w) != k), '%s: the copied entry can be found' % fn)
        a = s.clone()
        kq = new.key(G, Q)
        hq = new.home(G, kq)
        a.pc += [U(Q, new.N), new.occupied(G, Q), Q != p]
        dq = new.distance(a, hq, Q)
        w = new.walk(hq, X)
        a.pc += [U(X, dq), new.walk_def(hq, X), self.R3(ex, G, Q, X, dq), self.R1(ex, G, J, Q), self.unique(ex, self.SRC(J, Q), J)]
        ex.oblige(a, z3.And(new.occupied(a, w), new.key(a, w) != kq), '%s: the copied entry hides no other one' % fn)


class RLookup(Auto):
    """the search for a free slot while growing"""
    def __init__(self, rh):
        self.rh = rh
        Auto.__init__(self)

    def enter(self, ex, s, fr, h):
        rh = self.rh
        new = rh.new
        if rh.J is None and not rh.ready:
            raise Unsupported('search before the growth loop')
        key = fr.regs[fr.fn.params[1][1]]
        key = bv(key)
        hk = new.home(s, key)
        outer = [r for r in s.ghost.get('loops', ()) if r.get('outer')]
        self.cell_templates = congruent(new, hk)
        self.cand_hints = lambda ex_, st, j: [new.walk_def(hk, j)]
        self.hints = None
        de = None
        if outer:
            jo = outer[-1].J
            G = s.clone()
            de = new.distance(s, hk, rh.EMPTY(jo))

            def hints(ex_, st, j):
                p = new.walk(hk, j)
                # an equal key further on would be the entry being copied
                return [new.walk_def(hk, j), rh.R1(ex, G, jo, p), rh.unique(ex, rh.SRC(jo, p), jo), U(jo, rh.d.N)]
            self.hints = hints
        rec = Auto.enter(self, ex, s, fr, h)
        if rec.get('auto') and de is not None:
            def on_exit(ex_, st, r):
                st.pc.append(r.hist(de))
            rec['exit'] = on_exit
        return rec


def grow_units(mods, offs):
    units = []
    for fn, es in (('grow_identity_dictionary', 2), ('grow_dictionary', 1)):
        def body(ex, fn=fn, es=es):
            st = base(ex)
            d = Dict(ex, st, mods, es=es, name='dict', F=1 if es == 2 else None)
            if es == 2:
                # MethodDictionary has one more instance variable
                pass
            d.set_tally(st)
            hp = Heap(ex, offs)
            hp.setup(st)
            made = []

            def instantiate(ex_, s, a):
                ex.used_trusted.add('contract instantiate_with (a nil-filled object of the requested size; proved in C03)')
                ex.oblige(s, zb(eq(a[0], d.o.cls.oop)), '%s: the new dictionary has the same class' % fn)
                n = simp(bv(a[1]))
                # every object may move
                old = ex.read(s, d.o.oop_r, 0, 8)
                nr = ex.region(old.r.name + '.moved', old.r.size, old.r.init)
                s.mem[nr.name] = s.mem[old.r.name]
                ex.write(s, d.o.oop_r, 0, 8, Ptr(nr, 0))
                s.ghost = dict(s.ghost)
                s.ghost['stale'] = frozenset(s.ghost.get('stale', ())) | {old.r.name}
                words = simp(2 + bv(d.F) + n)
                if is_z(words):
                    ex.small(words, 40)
                o = Obj.__new__(Obj)
                o.ex, o.name, o.words = ex, 'new', words
                o.oop_r = ex.region('new.oop', 16, None)
                nil = d.nil
                o.obj_r = ex.region('new.obj', simp(words * 8), lambda off, k: part(lambda o: nil, off, k))
                o.oop = Ptr(o.oop_r, 0)
                ex.write(s, o.oop_r, 0, 8, Ptr(o.obj_r, 0))
                ex.write(s, o.oop_r, 8, 8, ex.fresh('new.flags'))
                ex.write(s, o.obj_r, 0, 8, z3.Concat(z3.Extract(62, 0, words), z3.BitVecVal(1, 1)))
                ex.write(s, o.obj_r, 8, 8, a[0])
                ex.store(s, a[2], 8, o.oop)
                N2 = simp(n if es == 1 else z3.UDiv(n, z3.BitVecVal(2, 64)))
                N2 = simp(d.N * 2)
                ex.oblige(s, n == d.N * (2 * es), '%s: twice the room' % fn)
                new = View(ex, d, o, d.N * 2, d.maxk + 1)
                rh = Rehash(ex, d, new)
                made.append(rh)
                return Ptr(o.obj_r, 0)
            ex.contracts['instantiate_with'] = instantiate

            def swap(ex_, s, a):
                ex.used_trusted.add('contract _gst_swap_objects (exchanges what two OOPs denote; proved in C28)')
                x, y = a
                new = made[0].new.o
                ex.oblige(s, z3.Or(z3.And(zb(eq(x, new.oop)), zb(eq(y, d.o.oop))), z3.And(zb(eq(y, new.oop)), zb(eq(x, d.o.oop)))),
                          '%s: the old and the new dictionary are exchanged' % fn)
                s.ghost = dict(s.ghost)
                s.ghost['swapped'] = s.ghost.get('swapped', 0) + 1
                s.ghost['before'] = s.clone()
                p, q = ex.read(s, d.o.oop_r, 0, 8), ex.read(s, new.oop_r, 0, 8)
                ex.write(s, d.o.oop_r, 0, 8, q)
                ex.write(s, new.oop_r, 0, 8, p)
            ex.contracts['_gst_swap_objects'] = swap

            def spec(ex_, f, hd):
                if not made:
                    raise Unsupported('loop before the new dictionary exists')
                rh = made[0]
                if f.name == fn:
                    return rh
                return RLookup(rh)
            ex.loop_default = spec
            st0 = st.clone()
            ex.start(st, fn, [d.o.oop])
            outs = ex.run(st)
            if not outs:
                ex.oblige(st, z3.BoolVal(False), '%s: answers' % fn)

            def post(s):
                ex.oblige(s, s.ghost.get('swapped') == 1, '%s: the dictionaries are exchanged once' % fn)
                if s.ghost.get('swapped') != 1:
                    return
                rh = made[0]
                b = s.ghost['before']
                new = rh.new
                rec = [r for r in s.ghost['loops'] if r.get('outer')][0]
                J = rec.J
                ex.oblige(s, J == d.N, '%s: every old slot is visited' % fn)
                I = ex.fresh('I')
                a = s.clone()
                a.pc += [U(I, d.N), d.occupied(rh.st0, I), rh.R2(ex, b, J, I)]
                for c in ([d.slot(st0, I) == d.slot(rh.st0, I)] + ([d.value(st0, I) == d.value(rh.st0, I)] if es == 2 else [])):
                    ex.oblige(a, c, '%s: the entries are those of the dictionary' % fn)
                ex.oblige(a, rh.same_entry(ex, b, rh.POS(I), st0, I), '%s: every entry is in the grown dictionary' % fn)
                if es == 2:
                    ex.oblige(s, new.tally(b) == d.tally(st0), '%s: the tally is kept' % fn)
                else:
                    f = ex.fresh('field')
                    a = s.clone()
                    a.pc += [U(f, d.F)]
                    o = simp(16 + f * 8)
                    ex.oblige(a, bv(ex.read(b, new.o.reg(b), o, 8)) == bv(ex.read(st0, d.o.reg(st0), o, 8)), '%s: the instance variables are kept' % fn)
                ex.oblige(s, zb(eq(s.ret, ex.read(s, d.o.oop_r, 0, 8))), '%s: the grown object is answered' % fn)
                ex.oblige(s, zb(eq(s.ret, Ptr(new.o.obj_r, 0))), '%s: the dictionary denotes the grown object' % fn)
                frame(ex, rh.st0, s, {'new.obj': None, 'new.oop': None, d.o.oop_r.name: lambda o: o == 0, '@_gst_mem': None, 'incubator': None,
                                   d.o.reg(b).name: lambda k: False}, fn)
            ex.split(outs, post)
        units.append(('%s' % fn, llvc_unit(mods, body)))
    return units


def make_units(mods, offs):
    units = []

    def scr(ex):
        st = State()
        x = ex.fresh('x')
        st0 = st.clone()
        ex.start(st, 'scramble', [x])
        outs = ex.run(st)
        from .c07sym import free_names
        for s in outs:
            ex.oblige(s, free_names(bv(s.ret)) <= {x.decl().name()}, 'scramble: depends only on its argument')
            ex.oblige(s, U(bv(s.ret), 1 << 62), 'scramble: answers a non-negative SmallInteger')
            frame(ex, st0, s, {}, 'scramble')
        ex.oblige(st, len(outs) == 1, 'scramble: answers')
    units.append(('scramble', llvc_unit(mods, scr)))

    def size(ex):
        st = State()
        n = ex.fresh('n')
        ex.assume(st, z3.And(U(0, n) if False else n != 0, U(n, 1 << 31)))
        ex.start(st, 'new_num_fields', [n])
        ex.unroll = 80
        outs = ex.run(st)
        for s in outs:
            r = bv(s.ret)
            ex.oblige(s, z3.And((r & (r - 1)) == 0, z3.UGT(r, n), z3.ULE(r, n * 2)), 'new_num_fields: the next larger power of two')
        ex.oblige(st, len(outs) > 0, 'new_num_fields: answers')
    units.append(('new_num_fields', llvc_unit(mods, size)))

    # the representation invariant holds for new dictionaries of every size
    for fn, es in (('_gst_dictionary_new', 1), ('_gst_binding_dictionary_new', 1), ('_gst_identity_dictionary_new', 2)):
        def body(ex, fn=fn, es=es):
            st = base(ex)
            n = ex.fresh('size', 32)
            ex.assume(st, z3.And(n >= (8 if es == 1 else 6), n < (1 << 24)))
            N = ex.fresh('capacity', 32)
            ex.used_trusted.add('contract new_num_fields (the next larger power of two; proved in unit new_num_fields)')

            def nnf(e, s, a):
                ex.oblige(s, zb(eq(a[0], z3.ZeroExt(32, n))), '%s: sized as requested' % fn)
                return z3.ZeroExt(32, N)
            ex.contracts['new_num_fields'] = nnf
            ex.assume(st, z3.And((N & (N - 1)) == 0, N > n, N <= n * 2))
            env = ex.fresh('environment')
            cls = ex.fresh('class')
            cg = {'_gst_dictionary_new': '@_gst_dictionary_class', '_gst_binding_dictionary_new': '@_gst_binding_dictionary_class'}.get(fn)
            if cg:
                cls = ex.read(st, ex.global_region(cg, st), 0, 8)
            nil = B.builtin_oop(ex, st, '_gst_nil_oop')
            made = []

            def inst(e, s, a):
                ex.used_trusted.add('contract instantiate_with (a nil-filled object of the requested size; proved in C03)')
                ex.oblige(s, zb(eq(a[0], cls)), '%s: of the right class' % fn)
                ex.oblige(s, bv(a[1]) == z3.ZeroExt(32, N) * es, '%s: room for its entries' % fn)
                r = ex.region('new.obj', None, lambda off, k: part(lambda o: nil, off, k))
                o = ex.region('new.oop', 16, None)
                ex.write(s, o, 0, 8, Ptr(r, 0))
                ex.store(s, a[2], 8, Ptr(o, 0))
                made.append((r, o))
                s.ghost = dict(s.ghost)
                s.ghost['made'] = s.ghost.get('made', 0) + 1
                return Ptr(r, 0)
            ex.contracts['instantiate_with'] = inst
            args = {'_gst_dictionary_new': [n], '_gst_binding_dictionary_new': [n, env], '_gst_identity_dictionary_new': [cls, n]}[fn]
            ex.start(st, fn, args)
            outs = ex.run(st)
            for s in outs:
                if s.ghost.get('made') != 1:
                    ex.oblige(s, False, '%s: makes one dictionary' % fn)
                    continue
                r, o = made[-1]
                ex.oblige(s, zb(eq(s.ret, Ptr(o, 0))), '%s: answers the dictionary' % fn)
                ex.oblige(s, bv(ex.read(s, r, 16, 8)) == 1, '%s: the tally is zero' % fn)
                k = ex.fresh('slot')
                if fn == '_gst_binding_dictionary_new':
                    ex.oblige(s, bv(ex.read(s, r, 24, 8)) == env, '%s: keeps its environment' % fn)
                lim = 24 if fn != '_gst_binding_dictionary_new' else 32
                ex.oblige(s, z3.Implies(z3.And(z3.UGE(k, lim), (k & 7) == 0, U(k, 1 << 40)), bv(ex.read(s, r, k, 8)) == nil), '%s: every slot is empty' % fn)
            ex.oblige(st, len(outs) > 0, '%s: answers' % fn)
        units.append((fn, llvc_unit(mods, body)))
    return units


def main():
    import sys
    s = Scratch()
    c = Check('C07')
    mods = load(s, 'dict.c', 'interp.c', 'sym.c')
    B.BUILTIN_OFF[:] = header_consts(s, ['NIL_OOP_INDEX', 'TRUE_OOP_INDEX', 'FALSE_OOP_INDEX'])
    names = ['inc_base', 'inc_ptr', 'inc_end']
    offs = dict(zip(names, header_consts(s, ['offsetof(struct memory_space, %s)' % n for n in names])))
    units = lemma_units(mods) + lookup_units(mods) + put_units(mods, offs) + grow_units(mods, offs) + make_units(mods, offs)
    from . import c07sym
    c07sym.OFFS.update(offs)
    c07sym.FRO, size = header_consts(s, ['F_READONLY', 'SYMBOL_TABLE_SIZE'])
    units += c07sym.sym_units(load(s, 'sym.c', 'interp.c'), size)
    import os
    if os.environ.get('ONLY'):
        units = [u for u in units if os.environ['ONLY'] in u[0]]
    c.run(units)
    if os.environ.get('VERBOSE'):
        verbose(c)
    from . import d_dict
    return c.finish(confirm=None if os.environ.get('NODRV') else lambda f, u: d_dict.confirm(s))
