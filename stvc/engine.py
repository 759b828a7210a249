"""Contract verifier for the Smalltalk sources (kernel/*.st).

Every path of the method under contract is executed symbolically over exact
integers, opaque elements and heap objects.  Loops are summarised (no bound):
the effect of one generic iteration k is computed, closed forms for the
modified cells are proved inductive, and the facts "iteration m continued" are
kept as universally quantified facts, instantiated at ground terms.  When that
fails the loop is unrolled to a stated bound and the obligation is labelled
bounded."""
import os
import time
import z3
from .parser import (Lit, Var, Assign, Send, Cascade, Block, Ret, ArrayE, Sym, CharV, FloatLit, ScaledLit, LitArr,
                     LitBytes, Binding)

Int = z3.IntSort()
V = z3.DeclareSort('V')
NILV = z3.Const('nilV', V)
EQC = z3.Function('eqclass', V, Int)
HASH = z3.Function('hash', Int, Int)
IHASH = z3.Function('ihash', V, Int)
RANK = z3.Function('rank', V, Int)
POW2 = z3.Function('pow2', Int, Int)


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class BoundHit(Exception):
    pass


class STError(Exception):
    def __init__(self, name, info=''):
        self.name = name
        self.info = info


class RetEx(Exception):
    def __init__(self, home, v):
        self.home = home
        self.v = v


class ExcRet(Exception):
    """exception handler completed"""
    def __init__(self, tag, v):
        self.tag = tag
        self.v = v


class Opq:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '<%s>' % self.t


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))

    def __repr__(self):
        return 'Ref(%s)' % (self.oid,)


class Cls:
    __slots__ = ('name', 'meta')

    def __init__(self, name, meta=False):
        self.name = name
        self.meta = meta

    def __eq__(self, o):
        return isinstance(o, Cls) and o.name == self.name and o.meta == self.meta

    def __hash__(self):
        return hash(('cls', self.name, self.meta))

    def __repr__(self):
        return self.name + (' class' if self.meta else '')


class StrLit:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class FloatV:
    __slots__ = ('text',)

    def __init__(self, text):
        self.text = text


class GlobalObj:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Poison:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


class Blk:
    __slots__ = ('node', 'frame')

    def __init__(self, node, frame):
        self.node = node
        self.frame = frame

    @property
    def nargs(self):
        return len(self.node.params)


class OBlk:
    """An unknown block: a pure function of its arguments; each call is recorded
    in a ghost trace."""
    __slots__ = ('name', 'kind', 'nargs', 'fn', 'traced')

    def __init__(self, name, kind, nargs, fn=None, traced=True):
        self.name = name
        self.kind = kind
        self.nargs = nargs
        self.fn = fn
        self.traced = traced


class PyBlk:
    """A block implemented by the specification."""
    __slots__ = ('fn', 'nargs')

    def __init__(self, nargs, fn):
        self.fn = fn
        self.nargs = nargs


class Frame:
    __slots__ = ('id', 'names', 'outer', 'recv', 'home', 'meth')

    def __init__(self, id, names, outer, recv, home, meth):
        self.id = id
        self.names = names
        self.outer = outer
        self.recv = recv
        self.home = home or self
        self.meth = meth


FAIL = object()


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef) and v.sort() == Int)


def is_bool(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def sym(v):
    return isinstance(v, z3.ExprRef)


def norm(t):
    if not isinstance(t, z3.ExprRef):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def Not(a):
    return (not a) if isinstance(a, bool) else norm(z3.Not(a))


def And(*a):
    r = []
    for x in a:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            r.append(x)
    if not r:
        return True
    return norm(z3.And(*r)) if len(r) > 1 else r[0]


def Or(*a):
    r = []
    for x in a:
        if isinstance(x, bool):
            if x:
                return True
        else:
            r.append(x)
    if not r:
        return False
    return norm(z3.Or(*r)) if len(r) > 1 else r[0]


def Implies(a, b):
    return Or(Not(a), b)


def eqi(a, b):
    return norm(a == b)


def contains(t, k):
    """does z3 term t mention constant k"""
    if not isinstance(t, z3.ExprRef):
        return False
    seen = set()
    st = [t]
    kid = k.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == kid:
            return True
        st.extend(x.children())
    return False


def subst(v, pairs):
    """substitute z3 constants in a Python-level value"""
    if isinstance(v, z3.ExprRef):
        return norm(z3.substitute(v, *pairs))
    if isinstance(v, Opq):
        return Opq(z3.substitute(v.t, *pairs))
    if isinstance(v, CharV):
        return CharV(subst(v.c, pairs)) if sym(v.c) else v
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    return v


def vterms(v):
    """z3 terms inside a value"""
    if isinstance(v, z3.ExprRef):
        yield v
    elif isinstance(v, Opq):
        yield v.t
    elif isinstance(v, CharV):
        if sym(v.c):
            yield v.c
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from vterms(x)


def vmentions(v, k):
    return any(contains(t, k) for t in vterms(v))


def vrefs(v):
    if isinstance(v, Ref):
        yield v.oid
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from vrefs(x)
    elif isinstance(v, Blk):
        f = v.frame
        while f is not None:
            yield ('frame', f.id)
            f = f.outer


def veq(a, b):
    """structural equality of values (not logical)"""
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Opq) and isinstance(b, Opq):
        return a.t.eq(b.t)
    if isinstance(a, CharV) and isinstance(b, CharV):
        return veq(a.c, b.c)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, StrLit):
        return a.s == b.s
    if isinstance(a, Blk):
        return a.node is b.node and a.frame.id == b.frame.id
    return a == b


# --------------------------------------------------------------- storage
# a storage value is a tuple (base, log); base: ('fn', kind, F) ('nil',) ('zero',)
# ('lit', tuple) ('chr0',); log: tuple of entries, oldest first:
#   ('w', idx, val)
#   ('r', n, k, writes)     writes: tuple of (idx_k, ((cond_k, val_k), ...))
#   ('cp', dst, count, storage, src)


class Out:
    def __init__(self, kind, v, pc, store, fresh, extra=None):
        self.kind = kind
        self.v = v
        self.pc = pc
        self.store = store
        self.fresh = fresh
        self.extra = extra


class Oblig:
    def __init__(self, name, status, secs, backend, detail=None, model=None, goal=None):
        self.name = name
        self.status = status
        self.secs = secs
        self.backend = backend
        self.detail = detail
        self.model = model
        self.goal = goal


SMIN = -(1 << 62)
SMAX = (1 << 62) - 1


class Engine:
    """Explores one contract; holds the decision oracle and the state."""

    def __init__(self, world, deadline=None, bound=4, max_paths=4000):
        self.world = world
        self.deadline = deadline or time.time() + 120
        self.bound = bound
        self.max_paths = max_paths
        self.obls = []
        self.bounded = set()
        self.trusted = set()
        self.visited = set()
        self.npaths = 0
        self.nqueries = 0
        self.contracts = {}      # (class, selector, meta) -> fn(eng, recv, args)
        self.cvar_values = {}    # (class, name) -> value fn
        self.memo = {}
        self.cands = []          # candidate loop invariants
        self.summarise_on = True
        self.notes = set()
        self.feas_ms = 1500
        self.goal_ms = 8000
        self.max_depth = 80
        self.force_bounded = False
        self.opq_eq_total = True
        self.feascache = {}

    # ---- exploration
    def explore(self, fn):
        stack = [[]]
        while stack:
            self.reset()
            self.decs = stack.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            self.checktime()
            try:
                fn(self)
            except Infeasible:
                pass
            except BoundHit:
                pass
            stack.extend(self.alts)

    def reset(self):
        self.pc = []
        self.store = {}
        self.decs = []
        self.pos = 0
        self.alts = []
        self.key = ()
        self.nfresh = 0
        self.noid = 0
        self.freshlog = []
        self.foralls = []
        self.terms = []
        self.termset = set()
        self.instset = set()
        self.depth = 0
        self.linvars = []
        self.handlers = []
        self.cvcache = {}
        self.hooks = {}
        self.in_check = False

    def checktime(self):
        if time.time() > self.deadline:
            raise Unsupported('time limit')

    def decide(self, n, feas=None):
        """choose one of n alternatives; feas(i) tells whether i is possible"""
        if self.pos < len(self.decs):
            d = self.decs[self.pos]
            self.pos += 1
            self.key = self.key + (d,)
            return d
        self.checktime()
        ok = [i for i in range(n) if feas is None or feas(i)]
        if not ok:
            raise Infeasible()
        pre = list(self.decs[:self.pos])
        for i in ok[1:]:
            self.alts.append(pre + [i])
        self.decs = pre + [ok[0]]
        self.pos += 1
        self.key = self.key + (ok[0],)
        return ok[0]

    def sat(self, *extra, ms=None, model=False):
        """'sat' 'unsat' 'unknown' for pc and extra"""
        self.checktime()
        ck = None
        if not model:
            ck = (tuple(p.get_id() for p in self.pc), tuple(e if isinstance(e, bool) else e.get_id() for e in extra))
            r = self.feascache.get(ck)
            if r is not None:
                return r[0]
        s = z3.Solver()
        s.set('timeout', int(ms or self.feas_ms))
        for p in self.pc:
            s.add(p)
        for e in extra:
            s.add(e)
        self.nqueries += 1
        r = s.check()
        r = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
        if ck is not None:
            # keep the terms alive so that ids stay unique
            self.feascache[ck] = (r, list(self.pc), extra)
        if model:
            return r, (s.model() if r == 'sat' else None)
        return r

    def entails(self, c, ms=None):
        if isinstance(c, bool):
            return c
        return self.sat(z3.Not(c), ms=ms) == 'unsat'

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)

    def fork(self, c):
        """decide a boolean value"""
        c = norm(c)
        if isinstance(c, bool):
            return c
        if not isinstance(c, z3.BoolRef):
            raise Unsupported('branch on a non-Boolean %r' % (c,))
        d = self.decide(2, lambda i: self.sat(c if i == 0 else z3.Not(c)) != 'unsat')
        self.assume(norm(c if d == 0 else z3.Not(c)))
        return d == 0

    def nested(self, fn):
        """all outcomes of fn from the current state; the state is restored"""
        save = (self.pc, self.store, self.decs, self.pos, self.alts, self.key, self.freshlog, self.foralls, self.terms,
                self.termset, self.instset, self.linvars, self.depth, self.handlers)
        n0, o0 = self.nfresh, self.noid
        outs = []
        stack = [[]]
        maxn, maxo = n0, o0
        count = 0
        while stack:
            self.pc = list(save[0])
            self.store = dict(save[1])
            self.decs = stack.pop()
            self.pos = 0
            self.alts = []
            self.key = save[5] + ('n',)
            self.freshlog = []
            self.foralls = list(save[7])
            self.terms = list(save[8])
            self.termset = set(save[9])
            self.instset = set(save[10])
            self.linvars = list(save[11])
            self.depth = save[12]
            self.handlers = list(save[13])
            self.nfresh, self.noid = n0, o0
            count += 1
            if count > 300:
                self.restore(save)
                raise Unsupported('too many paths in a loop body')
            kind = v = None
            try:
                v = fn()
                kind = 'val'
            except RetEx as e:
                kind, v = 'ret', e
            except STError as e:
                kind, v = 'err', e
            except Infeasible:
                kind = None
            except BaseException:
                self.restore(save)
                raise
            maxn, maxo = max(maxn, self.nfresh), max(maxo, self.noid)
            if kind:
                o = Out(kind, v, self.pc[len(save[0]):], self.store, self.freshlog)
                o.foralls = self.foralls[len(save[7]):]
                o.linvars = self.linvars[len(save[11]):]
                outs.append(o)
            stack.extend(self.alts)
        self.restore(save)
        self.nfresh, self.noid = maxn, maxo
        return outs

    def restore(self, save):
        (self.pc, self.store, self.decs, self.pos, self.alts, self.key, self.freshlog, self.foralls, self.terms,
         self.termset, self.instset, self.linvars, self.depth, self.handlers) = save

    # ---- fresh symbols
    def fresh(self, name, sort=Int):
        self.nfresh += 1
        c = z3.Const('%s!%d' % (name, self.nfresh), sort)
        self.freshlog.append(c)
        return c

    def fresh_int(self, name, lo=None, hi=None):
        c = self.fresh(name)
        if lo is not None:
            self.assume(norm(c >= lo))
        if hi is not None:
            self.assume(norm(c <= hi))
        return c

    def fresh_opq(self, name, nonnil=True):
        c = self.fresh(name, V)
        if nonnil:
            self.assume(c != NILV)
        return Opq(c)

    def skolem(self, name, lo=None, hi=None):
        c = self.fresh_int(name, lo, hi)
        self.add_term(c)
        return c

    # ---- quantified facts
    def add_term(self, t):
        """a ground index term at which universal facts are instantiated"""
        if not sym(t):
            t0 = z3.IntVal(t)
        else:
            t0 = t
        if t0.get_id() in self.termset:
            return
        self.termset.add(t0.get_id())
        self.terms.append(t0)
        self.instantiate()

    def instantiate(self):
        for fi, (lo, hi, k, body, lins) in enumerate(self.foralls):
            for t in list(self.terms):
                cand = [t]
                for a, d in lins:
                    # index a + d*m = t
                    if d == 1:
                        cand.append(t - a)
                    elif d == -1:
                        cand.append(a - t)
                for c in cand:
                    self.inst(fi, c)

    def inst(self, fi, c):
        lo, hi, k, body, lins = self.foralls[fi]
        c = norm(c)
        if not sym(c):
            c = z3.IntVal(c)
        key = (fi, c.get_id())
        if key in self.instset:
            return
        self.instset.add(key)
        self.instkeep = getattr(self, 'instkeep', [])
        self.instkeep.append(c)
        g = And(norm(lo <= c), norm(c < hi))
        if g is False:
            return
        self.assume(Implies(g, norm(z3.substitute(body, (k, c)))))

    def add_forall(self, lo, hi, k, body, lins=()):
        if isinstance(body, bool) and body:
            return
        self.foralls.append((lo, hi, k, body, tuple(lins)))
        fi = len(self.foralls) - 1
        for t in list(self.terms):
            self.inst(fi, t)
            for a, d in lins:
                if d == 1:
                    self.inst(fi, t - a)
                elif d == -1:
                    self.inst(fi, a - t)
        return fi

    # ---- obligations
    def check(self, name, goal, ms=None, detail=None):
        t0 = time.time()
        goal = norm(goal) if not isinstance(goal, bool) else goal
        if goal is True:
            self.obls.append(Oblig(name, 'proved', 0.0, 'simplifier'))
            return True
        ng = z3.Not(goal) if not isinstance(goal, bool) else z3.BoolVal(True)
        r, m = self.sat(ng, ms=ms or self.goal_ms, model=True)
        be = 'z3'
        if r == 'unknown':
            r2, be2 = self.other_solvers(ng, 20)
            if r2 == 'unsat':
                r, be = r2, be2
        st = {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r]
        if st == 'refuted' and (self.foralls or getattr(self, 'incomplete', False)):
            st = 'unknown'
        self.obls.append(Oblig(name, st, time.time() - t0, be, detail, m, str(goal)[:800] if st != 'proved' else None))
        if st != 'proved' and os.environ.get('VERBOSE'):
            print('  OPEN', name, st, str(goal)[:300])
            if os.environ.get('VERBOSE') == '2':
                for p in self.pc:
                    print('     pc', str(p)[:200].replace('\n', ' '))
                if m is not None:
                    print('     model', str(m)[:1500])
        return st == 'proved'

    def other_solvers(self, ng, secs):
        import subprocess
        import tempfile
        s = z3.Solver()
        for p in self.pc:
            s.add(p)
        s.add(ng)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        procs = []
        for cmd, nm in ((['cvc5', '--tlimit=%d' % (secs * 1000), f.name], 'cvc5'),
                        (['z3-new', '-T:%d' % secs, f.name], 'z3-new')):
            try:
                procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), nm))
            except OSError:
                pass
        res = ('unknown', 'none')
        end = time.time() + secs + 3
        live = list(procs)
        while live and time.time() < end:
            for p in list(live):
                if p[0].poll() is not None:
                    live.remove(p)
                    o = p[0].stdout.read().strip().split('\n')[0]
                    if o == 'unsat':
                        res = ('unsat', p[1])
                        live = []
                        break
            time.sleep(0.01)
        for p in procs:
            if p[0].poll() is None:
                p[0].kill()
                p[0].wait()
        os.unlink(f.name)
        return res

    def fail(self, name, detail=None):
        """an outcome the contract forbids, on a feasible path"""
        self.check(name, False, detail=detail)

    # ---- heap
    def new_object(self, cls, size=0, base=None, ivars=None):
        self.noid += 1
        oid = self.noid
        self.store[(oid, 'class')] = cls
        self.store[(oid, 'size')] = size
        if base is None:
            base = self.zero_base(cls)
        self.store[(oid, 'st')] = (base, ())
        for n in self.world.all_ivars(cls):
            self.store[(oid, '.' + n)] = None
        if ivars:
            for n, v in ivars.items():
                self.store[(oid, '.' + n)] = v
        return Ref(oid)

    def shape(self, cls):
        n = cls
        while n is not None:
            c = self.world.classes.get(n)
            if c is None:
                return None
            if c.shape:
                return c.shape
            n = c.sup
        return None

    def zero_base(self, cls):
        sh = self.shape(cls)
        if sh in ('#character', '#utf32'):
            return ('chr0',)
        if sh and sh not in ('#pointer', '#inherit'):
            return ('zero',)
        return ('nil',)

    def cls_of(self, r):
        return self.store[(r.oid, 'class')]

    def get(self, r, n):
        return self.store[(r.oid, '.' + n)]

    def put(self, r, n, v):
        self.store[(r.oid, '.' + n)] = v

    def size(self, r):
        return self.store[(r.oid, 'size')]

    def storage(self, r):
        return self.store[(r.oid, 'st')]

    def sput(self, r, idx, v):
        base, log = self.store[(r.oid, 'st')]
        idx = norm(idx)
        if log and log[-1][0] == 'w' and veq(log[-1][1], idx):
            log = log[:-1]
        self.store[(r.oid, 'st')] = (base, log + (('w', idx, v),))

    def scopy(self, r, dst, count, st, src):
        base, log = self.store[(r.oid, 'st')]
        self.store[(r.oid, 'st')] = (base, log + (('cp', norm(dst), norm(count), st, norm(src)),))

    def sget(self, r, idx):
        return self.read(self.store[(r.oid, 'st')], norm(idx))

    def base_read(self, base, idx):
        k = base[0]
        if k == 'nil':
            return None
        if k == 'zero':
            return 0
        if k == 'chr0':
            return CharV(0)
        if k == 'lit':
            if sym(idx):
                items = base[1]
                for i in range(len(items)):
                    if self.fork(idx == i + 1):
                        return items[i]
                raise Infeasible()
            if 1 <= idx <= len(base[1]):
                return base[1][idx - 1]
            raise Unsupported('literal storage index')
        if k == 'fn':
            kind, F = base[1], base[2]
            it = z3.IntVal(idx) if not sym(idx) else idx
            self.add_term(it)
            t = F(it)
            if kind == 'opq':
                self.assume(t != NILV)
                return Opq(t)
            if kind == 'opqnil':
                return Opq(t)
            if kind == 'int':
                return t
            if kind == 'char':
                self.assume(z3.And(t >= 0, t <= 255))
                return CharV(t)
            if kind == 'byte':
                self.assume(z3.And(t >= 0, t <= 255))
                return t
            if callable(kind):
                return kind(self, t, it)
        raise Unsupported('storage base ' + str(k))

    def read(self, st, idx):
        base, log = st
        for i in range(len(log) - 1, -1, -1):
            e = log[i]
            if e[0] == 'w':
                if self.fork(eqi(e[1], idx)):
                    return e[2]
            elif e[0] == 'cp':
                _, dst, count, src, sidx = e
                if self.fork(And(norm(dst <= idx), norm(idx < dst + count))):
                    return self.read(src, norm(sidx + (idx - dst)))
            elif e[0] == 'r':
                _, n, k, writes, fi = e
                hits = []
                for wi, (ik, alts) in enumerate(writes):
                    a = norm(z3.substitute(ik, (k, z3.IntVal(0)))) if sym(ik) else ik
                    d = norm((z3.substitute(ik, (k, k + 1)) if sym(ik) else ik) - ik)
                    if sym(d):
                        raise Unsupported('read of a non-linear range write')
                    if d in (1, -1):
                        m = norm((idx - a) * d)
                        c = And(norm(m >= 0), norm(m < n))
                    else:
                        m = norm((idx - a) / z3.IntVal(d)) if sym(idx - a) else None
                        if m is None:
                            q = (idx - a)
                            m = q // d
                            c = And(q % d == 0, norm(z3.IntVal(m) >= 0), norm(m < n))
                        else:
                            c = And(norm((idx - a) == m * d), norm(m >= 0), norm(m < n))
                    cnd = Or(*[x for x, _ in alts]) if alts else False
                    ms = m if sym(m) else z3.IntVal(m)
                    cnd = norm(z3.substitute(cnd, (k, ms))) if sym(cnd) else cnd
                    if c is False:
                        continue
                    if self.fork(c):
                        self.add_term(ms)
                        if self.fork(cnd):
                            hits.append((ms, wi, alts))
                if hits:
                    best = hits[0]
                    for h in hits[1:]:
                        # later iteration wins; same iteration: later write wins
                        if self.fork(norm(h[0] >= best[0])):
                            best = h
                    ms, wi, alts = best
                    for j, (cc, val) in enumerate(alts):
                        ci = norm(z3.substitute(cc, (k, ms))) if sym(cc) else cc
                        if j == len(alts) - 1 or self.fork(ci):
                            if j == len(alts) - 1:
                                self.assume(ci)
                            return subst(val, [(k, ms)])
        return self.base_read(base, idx)

    # ---- values
    def class_of(self, v):
        if v is None:
            return 'UndefinedObject'
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return 'Boolean'
        if isinstance(v, int):
            return 'SmallInteger' if SMIN <= v <= SMAX else 'LargePositiveInteger' if v > 0 else 'LargeNegativeInteger'
        if isinstance(v, z3.ArithRef):
            return 'Integer'
        if isinstance(v, Ref):
            return self.cls_of(v)
        if isinstance(v, Sym):
            return 'Symbol'
        if isinstance(v, StrLit):
            return 'String'
        if isinstance(v, CharV):
            return 'Character'
        if isinstance(v, (Blk, OBlk, PyBlk)):
            return 'BlockClosure'
        if isinstance(v, FloatV):
            return 'FloatD'
        return None

    def truth(self, v):
        if v is None:
            raise STError('mustBeBoolean')
        if isinstance(v, Opq):
            raise Unsupported('opaque value as a condition')
        if not is_bool(v):
            raise STError('mustBeBoolean')
        return self.fork(v)

    def same(self, a, b):
        """logical identity of two values, as a formula"""
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('unknown value compared')
        if is_int(a) and is_int(b):
            return eqi(a, b)
        if is_bool(a) and is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return norm(a == b)
        if isinstance(a, Opq) and isinstance(b, Opq):
            return norm(a.t == b.t)
        if isinstance(a, Opq) and b is None:
            return norm(a.t == NILV)
        if isinstance(b, Opq) and a is None:
            return norm(b.t == NILV)
        if isinstance(a, CharV) and isinstance(b, CharV):
            return eqi(a.c, b.c)
        if isinstance(a, StrLit) and isinstance(b, StrLit):
            return a is b
        if isinstance(a, (Blk, OBlk, PyBlk)):
            return a is b or veq(a, b) if isinstance(a, Blk) and isinstance(b, Blk) else a is b
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            return False
        if type(a) is not type(b):
            return False
        return a == b

    def equal(self, a, b):
        """the = of opaque elements: an equivalence relation"""
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.t.eq(b.t):
                return True
            return norm(EQC(a.t) == EQC(b.t))
        if isinstance(a, Opq) or isinstance(b, Opq):
            o = a if isinstance(a, Opq) else b
            x = b if isinstance(a, Opq) else a
            if x is None:
                return norm(o.t == NILV)
            raise Unsupported('= of an opaque element and %r' % (x,))
        return None

    # ---- evaluation
    def lookup_var(self, name, frame):
        f = frame
        while f is not None:
            if name in f.names:
                return ('cell', (f.id, name))
            f = f.outer
        recv = frame.recv
        if isinstance(recv, Ref) and (recv.oid, '.' + name) in self.store:
            return ('cell', (recv.oid, '.' + name))
        return None

    def getvar(self, name, frame):
        if name == 'self' or name == 'super':
            return frame.recv
        if name == 'nil':
            return None
        if name == 'true':
            return True
        if name == 'false':
            return False
        r = self.lookup_var(name, frame)
        if r is not None:
            v = self.store.get(r[1])
            if isinstance(v, Poison) and hasattr(v, 'resolve'):
                v = v.resolve(self)
                self.store[r[1]] = v
            if isinstance(v, Poison):
                raise Unsupported('value of %s after a loop: %s' % (name, v.why))
            return v
        # Fraction's components of a literal etc.
        if isinstance(frame.recv, CharV) and name == 'codePoint':
            return frame.recv.c
        # class variables
        meth = frame.home.meth
        n = meth.cls if meth is not None else None
        while n is not None:
            c = self.world.classes.get(n)
            if c is None:
                break
            if name in c.cvars or name in getattr(c, 'cvnames', ()):
                return self.cvar(n, name)
            n = c.sup
        if '.' in name:
            last = name.split('.')[-1]
            if last in self.world.classes:
                return Cls(last)
        if name in self.world.classes:
            return Cls(name)
        if name in ('Smalltalk', 'Processor', 'Transcript', 'Character', 'Symbol', 'thisContext'):
            return GlobalObj(name)
        if isinstance(frame.recv, Cls):
            # class-side instance variable
            k = ('civ', frame.recv.name, name)
            if k in self.store:
                return self.store[k]
            raise Unsupported('class-side variable %s' % name)
        raise Unsupported('variable %s' % name)

    def cvar(self, cls, name):
        k = ('cvar', cls, name)
        if k in self.store:
            return self.store[k]
        h = self.cvar_values.get((cls, name))
        if h is None:
            e = self.world.classes[cls].cvars.get(name)
            if isinstance(e, Lit):
                v = self.literal(e.v)
                return v
            raise Unsupported('class variable %s of %s' % (name, cls))
        v = h(self)
        self.store[k] = v
        return v

    def setvar(self, name, frame, v):
        r = self.lookup_var(name, frame)
        if r is None:
            meth = frame.home.meth
            n = meth.cls if meth is not None else None
            while n is not None:
                c = self.world.classes.get(n)
                if c is None:
                    break
                if name in c.cvars:
                    self.store[('cvar', n, name)] = v
                    return
                n = c.sup
            raise Unsupported('assignment to %s' % name)
        self.store[r[1]] = v

    def literal(self, v):
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, (int, Sym, CharV, Cls)):
            return v
        if isinstance(v, str):
            return StrLit(v)
        if isinstance(v, FloatLit):
            return FloatV(v.text)
        if isinstance(v, LitArr):
            items = tuple(self.literal(x) for x in v.items)
            return self.new_object('Array', len(items), ('lit', items))
        if isinstance(v, LitBytes):
            return self.new_object('ByteArray', len(v.items), ('lit', tuple(v.items)))
        if isinstance(v, Binding):
            raise Unsupported('binding literal')
        if isinstance(v, ScaledLit):
            raise Unsupported('ScaledDecimal literal')
        if type(v).__name__ == 'Fraction':
            raise Unsupported('fraction literal')
        return v

    def mat(self, v):
        """materialise a string literal as an object"""
        if isinstance(v, StrLit):
            items = tuple(CharV(b) for b in v.s.encode('latin-1', 'replace'))
            return self.new_object('String', len(items), ('lit', items))
        return v

    def eval(self, e, frame):
        t = type(e)
        if t is Lit:
            return self.literal(e.v)
        if t is Var:
            return self.getvar(e.name, frame)
        if t is Assign:
            v = self.eval(e.e, frame)
            self.setvar(e.name, frame, v)
            return v
        if t is Block:
            return Blk(e, frame)
        if t is Ret:
            v = self.eval(e.e, frame)
            raise RetEx(frame.home, v)
        if t is ArrayE:
            items = tuple(self.eval(x, frame) for x in e.es)
            return self.new_object('Array', len(items), ('lit', items))
        if t is Cascade:
            r = self.eval(e.r, frame)
            sup = isinstance(e.r, Var) and e.r.name == 'super'
            v = None
            for sel, args in e.msgs:
                a = [self.eval(x, frame) for x in args]
                v = self.send(r, sel, a, frame if sup else None, e)
            return v
        if t is Send:
            sup = isinstance(e.r, Var) and e.r.name == 'super'
            if not sup and type(e.r) is Block and e.sel in ('whileTrue:', 'whileFalse:', 'whileTrue', 'whileFalse', 'repeat'):
                return self.eval_while(e, frame)
            r = self.eval(e.r, frame)
            a = [self.eval(x, frame) for x in e.args]
            return self.send(r, e.sel, a, frame if sup else None, e)
        raise Unsupported('node %s' % t.__name__)

    def body(self, stmts, frame):
        v = None
        for s in stmts:
            v = self.eval(s, frame)
        return v

    def new_frame(self, names, outer, recv, home, meth):
        self.noid += 1
        f = Frame(self.noid, names, outer, recv, home, meth)
        return f

    def call_block(self, b, args):
        if isinstance(b, PyBlk):
            if len(args) != b.nargs:
                raise STError('WrongArgumentCount')
            return b.fn(*args)
        if isinstance(b, OBlk):
            return self.call_opaque(b, args)
        n = b.node
        if len(args) != len(n.params):
            raise STError('WrongArgumentCount')
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth = 0
            raise Unsupported('recursion depth')
        f = self.new_frame(set(n.params) | set(n.temps), b.frame, b.frame.recv, b.frame.home, b.frame.meth)
        for p, a in zip(n.params, args):
            self.store[(f.id, p)] = a
        for p in n.temps:
            self.store[(f.id, p)] = None
        v = self.body(n.body, f)
        self.depth -= 1
        return v

    def oblk(self, name, kind, nargs, fn=None, traced=True):
        b = OBlk(name, kind, nargs, fn, traced)
        self.trace_cell(b)
        return b

    def trace_cell(self, b):
        k = ('trace', b.name)
        if (k, 'size') not in self.store:
            self.store[(k, 'size')] = 0
            self.store[(k, 'st')] = (('nil',), ())
        return Ref(k)

    def to_v(self, a):
        """an opaque view of a value, for uninterpreted functions"""
        if isinstance(a, Opq):
            return a.t
        if is_int(a):
            return a if sym(a) else z3.IntVal(a)
        if isinstance(a, CharV):
            return a.c if sym(a.c) else z3.IntVal(a.c)
        if a is None:
            return NILV
        if is_bool(a):
            return a if sym(a) else z3.BoolVal(a)
        raise Unsupported('argument of an unknown block: %r' % (a,))

    def call_opaque(self, b, args):
        if len(args) != b.nargs:
            raise STError('WrongArgumentCount')
        for a in args:
            if isinstance(a, Poison):
                raise Unsupported('poison argument')
        if b.traced:
            tr = self.trace_cell(b)
            n = self.store[(tr.oid, 'size')]
            self.sput(tr, norm(n + 1), args[0] if len(args) == 1 else tuple(args))
            self.store[(tr.oid, 'size')] = norm(n + 1)
        if b.fn is not None:
            return b.fn(self, *args)
        return self.opaque_result(b, args)

    def opaque_result(self, b, args):
        if b.kind == 'none':
            return None
        vs = [self.to_v(a) for a in args]
        so = {'pred': z3.BoolSort(), 'opq': V, 'int': Int, 'char': Int}[b.kind]
        F = z3.Function(b.name, *([v.sort() for v in vs] + [so]))
        r = F(*vs) if vs else z3.Const(b.name, so)
        if b.kind == 'opq':
            self.assume(r != NILV)
            return Opq(r)
        if b.kind == 'char':
            self.assume(z3.And(r >= 0, r <= 255))
            return CharV(r)
        return r

    # ---- method calls
    def run_method(self, m, recv, args):
        self.depth += 1
        self.visited.add('%s%s>>%s' % (m.cls, ' class' if m.meta else '', m.sel))
        if self.depth > self.max_depth:
            self.depth = 0
            raise Unsupported('recursion depth (%s>>%s)' % (m.cls, m.sel))
        if m.primitive:
            from .prims import PRIMS
            pf = PRIMS.get(m.primitive)
            if pf is None:
                raise Unsupported('primitive %s' % m.primitive)
            self.trusted.add('primitive ' + m.primitive)
            r = pf(self, recv, args)
            if r is not FAIL:
                self.depth -= 1
                return r
        f = self.new_frame(set(m.params) | set(m.temps), None, recv, None, m)
        for p, a in zip(m.params, args):
            self.store[(f.id, p)] = a
        for p in m.temps:
            self.store[(f.id, p)] = None
        d = self.depth
        try:
            self.body(m.body, f)
            v = recv
        except RetEx as r:
            if r.home.id != f.id:
                raise
            v = r.v
        self.depth = d - 1
        return v

    def send(self, recv, sel, args, supframe=None, node=None):
        from . import prims
        if isinstance(recv, Poison):
            raise Unsupported('send to an unknown value')
        if supframe is None:
            r = prims.builtin(self, recv, sel, args)
            if r is not prims.NONE:
                return r
        if isinstance(recv, StrLit):
            recv = self.mat(recv)
        meta = isinstance(recv, Cls)
        if supframe is not None:
            m0 = supframe.home.meth
            c = self.world.classes[m0.cls].sup
            start = c
            r = prims.builtin_super(self, recv, sel, args)
            if r is not prims.NONE:
                return r
        else:
            start = recv.name if meta else self.class_of(recv)
        if start is None:
            raise Unsupported('send #%s to %r' % (sel, recv))
        if meta:
            h = self.find_contract(start, sel, True)
        else:
            h = self.find_contract(start, sel, False)
        if h is not None and supframe is None:
            r = h(self, recv, args)
            if r is not prims.NONE:
                return r
        if not meta and start == 'Integer' and sym(recv):
            start = self.int_class(recv, sel)
        m = self.world.lookup(start, sel, meta)
        if m is None:
            raise STError('doesNotUnderstand', '%s #%s' % (start, sel))
        return self.run_method(m, recv, args)

    def int_class(self, v, sel):
        """the class of a symbolic integer, decided only when it matters"""
        own = [c for c in ('SmallInteger', 'LargePositiveInteger', 'LargeNegativeInteger', 'LargeInteger')
               if c in self.world.classes and sel in self.world.classes[c].methods]
        if not own:
            return 'Integer'
        if self.fork(z3.And(v >= SMIN, v <= SMAX)):
            return 'SmallInteger'
        if self.fork(v > 0):
            return 'LargePositiveInteger'
        return 'LargeNegativeInteger'

    def find_contract(self, cls, sel, meta):
        if not self.contracts:
            return None
        n = cls
        while n is not None:
            h = self.contracts.get((n, sel, meta))
            if h is not None:
                return h
            c = self.world.classes.get(n)
            if c is None:
                return None
            # an override below the contract's class hides it
            if sel in (c.cmethods if meta else c.methods):
                return None
            n = c.sup
        return None

    def outcome(self, fn):
        """run fn on this path -> ('value', v) or ('error', name)"""
        try:
            return 'value', fn()
        except STError as e:
            return 'error', e
        except RetEx as e:
            return 'error', STError('non-local return from a dead method')

    # ---- loops
    def eval_while(self, e, frame):
        cb = Blk(e.r, frame)
        sel = e.sel
        if sel in ('whileTrue:', 'whileFalse:'):
            bb = self.eval(e.args[0], frame)
            want = sel == 'whileTrue:'
            self.loop(lambda: (lambda c: c if want else Not(self.asbool(c)))(self.call_block(cb, [])),
                      lambda: self.send(bb, 'value', []), e)
        elif sel in ('whileTrue', 'whileFalse'):
            want = sel == 'whileTrue'
            self.loop(lambda: (lambda c: c if want else Not(self.asbool(c)))(self.call_block(cb, [])), lambda: None, e)
        else:
            self.loop(lambda: True, lambda: self.call_block(cb, []), e)
        return None

    def asbool(self, v):
        if not is_bool(v):
            if isinstance(v, Opq):
                raise Unsupported('opaque condition')
            raise STError('mustBeBoolean')
        return v

    def to_do(self, start, stop, step, fn, node=None):
        """start to: stop by: step do: fn (fn: Python callable on the index)"""
        if sym(step):
            up = self.fork(step > 0)
        else:
            if step == 0:
                raise STError('InvalidArgument')
            up = step > 0
        self.noid += 1
        cell = (self.noid, 'todo')
        self.store[cell] = start

        def cond():
            i = self.store[cell]
            return norm(i <= stop) if up else norm(i >= stop)

        def body():
            i = self.store[cell]
            fn(i)
            self.store[cell] = norm(self.store[cell] + step)
        self.loop(cond, body, node)

    def loop(self, cond, body, node=None):
        from .loops import run_loop
        run_loop(self, cond, body, node)
