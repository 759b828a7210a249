"""Writing contracts over the Smalltalk sources."""
import time
import z3
from .engine import (Engine, Unsupported, Infeasible, STError, Opq, Ref, Cls, Blk, OBlk, PyBlk, StrLit, And, Or, Not, Implies, norm, eqi,
                     is_int, is_bool, sym, V, NILV, EQC, RANK)
from .parser import Sym, CharV

Int = z3.IntSort()


def st_unit(world, spec, bound=4, contracts=None, cvars=None, cands=(), setup=None, max_paths=4000, force_bounded=False, goal_ms=8000):
    """A unit for common.check: spec(eng) is run on every path."""
    def fn(r, deadline):
        e = Engine(world, deadline, bound, max_paths)
        e.contracts = dict(contracts or {})
        e.cvar_values = dict(cvars or {})
        e.cands = list(cands)
        e.force_bounded = force_bounded
        e.goal_ms = goal_ms
        if setup:
            setup(e)
        err = None
        try:
            e.explore(spec)
        finally:
            merged = {}
            for o in e.obls:
                d = dict(name=o.name, status=o.status, secs=round(o.secs, 4), backend=o.backend, detail=o.detail)
                if o.status != 'proved':
                    d['model'] = mdict(o.model)
                    d['goal'] = o.goal
                r.obls.append(d)
            r.functions = sorted(e.visited)
            r.trusted = sorted(e.trusted)
            r.bounded = sorted(e.bounded)
            r.notes = sorted(e.notes)
            r.paths = e.npaths
            r.queries = e.nqueries
        if not r.obls:
            raise Unsupported('no obligation was generated')
    return fn


def mdict(m):
    if m is None:
        return None
    d = {}
    for x in m.decls():
        if x.arity() == 0:
            d[x.name()] = str(m[x])[:100]
        if len(d) >= 40:
            break
    return d


class Seq:
    """A symbolic sequence: length and element function."""
    def __init__(self, n, el):
        self.n = n
        self.el = el

    def __getitem__(self, j):
        return self.el(j)


def elf(e, name, kind='opq'):
    so = V if kind.startswith('opq') else Int
    F = z3.Function(name, Int, so)
    return F


def mk_indexed(e, cls, name, kind='opq', n=None, lo=0):
    """an instance of an indexable class of any size with arbitrary elements"""
    n = e.fresh_int(name + '_n', lo) if n is None else n
    F = elf(e, name + '_el', kind)
    r = e.new_object(cls, n, ('fn', kind, F))
    st = e.storage(r)
    return r, Seq(n, lambda j: e.read(st, norm(j)))


def mk_oc(e, name='o', cls='OrderedCollection', kind='opq', lo=0):
    f = e.fresh_int(name + '_first', 1)
    n = e.fresh_int(name + '_n', lo)
    b = e.fresh_int(name + "_cap", 0)
    e.assume(f + n - 1 <= b)
    F = elf(e, name + '_el', kind)
    r = e.new_object(cls, b, ('fn', kind, F), {'firstIndex': f, 'lastIndex': norm(f + n - 1)})
    st = e.storage(r)
    return r, Seq(n, lambda j: e.read(st, norm(f + j - 1)))


def oc_view(e, r):
    f, l = e.get(r, 'firstIndex'), e.get(r, 'lastIndex')
    st = e.storage(r)
    return Seq(norm(l - f + 1), lambda j: e.read(st, norm(f + j - 1)))


def oc_inv(e, r, nm):
    f, l, b = e.get(r, 'firstIndex'), e.get(r, 'lastIndex'), e.size(r)
    if not (is_int(f) and is_int(l) and is_int(b)):
        e.fail(nm + ': invariant of the representation')
        raise Infeasible()
    e.check(nm + ': invariant of the representation', And(norm(f >= 1), norm(l >= f - 1), norm(l <= b)))


def ix_view(e, r):
    st = e.storage(r)
    return Seq(e.size(r), lambda j: e.read(st, norm(j)))


def is_seqref(e, v):
    return isinstance(v, Ref)


def view(e, v):
    """the abstract sequence a result object denotes"""
    if isinstance(v, StrLit):
        v = e.mat(v)
    if isinstance(v, Sym):
        items = [CharV(ord(c)) for c in v.s]
        return Seq(len(items), lambda j: e.base_read(('lit', tuple(items)), j))
    if not isinstance(v, Ref):
        raise STError('not a sequence: %r' % (v,))
    c = e.cls_of(v)
    if e.world.inherits(c, 'OrderedCollection'):
        return oc_view(e, v)
    if e.world.inherits(c, 'Interval'):
        a, b, s = e.get(v, 'start'), e.get(v, 'stop'), e.get(v, 'step')
        if all(is_int(x) and not sym(x) for x in (a, b, s)):
            items = list(range(a, b + (1 if s > 0 else -1), s))
            return Seq(len(items), lambda j: e.base_read(('lit', tuple(items)), j))
        if s == 1:
            n = norm(b - a + 1)
            return Seq(n if e.fork(norm(n >= 0)) else 0, lambda j: norm(a + j - 1))
        raise Unsupported('interval view')
    return ix_view(e, v)


def seq_is(e, nm, got, n, pieces, same=None):
    """got: Seq; n: expected length; pieces: [(cond(j), value(j))...], the last
    one unconditional"""
    same = same or e.same
    if not is_int(got.n):
        e.fail(nm + ': size')
        return
    if not e.check(nm + ': size', norm(got.n == n)):
        e.assume(norm(got.n == n))
    if not e.fork(norm(n >= 1)):
        return
    j = e.skolem('j', 1)
    e.assume(norm(j <= n))
    x = got[j]
    for c, v in pieces:
        if c is None or e.fork(norm(c(j))):
            y = v(j)
            try:
                g = same(x, y)
            except Unsupported:
                raise
            e.check(nm + ': elements', g, detail=None if not isinstance(g, bool) or g else '%r instead of %r' % (x, y))
            return


def seq_eq(e, nm, got, want):
    seq_is(e, nm, got, want.n, [(None, want.el)])


def unchanged(e, nm, r, old):
    seq_is(e, nm, view(e, r), old.n, [(None, old.el)])


def expect_value(e, nm, k, v, ok=None):
    """the outcome must be a value; ok: condition under which an error is the
    demanded outcome is not met"""
    if k == 'value':
        return True
    if ok is None:
        e.fail(nm + ': no error', detail='error %s %s' % (v.name, v.info))
    else:
        e.check(nm + ': error only when demanded', Not(ok), detail='error %s %s' % (v.name, v.info))
    return False
