"""C10: OrderedCollection behaves as a growable sequence."""
from .stlib import *

UNITS = []


def op(name, sel, mkargs, want, lo=0, cls='OrderedCollection'):
    """want(e, n, old, args) -> dict(err=cond or None, n=, pieces=, ret=)"""
    def spec(e):
        r, old = mk_oc(e, cls=cls, lo=lo)
        args = mkargs(e, r, old)
        k, v = e.outcome(lambda: e.send(r, sel, args))
        w = want(e, old.n, old, args)
        err = w.get('err', False)
        if k != 'value':
            e.check('an error only for the arguments that demand one', err, detail='error %s %s' % (v.name, v.info))
            oc_inv(e, r, 'after an error')
            unchanged(e, 'after an error', r, old)
            return
        e.check('no answer for arguments that demand an error', Not(err))
        oc_inv(e, r, 'afterwards')
        seq_is(e, 'contents', view(e, r), w['n'], w['pieces'])
        if 'ret' in w:
            e.check('answer', e.same(v, w['ret']()))
        if 'post' in w:
            w['post'](v)
    UNITS.append((name, spec))


def same_all(n, old):
    return dict(n=n, pieces=[(None, old.el)])


def ins(n, old, at, x, m=1):
    """x inserted so that it occupies indices at..at+m-1"""
    return dict(n=norm(n + m), pieces=[(lambda j: And(norm(j >= at), norm(j < at + m)), x), (lambda j: j < at, old.el),
                                       (None, lambda j: old.el(norm(j - m)))])


def rem(n, old, at, m=1):
    return dict(n=norm(n - m), pieces=[(lambda j: j < at, old.el), (None, lambda j: old.el(norm(j + m)))])


X = lambda e, r, old: [e.fresh_opq('x')]
I = lambda e, r, old: [e.fresh_int('i')]


def build():
    for sel in ('add:', 'addLast:', 'basicAddLast:'):
        op(sel, sel, X, lambda e, n, old, a: dict(ins(n, old, norm(n + 1), lambda j: a[0]), ret=lambda: a[0]))
    op('addFirst:', 'addFirst:', X, lambda e, n, old, a: dict(ins(n, old, 1, lambda j: a[0]), ret=lambda: a[0]))
    op('add:afterIndex:', 'add:afterIndex:', lambda e, r, o: [e.fresh_opq('x'), e.fresh_int('i')],
       lambda e, n, old, a: dict(ins(n, old, norm(a[1] + 1), lambda j: a[0]), err=Or(norm(a[1] < 0), norm(a[1] > n)), ret=lambda: a[0]))
    op('add:beforeIndex:', 'add:beforeIndex:', lambda e, r, o: [e.fresh_opq('x'), e.fresh_int('i')],
       lambda e, n, old, a: dict(ins(n, old, a[1], lambda j: a[0]), err=Or(norm(a[1] < 1), norm(a[1] > n + 1)), ret=lambda: a[0]))
    op('at:', 'at:', I, lambda e, n, old, a: dict(same_all(n, old), err=Or(norm(a[0] < 1), norm(a[0] > n)), ret=lambda: old.el(a[0])))
    op('at:put:', 'at:put:', lambda e, r, o: [e.fresh_int('i'), e.fresh_opq('x')],
       lambda e, n, old, a: dict(n=n, pieces=[(lambda j: j == a[0], lambda j: a[1]), (None, old.el)],
                                 err=Or(norm(a[0] < 1), norm(a[0] > n)), ret=lambda: a[1]))
    none = lambda e, r, o: []
    op('size', 'size', none, lambda e, n, old, a: dict(same_all(n, old), ret=lambda: n))
    op('isEmpty', 'isEmpty', none, lambda e, n, old, a: dict(same_all(n, old), ret=lambda: norm(n == 0)))
    op('notEmpty', 'notEmpty', none, lambda e, n, old, a: dict(same_all(n, old), ret=lambda: norm(n > 0)))
    op('first', 'first', none, lambda e, n, old, a: dict(same_all(n, old), err=norm(n == 0), ret=lambda: old.el(1)))
    op('last', 'last', none, lambda e, n, old, a: dict(same_all(n, old), err=norm(n == 0), ret=lambda: old.el(n)))
    for sel in ('removeFirst', 'basicRemoveFirst'):
        op(sel, sel, none, lambda e, n, old, a: dict(rem(n, old, 1), err=norm(n == 0), ret=lambda: old.el(1)))
    for sel in ('removeLast', 'basicRemoveLast'):
        op(sel, sel, none, lambda e, n, old, a: dict(rem(n, old, n), err=norm(n == 0), ret=lambda: old.el(n)))
    for sel in ('removeAtIndex:', 'basicRemoveAtIndex:', 'removeIndex:'):
        if world().lookup('OrderedCollection', sel):
            op(sel, sel, I, lambda e, n, old, a: dict(rem(n, old, a[0]), err=Or(norm(a[0] < 1), norm(a[0] > n)), ret=lambda: old.el(a[0])))

    # do: and friends: the callback sees exactly the elements in order
    def trace(e, b, n, el):
        t = Ref(('trace', b.name))
        seq_is(e, 'elements seen by the block', Seq(e.size(t), lambda j: e.sget(t, j)), n, [(None, el)])
    op('do:', 'do:', lambda e, r, o: [e.oblk('blk', 'none', 1)],
       lambda e, n, old, a: dict(same_all(n, old), post=lambda v: trace(e, a[0], n, old.el)))
    op('reverseDo:', 'reverseDo:', lambda e, r, o: [e.oblk('blk', 'none', 1)],
       lambda e, n, old, a: dict(same_all(n, old), post=lambda v: trace(e, a[0], n, lambda j: old.el(norm(n + 1 - j)))))
    op('keysAndValuesDo:', 'keysAndValuesDo:', lambda e, r, o: [e.oblk('blk', 'none', 2)],
       lambda e, n, old, a: dict(same_all(n, old), post=lambda v: trace2(e, a[0], n, old.el)))
    op('doWithIndex:', 'doWithIndex:', lambda e, r, o: [e.oblk('blk', 'none', 2)],
       lambda e, n, old, a: dict(same_all(n, old), post=lambda v: trace2(e, a[0], n, old.el, True)))

    def trace2(e, b, n, el, rev=False):
        t = Ref(('trace', b.name))
        seq_is(e, 'elements seen by the block', Seq(e.size(t), lambda j: e.sget(t, j)), n, [(None, lambda j: (j, el(j)))],
               same=lambda x, y: And(e.same(x[1 if rev else 0], y[0]), e.same(x[0 if rev else 1], y[1])))

    # element search
    def idx(e, n, old, a, eq, v):
        if e.fork(norm(v == 0)):
            j = e.skolem('j', 1)
            e.assume(norm(j <= n))
            e.check('absent: no element matches', Not(eq(old.el(j), a[0])))
        else:
            e.check('answer is an index', And(norm(v >= 1), norm(v <= n)))
            e.check('the element matches', eq(old.el(v), a[0]))
            j = e.skolem('j', 1)
            e.assume(norm(j < v))
            e.check('no earlier element matches', Not(eq(old.el(j), a[0])))
    op('indexOf:', 'indexOf:', X, lambda e, n, old, a: dict(same_all(n, old), post=lambda v: idx(e, n, old, a, e.equal, v)))
    op('identityIndexOf:', 'identityIndexOf:', X, lambda e, n, old, a: dict(same_all(n, old), post=lambda v: idx(e, n, old, a, e.same, v)))
    incl('includes:', 'equal')
    incl('identityIncludes:', 'same')

    # bulk additions of another collection (an Array, an OrderedCollection) and of itself
    for src in ('Array', 'OrderedCollection', 'self'):
        def mk(e, r, old, src=src, ix=False):
            if src == 'self':
                c, s = r, old
            elif src == 'Array':
                c, s = mk_indexed(e, 'Array', 'src')
            else:
                c, s = mk_oc(e, 'src')
            e.hooks['src'] = s
            return [c, e.fresh_int('i')] if ix else [c]
        mki = lambda e, r, old, mk=mk: mk(e, r, old, ix=True)
        for sel in ('addAll:', 'addAllLast:', 'basicAddAllLast:'):
            op('%s %s' % (sel, src), sel, mk, lambda e, n, old, a: dict(
                ins(n, old, norm(n + 1), lambda j: e.hooks['src'].el(norm(j - n)), e.hooks['src'].n), ret=lambda: a[0]))
        op('addAllFirst: %s' % src, 'addAllFirst:', mk, lambda e, n, old, a: dict(
            ins(n, old, 1, lambda j: e.hooks['src'].el(j), e.hooks['src'].n), ret=lambda: a[0]))
        op('addAll:afterIndex: %s' % src, 'addAll:afterIndex:', mki, lambda e, n, old, a: dict(
            ins(n, old, norm(a[1] + 1), lambda j: e.hooks['src'].el(norm(j - a[1])), e.hooks['src'].n), ret=lambda: a[0],
            err=Or(norm(a[1] < 0), norm(a[1] > n))))
        op('addAll:beforeIndex: %s' % src, 'addAll:beforeIndex:', mki, lambda e, n, old, a: dict(
            ins(n, old, a[1], lambda j: e.hooks['src'].el(norm(j - a[1] + 1)), e.hooks['src'].n), ret=lambda: a[0],
            err=Or(norm(a[1] < 1), norm(a[1] > n + 1))))
    removal()
    creation()
    grow()


def incl(sel, kind):
    def spec(e):
        r, old = mk_oc(e)
        x = e.fresh_opq('x')
        eq = e.equal if kind == 'equal' else e.same
        k, v = e.outcome(lambda: e.send(r, sel, [x]))
        if not expect_value(e, sel, k, v):
            return
        if e.fork(e.asbool(v)):
            # some element matches: the search loop stopped at one; its index is a term
            # of the path, so the negation of every instance must be contradictory
            e.check('true only if an element matches', Or(*[And(norm(t >= 1), norm(t <= old.n), eq(old.el(t), x)) for t in cand_terms(e, old)]))
        else:
            j = e.skolem('j', 1)
            e.assume(norm(j <= old.n))
            e.check('false only if no element matches', Not(eq(old.el(j), x)))
        unchanged(e, 'receiver', r, old)
    UNITS.append((sel, spec))


def cand_terms(e, old):
    """index terms at which the sequence was read on this path"""
    f = z3.Int('o_first!1')
    out, seen = [], set()
    for p in e.pc:
        if isinstance(p, bool):
            continue
        st = [p]
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name() == 'o_el':
                out.append(norm(t.arg(0) - f + 1))
            st.extend(t.children())
    return out


def removal():
    """remove: takes out the first equal element, or signals NotFound"""
    for sel, kind in (('remove:', 'equal'), ('identityRemove:', 'same'), ('remove:ifAbsent:', 'equal'), ('identityRemove:ifAbsent:', 'same')):
        def spec(e, sel=sel, kind=kind):
            r, old = mk_oc(e)
            n = old.n
            x = e.fresh_opq('x')
            eq = e.equal if kind == 'equal' else e.same
            ab = sel.endswith('ifAbsent:')
            absent = e.oblk('absent', 'opq', 0)
            k, v = e.outcome(lambda: e.send(r, sel, [x] + ([absent] if ab else [])))
            missing = k != 'value'
            if ab:
                missing = norm(e.size(Ref(('trace', 'absent'))) != 0)
                if missing is True:
                    e.check('the block is evaluated once', norm(e.size(Ref(('trace', 'absent'))) == 1))
            if missing:
                if k != 'value':
                    e.check('NotFound is signalled', v.name in ('SystemExceptions.NotFound', 'NotFound'))
                j = e.skolem('j', 1)
                e.assume(norm(j <= n))
                e.check('absent only if no element matches', Not(eq(old.el(j), x)))
                unchanged(e, 'receiver', r, old)
                return
            oc_inv(e, r, 'afterwards')
            e.check('the removed element matches', eq(v, x))
            new = view(e, r)
            e.check('one element fewer', norm(new.n == n - 1))
            # the first match is at some index p: all before are kept, all after shifted
            ps = cand_terms(e, old)
            goods = []
            q = e.skolem('q', 1)
            e.assume(norm(q <= n - 1))
            y = new.el(q)
            for p in ps:
                goods.append(And(norm(p >= 1), norm(p <= n), eq(old.el(p), x),
                                 Implies(norm(q < p), And(e.same(y, old.el(q)), Not(eq(old.el(q), x)))),
                                 Implies(norm(q >= p), e.same(y, old.el(norm(q + 1))))))
            e.check('exactly the first match is taken out', Or(*goods))
        UNITS.append((sel, spec))


def creation():
    for sel in ('new', 'new:'):
        def spec(e, sel=sel):
            a = [e.fresh_int('cap', 0)] if sel == 'new:' else []
            k, v = e.outcome(lambda: e.send(Cls('OrderedCollection'), sel, a))
            if not expect_value(e, sel, k, v):
                return
            oc_inv(e, v, sel)
            e.check('a new collection is empty', norm(view(e, v).n == 0))
        UNITS.append((sel, spec))
    for cls in ('Array', 'OrderedCollection'):
        def spec2(e, cls=cls):
            c, s = mk_indexed(e, 'Array', 'src') if cls == 'Array' else mk_oc(e, 'src')
            k, v = e.outcome(lambda: e.send(Cls('OrderedCollection'), 'withAll:', [c]))
            if not expect_value(e, 'withAll:', k, v):
                return
            oc_inv(e, v, 'withAll:')
            seq_eq(e, 'withAll:', view(e, v), s)
        UNITS.append(('withAll: ' + cls, spec2))


def grow():
    """the growth and shrink helpers keep the contents"""

    op('shrink', 'shrink', lambda e, r, o: [], lambda e, n, old, a: same_all(n, old))

    for sel in ('makeRoomLastFor:', 'makeRoomFirstFor:'):
        if not world().lookup('OrderedCollection', sel):
            continue
        def spec(e, sel=sel):
            r, old = mk_oc(e)
            m = e.fresh_int('m', 0)
            k, v = e.outcome(lambda: e.send(r, sel, [m]))
            if not expect_value(e, sel, k, v):
                return
            oc_inv(e, r, sel)
            unchanged(e, sel, r, old)
        UNITS.append((sel, spec))


def main():
    w = world()
    build()
    from . import d_oc
    return main_st('C10', [(n, st_unit(w, f)) for n, f in UNITS], driver=d_oc.run,
                   assumptions=['arithmetic on indices is exact (C02); basicAt:, basicAt:put:, basicSize (C01), replaceFrom:to:with:startingAt: (C05) and become: (C28) obey their contracts',
                                'a block passed to an enumeration does not modify the receiver', 'loops terminate (partial correctness)'])
