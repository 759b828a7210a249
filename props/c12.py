"""C12: Intervals enumerate exactly the arithmetic progression they denote."""
from .stlib import *

UNITS = []


def mk(e, mode):
    a, b = e.fresh_int('start'), e.fresh_int('stop')
    if mode == 'one':
        st = 1
    elif mode == 'minus one':
        st = -1
    else:
        st = e.fresh_int('step')
        e.assume(st > 0 if mode == 'up' else st < 0)
    r = e.new_object('Interval', 0, None, {'start': a, 'stop': b, 'step': st})
    return r, a, b, st


def count_is(n, a, b, st, mode):
    """n is the number of elements start + (i-1)*step not past stop"""
    up = mode in ('one', 'up')
    inside = (lambda x: x <= b) if up else (lambda x: x >= b)
    return Or(And(norm(n == 0), Not(norm(inside(a)))),
              And(norm(n >= 1), norm(inside(a + (n - 1) * st)), Not(norm(inside(a + n * st)))))


def empty(a, b, mode):
    return norm(a > b) if mode in ('one', 'up') else norm(a < b)


def op(name, sel, mkargs, post, modes=('one', 'minus one', 'up', 'down')):
    for mode in modes:
        def spec(e, mode=mode):
            r, a, b, st = mk(e, mode)
            args = mkargs(e)
            k, v = e.outcome(lambda: e.send(r, sel, args))
            post(e, args, k, v, a, b, st, mode)
            e.check('the receiver is unchanged', And(e.same(e.get(r, 'start'), a), e.same(e.get(r, 'stop'), b), e.same(e.get(r, 'step'), st)))
        UNITS.append(('%s step %s' % (name, mode), spec))


def value(e, k, v):
    if k != 'value':
        e.fail('answers normally', detail='error %s %s' % (v.name, v.info))
        return False
    return True


def seq(e, got, a, b, st, mode, f=lambda x: x, rev=False, same=None):
    """got is the sequence of f applied to the elements"""
    if not is_int(got.n):
        return e.fail('number of elements')
    e.check('number of elements', count_is(got.n, a, b, st, mode))
    if not e.fork(norm(got.n >= 1)):
        return
    j = e.skolem('j', 1)
    e.assume(norm(j <= got.n))
    i = norm(got.n + 1 - j) if rev else j
    e.check('elements', (same or e.same)(got[j], f(norm(a + (i - 1) * st))))


def no(e):
    return []


def inrange(i, a, b, st, mode):
    x = norm(a + (i - 1) * st)
    return And(norm(i >= 1), norm(x <= b) if mode in ('one', 'up') else norm(x >= b))


def build():
    op('size', 'size', no, lambda e, g, k, v, *p: value(e, k, v) and e.check('size', count_is(v, *p)))
    op('isEmpty', 'isEmpty', no, lambda e, g, k, v, a, b, st, m: value(e, k, v) and e.check('isEmpty', e.same(v, empty(a, b, m))))
    op('notEmpty', 'notEmpty', no, lambda e, g, k, v, a, b, st, m: value(e, k, v) and e.check('notEmpty', e.same(v, Not(empty(a, b, m)))))

    def at(e, g, k, v, a, b, st, m):
        i = g[0]
        if k == 'value':
            e.check('an answer only inside the bounds', inrange(i, a, b, st, m))
            e.check('the element', e.same(v, norm(a + (i - 1) * st)))
        else:
            e.check('an error only outside the bounds', Not(inrange(i, a, b, st, m)))
    op('at:', 'at:', lambda e: [e.fresh_int('i')], at)

    def first(e, g, k, v, a, b, st, m):
        if k == 'value':
            e.check('an answer only when not empty', Not(empty(a, b, m)))
            e.check('the element', e.same(v, a))
        else:
            e.check('an error only when empty', empty(a, b, m))
    op('first', 'first', no, first)

    def last(e, g, k, v, a, b, st, m):
        if k == 'value':
            e.check('an answer only when not empty', Not(empty(a, b, m)))
            up = m in ('one', 'up')
            e.check('the element is within the limit', norm(v <= b) if up else norm(v >= b))
            e.check('the next would pass it', norm(v + st > b) if up else norm(v + st < b))
            e.check('it is reachable from start', norm((v - a) % st == 0) if not sym(st) else norm((v - a) % st == 0))
        else:
            e.check('an error only when empty', empty(a, b, m))
    op('last', 'last', no, last)

    def trace(e, blk):
        t = Ref(('trace', blk.name))
        return Seq(e.size(t), lambda j: e.sget(t, j))
    op('do:', 'do:', lambda e: [e.oblk('blk', 'none', 1)],
       lambda e, g, k, v, *p: value(e, k, v) and seq(e, trace(e, g[0]), *p))
    op('reverseDo:', 'reverseDo:', lambda e: [e.oblk('blk', 'none', 1)],
       lambda e, g, k, v, *p: value(e, k, v) and seq(e, trace(e, g[0]), *p, rev=True))
    op('keysAndValuesDo:', 'keysAndValuesDo:', lambda e: [e.oblk('blk', 'none', 2)],
       lambda e, g, k, v, *p: value(e, k, v) and seq(e, Seq(trace(e, g[0]).n, lambda j: trace(e, g[0])[j][1]), *p))

    def coll(e, g, k, v, a, b, st, m):
        if value(e, k, v):
            e.check('an Array', e.cls_of(v) == 'Array')
            F = z3.Function('blk', Int, V)
            seq(e, view(e, v), a, b, st, m, f=lambda x: Opq(F(x if sym(x) else z3.IntVal(x))))
    op('collect:', 'collect:', lambda e: [e.oblk('blk', 'opq', 1)], coll)

    def incl(e, g, k, v, a, b, st, m):
        if not value(e, k, v):
            return
        x = g[0]
        if m in ('one', 'minus one'):
            lo, hi = (a, b) if m == 'one' else (b, a)
            e.add_term(norm(x - a + 1) if m == 'one' else norm(a - x + 1))
            e.check('includes:', e.same(v, And(norm(x >= lo), norm(x <= hi))))
    op('includes:', 'includes:', lambda e: [e.fresh_int('x')], incl, modes=('one', 'minus one'))

    # results that are intervals themselves
    def sub(e, v):
        """the progression an answered Interval denotes"""
        return e.get(v, 'start'), e.get(v, 'stop'), e.get(v, 'step')

    def rev(e, g, k, v, a, b, st, m):
        if not value(e, k, v):
            return
        if e.cls_of(v) == 'Interval':
            a2, b2, s2 = sub(e, v)
            if e.fork(empty(a, b, m)):
                e.check('reverse of an empty interval is empty',
                        Or(And(norm(s2 > 0), norm(a2 > b2)), And(norm(s2 < 0), norm(a2 < b2))))
                return
            n = e.skolem('n', 1)
            e.assume(count_is(n, a, b, st, m))
            e.check('step', norm(s2 == -st))
            e.check('starts at the last element', norm(a2 == a + (n - 1) * st))
            e.check('ends at the first element', norm(b2 == a))
        else:
            seq(e, view(e, v), a, b, st, m, rev=True)
    op('reverse', 'reverse', no, rev)

    def copy(e, g, k, v, a, b, st, m):
        i, j = g
        ok = Or(norm(j == i - 1), And(norm(i >= 1), norm(i <= j), inrange(j, a, b, st, m)))
        if k != 'value':
            e.check('an error only for a range outside the bounds', Not(ok))
            return
        e.check('an answer only for a range inside the bounds', ok)
        if e.cls_of(v) == 'Interval':
            a2, b2, s2 = sub(e, v)
            if e.fork(norm(j < i)):
                e.check('empty copy', Or(And(norm(s2 > 0), norm(a2 > b2)), And(norm(s2 < 0), norm(a2 < b2))))
                return
            e.check('copy: step', norm(s2 == st))
            e.check('copy: first', norm(a2 == a + (i - 1) * st))
            up = m in ('one', 'up')
            e.check('copy: last', norm(b2 >= a + (j - 1) * st) if up else norm(b2 <= a + (j - 1) * st))
            e.check('copy: nothing after the last', norm(b2 < a + j * st) if up else norm(b2 > a + j * st))
        else:
            seq_is(e, 'copy', view(e, v), norm(j - i + 1), [(None, lambda q: norm(a + (i + q - 2) * st))])
    op('copyFrom:to:', 'copyFrom:to:', lambda e: [e.fresh_int('i'), e.fresh_int('j')], copy)

    # Number>>to:collect:, to:by:collect: and the interval constructors
    for sel, args in (('to:', 1), ('to:by:', 2)):
        def spec(e, sel=sel, args=args):
            a, b, st = e.fresh_int('a'), e.fresh_int('b'), e.fresh_int('st')
            e.assume(st != 0)
            k, v = e.outcome(lambda: e.send(a, sel, [b, st][:args]))
            if value(e, k, v):
                e.check('the interval denotes start, stop and step', And(e.same(e.get(v, 'start'), a), e.same(e.get(v, 'stop'), b),
                                                                        e.same(e.get(v, 'step'), st if args == 2 else 1)))
        UNITS.append(('Number ' + sel, spec))
    for cls in ('Interval',):
        for sel, args in (('from:to:', 2), ('from:to:by:', 3)):
            def spec(e, sel=sel, args=args):
                xs = [e.fresh_int('a'), e.fresh_int('b'), e.fresh_int('st')]
                e.assume(xs[2] != 0)
                k, v = e.outcome(lambda: e.send(Cls('Interval'), sel, xs[:args]))
                if value(e, k, v):
                    e.check('the interval denotes start, stop and step', And(e.same(e.get(v, 'start'), xs[0]), e.same(e.get(v, 'stop'), xs[1]),
                                                                            e.same(e.get(v, 'step'), xs[2] if args == 3 else 1)))
            UNITS.append(('Interval class ' + sel, spec))

    def lemma(e):
        a, b, st, n, m = (e.fresh_int(x) for x in ('a', 'b', 's', 'n', 'm'))
        e.assume(st > 0)
        e.assume(count_is(n, a, b, st, 'up'))
        e.assume(count_is(m, a, b, st, 'up'))
        e.assume(n < m)
        # instance of monotonicity of multiplication: (m-1-n) >= 0 and st > 0
        e.assume((m - 1 - n) * st >= 0)
        e.check('the number of elements is unique', False)
    UNITS.append(('lemma uniqueness', lemma))


def main():
    build()
    from . import d_interval
    return main_st('C12', [(n, st_unit(world(), f)) for n, f in UNITS], driver=d_interval.run,
                   assumptions=['integer arithmetic on the elements is exact (C02, C17); basicAt:put: obeys its contract (C01)',
                                'first, last and step are Integers (floating-point intervals are outside the statement)', 'loops terminate'])
