"""C12 on the real VM: all intervals with bounds in -7..7 and steps in -4..4, and
boundaries of the SmallInteger range."""
from common.stdrive import st_int


def seqof(a, b, s):
    r = []
    x = a
    while (x <= b) if s > 0 else (x >= b):
        r.append(x)
        x += s
    return r


def pr(xs):
    return '(%s)' % ''.join('%d ' % x for x in xs)


SETUP = '''
Object subclass: VQI [
  VQI class >> a: a b: b s: s [ | i w n |
    i := a to: b by: s. w := WriteStream on: String new.
    w print: i size; space; print: i isEmpty; space; print: i notEmpty; space.
    i do: [:e | w print: e; space]. w nextPut: $/.
    i reverseDo: [:e | w print: e; space]. w nextPut: $/.
    w print: (i collect: [:e | e * 2]); nextPut: $/; print: i asArray; nextPut: $/; print: i asOrderedCollection asArray; nextPut: $/.
    w print: i reverse asArray; nextPut: $/.
    w print: ([i first] on: Error do: [:e | e return: #E]); space; print: ([i last] on: Error do: [:e | e return: #E]); nextPut: $/.
    n := i size.
    -1 to: n + 2 do: [:k | w print: ([i at: k] on: Error do: [:e | e return: #E]); space]. w nextPut: $/.
    a - 2 to: b + 2 do: [:k | (i includes: k) ifTrue: [w nextPut: $y] ifFalse: [w nextPut: $n]]. w nextPut: $/.
    1 to: n do: [:p | p - 1 to: n + 1 do: [:q | w print: ([(i copyFrom: p to: q) asArray] on: Error do: [:e | e return: #E])]].
    w nextPut: $/; print: (i inject: 0 into: [:x :y | x + y]); nextPut: $/.
    i keysAndValuesDo: [:k :v | w print: k; nextPut: $:; print: v; space].
    ^w contents ]
]
'''


def expect(a, b, s):
    x = seqof(a, b, s)
    n = len(x)
    o = '%d %s %s ' % (n, 'true' if not n else 'false', 'true' if n else 'false')
    o += ''.join('%d ' % e for e in x) + '/' + ''.join('%d ' % e for e in x[::-1]) + '/'
    o += pr([2 * e for e in x]) + '/' + pr(x) + '/' + pr(x) + '/' + pr(x[::-1]) + '/'
    o += ('%d %d' % (x[0], x[-1]) if n else '#E #E') + '/'
    o += ''.join(('%d ' % x[k - 1] if 1 <= k <= n else '#E ') for k in range(-1, n + 3)) + '/'
    o += ''.join('y' if k in x else 'n' for k in range(a - 2, b + 3)) + '/'
    for p in range(1, n + 1):
        for q in range(p - 1, n + 2):
            o += pr(x[p - 1:q]) if q <= n else '#E'
    o += '/%d/' % sum(x) + ''.join('%d:%d ' % (i + 1, e) for i, e in enumerate(x))
    return "'%s'" % o


def cases():
    out = []
    for a in range(-7, 8):
        for b in range(-7, 8):
            for s in (-4, -3, -2, -1, 1, 2, 3, 4, 20):
                if (a + b + s) % 2 == 0 or abs(a - b) < 3:
                    out.append(('VQI a: %s b: %s s: %s' % (st_int(a), st_int(b), st_int(s)), expect(a, b, s)))
    M = (1 << 62) - 1
    for a, b, s in ((M - 3, M, 1), (M - 3, M, 2), (M - 2, M + 3, 1), (M + 2, M - 3, -2), (-M - 1, -M + 2, 1), (-M + 1, -M - 4, -1),
                    (1 << 70, (1 << 70) + 5, 2), (M, M, 1), (M, M, -1)):
        out.append(('VQI a: %s b: %s s: %s' % (st_int(a), st_int(b), st_int(s)), expect(a, b, s)))
    return out


def run(s):
    from common.stdrive import run_cases
    return run_cases(s, cases(), SETUP, chunk=150)
