"""C10 on the real VM: operation sequences against an abstract list (bounded
stand-in: SEQS sequences of up to 24 operations)."""
import random

SETUP = '''
Object subclass: VQO [
  |o r|
  init: n [ o := OrderedCollection new: n. r := WriteStream on: String new ]
  o [ ^o ]
  x: aBlock [ r nextPutAll: ([(aBlock value: o) printString] on: Error do: [:e | e return: 'E']); nextPut: $; ]
  res [ | w | w := WriteStream on: String new. o do: [:e | w print: e; space]. ^r contents, '/', w contents, (o inject: 0 into: [:a :b | a + 1]) printString ]
]
'''


def gen(rng, nops):
    cap = rng.choice([0, 1, 2, 3, 8, 16])
    a = []
    code = ['| q | q := VQO new. q init: %d.' % cap]
    out = []
    ctr = [10]

    def new():
        ctr[0] += 1
        return ctr[0]

    def arr(k):
        xs = [new() for _ in range(k)]
        return xs, '#(%s)' % ' '.join(map(str, xs))
    mode = rng.random()
    for _ in range(nops):
        k = rng.choice(['add', 'addL', 'addF', 'after', 'before', 'rf', 'rl', 'rx', 'at', 'put', 'all', 'allF', 'allA', 'rem', 'idx',
                        'first', 'last', 'size', 'rf', 'rl', 'add', 'addF', 'allL', 'addobj', 'incl', 'copy', 'rev', 'do']
                       + (['rf', 'rl', 'rx'] * 4 if mode > .6 else ['add', 'addF', 'all'] * 2 if mode < .3 else []))
        n = len(a)
        i = rng.randint(-1, n + 2)
        e, v = None, None
        if k in ('add', 'addL'):
            x = new(); e = '%s: %d' % ('add' if k == 'add' else 'addLast', x); a = a + [x]; v = x
        elif k == 'addF':
            x = new(); e = 'addFirst: %d' % x; a = [x] + a; v = x
        elif k == 'after':
            x = new(); e = 'add: %d afterIndex: %d' % (x, i)
            if 0 <= i <= n:
                a = a[:i] + [x] + a[i:]; v = x
            else:
                v = 'E'
        elif k == 'before':
            x = new(); e = 'add: %d beforeIndex: %d' % (x, i)
            if 1 <= i <= n + 1:
                a = a[:i - 1] + [x] + a[i - 1:]; v = x
            else:
                v = 'E'
        elif k == 'addobj' and a:
            x = new(); y = rng.choice(a); b = rng.random() < .5
            e = 'add: %d %s: %d' % (x, 'before' if b else 'after', y); p = a.index(y) + (0 if b else 1)
            a = a[:p] + [x] + a[p:]; v = x
        elif k == 'rf':
            e = 'removeFirst'
            v, a = (a[0], a[1:]) if a else ('E', a)
        elif k == 'rl':
            e = 'removeLast'
            v, a = (a[-1], a[:-1]) if a else ('E', a)
        elif k == 'rfn' and a:
            m = rng.randint(0, n); e = 'removeFirst: %d' % m; a = a[m:]; v = None
        elif k == 'rln' and a:
            m = rng.randint(0, n); e = 'removeLast: %d' % m; a = a[:n - m]; v = None
        elif k == 'rx':
            e = 'removeAtIndex: %d' % i
            if 1 <= i <= n:
                v = a[i - 1]; a = a[:i - 1] + a[i:]
            else:
                v = 'E'
        elif k == 'at':
            e = 'at: %d' % i; v = a[i - 1] if 1 <= i <= n else 'E'
        elif k == 'put':
            x = new(); e = 'at: %d put: %d' % (i, x)
            if 1 <= i <= n:
                a = a[:i - 1] + [x] + a[i:]; v = x
            else:
                v = 'E'
        elif k in ('all', 'allL', 'allF', 'allA'):
            xs, t = arr(rng.randint(0, 5)); src = rng.random()
            if src < .25:
                t = '(OrderedCollection new: 1) addAll: %s; yourself' % t; t = '(%s)' % t
            elif src < .4 and n < 40:
                xs, t = list(a), 'z'
            v = None
            if k == 'all':
                e = 'addAll: ' + t; a = a + xs
            elif k == 'allL':
                e = 'addAllLast: ' + t; a = a + xs
            elif k == 'allF':
                e = 'addAllFirst: ' + t; a = xs + a
            else:
                e = 'addAll: %s afterIndex: %d' % (t, i)
                if 0 <= i <= n:
                    a = a[:i] + xs + a[i:]
                else:
                    v = 'E'
        elif k == 'rem':
            x = rng.choice(a) if a and rng.random() < .8 else 5
            e = 'remove: %d ifAbsent: [0]' % x
            if x in a:
                a = list(a); a.remove(x); v = x
            else:
                v = 0
        elif k == 'idx':
            x = rng.choice(a) if a and rng.random() < .8 else 5
            e = 'indexOf: %d' % x; v = a.index(x) + 1 if x in a else 0
        elif k == 'incl':
            x = rng.choice(a) if a and rng.random() < .8 else 5
            e = 'includes: %d' % x; v = 'true' if x in a else 'false'
        elif k == 'first':
            e = 'first'; v = a[0] if a else 'E'
        elif k == 'last':
            e = 'last'; v = a[-1] if a else 'E'
        elif k == 'size':
            e = 'size'; v = len(a)
        elif k == 'copy':
            e = 'copy asArray'; v = '(%s)' % ''.join('%d ' % x for x in a)
        elif k == 'rev':
            e = 'reverse asArray'; v = '(%s)' % ''.join('%d ' % x for x in a[::-1])
        elif k == 'do':
            e = 'asArray'; v = '(%s)' % ''.join('%d ' % x for x in a)
        if e is None:
            continue
        if v is None:
            code.append('q x: [:z | z %s. 0].' % e); out.append('0;')
        else:
            code.append('q x: [:z | z %s].' % e); out.append('%s;' % v)
    code.append('q res')
    return ' '.join(code), "'%s/%s%d'" % (''.join(out), ''.join('%d ' % x for x in a), len(a))


def cases(n=500, seed=7):
    rng = random.Random(seed)
    return [gen(rng, rng.choice([3, 6, 12, 24])) for _ in range(n)]


def run(s):
    from common.stdrive import run_cases
    return run_cases(s, cases(), SETUP, chunk=70)
