"""Concrete cases for C06: programs of several processes of several priorities
that signal, wait, notify, suspend, resume and yield.  The order in which their
steps run and the queues they leave are compared with what the contracts say."""
import random

NSEM = 3
SETUP = '''Object subclass: VSched [
    | log procs sems go run |
    VSched class >> run: spec [ ^self new run: spec ]
    at: i [ ^procs at: i + 1 ]
    run: spec [
        | ticker r |
        log := WriteStream on: String new. go := Semaphore new.
        sems := (1 to: %d) collect: [:i | Semaphore new].
        procs := Array new: spec size. procs at: 1 put: Processor activeProcess.
        2 to: spec size do: [:i | | p |
            p := [self do: (spec at: i) as: i - 1. [log nextPutAll: (i - 1) printString, 'e '. Processor activeProcess suspend] repeat] newProcess.
            p priority: (spec at: i) first.
            procs at: i put: p].
        ticker := [[go signal] repeat] newProcess.
        ticker priority: 2; resume.
        self do: (spec at: 1) as: 0.
        r := log contents.
        sems do: [:s | r := r, '|', (s instVarNamed: 'signals') printString. s do: [:p | r := r, ',', ((procs indexOf: p) - 1) printString]].
        2 to: spec size do: [:i | (procs at: i) suspend].
        ticker suspend.
        ^r ]
    do: ops as: me [
        2 to: ops size do: [:i | | o |
            o := ops at: i.
            log nextPutAll: me printString, ':', (i - 2) printString, ' '.
            self op: (o at: 1) arg: (o at: 2)] ]
    op: c arg: a [
        c == #W ifTrue: [^(sems at: a + 1) wait isNil ifTrue: [log nextPutAll: 'nil ']].
        c == #S ifTrue: [^(sems at: a + 1) signal].
        c == #N ifTrue: [^(sems at: a + 1) notify].
        c == #A ifTrue: [^(sems at: a + 1) notifyAll].
        c == #B ifTrue: [^(sems at: a // 10 + 1) waitAfterSignalling: (sems at: a \\\\ 10 + 1)].
        c == #R ifTrue: [^[(self at: a) resume] on: Error do: [:e | log nextPutAll: 'x '. e return]].
        c == #U ifTrue: [^(self at: a) suspend].
        c == #Y ifTrue: [^Processor activeProcess yield].
        c == #K ifTrue: [((self at: a) instVarNamed: 'myList') class == Semaphore ifTrue: [(sems includes: ((self at: a) instVarNamed: 'myList')) ifTrue: [(self at: a) instVarNamed: 'suspendedContext' put: nil]]. ^self].
        c == #G ifTrue: [^go wait]. ]
]
''' % NSEM


class Sim:
    def __init__(self, spec):
        self.spec = spec
        n = len(spec)
        self.T = n                    # the ticker
        self.pri = [p for p, _ in spec] + [2]
        self.ready = {k: [] for k in range(1, 10)}
        self.sem = [[] for _ in range(NSEM + 1)]
        self.sig = [0] * (NSEM + 1)
        self.on = [None] * (n + 1)    # the list a process is on
        self.pc = [0] * (n + 1)
        self.dead = [False] * (n + 1)
        self.woken = [True] * (n + 1)
        self.waiting = [False] * (n + 1)
        self.log = []
        self.active = 0
        self.addfirst(self.ready[self.pri[0]], 0)
        self.addlast(self.ready[2], self.T)

    def remove(self, p):
        if self.on[p] is not None:
            self.on[p].remove(p)
        self.on[p] = None

    def addfirst(self, L, p):
        self.remove(p)
        L.insert(0, p)
        self.on[p] = L

    def addlast(self, L, p):
        self.remove(p)
        L.append(p)
        self.on[p] = L

    def activate(self, p):
        if p is None:
            return
        if p != self.active:
            self.addfirst(self.ready[self.pri[p]], p)
        self.active = p

    def pick(self, cur):
        for k in range(9, 0, -1):
            L = self.ready[k]
            if not L:
                continue
            p = L[0]
            if p == cur:
                self.addlast(L, p)
                if len(L) == 1:
                    continue
                p = L[0]
            self.remove(p)
            return p
        return None

    def resume(self, p):
        force = False
        a = self.active
        if p == a:
            self.remove(p)
        elif self.pri[p] >= self.pri[a]:
            force = True
        if self.dead[p]:
            return False
        if force:
            if self.on[a] is not None:
                self.addlast(self.ready[self.pri[a]], a)
            self.activate(p)
        else:
            self.addfirst(self.ready[self.pri[p]], p)
        return True

    def signal(self, s, incr):
        while True:
            if not self.sem[s]:
                if incr:
                    self.sig[s] += 1
                return False
            p = self.sem[s][0]
            self.remove(p)
            if self.resume(p):
                self.woken[p] = True
                return True

    def wait(self, s, p):
        if self.sig[s] > 0:
            self.sig[s] -= 1
            self.woken[p] = True
            return
        self.woken[p] = False
        act = p == self.active
        self.addlast(self.sem[s], p)
        if act:
            self.activate(self.pick(p))

    def step(self):
        p = self.active
        if p == self.T:
            self.signal(NSEM, True)
            return True
        if self.waiting[p]:
            self.waiting[p] = False
            if not self.woken[p]:
                self.log.append('nil')
        ops = self.spec[p][1]
        if self.pc[p] >= len(ops):
            if p == 0:
                return False
            self.log.append('%de' % p)
            self.suspend(p)
            return True
        self.log.append('%d:%d' % (p, self.pc[p]))
        c, a = ops[self.pc[p]]
        self.pc[p] += 1
        if c == 'W':
            self.waiting[p] = True
            self.wait(a, p)
        elif c == 'G':
            self.wait(NSEM, p)
        elif c in 'SN':
            self.signal(a, c == 'S')
        elif c == 'A':
            while self.signal(a, False):
                pass
        elif c == 'B':
            self.signal(a % 10, True)
            self.wait(a // 10, p)
        elif c == 'R':
            if not self.resume(a):
                self.log.append('x')
        elif c == 'U':
            self.suspend(a)
        elif c == 'Y':
            new = self.pick(p)
            if self.on[p] is self.ready[self.pri[p]]:
                self.addlast(self.ready[self.pri[p]], p)
            self.activate(p if new is None else new)
        elif c == 'K':
            if any(self.on[a] is L for L in self.sem[:NSEM]):
                self.dead[a] = True
        return True

    def suspend(self, p):
        act = p == self.active
        self.remove(p)
        if act:
            self.activate(self.pick(p))

    def run(self):
        for _ in range(3000):
            if not self.step():
                r = ' '.join(self.log) + ' '
                for s in range(NSEM):
                    r += '|%d' % self.sig[s] + ''.join(',%d' % p for p in self.sem[s])
                return "'%s'" % r
            if self.active is None:
                return None
        return None


def make(rng):
    n = rng.choice([2, 3, 4, 5, 6])
    spec = []
    for i in range(n):
        k = rng.randrange(3, 9)
        ops = []
        if i == 0:
            for j in range(1, n):
                ops.append(('R', j))
            k += 6
        for _ in range(k):
            if i == 0:
                c = rng.choice('SSSSNARRUYKGG')
            else:
                c = rng.choice('WWWWWWSSNAARUYKB')
            if c in 'SNAW':
                a = rng.randrange(NSEM)
            elif c == 'B':
                a = 10 * rng.randrange(NSEM) + rng.randrange(NSEM)
            elif c in 'UK':
                a = rng.randrange(1, n)
                if c == 'K' and a == i:
                    c, a = 'Y', 0
            elif c == 'R':
                a = rng.randrange(0, n)
                if a == i:
                    c, a = 'Y', 0
            else:
                a = 0
            ops.append((c, a))
        if i == 0:
            ops += [('G', 0), ('G', 0)]
        spec.append((4 if i == 0 else rng.choice([3, 3, 3, 4, 4, 5]), ops))
    return spec


def lit(spec):
    return '#(' + ' '.join('(%d %s)' % (p, ' '.join('(#%s %d)' % o for o in ops)) for p, ops in spec) + ')'


def cases(n=1200):
    rng = random.Random(7)
    cs = []
    while len(cs) < n:
        spec = make(rng)
        r = Sim(spec).run()
        if r is not None:
            cs.append(('VSched run: ' + lit(spec), r))
    return cs


def confirm(s):
    from common.stdrive import run_cases
    # a background process may interfere: a failing case is tried again alone
    return run_cases(s, cases(), SETUP, chunk=60, timeout=20, limit=5, retries=4)
