"""Replaying cases on the real VM: each case is a Smalltalk expression with the
result its contract demands.  Runs only when an obligation is open."""
import re


def st_int(n):
    """A Smalltalk expression for integer n that does not depend on the parser's
    treatment of negative literals."""
    return str(n) if n >= 0 else '(0 - %d)' % -n


PRELUDE = '''Smalltalk at: #VQ put: 0!
Object subclass: VQD [
    VQD class >> n: n do: aBlock [
        | r |
        r := [aBlock value printString] on: Error do: [:e | e return: 'ERR'].
        Transcript showCr: '#', n printString, '|', r; flush
    ]
]
'''


def script(cases, setup=''):
    out = [PRELUDE.replace('Smalltalk at: #VQ put: 0!\n', ''), setup]
    for i, c in enumerate(cases):
        out.append('Eval [ VQD n: %d do: [%s] ]' % (i, c[0]))
    return '\n'.join(out) + '\n'


def run_cases(s, cases, setup='', chunk=400, timeout=60, limit=20, retries=0):
    """-> list of (description, replay) for failing cases"""
    bad = []
    total = 0
    from concurrent.futures import ThreadPoolExecutor
    s.build_gst()
    chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]

    def one(ci):
        txt = script(chunks[ci], setup)
        return s.run_st(txt, timeout=timeout, name='drv%d.st' % ci), txt
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(chunks))))
    for ci, ((rc, out), txt) in enumerate(res):
        got = {}
        for m in re.finditer(r'^#(\d+)\|(.*)$', out, re.M):
            got[int(m.group(1))] = m.group(2)
        for i, c in enumerate(chunks[ci]):
            total += 1
            exp = c[1]
            g = got.get(i)
            if g is None:
                # the VM died or hung in this case (only the first one counts)
                if not any(j in got for j in range(i + 1, len(chunks[ci]))):
                    (rc2, out2) = s.run_st(script([c], setup), timeout=30, name='one%d.st' % ci)
                    m = re.search(r'^#0\|(.*)$', out2, re.M)
                    if m is None:
                        bad.append(('%s\n  expected %s\n  the VM stopped (rc %s): %s' % (c[0], exp, rc2, out2[-300:]), script([c], setup)))
                        break
                    g = m.group(1)
                else:
                    g = '(no answer)'
            ok = exp(g) if callable(exp) else g == exp
            for _ in range(retries if not ok else 0):
                m = re.search(r'^#0\|(.*)$', s.run_st(script([c], setup), timeout=30, name='one%d.st' % ci)[1], re.M)
                if m is not None and (exp(m.group(1)) if callable(exp) else m.group(1) == exp):
                    ok = True
                    break
            if not ok:
                bad.append(('%s\n  expected %s\n  got      %s' % (c[0], exp if not callable(exp) else exp.__doc__, g), script([c], setup)))
            if len(bad) >= limit:
                return bad
    return bad
