"""Run one proof goal on several solvers in parallel processes."""
import os
import subprocess
import tempfile
import time
import shutil
import z3


NONLIN = ('bvmul', 'bvsdiv', 'bvsrem', 'bvsmul_noovfl', 'bvsmul_noudfl', 'bvudiv', 'bvurem')


def race(assertions, timeout):
    """-> (status, backend, model-or-None).  unsat -> proved."""
    s = z3.Solver()
    s.add(*assertions)
    txt = s.to_smt2()
    logic = '(set-logic ALL)\n'
    d = tempfile.mkdtemp(prefix='llvc')
    procs = []
    try:
        f1 = os.path.join(d, 'q.smt2')
        body = '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info'))
        open(f1, 'w').write(body)
        f2 = os.path.join(d, 'q5.smt2')
        open(f2, 'w').write(logic + body)
        T = max(1, int(timeout))
        cmds = []
        if shutil.which('z3-new'):
            cmds.append(('z3-new', ['z3-new', '-T:%d' % T, f1]))
            f3 = os.path.join(d, 'qt.smt2')
            open(f3, 'w').write(body.replace('(check-sat)',
                '(check-sat-using (then simplify propagate-values solve-eqs elim-uncnstr bv1-blast simplify smt))')
                if False else body.replace('(check-sat)', '(check-sat-using (par-or (then simplify propagate-values solve-eqs smt) qfaufbv))'))
            cmds.append(('z3-new qfaufbv', ['z3-new', '-T:%d' % T, f3]))
        if shutil.which('cvc5'):
            cmds.append(('cvc5', ['cvc5', '--tlimit=%d' % (T * 1000), f2]))
            cmds.append(('cvc5 bv-solver', ['cvc5', '--bv-solver=bitblast', '--tlimit=%d' % (T * 1000), f2]))
        if any(o in txt for o in NONLIN):
            try:
                from .intblast import blast
                si = z3.Solver()
                si.add(*blast(assertions))
                ti = '\n'.join(l for l in si.to_smt2().split('\n') if not l.startswith('(set-info'))
                f4 = os.path.join(d, 'qi.smt2')
                open(f4, 'w').write(ti)
                f5 = os.path.join(d, 'qi5.smt2')
                open(f5, 'w').write(logic + ti)
                cmds.append(('z3 (integers)', [shutil.which('z3-new') or 'z3', '-T:%d' % T, f4]))
                sl = z3.Solver()
                sl.add(*blast(assertions, True))
                f6 = os.path.join(d, 'ql.smt2')
                open(f6, 'w').write('\n'.join(l for l in sl.to_smt2().split('\n') if not l.startswith('(set-info')))
                cmds.append(('z3 (linear integers)', [shutil.which('z3-new') or 'z3', '-T:%d' % T, f6]))
                if shutil.which('cvc5'):
                    cmds.append(('cvc5 (integers)', ['cvc5', '--nl-ext-tplanes', '--tlimit=%d' % (T * 1000), f5]))
            except Exception as e:
                if os.environ.get('VQDEBUG'):
                    raise
        for nm, c in cmds:
            procs.append((nm, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        end = time.time() + T + 2
        live = dict(procs)
        res = None
        while live and time.time() < end and res is None:
            for nm in list(live):
                p = live[nm]
                if p.poll() is not None:
                    out = p.stdout.read().strip().split('\n')[0].strip()
                    del live[nm]
                    if out == 'unsat' or out == 'sat' and 'integers' not in nm:
                        res = (out, nm)
                        break
            time.sleep(0.02)
        if res is None:
            return 'unknown', 'timeout', None
        if res[0] == 'unsat':
            return 'proved', res[1], None
        # get a model with the z3 API if quickly possible
        s.set('timeout', 10000)
        m = None
        if s.check() == z3.sat:
            m = s.model()
        return 'refuted', res[1], m
    finally:
        for nm, p in procs:
            if p.poll() is None:
                p.kill()
            try:
                p.stdout.close()
                p.wait()
            except Exception:
                pass
        shutil.rmtree(d, ignore_errors=True)
