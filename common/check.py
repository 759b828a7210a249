"""Running one property's check: units, verdict, confirmation, evidence.

A unit is a function building contracts over real code and discharging the
obligations; each runs in its own forked process with a time limit."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obls = []        # dicts: name status secs backend detail model goal
        self.functions = []
        self.trusted = []
        self.bounded = []
        self.error = None     # Unsupported: tool limit, not a verdict
        self.crash = None
        self.secs = 0.0
        self.paths = 0
        self.queries = 0


def _run_unit(name, fn, limit, conn):
    r = UnitResult(name)
    t0 = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    try:
        fn(r, t0 + limit)
    except BaseException as e:      # noqa: any tool failure is "undecided"
        nm = type(e).__name__
        if nm in ('Unsupported',):
            r.error = '%s' % e
        else:
            r.error = 'internal: %s: %s' % (nm, e)
            r.crash = traceback.format_exc()
    r.secs = time.time() - t0
    try:
        conn.send(r)
    except Exception as e:
        r.obls = [dict(o, model=str(o.get('model'))) for o in r.obls]
        conn.send(r)
    conn.close()


def run_units(units, jobs=8, limit=240):
    """units: list of (name, fn(result, deadline)).  -> list of UnitResult"""
    ctx = mp.get_context('fork')
    pending = list(units)
    running = {}
    out = []
    while pending or running:
        while pending and len(running) < jobs:
            name, fn = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_run_unit, args=(name, fn, limit, b))
            p.start()
            b.close()
            running[p] = (name, a, time.time())
        time.sleep(0.01)
        for p in list(running):
            name, a, t0 = running[p]
            res = None
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = None
                p.join(5)
                if p.is_alive():
                    p.kill()
                if res is None:
                    res = UnitResult(name)
                    res.error = 'internal: worker died'
            elif not p.is_alive():
                res = UnitResult(name)
                res.error = 'internal: worker died (exit %s)' % p.exitcode
            elif time.time() - t0 > limit + 30:
                p.kill()
                p.join(5)
                res = UnitResult(name)
                res.error = 'unit time limit'
            if res is not None:
                out.append(res)
                del running[p]
    out.sort(key=lambda r: r.name)
    return out


def model_dict(m, limit=60):
    if m is None:
        return None
    d = {}
    try:
        for x in m.decls():
            if x.arity() == 0:
                v = m[x]
                d[x.name()] = str(v)[:200]
            if len(d) >= limit:
                break
    except Exception:
        pass
    return d


def llvc_unit(mods, body, **exargs):
    """Wrap body(ex) as a unit over the LLVM engine."""
    def fn(r, deadline):
        from llvc.exec import Ex
        ex = Ex(mods, **exargs)
        ex.deadline = deadline
        try:
            body(ex)
        finally:
            for o in ex.obls:
                d = dict(name=o.name, status=o.status, secs=round(o.secs, 4), backend=o.backend, detail=o.detail)
                if o.status != 'proved':
                    d['model'] = model_dict(o.model)
                    d['goal'] = str(getattr(o, 'goal', ''))[:1500]
                r.obls.append(d)
            r.functions = sorted(ex.visited)
            r.trusted = sorted(set(ex.used_trusted))
            r.bounded = list(ex.bounded)
            r.paths = ex.npaths
            r.queries = ex.nqueries
    return fn


class Check:
    def __init__(self, prop, technique='contract-based deductive verification'):
        self.prop = prop
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.results = []
        self.trusted = []
        self.assumptions = []
        self.findings = []
        self.violations = []
        self.notes = []
        self.confirm_info = None
        self.level = 'proof'

    def known(self):
        p = os.path.join(HERE, 'known_findings.json')
        if os.path.exists(p):
            return [k for k in json.load(open(p)) if k['property'] == self.prop and k.get('status') == 'known']
        return []

    def run(self, units, jobs=8, limit=240):
        rs = run_units(units, jobs, limit)
        self.results += rs
        return rs

    # -- verdict
    def failed(self):
        """[(unit, obligation)] refuted or unknown obligations"""
        return [(r.name, o) for r in self.results for o in r.obls if o['status'] != 'proved']

    def undecided_units(self):
        return [r for r in self.results if r.error]

    def finish(self, confirm=None, exact_units=(), extra_cov=None):
        """confirm(failed, undecided) -> list of (description, replay text) of
        concrete failures on the real code, run only when something is open."""
        failed = self.failed()
        und = self.undecided_units()
        bounded = [b for r in self.results for b in r.bounded]
        nobl = sum(len(r.obls) for r in self.results)
        ndis = sum(1 for r in self.results for o in r.obls if o['status'] == 'proved')
        rc = 0
        conc = []
        known_units = {}
        for k in self.known():
            known_units[k['obligation']] = k
        kn_hit = []
        open_failed = []
        for u, o in failed:
            key = '%s :: %s' % (u, o['name'])
            if key in known_units:
                kn_hit.append(known_units[key])
            else:
                open_failed.append((u, o))
        seen = set()
        for k in kn_hit:
            if k['what'] not in seen:
                seen.add(k['what'])
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if (open_failed or und or bounded or nobl == 0) and confirm is not None:
            t = time.time()
            try:
                conc = confirm(open_failed, und) or []
            except Exception as e:
                traceback.print_exc()
                self.notes.append('confirmation stage failed: %s' % e)
            self.confirm_info = dict(ran=True, secs=round(time.time() - t, 2), concrete_failures=len(conc))
        if conc:
            rc = 1
            rp = self.write_replay(conc, open_failed)
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
        else:
            refuted = [(u, o) for u, o in open_failed if o['status'] == 'refuted' and not o.get('soft')]
            if refuted:
                rc = 1
                rp = self.write_replay([], refuted)
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.prop, rp))
            elif open_failed or und:
                for u, o in open_failed[:20]:
                    print('UNDECIDED %s :: %s (%s)' % (u, o['name'], o['status']))
                for r in und:
                    print('UNDECIDED unit %s: %s' % (r.name, r.error))
        self.evidence(nobl, ndis, open_failed, und, bounded, kn_hit, rc, extra_cov)
        print('%s: %d obligations, %d discharged, %d units, %d undecided units, %.1fs -> %s' % (
            self.prop, nobl, ndis, len(self.results), len(und), time.time() - self.t0, 'FAIL' if rc else 'ok'))
        sys.stdout.flush()
        os._exit_code = rc
        return rc

    def write_replay(self, conc, failed):
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.prop + '.txt')
        with open(p, 'w') as f:
            f.write('property %s\n' % self.prop)
            for desc, rep in conc:
                f.write('\n== failing input on the real code ==\n%s\n%s\n' % (desc, rep))
            for u, o in failed:
                f.write('\n== failed obligation ==\nunit: %s\nobligation: %s\nstatus: %s (%s)\n' % (u, o['name'], o['status'], o['backend']))
                if o.get('detail'):
                    f.write('detail: %s\n' % o['detail'])
                if o.get('goal'):
                    f.write('goal: %s\n' % o['goal'])
                if o.get('model'):
                    f.write('counterexample:\n')
                    for k, v in sorted(o['model'].items()):
                        f.write('  %s = %s\n' % (k, v))
        return os.path.relpath(p, HERE)

    def evidence(self, nobl, ndis, failed, und, bounded, known, rc, extra):
        fns = sorted(set(f for r in self.results for f in r.functions))
        back = {}
        for r in self.results:
            for o in r.obls:
                if o['status'] == 'proved':
                    b = back.setdefault(o['backend'], [0, 0.0])
                    b[0] += 1
                    b[1] += o['secs']
        names = sorted(set(o['name'] for r in self.results for o in r.obls))
        cov = dict(obligations=nobl, discharged=ndis,
                   checker_cmd='bin/check %s' % self.prop,
                   trusted_base=sorted(set(self.trusted) | set(t for r in self.results for t in r.trusted)),
                   functions_executed=fns, functions_count=len(fns),
                   by_backend={k: dict(obligations=v[0], solver_seconds=round(v[1], 2)) for k, v in back.items()},
                   paths=sum(r.paths for r in self.results), solver_queries=sum(r.queries for r in self.results),
                   units={r.name: dict(obligations=len(r.obls), discharged=sum(1 for o in r.obls if o['status'] == 'proved'),
                                       seconds=round(r.secs, 2), error=r.error) for r in self.results},
                   open_obligations=[dict(unit=u, name=o['name'], status=o['status']) for u, o in failed][:50],
                   known_findings=[k['what'] for k in known],
                   bounded=sorted(set(bounded))[:50],
                   confirmation=self.confirm_info or dict(ran=False),
                   distinct_obligation_names=len(names), notes=self.notes)
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=1 if rc else 0)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
