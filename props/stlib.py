"""Shared by the checks over the Smalltalk sources."""
import os
import sys
import z3
from common.check import Check
from common.scratch import Scratch, REPO
from stvc.parser import load_kernel, Sym, CharV
from stvc.engine import *
from stvc.engine import Engine
from stvc.spec import *

_world = None


def world():
    global _world
    if _world is None:
        _world = load_kernel(REPO)
        if _world.errors:
            raise RuntimeError('parse: %s' % _world.errors[:3])
    return _world


def main_st(prop, units, driver=None, always=True, limit=200, jobs=8, assumptions=(), extra_bounded=()):
    """run the units; the driver (bounded concrete check on the real VM) runs when an
    obligation is open and, if always, on every run"""
    c = Check(prop)
    c.assumptions += list(assumptions)
    if os.environ.get('ONLY'):
        units = [u for u in units if os.environ['ONLY'] in u[0]]
    c.run(units, jobs=jobs, limit=limit)
    if os.environ.get('VERBOSE'):
        for r in c.results:
            bad = [o for o in r.obls if o['status'] != 'proved']
            print('%-50s %3d obl %3d open %5.1fs paths %d%s%s' % (r.name, len(r.obls), len(bad), r.secs, r.paths,
                  ' BOUNDED' if r.bounded else '', ' ERROR ' + r.error[:150] if r.error else ''))
            for nt in getattr(r, 'notes', [])[:4]:
                print('      note', nt[:150])
            if r.crash and os.environ['VERBOSE'] >= '2':
                print(r.crash[-1500:])
            for o in bad[:6]:
                print('      ', o['name'], o['status'], str(o.get('detail'))[:150])

    def confirm(failed, und):
        if driver is None:
            return []
        s = Scratch()
        return driver(s)
    if driver is not None and always:
        c.results and c.results[0].bounded.append('driver: concrete cases on the real VM (bounded stand-in for what is outside the contracts)')
    return c.finish(confirm=None if os.environ.get('NODRV') else confirm)
