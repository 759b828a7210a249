"""Loop summarisation (no bound) with a bounded fall-back."""
import z3
from . import engine as E
from .engine import (Unsupported, Infeasible, Out, Opq, Ref, Blk, Poison, CharV, RetEx, STError, And, Or, Not, Implies, norm, subst,
                     veq, sym, is_int, is_bool, vmentions, vrefs, contains, V, Int)

MISSING = object()


class Lazy(Poison):
    """value of a cell re-assigned by every iteration; resolved when read"""
    __slots__ = ('v0', 'alts', 'k', 'n', 'why')

    def __init__(self, why, v0, alts, k, n):
        Poison.__init__(self, why)
        self.v0 = v0
        self.alts = alts
        self.k = k
        self.n = n

    def resolve(self, eng):
        if self.alts is None:
            raise NeedAlts()
        if eng.fork(norm(self.n <= 0)):
            v = self.v0
            if isinstance(v, Lazy):
                return v.resolve(eng)
            return v
        for j, (c, v) in enumerate(self.alts):
            ci = subst(c, [(self.k, self.n - 1)])
            if j == len(self.alts) - 1:
                eng.assume(ci)
            elif not eng.fork(ci):
                continue
            vv = subst(v, [(self.k, self.n - 1)])
            if isinstance(vv, Poison):
                raise Unsupported('value after a loop: ' + vv.why)
            return vv
        raise Infeasible()


class NeedAlts(Exception):
    pass


def lsubst(v, pairs):
    if isinstance(v, Lazy):
        return Lazy(v.why, v.v0, v.alts, v.k, subst(v.n, pairs))
    return subst(v, pairs)


def run_loop(eng, cond, body, node):
    line = getattr(node, 'line', None) if node is not None else None
    for it in range(300):
        if getattr(node, 'sel', '') == 'repeat':
            break
        outs = eng.nested(cond)
        if len(outs) == 1 and outs[0].kind == 'val' and isinstance(outs[0].v, bool) and not outs[0].pc:
            eng.store = outs[0].store
            if not outs[0].v:
                return
            body()
            continue
        break
    key = None
    if eng.summarise_on and not eng.force_bounded:
        key = (eng.key, eng.nfresh, eng.noid, len(eng.pc), id(node))
        r = eng.memo.get(key)
        if r is None:
            n0, o0 = eng.nfresh, eng.noid
            try:
                r = Summary(eng, cond, body, line)
            except Unsupported as e:
                if 'time limit' in str(e):
                    raise
                eng.nfresh, eng.noid = n0, o0
                r = str(e)
            eng.memo[key] = r
        if not isinstance(r, str):
            return r.apply(eng)
        eng.notes.add('loop at line %s not summarised: %s' % (line, r))
        import os
        if os.environ.get('VERBOSE') == '3':
            print('loop at line', line, 'not summarised:', r)
    cnt = 0
    while True:
        c = eng.asbool(cond())
        if not eng.fork(c):
            return
        cnt += 1
        if cnt > eng.bound:
            eng.bounded.add('loop at line %s unrolled %d times' % (line, eng.bound))
            raise Infeasible()
        body()


class Form:
    __slots__ = ('kind', 'v0', 'd', 'F', 'sort', 'writes', 'alts', 'ctor')

    def __init__(self, kind, v0, **kw):
        self.kind = kind
        self.v0 = v0
        self.d = self.F = self.sort = self.writes = self.alts = self.ctor = None
        for a, b in kw.items():
            setattr(self, a, b)


class Summary:
    def __init__(self, eng, cond, body, line):
        self.line = line
        self.k = k = eng.fresh('k')
        self.kb = kb = eng.fresh('kb')
        S0 = self.S0 = eng.store
        self.forms = {}
        self.invs = None          # surviving candidate invariants (indices)
        nf, no = eng.nfresh, eng.noid
        self.loopid = nf

        def start():
            eng.assume(k >= 0)
            for cell, f in self.forms.items():
                eng.store[cell] = self.value(eng, f, k)
                if f.kind == 'acc':
                    eng.assume(norm(f.F(z3.IntVal(0)) == self.raw(f.v0)))
            for fm in self.inv_formulas(k):
                eng.assume(fm)
            s = dict(eng.store)
            c = eng.asbool(cond())
            if not eng.fork(c):
                return 'exit', s
            body()
            return 'cont', s
        for rnd in range(14):
            eng.nfresh, eng.noid = nf, no
            eng.checktime()
            try:
                outs = eng.nested(start)
            except NeedAlts:
                # a re-assigned cell is read before its values are known: make them known
                raise Unsupported('loop-carried value read')
            for o in outs:
                self.skolemise(o)
            conts = [o for o in outs if o.kind == 'val' and o.v[0] == 'cont']
            if not self.update(eng, conts):
                break
        else:
            raise Unsupported('no stable loop summary')
        self.outs = outs
        self.conts = conts
        self.exits = [o for o in outs if not (o.kind == 'val' and o.v[0] == 'cont')]
        self.nfresh, self.noid = eng.nfresh, eng.noid
        self.finish(eng)

    def raw(self, v):
        if isinstance(v, Opq):
            return v.t
        if isinstance(v, CharV):
            return v.c
        if v is None:
            return E.NILV
        if is_bool(v) and isinstance(v, bool):
            return z3.BoolVal(v)
        return v

    def value(self, eng, f, k):
        if f.kind == 'lin':
            return norm(f.v0 + k * f.d)
        if f.kind == 'acc':
            t = f.F(k)
            return Opq(t) if f.ctor == 'opq' else CharV(t) if f.ctor == 'char' else t
        if f.kind == 'log':
            base, log = f.v0
            return (base, log + (('r', k, self.kb, f.writes, None),)) if f.writes else f.v0
        if f.kind == 're':
            return Lazy('re-assigned in the loop', f.v0, f.alts, self.k, k)
        raise Unsupported('form')

    def skolemise(self, o):
        pairs = []
        for c in o.fresh:
            F = z3.Function(c.decl().name() + '@', Int, c.sort())
            pairs.append((c, F(self.k)))
        o.pairs = pairs
        if not pairs:
            return
        o.pc = [p if isinstance(p, bool) else norm(z3.substitute(p, *pairs)) for p in o.pc]
        st = {}
        for cell, v in o.store.items():
            if self.S0.get(cell, MISSING) is v:
                st[cell] = v
            else:
                st[cell] = lsubst(v, pairs)
        o.store = st
        if o.kind == 'ret':
            o.v = RetEx(o.v.home, lsubst(o.v.v, pairs))
        o.foralls = [(subst(lo, pairs), subst(hi, pairs), kk, subst(b, pairs), tuple((subst(a, pairs), d) for a, d in lins))
                     for lo, hi, kk, b, lins in o.foralls]

    def update(self, eng, conts):
        """refine the forms from the outcomes of a generic iteration; -> changed"""
        k = self.k
        changed = False
        cells = set(self.forms)
        for o in conts:
            s = o.v[1]
            for cell in self.S0:
                if cell in self.forms:
                    continue
                if not veq(o.store.get(cell, MISSING), self.S0[cell]):
                    cells.add(cell)
        for cell in sorted(cells, key=str):
            f = self.forms.get(cell)
            v0 = self.S0[cell]
            news = [o.store[cell] for o in conts]
            if f is None:
                self.forms[cell] = self.guess(eng, cell, v0, news, conts)
                changed = True
                continue
            if f.kind == 'lin':
                ok = all(self.holds(eng, o, self.eqf(n, norm(f.v0 + (k + 1) * f.d))) for o, n in zip(conts, news))
                if not ok:
                    self.forms[cell] = self.weaker(cell, f, news)
                    changed = True
            elif f.kind == 'acc':
                # independent of its own previous value: a re-assigned cell
                if all(not any(self.uses(t, f.F) for t in E.vterms(n)) for n in news) and all(self.kindof(n) for n in news):
                    if not any(self.uses(t, f.F) for o in conts for p in o.pc for t in [p] if not isinstance(p, bool)) or True:
                        self.forms[cell] = Form('re', f.v0, alts=None)
                        changed = True
                        self.forms[cell].alts = self.mkalts(conts, news)
                elif any(self.kindof(n) != f.ctor for n in news):
                    raise Unsupported('loop changes the kind of a variable')
            elif f.kind == 're':
                alts = self.mkalts(conts, news)
                if f.alts is None or not veq(tuple(alts), tuple(f.alts)):
                    if any(self.self_dep(n, f) for n in news):
                        raise Unsupported('loop-carried value of an unsupported kind')
                    f.alts = alts
                    changed = True
            elif f.kind == 'log':
                w = self.writes(eng, f, conts, cell)
                if not veq(w, f.writes or ()):
                    f.writes = w
                    changed = True
        if changed:
            return True
        # candidate invariants (Houdini)
        if self.invs is None:
            self.invs = self.initial_invs(eng)
            if self.invs:
                return True
        drop = []
        fsn = None
        for i in self.invs:
            for o in conts:
                fm = self.inv_at(i, {c: o.store[c] for c in self.forms}, k + 1)
                if fm is None or not self.holds(eng, o, fm):
                    drop.append(i)
                    break
        if drop:
            self.invs = [i for i in self.invs if i not in drop]
            return True
        return False

    def kindof(self, v):
        return 'opq' if isinstance(v, Opq) else 'char' if isinstance(v, CharV) else 'int' if is_int(v) else \
            'bool' if is_bool(v) else None

    def uses(self, t, F):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().eq(F):
                return True
            st.extend(x.children())
        return False

    def self_dep(self, n, f):
        return isinstance(n, Lazy)

    def mkalts(self, conts, news):
        r = []
        for o, n in zip(conts, news):
            c = And(*o.pc)
            for x in vrefs(n):
                if isinstance(x, tuple) and x[0] == 'frame':
                    n = Poison('block created in the loop')
                    break
                if (x, 'class') not in self.S0 and isinstance(x, int):
                    n = Poison('object created in the loop')
                    break
            r.append((c, n))
        if r and all(veq(x[1], r[0][1]) for x in r):
            r = [(True, r[0][1])]
        return r

    def eqf(self, a, b):
        if not (is_int(a) and is_int(b)):
            return False
        return norm(a == b)

    def holds(self, eng, o, fm):
        if isinstance(fm, bool):
            return fm
        save = eng.pc
        eng.pc = eng.pc + o.pc
        try:
            return eng.sat(z3.Not(fm), ms=3000) == 'unsat'
        finally:
            eng.pc = save

    def guess(self, eng, cell, v0, news, conts):
        if isinstance(cell, tuple) and cell[-1] == 'st':
            f = Form('log', v0, writes=())
            f.writes = self.writes(eng, f, conts, cell)
            return f
        if cell[-1] == 'class':
            raise Unsupported('class changed in a loop')
        if is_int(v0) and all(is_int(n) for n in news):
            ds = [norm(n - v0) for n in news]
            d = ds[0]
            if all(veq(x, d) for x in ds) and not (sym(d) and (contains(d, self.k) or '@' in str(d))):
                return Form('lin', v0, d=d)
            return self.accform(cell, v0)
        if self.kindof(v0) in ('opq', 'char', 'bool') and all(self.kindof(n) == self.kindof(v0) for n in news):
            return self.accform(cell, v0)
        return Form('re', v0, alts=None)

    def accform(self, cell, v0):
        kd = self.kindof(v0)
        so = {'int': Int, 'char': Int, 'opq': V, 'bool': z3.BoolSort()}[kd]
        F = z3.Function('acc%d_%s' % (self.loopid, '_'.join(str(x) for x in cell).replace(' ', '')), Int, so)
        return Form('acc', v0, F=F, ctor=kd)

    def weaker(self, cell, f, news):
        if all(is_int(n) for n in news):
            return self.accform(cell, f.v0)
        return Form('re', f.v0, alts=None)

    def writes(self, eng, f, conts, cell):
        """the writes of a generic iteration, in terms of kb"""
        start = self.value(eng, f, self.k)
        n0 = len(start[1])
        order = []
        per = {}
        for o in conts:
            base, log = o.store[cell]
            if len(log) < n0 or not veq(log[:n0], start[1]):
                raise Unsupported('loop rewrites a storage')
            c = And(*o.pc)
            mine = {}
            for e in log[n0:]:
                if e[0] != 'w':
                    raise Unsupported('bulk copy in a loop')
                for x in vrefs(e[2]):
                    if isinstance(x, tuple) or (x, 'class') not in self.S0:
                        raise Unsupported('object created in a loop is stored')
                if isinstance(e[2], Poison):
                    raise Unsupported('unknown value stored')
                kx = str(norm(e[1]))
                if kx in mine:
                    del mine[kx]
                mine[kx] = (e[1], e[2])
            for kx, (ix, v) in mine.items():
                if kx not in per:
                    per[kx] = (ix, [])
                    order.append(kx)
                per[kx][1].append((c, v))
        out = []
        pr = [(self.k, self.kb)]
        for kx in order:
            ix, alts = per[kx]
            if len(alts) == len(conts) and all(veq(a[1], alts[0][1]) for a in alts):
                alts = [(True, alts[0][1])]
            out.append((subst(ix, pr), tuple((subst(c, pr), subst(v, pr)) for c, v in alts)))
        return tuple(out)

    # candidate invariants
    def intcells(self):
        return [c for c in sorted(self.forms, key=str) if self.forms[c].kind in ('lin', 'acc') and is_int(self.forms[c].v0)]

    def initial_invs(self, eng):
        cells = self.intcells()
        self.candlist = []
        accs = [c for c in cells if self.forms[c].kind == 'acc']
        for c in accs:
            self.candlist.append(lambda v, k, c=c: v[c] >= self.forms[c].v0)
            self.candlist.append(lambda v, k, c=c: v[c] <= self.forms[c].v0)
            self.candlist.append(lambda v, k, c=c: v[c] <= self.forms[c].v0 + k)
            self.candlist.append(lambda v, k, c=c: v[c] >= 0)
            self.candlist.append(lambda v, k, c=c: v[c] >= 1)
        if cells or True:
            for fn in eng.cands:
                self.candlist += fn(eng, self, cells)
        ok = []
        v0 = {c: self.forms[c].v0 for c in self.forms}
        for i in range(len(self.candlist)):
            fm = self.inv_at(i, v0, 0)
            if fm is True or (fm is not None and fm is not False and eng.sat(z3.Not(fm), ms=3000) == 'unsat'):
                ok.append(i)
        return ok

    def inv_at(self, i, vals, k):
        try:
            return norm(self.candlist[i](vals, k))
        except (z3.Z3Exception, TypeError):
            return None

    def inv_formulas(self, k):
        if not self.invs:
            return []
        vals = {c: self.raw2(f, k) for c, f in self.forms.items()}
        return [f for f in (self.inv_at(i, vals, k) for i in self.invs) if f is not None]

    def raw2(self, f, k):
        if f.kind == 'lin':
            return norm(f.v0 + k * f.d)
        if f.kind == 'acc':
            return f.F(k)
        return None

    def finish(self, eng):
        k = self.k
        alts = []
        self.subs = []
        for o in self.conts:
            eqs = []
            for cell, f in self.forms.items():
                if f.kind == 'acc':
                    eqs.append(norm(f.F(k + 1) == self.raw(o.store[cell])))
            alts.append(And(*(o.pc + eqs)))
            for fa in o.foralls:
                self.subs.append((And(*o.pc), fa))
        self.contbody = Or(*alts) if alts else False
        self.lins = []
        seen = set()
        for c, f in self.forms.items():
            if f.kind == 'lin' and f.d in (1, -1):
                if (str(f.v0), f.d) not in seen:
                    seen.add((str(f.v0), f.d))
                    self.lins.append((f.v0, f.d))
            if f.kind == 'log':
                for ix, _ in f.writes or ():
                    a = norm(z3.substitute(ix, (self.kb, z3.IntVal(0)))) if sym(ix) else ix
                    d = norm((z3.substitute(ix, (self.kb, self.kb + 1)) if sym(ix) else ix) - ix)
                    if d in (1, -1) and (str(a), d) not in seen:
                        seen.add((str(a), d))
                        self.lins.append((a, d))

    def apply(self, eng):
        eng.nfresh, eng.noid = max(eng.nfresh, self.nfresh), max(eng.noid, self.noid)
        k = self.k
        n = eng.fresh('n')
        eng.freshlog.append(k)
        eng.freshlog.append(self.kb)
        eng.freshlog.pop()
        eng.freshlog.pop()
        eng.assume(n >= 0)
        for f in self.forms.values():
            if f.kind == 'acc':
                eng.assume(norm(f.F(z3.IntVal(0)) == self.raw(f.v0)))
        if self.conts:
            eng.add_forall(z3.IntVal(0), n, k, self.contbody, self.lins)
            fi = len(eng.foralls) - 1
            eng.inst(fi, n - 1)
            eng.inst(fi, z3.IntVal(0))
            for guard, (lo, hi, kk, b, lins) in self.subs:
                eng.nestedall = getattr(eng, 'nestedall', [])
                eng.incomplete = True
        else:
            eng.assume(n == 0)
        pr = [(k, n)]
        pcs = [[subst(p, pr) for p in o.pc] for o in self.exits]
        d = eng.decide(len(self.exits), lambda i: eng.sat(*[p for p in pcs[i]]) != 'unsat')
        o = self.exits[d]
        for p in pcs[d]:
            eng.assume(p)
        for lo, hi, kk, b, lins in o.foralls:
            eng.add_forall(subst(lo, pr), subst(hi, pr), kk, subst(b, pr), tuple((subst(a, pr), dd) for a, dd in lins))
        st = {}
        for cell, v in o.store.items():
            if self.S0.get(cell, MISSING) is v:
                st[cell] = eng.store.get(cell, v) if cell in eng.store else v
            else:
                st[cell] = lsubst(v, pr)
        eng.store = st
        if o.kind == 'val':
            return
        if o.kind == 'ret':
            raise RetEx(o.v.home, lsubst(o.v.v, pr))
        raise STError(o.v.name, o.v.info)
