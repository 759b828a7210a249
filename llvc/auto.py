"""Loop contracts inferred from the code and checked for all iterations.

At a loop head the engine havocs everything the body changes.  Each changed
location becomes a ghost sequence over the iteration number J: a closed linear
form where every path through the body adds the same constant, otherwise an
uninterpreted sequence F(J).  Candidate invariants (given by the contract as
templates over *any* local, never by variable name) are kept when they hold on
entry and are preserved by every path through the body (Houdini).  After the
loop the contract may instantiate the history: what every iteration j < J did.

Loops that write consecutive elements are summarised as one bulk write."""
import z3
from .exec import *
from .exec import Ptr, simp, bv, zb, Cells, Log, PathEnd, norm, add64, POINTERS, UNDEF, B64
from .ir import Unsupported


class Collector:
    def __init__(self):
        self.states = []

    def back_edge(self, ex, s, fr, h, rec):
        self.states.append(s.clone())


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r is b.r and same(a.o, b.o)
    if isinstance(a, POINTERS) or isinstance(b, POINTERS):
        return type(a) is type(b) and not isinstance(a, Ptr) and a.__dict__ == b.__dict__ if hasattr(a, '__dict__') else \
            (type(a) is type(b) and not isinstance(a, Ptr) and all(getattr(a, k) is getattr(b, k) or getattr(a, k) == getattr(b, k) for k in a.__slots__))
    if is_z(a) and is_z(b):
        return a.eq(b)
    if is_z(a) or is_z(b):
        return False
    return a == b


def val(v, n):
    """cell value -> BV"""
    if isinstance(v, POINTERS):
        return v.addr()
    return bv(v, n)


def consts_of(e, out, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())


def reg_known(r):
    return r is not None


class Rec(dict):
    """What is known about one loop (kept in state.ghost['loops'])."""
    def __init__(self):
        dict.__init__(self)
        self.J = None
        self.lin = {}
        self.inv = []         # conditions over J (z3), proved
        self.paths = []       # back-edge path conditions over J
        self.trans = []

    def at(self, e, j):
        """e (over J and per-iteration symbols) at iteration j"""
        subs = [(self.J, bv(j))]
        cs = {}
        consts_of(zb(e) if isinstance(e, bool) else e, cs, set())
        for n, c in cs.items():
            if n in self.itersyms:
                f = z3.Function('it:' + n, B64, c.sort())
                subs.append((c, f(bv(j))))
        return z3.substitute(e if is_z(e) else zb(e), *subs)

    def hist(self, j):
        """facts of iteration j, for 0 <= j < J"""
        j = bv(j)
        body = [self.at(c, j) for c in self.inv]
        if self.paths:
            body.append(z3.Or(*[z3.And(*[self.at(c, j) for c in p]) if p else z3.BoolVal(True) for p in self.paths]))
        for t in self.trans:
            body.append(self.at(t, j))
        return z3.Implies(z3.ULT(j, self.J), z3.And(*body) if body else z3.BoolVal(True))


class Auto:
    def __init__(self, cell_templates=(), state_templates=(), hints=None, region_hook=None, want_trans=True,
                 concrete=0, names=None):
        self.cell_templates = list(cell_templates)
        self.state_templates = list(state_templates)
        self.hints = hints
        self.region_hook = region_hook
        self.want_trans = want_trans
        self.concrete = concrete
        self.cand_hints = None      # facts used only to check the candidates

    # -- one symbolic iteration from G
    def explore(self, ex, G, h):
        X = G.clone()
        fr = X.frames[-1]
        col = Collector()

        def kill(ex_, s_, rec_):
            raise PathEnd('loop exit')
        fr.loops[h] = {'spec': col, 'exit': kill}
        ex.mute += 1
        try:
            ex.run(X)
        finally:
            ex.mute -= 1
        return col.states

    def cells(self, m):
        return m.d if isinstance(m, Cells) else None

    def changed(self, ex, G, Bs, depth, M, logs):
        """add newly changed cells to M / regions to logs; True if grew"""
        grew = False
        for b in Bs:
            for rn, m in b.mem.items():
                g = G.mem.get(rn)
                if g is m:
                    continue
                r = ex.regions.get(rn)
                if rn in logs:
                    continue
                if isinstance(m, Cells) and (g is None or isinstance(g, Cells)):
                    if r is not None and r.kind == 'alloca' and g is None:
                        # allocated but never stored before the loop
                        pass
                    gd = g.d if g is not None else {}
                    for o, (n, v) in m.d.items():
                        if (rn, o, n) in M:
                            continue
                        c = gd.get(o)
                        if c is not None and c[0] == n and same(c[1], v):
                            continue
                        if c is None:
                            old = None
                            over = any((k in gd and k + gd[k][0] > o) for k in range(o - 15, o + n))
                            if over:
                                logs.add(rn)
                                grew = True
                                continue
                        elif c[0] != n:
                            logs.add(rn)
                            grew = True
                            continue
                        M[(rn, o, n)] = None
                        grew = True
                else:
                    logs.add(rn)
                    grew = True
        return grew

    def generic(self, ex, P, M, regs, J):
        G = P.clone()
        for (rn, o, n), info in M.items():
            r = ex.regions[rn]
            m = G.mem.get(rn)
            d = dict(m.d) if m is not None else {}
            d[o] = (n, self.cell_at(ex, P, (rn, o, n), info, J))
            G.mem[rn] = Cells(d)
        for rn, f in regs.items():
            G.mem[rn] = f(J)
        return G

    def cell_at(self, ex, P, key, info, J):
        rn, o, n = key
        kind = info[0]
        if kind == 'lin':
            _, init, c = info
            if isinstance(init, Ptr):
                return Ptr(init.r, simp(bv(init.o) + z3.BitVecVal(c & M64, 64) * J))
            w = 8 * n
            j = J if w == 64 else (z3.Extract(w - 1, 0, J) if w < 64 else z3.ZeroExt(w - 64, J))
            return simp(bv(init, w) + z3.BitVecVal(c & ((1 << w) - 1), w) * j)
        if kind == 'ptr':
            return Ptr(info[1], info[2](J))
        return info[1](J)

    def enter(self, ex, s, fr, h):
        P = s.clone()
        depth = len(P.frames)
        uid = ex.nloops = getattr(ex, 'nloops', 0) + 1
        J = z3.BitVec('J%d' % uid, 64)
        M = {}
        logs = set()
        if fr.loops:
            pass
        # cells left unwritten before the loop read as arbitrary
        # ---- phase A: what changes
        for rnd in range(12):
            for k in [k for k in M if k[0] in logs]:
                del M[k]
            self.kinds(ex, P, M, uid)
            G = self.generic(ex, P, M, {}, J)
            G.pc.append(z3.ULT(J, 1 << 62))
            for rn in logs:
                m = G.mem.get(rn)
                if m is None or isinstance(m, Cells):
                    lg = ex.cells_to_log(m if m is not None else Cells({}))
                    G.mem[rn] = lg
                    P.mem[rn] = lg
            mark = ex.nfresh
            Bs = self.explore(ex, G, h)
            grew = self.changed(ex, G, Bs, depth, M, logs)
            # pointer cells leaving their region fall back to addresses
            for k, info in M.items():
                if info is not None and info[0] == 'ptr':
                    for b in Bs:
                        v = self.cell_val(b, k)
                        if v is not None and not (isinstance(v, Ptr) and v.r is info[1]):
                            M[k] = self.raw(ex, k, uid)
                            iv = self.init_val(ex, P, k)
                            P.pc.append(val(M[k][1](z3.BitVecVal(0, 64)), 64) == val(iv, 64))
                            grew = True
                            break
            if not grew:
                break
        else:
            raise Unsupported('loop frame does not stabilise in ' + fr.fn.name)
        rec = Rec()
        rec.J = J
        if not Bs:
            # the body never comes back here: not a loop on this path
            rec['spec'] = None
            return rec
        # ---- linear cells
        for k in list(M):
            c = None
            init = self.init_val(ex, P, k)
            if init is None:
                continue
            for b in Bs:
                g, v = self.cell_val(G, k), self.cell_val(b, k)
                if v is None:
                    c = None
                    break
                if isinstance(g, Ptr) and isinstance(v, Ptr) and g.r is v.r and isinstance(init, Ptr) and init.r is g.r:
                    d = simp(bv(v.o) - bv(g.o))
                elif isinstance(g, POINTERS) or isinstance(v, POINTERS):
                    d = None
                else:
                    d = simp(bv(v, 8 * k[2]) - bv(g, 8 * k[2]))
                if not isinstance(d, int) or (c is not None and c != d):
                    c = None
                    break
                c = d
            if c is not None:
                M[k] = ('lin', init, sgn(c, 64 if isinstance(init, Ptr) else 8 * k[2]))
        # ---- memory written element by element
        regs = {}
        G = self.generic(ex, P, M, regs, J)
        G.pc.append(z3.ULT(J, 1 << 62))
        mark = ex.nfresh
        Bs = self.explore(ex, G, h)
        if logs:
            for rn in sorted(logs):
                f = self.bulk_form(ex, P, G, Bs, rn, J, mark)
                if f is None and self.region_hook is not None:
                    f = self.region_hook(ex, P, G, Bs, rn, J)
                if f is None:
                    raise Unsupported('loop in %s changes memory %s in a way that is not summarised' % (fr.fn.name, rn))
                regs[rn] = f
            G2 = self.generic(ex, P, M, regs, J)
            G2.pc.append(z3.ULT(J, 1 << 62))
            mark = ex.nfresh
            Bs = self.explore(ex, G2, h)
            for rn in sorted(logs):
                self.check_bulk(ex, P, G2, Bs, rn, J, regs[rn])
            G = G2
        # ---- history of earlier iterations, valid by construction
        rec.itersyms = set()
        rec.P = P
        self.fill_hist(ex, rec, G, Bs, M, J, mark, len(G.pc))
        H = self.prev_facts(rec, J)
        # ---- candidate invariants
        cands = []
        for k, info in M.items():
            if info[0] == 'lin' and not isinstance(info[1], Ptr) and k[2] < 8 and info[2] in (1, -1):
                w = 8 * k[2]
                init = bv(info[1], w)

                def f(ex_, st, j, k=k, init=init, c=info[2], w=w):
                    v = bv(self.cell_val(st, k), w)
                    return z3.ZeroExt(64 - w, (v - init) if c == 1 else (init - v)) == j
                cands.append(['counter', f])
        for k, info in M.items():
            if info[0] == 'lin' and not isinstance(info[1], Ptr) and info[2] < 0 and (-info[2]) & (-info[2] - 1) == 0:
                w = 8 * k[2]
                init = bv(info[1], w)

                def f(ex_, st, j, init=init, sh=(-info[2]).bit_length() - 1, w=w):
                    m = z3.LShR(init, sh)
                    return z3.ULE(j, z3.ZeroExt(64 - w, m) if w < 64 else m)
                cands.append(['counts down within its start value', f])
        for ti, t in enumerate(self.cell_templates):
            for k in M:
                def f(ex_, st, j, k=k, t=t):
                    v = self.cell_val(st, k)
                    return t(ex_, st, j, v, 8 * k[2]) if v is not None else None
                cands.append(['template %d on a loop variable' % ti, f, getattr(t, 'rewrite', False)])
        for ti, t in enumerate(self.state_templates):
            cands.append([getattr(t, '__name__', 'state invariant'), t])
        live = []
        mine = []
        ex.mute += 1
        try:
            for c in cands:
                try:
                    e = c[1](ex, P, z3.BitVecVal(0, 64))
                except Fork:
                    e = None
                if e is None:
                    continue
                hs = self.hint_list(ex, P, z3.BitVecVal(0, 64))
                if self.holds(ex, P.pc + hs, e):
                    live.append(c)
            while True:
                G = self.generic(ex, P, M, regs, J)
                G.pc.append(z3.ULT(J, 1 << 62))
                G.pc += H
                if self.hints:
                    G.pc += [zb(x) for x in self.hints(ex, G, J)]
                for i in mine:
                    ex.rewrites.pop(i, None)
                mine = []
                ginv = [zb(c[1](ex, G, J)) for c in live]
                for c, e in zip(live, ginv):
                    if len(c) > 2 and c[2] and z3.is_eq(e):
                        l = simp(e.arg(0))
                        if is_z(l):
                            ex.rewrites[l.get_id()] = (l, e.arg(1))
                            mine.append(l.get_id())
                G.pc += ginv
                mark = ex.nfresh
                n0 = len(G.pc)
                Bs = self.explore(ex, G, h)
                bad = set()
                for b in Bs:
                    hs = self.hint_list(ex, b, J + 1) + self.hint_list(ex, b, J)
                    for i, c in enumerate(live):
                        if i in bad:
                            continue
                        try:
                            e = c[1](ex, b, simp(J + 1))
                        except Fork:
                            e = None
                        if e is None or not self.holds(ex, b.pc + hs, e):
                            bad.add(i)
                if not bad:
                    break
                live = [c for i, c in enumerate(live) if i not in bad]
        finally:
            ex.mute -= 1
        for c in live:
            ex.obls.append(Obligation('loop invariant (%s) in %s' % (c[0], fr.fn.name), 'proved', 0.0, 'z3'))
        # ---- the arbitrary iteration the analysis continues from
        rec.itersyms = set()
        self.fill_hist(ex, rec, G, Bs, M, J, mark, n0)
        rec.inv = [zb(x) for x in ginv] + ([zb(x) for x in self.hints(ex, G, J)] if self.hints else [])
        s.mem = dict(G.mem)
        s.pc = list(G.pc)
        s.ghost = dict(s.ghost)
        s.ghost['loops'] = list(s.ghost.get('loops', ())) + [rec]
        rec['auto'] = True
        rec.M = M
        return rec

    def hint_list(self, ex, st, j):
        out = [zb(x) for x in (self.hints(ex, st, j) if self.hints else [])]
        if self.cand_hints:
            out += [zb(x) for x in self.cand_hints(ex, st, j)]
        return out

    def prev_facts(self, rec, J):
        return [z3.Implies(J != 0, rec_hist_raw(rec, J - 1))]

    def back_edge(self, ex, s, fr, h, rec):
        return

    def holds(self, ex, pc, e):
        e = simp(e)
        if e is True:
            return True
        if e is False:
            # only if the path is impossible
            e = z3.BoolVal(False)
        s = z3.Solver()
        s.set('timeout', getattr(self, 'timeout', 2500))
        s.add(*ex.axioms)
        s.add(*pc)
        s.add(z3.Not(zb(e)))
        ex.nqueries += 1
        return s.check() == z3.unsat

    def fill_hist(self, ex, rec, G, Bs, M, J, mark, n0):
        rec.paths = []
        for b in Bs:
            rec.paths.append([zb(c) for c in b.pc[n0:]])
        rec.trans = []
        if self.want_trans:
            for k, info in M.items():
                if info[0] == 'lin':
                    continue
                w = 8 * k[2]
                nxt = self.cell_at(ex, None, k, info, simp(J + 1))
                if len(Bs) == 1:
                    v = self.cell_val(Bs[0], k)
                    e = self.eqv(nxt, v, w)
                    if e is not None:
                        rec.trans.append(e)
                else:
                    for i, b in enumerate(Bs):
                        v = self.cell_val(b, k)
                        e = self.eqv(nxt, v, w)
                        if e is not None:
                            rec.paths[i] = rec.paths[i] + [e]
        cs = {}
        seen = set()
        for p in rec.paths:
            for c in p:
                consts_of(c, cs, seen)
        for c in rec.trans:
            consts_of(c, cs, seen)
        for n in cs:
            if '!' in n:
                try:
                    if int(n.rsplit('!', 1)[1]) > mark:
                        rec.itersyms.add(n)
                except ValueError:
                    pass

    def eqv(self, a, b, w):
        if b is None:
            return None
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
            return bv(a.o) == bv(b.o)
        return val(a, w) == val(b, w)

    def cell_val(self, st, k):
        m = st.mem.get(k[0])
        if not isinstance(m, Cells):
            return None
        c = m.d.get(k[1])
        if c is None or c[0] != k[2]:
            return None
        return c[1]

    def init_val(self, ex, P, k):
        m = P.mem.get(k[0])
        if isinstance(m, Cells) and k[1] in m.d:
            c = m.d[k[1]]
            return c[1] if c[0] == k[2] else None
        r = ex.regions[k[0]]
        if r.init is None:
            return None
        return ex.read(P, r, k[1], k[2])

    def raw(self, ex, k, uid):
        f = z3.Function('F%d:%s+%d' % (uid, k[0], k[1]), B64, z3.BitVecSort(8 * k[2]))
        return ('fun', f)

    def kinds(self, ex, P, M, uid):
        for k in list(M):
            if M[k] is None:
                v = self.init_val(ex, P, k)
                if isinstance(v, Ptr):
                    f = z3.Function('O%d:%s+%d' % (uid, k[0], k[1]), B64, B64)
                    M[k] = ('ptr', v.r, f)
                else:
                    M[k] = self.raw(ex, k, uid)
                if v is not None:
                    # the sequence starts at the value on entry
                    x = self.cell_at(ex, P, k, M[k], z3.BitVecVal(0, 64))
                    e = self.eqv(x, v, 8 * k[2])
                    if e is not None:
                        P.pc.append(e)

    # ---- element-by-element writes
    def new_writes(self, G, b, rn):
        out = []
        e = b.mem.get(rn)
        stop = G.mem.get(rn)
        while e is not None and e is not stop:
            out.append(e)
            e = e.prev
        if e is not stop:
            return None
        return out[::-1]

    def bulk_form(self, ex, P, G, Bs, rn, J, mark):
        if len(Bs) != 1:
            return None
        ws = self.new_writes(G, Bs[0], rn)
        if not ws or any(w.kind != 'w' for w in ws):
            return None
        sz = ws[0].size
        n = len(ws)
        if any(w.size != sz for w in ws):
            return None
        off = bv(ws[0].off)
        d = simp(z3.substitute(off, (J, J + 1)) - off)
        if not isinstance(d, int):
            return None
        c = sgn(d, 64)
        if abs(c) != sz * n:
            return None
        lanes = {}
        for w in ws:
            x = simp(bv(w.off) - off)
            if not isinstance(x, int):
                return None
            x = sgn(x, 64)
            if x % sz or x // sz in lanes:
                return None
            lanes[x // sz] = w.val
            cs = {}
            if is_z(w.val):
                consts_of(w.val, cs, set())
            if any('!' in k and k.rsplit('!', 1)[1].isdigit() and int(k.rsplit('!', 1)[1]) > mark for k in cs):
                return None
        lo = min(lanes)
        if sorted(lanes) != list(range(lo, lo + n)):
            return None
        off = simp(off + lo * sz)
        off0 = simp(z3.substitute(bv(off), (J, z3.BitVecVal(0, 64))))
        base = P.mem.get(rn)
        vals = [lanes[lo + i] for i in range(n)]
        stride = sz * n

        def elem(i, lane):
            """value written by iteration i in a lane"""
            def one(v):
                if not is_z(v):
                    return v
                return simp(z3.substitute(v, (J, bv(i))))
            if all(same(v, vals[0]) for v in vals):
                return one(vals[0])
            if isinstance(lane, int):
                return one(vals[lane])
            r = val(one(vals[-1]), 8 * sz)
            for k in range(n - 2, -1, -1):
                r = z3.If(bv(lane) == k, val(one(vals[k]), 8 * sz), r)
            return r

        def form(j):
            def rd(rel, k):
                if k == sz:
                    i = simp(z3.UDiv(bv(rel), z3.BitVecVal(stride, 64))) if stride > 1 else bv(rel)
                    lane = 0
                    if n > 1:
                        lane = simp(z3.UDiv(z3.URem(bv(rel), z3.BitVecVal(stride, 64)), z3.BitVecVal(sz, 64)))
                    if c < 0:
                        i = bv(j) - 1 - bv(i)
                    return elem(i, lane)
                if k < sz:
                    low = bv(rel) & (sz - 1)
                    whole = val(rd(simp(bv(rel) - low), sz), 8 * sz)
                    return simp(z3.Extract(8 * k - 1, 0, z3.LShR(whole, (low * 8) if sz == 8 else z3.Extract(8 * sz - 1, 0, low * 8))))
                if k % sz == 0:
                    return z3.Concat(*[val(rd(simp(bv(rel) + x), sz), 8 * sz) for x in range(k - sz, -1, -sz)])
                raise Unsupported('wide read of a loop-written array')
            start = off0 if c > 0 else simp(bv(off0) - z3.BitVecVal(stride, 64) * (bv(j) - 1))
            return Log(base, 'b', start, simp(bv(j) * stride), rd)
        form.ws = [(simp(bv(w.off)), w.val) for w in ws]
        return form

    def check_bulk(self, ex, P, G, Bs, rn, J, form):
        if not hasattr(form, 'ws'):
            return
        ok = len(Bs) == 1
        if ok:
            ws = self.new_writes(G, Bs[0], rn)
            ok = ws is not None and len(ws) == len(form.ws) and all(
                w.kind == 'w' and same(simp(bv(w.off)), o) and same(w.val, v) for w, (o, v) in zip(ws, form.ws))
        if not ok:
            raise Unsupported('loop writes depend on earlier writes to ' + rn)


def rec_hist_raw(rec, j):
    body = []
    if rec.paths:
        body.append(z3.Or(*[z3.And(*[rec.at(c, j) for c in p]) if p else z3.BoolVal(True) for p in rec.paths]))
    for t in rec.trans:
        body.append(rec.at(t, j))
    return z3.And(*body) if body else z3.BoolVal(True)
