"""C07: symbols (sym.c)."""
from .c07 import *
from .c07 import U


def string(ex, name, n=None):
    """len bytes anywhere in memory; reading further is an error"""
    n = n if n is not None else ex.fresh(name + '.len')
    r = ex.region(name, n, ex.byte_init(name))
    return r, n


def byte(ex, st, r, k, off=0):
    return bv(ex.read(st, r, simp(bv(k) + off), 1), 8)


def ret_width(ex, name):
    f = ex.find_fn(name)
    return f.mod.size(f.rettype) * 8


def free_names(e):
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def sym_units(mods, table_size):
    units = []

    # ---- hashing: reads exactly the bytes, depends on nothing else
    def hashing(ex):
        st = State()
        ex.contracts['scramble'] = scramble_contract
        r, n = string(ex, 'str')
        ex.assume(st, U(n, 1 << 31))
        ex.small(n, 31)
        ex.loop_default = Auto()
        st0 = st.clone()
        ex.start(st, 'hash_symbol', [Ptr(r, 0), z3.Extract(31, 0, n)])
        outs = ex.run(st)

        def post(s):
            x = bv(s.ret)
            ex.oblige(s, z3.And(z3.UGE(x, 1), z3.ULE(x, table_size)), 'hash_symbol: answers an index of the symbol table')
            recs = s.ghost.get('loops', ())
            ok = {'str', 'scrambled', n.decl().name()}
            names = free_names(x)
            for rec in recs:
                own = set()
                for k, info in rec.M.items():
                    if info[0] == 'fun':
                        own.add(info[1].name())
                        e = info[1](z3.BitVecVal(0, 64))
                    own.add(str(rec.J))
                ok |= own
                for t in rec.trans + [c for p in rec.paths for c in p]:
                    names |= free_names(t)
                ex.oblige(s, rec.J == n, 'hash_symbol: hashes every character')
            bad = [m for m in names if m not in ok and not m.startswith(('F', 'mem8:str', 'mem:str', 'O', 'J'))]
            ex.oblige(s, len(bad) == 0, 'hash_symbol: depends only on the characters (%s)' % ' '.join(sorted(bad)[:3]))
            frame(ex, st0, s, {}, 'hash_symbol')
        if not outs:
            ex.oblige(st, z3.BoolVal(False), 'hash_symbol: answers')
        ex.split(outs, post)
    units.append(('hash_symbol', llvc_unit(mods, hashing)))

    # ---- comparison
    def same(ex):
        st = State()
        r, n = string(ex, 'str')
        ex.assume(st, U(n, 1 << 31))
        ex.small(n, 31)
        flags = ex.fresh('sym.flags')
        words = ex.fresh('sym.words')
        ex.assume(st, U(words, 1 << 29))
        ex.small(words, 29)
        sym = Obj(ex, st, 'sym', words=words, flags=flags, body='bytes')
        ex.assume(st, U(sym.words, 1 << 29))
        symlen = simp((sym.words - 2) * 8 - (flags & 7))
        ex.assume(st, z3.Or(z3.UGT(sym.words, 2), (flags & 7) == 0))
        st0 = st.clone()
        K = ex.fresh('anychar')
        width = ret_width(ex, 'is_same_string')
        ex.start(st, 'is_same_string', [Ptr(r, 0), sym.oop, z3.Extract(31, 0, n)])
        outs = ex.run(st)

        def post(s):
            res = bv(s.ret, width) != 0
            cs = s.ghost.get('compared', ())
            if ex.decide(s, res):
                ex.oblige(s, n == symlen, 'is_same_string: equal strings have equal lengths')
                for c in cs:
                    s.pc.append(c.at(K))
                s.pc.append(U(K, n))
                ex.oblige(s, byte(ex, st0, r, K) == byte(ex, st0, sym.obj_r, K, 16), 'is_same_string: equal strings agree in every character')
            else:
                diff = [n != symlen]
                for c in cs:
                    if c.w is not None:
                        diff.append(z3.And(U(c.w, n), byte(ex, st0, r, c.w) != byte(ex, st0, sym.obj_r, c.w, 16)))
                ex.oblige(s, z3.Or(*diff), 'is_same_string: strings that agree are equal')
            frame(ex, st0, s, {}, 'is_same_string')
        if not outs:
            ex.oblige(st, z3.BoolVal(False), 'is_same_string: answers')
        ex.split(outs, post)
    units.append(('is_same_string', llvc_unit(mods, same)))

    # ---- a new symbol
    def alloc_symbol(ex, offs):
        st = base(ex)
        r, n = string(ex, 'str')
        ex.assume(st, U(n, 1 << 30))
        ex.small(n, 30)
        hp = Heap(ex, offs)
        hp.setup(st)
        st0 = st.clone()
        K = ex.fresh('anychar')
        ex.start(st, 'alloc_symbol_oop', [Ptr(r, 0), z3.Extract(31, 0, n)])
        outs = ex.run(st)

        def post(s):
            al = s.ghost.get('allocs', ())
            if len(al) != 1:
                ex.oblige(s, z3.BoolVal(False), 'alloc_symbol_oop: makes one object')
                return
            o = al[0][0]
            f0, f1 = o.flags, bv(ex.read(s, o.oop_r, 8, 8))
            ex.oblige(s, zb(eq(s.ret, o.oop)), 'alloc_symbol_oop: answers the new symbol')
            ex.oblige(s, (bv(o.words) - 2) * 8 - (f1 & 7) == n, 'alloc_symbol_oop: the symbol has exactly the characters of the string')
            ex.oblige(s, (f1 | 15 | FRO) == (f0 | 15 | FRO), 'alloc_symbol_oop: no other flag changes')
            ex.oblige(s, (f1 & FRO) != 0, 'alloc_symbol_oop: symbols are read-only')
            s.pc.append(U(K, n))
            ex.oblige(s, byte(ex, s, o.reg(s), K, 16) == byte(ex, st0, r, K), 'alloc_symbol_oop: every character is copied')
            frame(ex, st0, s, {o.oop_r.name: None, o.obj_r.name: None, '@_gst_mem': None, 'incubator': None}, 'alloc_symbol_oop')
        if not outs:
            ex.oblige(st, z3.BoolVal(False), 'alloc_symbol_oop: answers')
        ex.split(outs, post)
    units.append(('alloc_symbol_oop', lambda r, d: llvc_unit(mods, lambda ex: alloc_symbol(ex, OFFS))(r, d)))

    # ---- linking it into its chain
    def alloc_link(ex, offs):
        st = base(ex)
        tab = Obj(ex, st, 'table', words=2 + table_size, body='words')
        ex.write(st, ex.global_region('@_gst_symbol_table', st), 0, 8, tab.oop)
        lcls = GClass(ex, st, 'linkcls', (2 << 13) | 1)
        ex.write(st, ex.global_region('@_gst_sym_link_class', st), 0, 8, lcls.oop)
        scls = ex.fresh('symbolclass')
        ex.write(st, ex.global_region('@_gst_symbol_class', st), 0, 8, scls)
        sym = Obj(ex, st, 'sym', body='bytes')
        hp = Heap(ex, offs, [tab, sym])
        hp.setup(st)
        i = ex.fresh('index')
        ex.assume(st, z3.And(z3.UGE(i, 1), z3.ULE(i, table_size)))
        st0 = st.clone()
        ex.start(st, 'alloc_symlink', [sym.oop, i])
        outs = ex.run(st)

        def post(s):
            al = s.ghost.get('allocs', ())
            if len(al) != 1:
                ex.oblige(s, z3.BoolVal(False), 'alloc_symlink: makes one link')
                return
            o = al[0][0]
            at = simp(16 + (i - 1) * 8)
            head = ex.read(st0, tab.reg(st0), at, 8)
            ex.oblige(s, bv(o.words) == 4, 'alloc_symlink: the link has two fields')
            lr = o.reg(s)
            ex.oblige(s, zb(eq(ex.read(s, lr, 8, 8), lcls.oop)), 'alloc_symlink: the link is a SymLink')
            ex.oblige(s, zb(eq(ex.read(s, lr, 16, 8), head)), 'alloc_symlink: the link continues the chain')
            ex.oblige(s, zb(eq(ex.read(s, lr, 24, 8), sym.oop)), 'alloc_symlink: the link holds the symbol')
            ex.oblige(s, zb(eq(ex.read(s, tab.reg(s), at, 8), o.oop)), 'alloc_symlink: the chain starts with the link')
            ex.oblige(s, zb(eq(ex.read(s, sym.reg(s), 8, 8), scls)), 'alloc_symlink: the symbol is a Symbol')
            ex.oblige(s, zb(eq(s.ret, sym.oop)), 'alloc_symlink: answers the symbol')
            k = ex.fresh('k')
            ex.oblige(s, z3.Implies(z3.And(U(k, tab.words * 8), z3.Not(z3.And(z3.UGE(k, at), U(k, at + 8)))),
                                    byte(ex, s, tab.reg(s), k) == byte(ex, st0, tab.reg(st0), k)), 'alloc_symlink: the other chains stay')
            ex.oblige(s, z3.Implies(z3.And(U(k, sym.words * 8), z3.Or(U(k, 8), z3.UGE(k, 16))),
                                    byte(ex, s, sym.reg(s), k) == byte(ex, st0, sym.reg(st0), k)), 'alloc_symlink: the characters stay')
            frame(ex, st0, s, {x: None for x in (o.oop_r.name, o.obj_r.name, '@_gst_mem', 'incubator', tab.reg(s).name, sym.reg(s).name,
                                                 tab.reg(st0).name, sym.reg(st0).name)} | {tab.oop_r.name: lambda k: k == 0, sym.oop_r.name: lambda k: k == 0},
                  'alloc_symlink')
        if not outs:
            ex.oblige(st, z3.BoolVal(False), 'alloc_symlink: answers')
        ex.split(outs, post)
    units.append(('alloc_symlink', lambda r, d: llvc_unit(mods, lambda ex: alloc_link(ex, OFFS))(r, d)))

    # ---- interning
    def intern(ex, offs):
        st = base(ex)
        tab = Obj(ex, st, 'table', words=2 + table_size, body='words')
        ex.write(st, ex.global_region('@_gst_symbol_table', st), 0, 8, tab.oop)
        hp = Heap(ex, offs, [tab])
        hp.setup(st)
        r, n = string(ex, 'str')
        ex.assume(st, U(n, 1 << 30))
        ln = z3.Extract(31, 0, n)
        idx = ex.fresh('hash')
        ex.assume(st, z3.And(z3.UGE(idx, 1), z3.ULE(idx, table_size)))
        # does this symbol have exactly the characters of str?
        SAME = z3.Function('same_string', B64, z3.BoolSort())
        nil = B.builtin_oop(ex, st, '_gst_nil_oop')
        calls = []

        def c_hash(ex_, s, a):
            ex.used_trusted.add('contract hash_symbol (a function of the characters; proved in unit hash_symbol)')
            ex.oblige(s, z3.And(zb(eq(a[0], Ptr(r, 0))), zb(eq(a[1], ln))), 'intern_counted_string: the string is hashed')
            return idx

        def c_same(ex_, s, a):
            ex.oblige(s, z3.And(zb(eq(a[0], Ptr(r, 0))), zb(eq(a[2], ln))), 'intern_counted_string: the string is compared')
            o = bv(a[1])
            res = ex.fresh('isame', width)
            s.pc.append((res != 0) == SAME(o))
            return res
        width = ret_width(ex, 'is_same_string')

        def c_alloc(ex_, s, a):
            ex.oblige(s, z3.And(zb(eq(a[0], Ptr(r, 0))), zb(eq(a[1], ln))), 'intern_counted_string: the new symbol has the characters')
            hp.move(s)
            v = ex.fresh('newsym')
            s.ghost = dict(s.ghost)
            s.ghost['made'] = list(s.ghost.get('made', ())) + [v]
            return v

        def c_link(ex_, s, a):
            m = s.ghost.get('made', ())
            ex.oblige(s, len(m) == 1 and z3.And(zb(eq(a[0], m[0])), zb(eq(a[1], idx))), 'intern_counted_string: the new symbol is linked into its chain')
            s.ghost = dict(s.ghost)
            s.ghost['linked'] = s.ghost.get('linked', 0) + 1
            hp.move(s)
            return a[0]
        ex.contracts.update({'hash_symbol': c_hash, 'is_same_string': c_same, 'alloc_symbol_oop': c_alloc, 'alloc_symlink': c_link,
                             '_gst_add_symbol_completion': lambda e, s, a: None})
        ex.used_trusted.add('contracts is_same_string, alloc_symbol_oop, alloc_symlink (proved in their units)')
        head = bv(ex.read(st, tab.reg(st), simp(16 + (idx - 1) * 8), 8))
        # the chain: link k of the list starting in the table
        CH = z3.Function('chain', B64, B64)
        obj = lambda o: bv(ex.read(st0, ex.world, simp(o), 8))
        nxt = lambda o: bv(ex.read(st0, ex.world, simp(obj(o) + 16), 8))
        symof = lambda o: bv(ex.read(st0, ex.world, simp(obj(o) + 24), 8))
        st.pc.append(CH(z3.BitVecVal(0, 64)) == head)
        st0 = st.clone()

        def walk(ex_, s, j, v, w):
            if w != 64 or isinstance(v, Ptr):
                return None
            return bv(v) == CH(bv(j))
        walk.rewrite = True
        spec = Auto(cell_templates=[walk])
        spec.cand_hints = lambda ex_, s, j: [z3.Implies(CH(bv(j)) != nil, CH(bv(j) + 1) == nxt(CH(bv(j))))]
        ex.loop_default = spec
        ex.start(st, 'intern_counted_string', [Ptr(r, 0), ln])
        outs = ex.run(st)
        X = ex.fresh('anylink')

        def post(s):
            recs = s.ghost.get('loops', ())
            if len(recs) != 1:
                ex.oblige(s, z3.BoolVal(False), 'intern_counted_string: the chain is searched')
                return
            J = recs[0].J
            if not s.ghost.get('made'):
                ex.oblige(s, z3.And(CH(J) != nil, bv(s.ret) == symof(CH(J)), SAME(symof(CH(J)))), 'intern_counted_string: an existing symbol has the characters')
                frame(ex, st0, s, {'@_gst_mem': None, 'incubator': None}, 'intern_counted_string')
            else:
                m = s.ghost['made']
                ex.oblige(s, len(m) == 1 and s.ghost.get('linked') == 1, 'intern_counted_string: one new symbol')
                ex.oblige(s, zb(eq(s.ret, m[0])), 'intern_counted_string: the new symbol is answered')
                ex.oblige(s, CH(J) == nil, 'intern_counted_string: a symbol is made only at the end of the chain')
                s.pc += [U(X, J), recs[0].hist(X)]
                ex.oblige(s, z3.And(CH(X) != nil, z3.Not(SAME(symof(CH(X))))), 'intern_counted_string: a symbol is made only if none of the chain has the characters')
        if not outs:
            ex.oblige(st, z3.BoolVal(False), 'intern_counted_string: answers')
        ex.split(outs, post)
    units.append(('intern_counted_string', lambda r, d: llvc_unit(mods, lambda ex: intern(ex, OFFS))(r, d)))

    # ---- interning the characters of a String object
    for small in (True, False):
        def intern_oop(ex, small=small):
            st = base(ex)
            flags = ex.fresh('string.flags')
            o = Obj(ex, st, 'string', flags=flags, body='bytes')
            ex.assume(st, U(o.words, 1 << 27))
            ex.assume(st, z3.Or(z3.UGT(o.words, 2), (flags & 7) == 0))
            n = simp((o.words - 2) * 8 - (flags & 7))
            ex.assume(st, U(n, 100) if small else z3.UGE(n, 100))
            hp = Heap(ex, OFFS, [o])
            hp.setup(st)
            st0 = st.clone()
            res = ex.fresh('symbol')
            K = ex.fresh('anychar')

            def c_intern(ex_, s, a):
                p = a[0]
                ex.oblige(s, zb(eq(z3.ZeroExt(32, bv(a[1], 32)), n)), '_gst_intern_string_oop: all characters count')
                rr, oo = ex.resolve_addr(s, p)
                ex.bounds_range(s, rr, oo, n, 'interned characters')
                ex.oblige(s, rr is not o.reg(s), '_gst_intern_string_oop: interns a copy that cannot move')
                a2 = s.clone()
                a2.pc.append(U(K, n))
                ex.oblige(a2, byte(ex, a2, rr, K, oo) == byte(ex, st0, o.reg(st0), K, 16), '_gst_intern_string_oop: the characters are the string\'s')
                s.ghost = dict(s.ghost)
                s.ghost['interned'] = s.ghost.get('interned', 0) + 1
                return res

            def c_malloc(ex_, s, a):
                ex.nblk = getattr(ex, 'nblk', 0) + 1
                return Ptr(ex.region('malloc%d' % ex.nblk, a[0], ex.byte_init('malloc%d' % ex.nblk)), 0)
            ex.contracts.update({'intern_counted_string': c_intern, 'xmalloc': c_malloc, 'xfree': lambda e, s, a: None, 'free': lambda e, s, a: None,
                                 'rpl_free': lambda e, s, a: None})
            ex.start(st, '_gst_intern_string_oop', [o.oop])
            outs = ex.run(st)

            def post(s):
                ex.oblige(s, s.ghost.get('interned') == 1, '_gst_intern_string_oop: the string is interned')
                ex.oblige(s, zb(eq(s.ret, res)), '_gst_intern_string_oop: the symbol is answered')
            if not outs:
                ex.oblige(st, z3.BoolVal(False), '_gst_intern_string_oop: answers')
            ex.split(outs, post)
        units.append(('_gst_intern_string_oop/%s' % ('short' if small else 'long'), llvc_unit(mods, intern_oop)))
    return units


OFFS = {}
FRO = 0
