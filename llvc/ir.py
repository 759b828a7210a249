"""Parser for the textual LLVM IR that clang 18 prints (the subset clang -O0
produces for C).  Functions are split by a cheap line scan and parsed lazily."""
import re


class Unsupported(Exception):
    """The tool cannot handle a construct; never a verdict on the code."""


# ---------------------------------------------------------------- types
# int: ('i', n); ('ptr',); ('f', bits); ('arr', n, t); ('st', [t..], packed)
# ('named', name); ('void',); ('fn',); ('vec', n, t); ('meta',)
PTR = ('ptr',)
VOID = ('void',)

TOK = re.compile(r'''\s*(?:
   (?P<str>c"(?:[^"])*")|
   (?P<q>[%@]"(?:[^"\\]|\\.)*")|
   (?P<id>[%@][-a-zA-Z$._0-9]+)|
   (?P<meta>![-a-zA-Z$._0-9]*)|
   (?P<attr>\#\d+)|
   (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
   (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|
   (?P<dots>\.\.\.)|
   (?P<word>[a-zA-Z_][a-zA-Z0-9_.$]*)|
   (?P<dq>"(?:[^"])*")|
   (?P<p>[][(){}<>=,*|:])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        r = m(s, pos)
        if not r:
            rest = s[pos:].strip()
            if not rest or rest[0] == ';':
                break
            raise Unsupported('lex: ' + s[pos:pos + 40])
        out.append(r.group().strip())
        pos = r.end()
    return out


class P:
    """A token cursor."""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %r got %r in %r' % (x, y, ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == 'ptr':
            t = PTR
        elif x == 'void':
            t = VOID
        elif x == 'double':
            t = ('f', 64)
        elif x == 'float':
            t = ('f', 32)
        elif x == 'x86_fp80':
            t = ('f', 80)
        elif x == 'label':
            t = ('label',)
        elif x == 'metadata':
            t = ('meta',)
        elif x[0] == '%':
            t = ('named', x)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if not self.eat(','):
                        break
                self.expect('}')
            t = ('st', tuple(fs), False)
        elif x == '<':
            if self.peek() == '{':
                t = self.type()
                self.expect('>')
                t = ('st', t[1], True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == 'opaque':
            t = ('opaque',)
        else:
            raise Unsupported('type ' + x)
        # function types: T (args)
        while self.peek() == '(' and t is not None and self._is_fnty():
            self.i += 1
            depth = 1
            while depth:
                y = self.next()
                if y == '(':
                    depth += 1
                elif y == ')':
                    depth -= 1
            t = ('fnty', t)
        while self.peek() == 'addrspace':
            self.next(); self.expect('('); self.next(); self.expect(')')
        return t

    def _is_fnty(self):
        return getattr(self, 'allow_fn', True) if False else True


PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'inreg', 'nonnull', 'noalias', 'nocapture',
               'readonly', 'readnone', 'writeonly', 'returned', 'immarg', 'nest', 'swiftself',
               'allocptr', 'noreturn', 'nounwind', 'writable', 'dead_on_unwind', 'allocalign'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret',
                   'elementtype', 'byref', 'preallocated', 'inalloca', 'memory', 'range', 'nofpclass'}


def skip_attrs(p):
    while True:
        x = p.peek()
        if x in PARAM_ATTRS:
            p.next()
        elif x in PARAM_ATTRS_ARG:
            p.next()
            if p.peek() == '(':
                d = 0
                while True:
                    y = p.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break
            else:
                p.next()
        elif x is not None and x[0] == '#':
            p.next()
        elif x is not None and x[0] == '"':
            p.next()
            if p.eat('='):
                p.next()
        else:
            return


def unquote_name(x):
    if len(x) > 1 and x[1] == '"':
        return x[0] + x[2:-1]
    return x


def cstr_bytes(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin-1')
            i += 1
    return bytes(out)


def parse_value(p, ty):
    """Parse a value of type ty.  Returns an operand tuple:
    ('l', name) local; ('g', name) global; ('c', int); ('fc', bits-int-or-float)
    ('null',) ('undef',) ('zero',) ('ce', op, ...) ('agg', [...]) ('str', bytes)
    ('ba', fn, label)"""
    x = p.next()
    c = x[0]
    if c == '%':
        return ('l', unquote_name(x))
    if c == '@':
        return ('g', unquote_name(x))
    if x == 'true':
        return ('c', 1)
    if x == 'false':
        return ('c', 0)
    if x == 'null':
        return ('null',)
    if x in ('undef', 'poison'):
        return ('undef',)
    if x == 'zeroinitializer':
        return ('zero',)
    if ty[0] == 'f':
        return ('fc', x)
    if c == '-' or c.isdigit():
        if x.startswith('0x'):
            return ('fc', x)
        return ('c', int(x))
    if x.startswith('c"'):
        return ('str', cstr_bytes(x))
    if x in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[x]
        if x == '<' and p.peek() == '{':
            p.next()
            els = _agg(p, '}')
            p.expect('>')
            return ('agg', els)
        return ('agg', _agg(p, close))
    if x == 'getelementptr':
        inb = False
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        p.expect('(')
        bt = p.type()
        p.expect(',')
        ops = []
        while True:
            t = p.type()
            skip_attrs(p)
            if p.peek() == 'inrange':
                p.next()
            ops.append((t, parse_value(p, t)))
            if not p.eat(','):
                break
        p.expect(')')
        return ('ce', 'gep', bt, ops)
    if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
        p.expect('(')
        t = p.type()
        v = parse_value(p, t)
        p.expect('to')
        t2 = p.type()
        p.expect(')')
        return ('ce', 'cast', x, t, v, t2)
    if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv'):
        while p.peek() in ('nsw', 'nuw', 'exact'):
            p.next()
        p.expect('(')
        t = p.type()
        a = parse_value(p, t)
        p.expect(',')
        t2 = p.type()
        b = parse_value(p, t2)
        p.expect(')')
        return ('ce', 'bin', x, t, a, b)
    if x == 'icmp':
        pred = p.next()
        p.expect('(')
        t = p.type()
        a = parse_value(p, t)
        p.expect(',')
        t2 = p.type()
        b = parse_value(p, t2)
        p.expect(')')
        return ('ce', 'icmp', pred, t, a, b)
    if x == 'blockaddress':
        p.expect('(')
        f = unquote_name(p.next())
        p.expect(',')
        l = unquote_name(p.next())
        p.expect(')')
        return ('ba', f, l)
    if x == 'asm':
        flags = []
        while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
            flags.append(p.next())
        tmpl = p.next()
        p.expect(',')
        cons = p.next()
        return ('asm', tmpl[1:-1], cons[1:-1])
    raise Unsupported('value %r in %s' % (x, ' '.join(p.t)[:200]))


def _agg(p, close):
    els = []
    if p.eat(close):
        return els
    while True:
        t = p.type()
        els.append((t, parse_value(p, t)))
        if not p.eat(','):
            break
    p.expect(close)
    return els


class Instr:
    __slots__ = ('res', 'op', 'a', 'text')

    def __init__(self, res, op, a, text):
        self.res = res
        self.op = op
        self.a = a
        self.text = text

    def __repr__(self):
        return self.text.strip()


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod = mod
        self.name = name
        self.header = header
        self.lines = lines
        self._blocks = None
        self._loops = None
        self.parse_header()

    def parse_header(self):
        h = self.header
        i = h.index('@' + self.name if ('@' + self.name) in h else '@"' + self.name)
        # parameters
        j = h.index('(', i)
        p = P(tokenize(h[j:]))
        p.expect('(')
        self.params = []
        self.vararg = False
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    self.vararg = True
                else:
                    t = p.type()
                    skip_attrs(p)
                    nm = None
                    if p.peek() and p.peek()[0] == '%':
                        nm = unquote_name(p.next())
                    self.params.append((t, nm))
                if not p.eat(','):
                    break
            p.expect(')')
        pre = tokenize(h[:i])
        # return type: last type before name
        k = len(pre)
        rt = None
        skip = {'define', 'internal', 'hidden', 'dso_local', 'linkonce_odr', 'available_externally',
                'private', 'weak', 'external', 'declare', 'zeroext', 'signext', 'noundef', 'noalias',
                'nonnull', 'local_unnamed_addr', 'inreg', 'linkonce', 'common', 'weak_odr', 'protected'}
        q = P([])
        toks = []
        it = iter(range(len(pre)))
        idx = 0
        while idx < len(pre):
            if pre[idx] in skip:
                idx += 1
                continue
            if pre[idx] in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                idx += 1
                if idx < len(pre) and pre[idx] == '(':
                    idx += 3
                else:
                    idx += 1
                continue
            toks.append(pre[idx])
            idx += 1
        q = P(toks)
        self.rettype = q.type()

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        order = []
        cur = None
        L = self.lines
        i = 0
        n = len(L)
        lab = re.compile(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):')
        if n and not lab.match(L[0]):
            cur = '%' + str(len([1 for t, nm in self.params]))
            blocks[cur] = []
            order.append(cur)
        while i < n:
            s = L[i]
            i += 1
            if not s or s.isspace():
                continue
            m = lab.match(s)
            if m:
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = '%' + nm
                blocks[cur] = []
                order.append(cur)
                continue
            st = s.strip()
            if st[0] == ';':
                continue
            if st.startswith('switch') or (st.startswith('indirectbr')) or ' switch ' in st[:8]:
                while ']' not in st:
                    st += ' ' + L[i].strip()
                    i += 1
            blocks[cur].append(st)
        self._raw = blocks
        self.order = order
        self._blocks = _LazyBlocks(blocks)
        self.entry = order[0]

    # -------- natural loops
    @property
    def loops(self):
        """header -> set of body blocks (natural loops by back edges under dominance)"""
        if self._loops is None:
            self._loops = find_loops(self)
        return self._loops


class _LazyBlocks(dict):
    def __init__(self, raw):
        self.raw = raw

    def __missing__(self, k):
        v = [parse_instr(s) for s in self.raw[k]]
        self[k] = v
        return v

    def __contains__(self, k):
        return k in self.raw


def successors(fn, b):
    t = fn.blocks[b][-1]
    if t.op == 'br':
        return [t.a[1]] if t.a[0] == 'u' else [t.a[2], t.a[3]]
    if t.op == 'switch':
        return [t.a[2]] + [l for _, l in t.a[3]]
    if t.op == 'indirectbr':
        return list(t.a[1])
    return []


def find_loops(fn):
    entry = fn.order[0] if fn._raw else None
    succ = {}
    order = []
    seen = set()
    stack = [(entry, iter(successors(fn, entry)))]
    succ[entry] = successors(fn, entry)
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if s not in seen:
                seen.add(s)
                succ[s] = successors(fn, s)
                stack.append((s, iter(succ[s])))
                adv = True
                break
        if not adv:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            preds[s].append(b)
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        x, y = q, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(preds[x])
    return loops


def strip_meta(p):
    return


CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi',
         'fptoui', 'fpext', 'fptrunc', 'addrspacecast'}
BINS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem',
        'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


def parse_instr(s):
    toks = tokenize(s)
    p = P(toks)
    res = None
    if len(toks) > 1 and toks[1] == '=':
        res = unquote_name(p.next())
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'load':
        atomic = p.eat('atomic')
        vol = p.eat('volatile')
        t = p.type()
        p.expect(',')
        pt = p.type()
        return Instr(res, 'load', (t, parse_value(p, pt)), s)
    if op == 'store':
        p.eat('atomic')
        p.eat('volatile')
        t = p.type()
        v = parse_value(p, t)
        p.expect(',')
        pt = p.type()
        return Instr(None, 'store', (t, v, parse_value(p, pt)), s)
    if op == 'alloca':
        p.eat('inalloca')
        t = p.type()
        n = ('c', 1)
        if p.eat(','):
            if p.peek() != 'align':
                nt = p.type()
                n = parse_value(p, nt)
        return Instr(res, 'alloca', (t, n), s)
    if op == 'getelementptr':
        inb = False
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            inb = True
            p.next()
        bt = p.type()
        p.expect(',')
        ops = []
        while True:
            t = p.type()
            ops.append((t, parse_value(p, t)))
            if not p.eat(','):
                break
        return Instr(res, 'gep', (bt, ops), s)
    if op in BINS:
        flags = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'arcp', 'afn', 'disjoint'):
            flags.add(p.next())
        t = p.type()
        a = parse_value(p, t)
        p.expect(',')
        b = parse_value(p, t)
        return Instr(res, 'bin', (op, t, a, b, flags), s)
    if op == 'fneg':
        t = p.type()
        return Instr(res, 'fneg', (t, parse_value(p, t)), s)
    if op in ('icmp', 'fcmp'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'):
            p.next()
        pred = p.next()
        t = p.type()
        a = parse_value(p, t)
        p.expect(',')
        b = parse_value(p, t)
        return Instr(res, op, (pred, t, a, b), s)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        v = parse_value(p, t)
        p.expect('to')
        t2 = p.type()
        return Instr(res, 'cast', (op, t, v, t2), s)
    if op == 'br':
        t = p.type()
        if t == ('label',):
            return Instr(None, 'br', ('u', unquote_name(p.next())), s)
        c = parse_value(p, t)
        p.expect(','); p.expect('label')
        a = unquote_name(p.next())
        p.expect(','); p.expect('label')
        b = unquote_name(p.next())
        return Instr(None, 'br', ('c', c, a, b), s)
    if op == 'switch':
        t = p.type()
        v = parse_value(p, t)
        p.expect(','); p.expect('label')
        d = unquote_name(p.next())
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = parse_value(p, ct)
            p.expect(','); p.expect('label')
            cases.append((cv[1], unquote_name(p.next())))
        return Instr(None, 'switch', (t, v, d, cases), s)
    if op == 'indirectbr':
        t = p.type()
        v = parse_value(p, t)
        p.expect(','); p.expect('[')
        ls = []
        while not p.eat(']'):
            p.eat(',')
            p.expect('label')
            ls.append(unquote_name(p.next()))
        return Instr(None, 'indirectbr', (v, ls), s)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return Instr(None, 'ret', (t, None), s)
        return Instr(None, 'ret', (t, parse_value(p, t)), s)
    if op == 'unreachable':
        return Instr(None, 'unreachable', (), s)
    if op == 'phi':
        t = p.type()
        ins = []
        while True:
            p.expect('[')
            v = parse_value(p, t)
            p.expect(',')
            l = unquote_name(p.next())
            p.expect(']')
            ins.append((v, l))
            if not p.eat(','):
                break
        return Instr(res, 'phi', (t, ins), s)
    if op == 'select':
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz'):
            p.next()
        ct = p.type()
        c = parse_value(p, ct)
        p.expect(',')
        t = p.type()
        a = parse_value(p, t)
        p.expect(',')
        t2 = p.type()
        b = parse_value(p, t2)
        return Instr(res, 'select', (c, t, a, b), s)
    if op == 'call':
        skip_attrs(p)
        while p.peek() in ('fastcc', 'ccc', 'coldcc', 'fast', 'nnan', 'ninf', 'nsz'):
            p.next()
        skip_attrs(p)
        t = p.type()
        if t[0] == 'fnty':
            t = t[1]
        nx = p.peek()
        callee = parse_value(p, PTR)
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                if at == ('meta',):
                    # skip metadata operand
                    while p.peek() not in (',', ')'):
                        p.next()
                    args.append((at, None))
                else:
                    skip_attrs(p)
                    args.append((at, parse_value(p, at)))
                if not p.eat(','):
                    break
            p.expect(')')
        return Instr(res, 'call', (t, callee, args), s)
    if op == 'extractvalue':
        t = p.type()
        v = parse_value(p, t)
        idx = []
        while p.eat(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return Instr(res, 'extractvalue', (t, v, idx), s)
    if op == 'insertvalue':
        t = p.type()
        v = parse_value(p, t)
        p.expect(',')
        t2 = p.type()
        e = parse_value(p, t2)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Instr(res, 'insertvalue', (t, v, t2, e, idx), s)
    if op == 'fence':
        return Instr(None, 'fence', (), s)
    if op == 'freeze':
        t = p.type()
        return Instr(res, 'freeze', (t, parse_value(p, t)), s)
    return Instr(res, 'unsupported', (op,), s)


class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.functions = {}
        self.decls = {}
        self.globals = {}
        self.types = {}
        self._sizes = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        fname = re.compile(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+)\(')
        while i < n:
            s = lines[i]
            if s.startswith('define'):
                m = fname.search(s)
                nm = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.functions[nm] = Function(self, nm, s, lines[i + 1:j])
                i = j + 1
                continue
            if s.startswith('@'):
                m = re.match(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+) = (.*)$', s)
                self.globals['@' + m.group(1).strip('"')] = [m.group(2), None]
            elif s.startswith('%') and ' = type ' in s:
                a, b = s.split(' = type ', 1)
                self.types[unquote_name(a)] = b
            elif s.startswith('declare'):
                m = fname.search(s)
                self.decls[m.group(1).strip('"')] = s
            i += 1

    def named(self, name):
        v = self.types[name]
        if isinstance(v, str):
            v = P(tokenize(v)).type()
            self.types[name] = v
        return v

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named(t[1])
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return max(1, min(16 if t[1] > 64 else 8, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
        if k == 'ptr':
            return 8
        if k == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k in ('arr', 'vec'):
            return self.align(t[2])
        if k == 'st':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise Unsupported('align %r' % (t,))

    def size(self, t):
        r = self._sizes.get(t)
        if r is None:
            r = self._sizes[t] = self._size(t)
        return r

    def _size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            return 1 << (n - 1).bit_length() if n > 1 else 1
        if k == 'ptr':
            return 8
        if k == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k in ('arr', 'vec'):
            return t[1] * self.size(t[2])
        if k == 'st':
            off = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    off = (off + a - 1) // a * a
                off += self.size(x)
            a = self.align(t)
            return (off + a - 1) // a * a
        raise Unsupported('sizeof %r' % (t,))

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for k, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            if k == i:
                return off, x
            off += self.size(x)
        raise Unsupported('field')

    def global_def(self, name):
        """-> (const?, type, init operand or None)"""
        g = self.globals[name]
        if g[1] is None:
            p = P(tokenize(g[0]))
            const = False
            ext = False
            while True:
                x = p.next()
                if x == 'global':
                    break
                if x == 'constant':
                    const = True
                    break
                if x in ('external', 'extern_weak'):
                    ext = True
                if x == 'alias':
                    raise Unsupported('alias')
                if x == 'thread_local':
                    pass
            t = p.type()
            init = None
            if not ext:
                init = parse_value(p, t)
            g[1] = (const, t, init)
        return g[1]
