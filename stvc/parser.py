"""Parser for the Smalltalk sources of kernel/*.st (class-body syntax)."""
import re
from fractions import Fraction


class ParseError(Exception):
    pass


class Node:
    __slots__ = ('line',)


class Lit(Node):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Sym:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Sym) and o.s == self.s

    def __hash__(self):
        return hash(('sym', self.s))

    def __repr__(self):
        return '#' + self.s


class CharV:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c          # int or z3 Int

    def __repr__(self):
        return '$<%s>' % (self.c,)


class FloatLit:
    def __init__(self, text):
        self.text = text


class ScaledLit:
    def __init__(self, num, scale):
        self.num = num
        self.scale = scale


class LitArr:
    def __init__(self, items):
        self.items = items


class LitBytes:
    def __init__(self, items):
        self.items = items


class Binding:
    def __init__(self, name):
        self.name = name


class Var(Node):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Assign(Node):
    __slots__ = ('name', 'e')

    def __init__(self, name, e):
        self.name = name
        self.e = e


class Send(Node):
    __slots__ = ('r', 'sel', 'args')

    def __init__(self, r, sel, args):
        self.r = r
        self.sel = sel
        self.args = args


class Cascade(Node):
    __slots__ = ('r', 'msgs')

    def __init__(self, r, msgs):
        self.r = r
        self.msgs = msgs


class Block(Node):
    __slots__ = ('params', 'temps', 'body')

    def __init__(self, params, temps, body):
        self.params = params
        self.temps = temps
        self.body = body


class Ret(Node):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class ArrayE(Node):
    __slots__ = ('es',)

    def __init__(self, es):
        self.es = es


class Method:
    def __init__(self):
        self.sel = None
        self.params = []
        self.temps = []
        self.body = []
        self.primitive = None
        self.cls = None          # class name
        self.meta = False
        self.line = 0
        self.attrs = []

    def __repr__(self):
        return '%s%s>>%s' % (self.cls, ' class' if self.meta else '', self.sel)


class ClassDef:
    def __init__(self, name, sup):
        self.name = name
        self.sup = sup
        self.ivars = []
        self.civars = []         # class-instance variables
        self.cvars = {}          # name -> AST or None
        self.methods = {}
        self.cmethods = {}
        self.shape = None
        self.ns = None
        self.imports = []


TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<comment>"[^"]*")
 |(?P<str>'(?:[^']|'')*')
 |(?P<char>\$(?:<\d+r[0-9A-Fa-f]+>|<\d+>|.|\n))
 |(?P<cc>\#\#\()
 |(?P<bind>\#\{[^}]*\})
 |(?P<larr>\#\()
 |(?P<lbytes>\#\[)
 |(?P<sym>\#(?:'(?:[^']|'')*'|[A-Za-z_][A-Za-z0-9_]*(?::[A-Za-z_][A-Za-z0-9_]*)*:?(?:\.[A-Za-z_][A-Za-z0-9_]*)*|[-+*/\\<>=~@%|&?,!]+))
 |(?P<num>(?:\d[0-9_]*r-?[0-9A-Z]+(?:\.[0-9A-Z]+)?(?:e-?\d+)?|\d[0-9_]*(?:\.\d[0-9_]*)?(?:[edq]-?\d+|[edq](?![a-zA-Z0-9_]))?(?:s\d*(?![a-zA-Z]))?))
 |(?P<kw>[A-Za-z_][A-Za-z0-9_]*:(?!=))
 |(?P<id>[A-Za-z_][A-Za-z0-9_]*(?:\.[A-Za-z_][A-Za-z0-9_]*)*)
 |(?P<assign>:=)
 |(?P<punct>[\[\](){}.;^:!])
 |(?P<bin>[-+*/\\<>=~@%|&?,]+)
''', re.X)


class Tok:
    __slots__ = ('k', 'v', 'pos', 'line', 'ws')

    def __init__(self, k, v, pos, line, ws):
        self.k = k
        self.v = v
        self.pos = pos
        self.line = line
        self.ws = ws

    def __repr__(self):
        return '%s %r @%d' % (self.k, self.v, self.line)


def tokenize(text):
    out = []
    i = 0
    n = len(text)
    line = 1
    ws = True
    while i < n:
        m = TOK.match(text, i)
        if not m:
            if text[i] == '`' or ord(text[i]) < 32 or ord(text[i]) > 126:
                i += 1
                continue
            raise ParseError('bad character %r line %d' % (text[i], line))
        k = m.lastgroup
        v = m.group()
        if k not in ('ws', 'comment'):
            out.append(Tok(k, v, i, line, ws))
            ws = False
        else:
            ws = True
        line += v.count('\n')
        i = m.end()
    out.append(Tok('eof', '', n, line, True))
    return out


def number(t):
    t = t.replace('_', '')
    m = re.match(r'^(\d+)r(-?)([0-9A-Z]+)(?:e(-?\d+))?$', t)
    if m:
        b = int(m.group(1))
        s = m.group(3)
        v = 0
        for ch in s:
            v = v * b + int(ch, 36)
        if m.group(2):
            v = -v
        if m.group(4):
            e = int(m.group(4))
            if e < 0:
                return FloatLit(t)
            v *= b ** e
        return v
    m = re.match(r'^(\d+)(?:e(\d+))?$', t)
    if m:
        v = int(m.group(1))
        if m.group(2):
            v *= 10 ** int(m.group(2))
        return v
    m = re.match(r'^(\d+)(?:\.(\d+))?s(\d*)$', t)
    if m:
        f = m.group(2) or ''
        sc = int(m.group(3)) if m.group(3) else len(f)
        return ScaledLit(Fraction(int(m.group(1) + f), 10 ** len(f)), sc)
    return FloatLit(t)


class Parser:
    def __init__(self, text, fname='?'):
        self.toks = tokenize(text)
        self.p = 0
        self.fname = fname

    @property
    def t(self):
        return self.toks[self.p]

    def peek(self, k=1):
        return self.toks[min(self.p + k, len(self.toks) - 1)]

    def next(self):
        t = self.toks[self.p]
        self.p += 1
        return t

    def isv(self, v):
        return self.t.v == v and self.t.k in ('punct', 'bin', 'assign')

    def expect(self, v):
        if self.t.v != v:
            raise ParseError('%s:%d: expected %s, found %r' % (self.fname, self.t.line, v, self.t.v))
        return self.next()

    # ---- expressions
    def temps(self):
        r = []
        while self.t.k == 'bin' and self.t.v in ('|', '||'):
            if self.t.v == '||':
                self.next()
                continue
            self.next()
            while self.t.k == 'id':
                r.append(self.next().v)
            if not (self.t.k == 'bin' and self.t.v == '|'):
                raise ParseError('%s:%d: bad temporaries' % (self.fname, self.t.line))
            self.next()
        return r

    def statements(self, ends, temps):
        out = []
        while True:
            while self.isv('.'):
                self.next()
            if self.t.k == 'bin' and self.t.v in ('|', '||'):
                temps += self.temps()
                continue
            if self.t.v in ends or self.t.k == 'eof':
                break
            if self.t.k == 'bin' and self.t.v == '<' and self.pragma_ahead():
                self.pragma(None)
                continue
            ln = self.t.line
            if self.isv('^'):
                self.next()
                e = Ret(self.expr())
            else:
                e = self.expr()
            e.line = ln
            out.append(e)
            if self.isv('.'):
                self.next()
            elif self.isv('!'):
                break
            elif self.t.v not in ends and self.t.k != 'eof':
                raise ParseError('%s:%d: unexpected %r' % (self.fname, self.t.line, self.t.v))
        return out

    def pragma_ahead(self):
        return self.peek().k == 'kw'

    def pragma(self, m):
        self.expect('<')
        kw = self.next().v
        args = []
        depth = 0
        # argument: up to closing '>'
        a0 = self.p
        while not (self.t.k == 'bin' and self.t.v == '>' and depth == 0):
            if self.t.k == 'eof':
                raise ParseError('pragma')
            if self.t.v in ('(', '[', '{') or self.t.k in ('larr', 'lbytes', 'cc'):
                depth += 1
            if self.t.v in (')', ']', '}'):
                depth -= 1
            args.append(self.next())
        self.next()
        if m is not None:
            m.append((kw, [a.v for a in args]))

    def expr(self):
        ln = self.t.line
        if self.t.k == 'id' and self.peek().k == 'assign':
            nm = self.next().v
            self.next()
            e = Assign(nm, self.expr())
            e.line = ln
            return e
        e = self.keyword_expr()
        if self.isv(';'):
            if not isinstance(e, Send):
                raise ParseError('%s:%d: cascade' % (self.fname, self.t.line))
            msgs = [(e.sel, e.args)]
            r = e.r
            while self.isv(';'):
                self.next()
                msgs.append(self.cascade_msg())
            e = Cascade(r, msgs)
        e.line = ln
        return e

    def cascade_msg(self):
        t = self.t
        if t.k == 'kw':
            sel = ''
            args = []
            while self.t.k == 'kw':
                sel += self.next().v
                args.append(self.binary_expr())
            return sel, args
        if t.k == 'bin':
            op = self.next().v
            return op, [self.unary_expr()]
        if t.k == 'id':
            return self.next().v, []
        raise ParseError('%s:%d: cascade %r' % (self.fname, t.line, t.v))

    def keyword_expr(self):
        ln = self.t.line
        e = self.binary_expr()
        if self.t.k == 'kw':
            sel = ''
            args = []
            while self.t.k == 'kw':
                sel += self.next().v
                args.append(self.binary_expr())
            e = Send(e, sel, args)
            e.line = ln
        return e

    def binary_expr(self):
        e = self.unary_expr()
        while self.t.k == 'bin' and not (self.t.v == '!' ):
            ln = self.t.line
            op = self.t.v
            # negative literal glued to an operator: a--1, 3-1 handled in primary
            if len(op) > 1 and op[-1] == '-' and self.peek().k == 'num' and not self.peek().ws:
                self.next()
                op = op[:-1]
                arg = Lit(neg(number(self.next().v)))
                arg.line = ln
                arg = self.unary_tail(arg)
            else:
                self.next()
                arg = self.unary_expr()
            e = Send(e, op, [arg])
            e.line = ln
        return e

    def unary_expr(self):
        return self.unary_tail(self.primary())

    def unary_tail(self, e):
        while self.t.k == 'id':
            ln = self.t.line
            for part in self.next().v.split('.')[:1]:
                e = Send(e, part, [])
                e.line = ln
            v = self.toks[self.p - 1].v
            if '.' in v:
                # "foo.Bar" after a receiver is a statement end; re-split
                rest = v.split('.', 1)[1]
                tk = self.toks[self.p - 1]
                self.toks[self.p:self.p] = [Tok('punct', '.', tk.pos, tk.line, False), Tok('id', rest, tk.pos, tk.line, False)]
                break
        return e

    def primary(self):
        t = self.t
        ln = t.line
        k = t.k
        if k == 'id':
            self.next()
            e = Var(t.v)
        elif k == 'num':
            self.next()
            e = Lit(number(t.v))
        elif k == 'bin' and t.v == '-' and self.peek().k == 'num':
            self.next()
            e = Lit(neg(number(self.next().v)))
        elif k in ('str', 'char', 'sym', 'bind', 'larr', 'lbytes'):
            e = Lit(self.literal())
        elif k == 'cc':
            self.next()
            tm = []
            ss = self.statements((')',), tm)
            self.expect(')')
            b = Block([], tm, ss)
            b.line = ln
            e = Send(b, 'value', [])
        elif k == 'punct' and t.v == '(':
            self.next()
            e = self.expr()
            self.expect(')')
        elif k == 'punct' and t.v == '[':
            e = self.block()
        elif k == 'punct' and t.v == '{':
            self.next()
            es = self.statements(('}',), [])
            self.expect('}')
            e = ArrayE(es)
        else:
            raise ParseError('%s:%d: unexpected %r' % (self.fname, t.line, t.v))
        e.line = ln
        return e

    def block(self):
        ln = self.expect('[').line
        params = []
        while self.isv(':'):
            self.next()
            params.append(self.next().v)
        if params and self.t.k == 'bin' and self.t.v in ('|', '||'):
            if self.t.v == '||':
                self.t.v = '|'
            else:
                self.next()
        elif params and not self.isv(']'):
            raise ParseError('%s:%d: block parameters' % (self.fname, self.t.line))
        tm = self.temps()
        body = self.statements((']',), tm)
        self.expect(']')
        b = Block(params, tm, body)
        b.line = ln
        return b

    def literal(self):
        t = self.next()
        k = t.k
        if k == 'str':
            return t.v[1:-1].replace("''", "'")
        if k == 'char':
            m = re.match(r'^\$<(?:(\d+)r)?([0-9A-Fa-f]+)>$', t.v)
            if m and len(t.v) > 2:
                return CharV(int(m.group(2), int(m.group(1) or 10)))
            return CharV(ord(t.v[1]))
        if k == 'sym':
            v = t.v[1:]
            if v.startswith("'"):
                v = v[1:-1].replace("''", "'")
            return Sym(v)
        if k == 'bind':
            return Binding(t.v[2:-1].strip())
        if k == 'larr':
            return LitArr(self.lit_items(')'))
        if k == 'lbytes':
            return LitBytes(self.lit_items(']'))
        raise ParseError('literal')

    def lit_items(self, end):
        out = []
        while not self.isv(end):
            t = self.t
            if t.k == 'eof':
                raise ParseError('literal array')
            if t.k == 'num':
                out.append(number(self.next().v))
            elif t.k == 'bin' and t.v == '-' and self.peek().k == 'num':
                self.next()
                out.append(neg(number(self.next().v)))
            elif t.k in ('str', 'char', 'sym', 'larr', 'lbytes', 'bind'):
                out.append(self.literal())
            elif t.v == '(':
                self.next()
                out.append(LitArr(self.lit_items(')')))
            elif t.v == '[':
                self.next()
                out.append(LitBytes(self.lit_items(']')))
            elif t.k == 'id' and t.v in ('nil', 'true', 'false'):
                self.next()
                out.append({'nil': None, 'true': True, 'false': False}[t.v])
            elif t.v == '{':
                self.next()
                while not self.isv('}'):
                    self.next()
                self.next()
            else:
                s = ''
                while self.t.k in ('kw', 'id') and (not s or (not self.t.ws and s.endswith(':'))):
                    s += self.next().v
                if not s:
                    s = self.next().v
                out.append(Sym(s))
        self.next()
        return out

    # ---- files
    def parse_file(self, world):
        ns = None
        while self.t.k != 'eof':
            if self.isv('!') or self.isv('.'):
                self.next()
                continue
            self.toplevel(world, ns)

    def toplevel(self, world, ns):
        t = self.t
        if t.k == 'id' and t.v == 'Eval' and self.peek().v == '[':
            self.next()
            self.expect('[')
            tm = self.temps()
            body = self.statements((']',), tm)
            self.expect(']')
            world.evals.append((self.fname, tm, body))
            return
        if t.k == 'id' and t.v == 'Namespace' and self.peek().k == 'kw' and self.peek().v == 'current:':
            self.next()
            self.next()
            nm = self.next().v
            self.expect('[')
            while not self.isv(']'):
                if self.t.k == 'eof':
                    raise ParseError('namespace')
                if self.isv('!') or self.isv('.'):
                    self.next()
                elif self.t.k == 'bin' and self.t.v == '<' and self.pragma_ahead():
                    self.pragma(None)
                elif self.t.k == 'id' and self.peek().k == 'assign':
                    self.next()
                    self.next()
                    self.expr()
                else:
                    self.toplevel(world, nm)
            self.next()
            return
        # X subclass: Y [   |  X extend [  |  X class extend [
        if t.k == 'id':
            if self.peek().k == 'kw' and self.peek().v == 'subclass:' and self.peek(2).k == 'id' and self.peek(3).v == '[':
                sup = self.next().v
                self.next()
                name = self.next().v
                self.next()
                name = name.split('.')[-1]
                c = world.classes.get(name)
                if c is None:
                    c = ClassDef(name, None if sup == 'nil' else sup.split('.')[-1])
                    world.classes[name] = c
                c.sup = None if sup == 'nil' else sup.split('.')[-1]
                c.ns = ns
                self.class_body(world, c)
                return
            if self.peek().k == 'id' and self.peek().v == 'extend' and self.peek(2).v == '[':
                nm = self.next().v.split('.')[-1]
                self.next()
                self.next()
                self.class_body(world, world.getclass(nm))
                return
            if self.peek().v == 'class' and self.peek(2).v == 'extend' and self.peek(3).v == '[':
                nm = self.next().v.split('.')[-1]
                self.next()
                self.next()
                self.next()
                self.class_body(world, world.getclass(nm), meta=True)
                return
            if self.peek().v == 'class' and self.peek(2).v == '>>' or self.peek().v == '>>':
                self.method_def(world, None, False)
                return
        # a statement
        tm = []
        s = self.statements(('!', ']') if ns else ('!',), tm) if False else None
        e = self.expr() if not self.isv('^') else (self.next(), self.expr())[1]
        if self.isv('.') or self.isv('!'):
            self.next()
        world.evals.append((self.fname, [], [e]))

    def class_body(self, world, c, meta=False):
        while not self.isv(']'):
            t = self.t
            if t.k == 'eof':
                raise ParseError('class body of ' + c.name)
            if self.isv('.'):
                self.next()
            elif t.k == 'bin' and t.v == '|' and not (self.peek().k == 'id' and self.peek(2).v == '['):
                vs = self.temps()
                (c.civars if meta else c.ivars).extend(vs)
            elif t.k == 'bin' and t.v == '<' and self.peek().k == 'kw':
                pr = []
                self.pragma(pr)
                kw, a = pr[0]
                if kw == 'shape:':
                    c.shape = a[0]
                elif kw == 'import:':
                    c.imports += a
            elif t.k == 'id' and self.peek().k == 'assign':
                nm = self.next().v
                self.next()
                e = self.expr()
                c.cvars[nm] = e
                if self.isv('.'):
                    self.next()
            elif t.k == 'id' and self.peek().v == 'class' and self.peek(2).v == '[':
                self.next()
                self.next()
                self.next()
                while not self.isv(']'):
                    if self.t.v == '|':
                        c.civars.extend(self.temps())
                    elif self.t.k == 'id' and self.peek().k == 'assign':
                        self.next()
                        self.next()
                        self.expr()
                    elif self.isv('.'):
                        self.next()
                    else:
                        self.method_def(world, c, True)
                self.next()
            else:
                self.method_def(world, c, meta)
        self.next()

    def method_def(self, world, c, meta):
        m = Method()
        m.line = self.t.line
        # optional "Foo class >>" / "Foo >>"
        if self.t.k == 'id' and self.peek().v == '>>':
            c = world.getclass(self.next().v.split('.')[-1]) if c is None else (self.next(), c)[1]
            self.next()
        elif self.t.k == 'id' and self.peek().v == 'class' and self.peek(2).v == '>>':
            nm = self.next().v.split('.')[-1]
            c = world.getclass(nm)
            self.next()
            self.next()
            meta = True
        m.cls = c.name
        m.meta = meta
        t = self.t
        if t.k == 'kw':
            sel = ''
            while self.t.k == 'kw':
                sel += self.next().v
                m.params.append(self.next().v)
            m.sel = sel
        elif t.k == 'bin':
            m.sel = self.next().v
            m.params.append(self.next().v)
        elif t.k == 'id':
            m.sel = self.next().v
        else:
            raise ParseError('%s:%d: method pattern %r' % (self.fname, t.line, t.v))
        self.expect('[')
        attrs = []
        temps = []
        while True:
            if self.t.k == 'bin' and self.t.v == '<' and self.pragma_ahead():
                self.pragma(attrs)
            elif self.t.k == 'bin' and self.t.v in ('|', '||'):
                temps += self.temps()
            else:
                break
        m.attrs = attrs
        for kw, a in attrs:
            if kw == 'primitive:':
                m.primitive = a[0]
        m.body = self.statements((']',), temps)
        m.temps = temps
        self.expect(']')
        m.fname = self.fname
        (c.cmethods if meta else c.methods)[m.sel] = m


def neg(v):
    if isinstance(v, int):
        return -v
    if isinstance(v, FloatLit):
        return FloatLit('-' + v.text)
    if isinstance(v, ScaledLit):
        return ScaledLit(-v.num, v.scale)
    raise ParseError('negative literal')


class World:
    """The classes of the image as the sources define them."""
    def __init__(self):
        self.classes = {}
        self.evals = []
        self.errors = []

    def getclass(self, n):
        c = self.classes.get(n)
        if c is None:
            c = self.classes[n] = ClassDef(n, 'Object')
        return c

    def load(self, path):
        import os
        text = open(path, encoding='latin-1').read()
        try:
            Parser(text, os.path.basename(path)).parse_file(self)
        except ParseError as e:
            self.errors.append('%s: %s' % (os.path.basename(path), e))

    def lookup(self, cname, sel, meta=False):
        """-> (Method, class name) or None"""
        n = cname
        seen = 0
        while n is not None and seen < 100:
            c = self.classes.get(n)
            if c is None:
                return None
            m = (c.cmethods if meta else c.methods).get(sel)
            if m is not None:
                return m
            n = c.sup
            seen += 1
        if meta:
            return self.lookup('Class', sel)
        return None

    def inherits(self, cname, anc):
        n = cname
        while n is not None:
            if n == anc:
                return True
            c = self.classes.get(n)
            n = c.sup if c else None
        return False

    def all_ivars(self, cname):
        r = []
        chain = []
        n = cname
        while n is not None:
            chain.append(n)
            c = self.classes.get(n)
            n = c.sup if c else None
        for n in reversed(chain):
            c = self.classes.get(n)
            if c:
                r += c.ivars
        return r


# classes the VM defines before the kernel sources are read: the superclass
# chain comes from libgst/dict.c, instance variables too
def load_kernel(repo):
    import glob
    import os
    w = World()
    for f in sorted(glob.glob(os.path.join(repo, 'kernel', '*.st'))):
        w.load(f)
    return w


if __name__ == '__main__':
    import sys
    import time
    t = time.time()
    w = load_kernel(sys.argv[1])
    print(time.time() - t, len(w.classes), sum(len(c.methods) + len(c.cmethods) for c in w.classes.values()))
    for e in w.errors[:20]:
        print(e)
