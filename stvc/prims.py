"""Contracts of the primitives and of the values the engine treats natively."""
import z3
from . import engine as E
from .engine import (Unsupported, STError, Opq, Ref, Cls, StrLit, FloatV, GlobalObj, Blk, OBlk, PyBlk, FAIL, Poison, is_int, is_bool,
                     sym, norm, Not, And, Or, eqi, SMIN, SMAX, V, NILV)
from .parser import Sym, CharV

NONE = object()


def floordiv(eng, a, b):
    if not sym(a) and not sym(b):
        return a // b
    if not sym(b):
        return norm(a / z3.IntVal(b)) if b > 0 else norm((-a) / z3.IntVal(-b))
    a = a if sym(a) else z3.IntVal(a)
    if eng.fork(b > 0):
        return norm(a / b)
    return norm((-a) / (-b))


def truncdiv(eng, a, b):
    if not sym(a) and not sym(b):
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    a = a if sym(a) else z3.IntVal(a)
    b = b if sym(b) else z3.IntVal(b)
    na = eng.fork(a < 0)
    nb = eng.fork(b < 0)
    q = norm((-a if na else a) / (-b if nb else b))
    return q if na == nb else norm(-q)


def cmpop(sel, a, b):
    r = {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b,
         '=': lambda: a == b, '==': lambda: a == b, '~=': lambda: a != b, '~~': lambda: a != b}[sel]()
    return norm(r)


def int_send(eng, a, sel, args):
    if len(args) == 1:
        b = args[0]
        if sel in ('==', '~~'):
            if is_int(b):
                return cmpop(sel, a, b)
            if isinstance(b, Opq):
                return NONE
            return sel == '~~'
        if is_int(b):
            if sel == '+':
                return norm(a + b)
            if sel == '-':
                return norm(a - b)
            if sel == '*':
                return norm(a * b)
            if sel in ('<', '>', '<=', '>=', '=', '~='):
                return cmpop(sel, a, b)
            if sel in ('//', '\\\\', 'quo:', 'rem:', '/'):
                z = eqi(b, 0)
                if eng.fork(z):
                    raise STError('ZeroDivide')
                if sel == '//':
                    return floordiv(eng, a, b)
                if sel == '\\\\':
                    return norm(a - b * floordiv(eng, a, b))
                if sel == 'quo:':
                    return truncdiv(eng, a, b)
                if sel == 'rem:':
                    return norm(a - b * truncdiv(eng, a, b))
                if not sym(a) and not sym(b) and a % b == 0:
                    return a // b
                return NONE
            if sel == 'max:':
                return a if eng.fork(norm(a >= b)) else b
            if sel == 'min:':
                return a if eng.fork(norm(a <= b)) else b
            if sel == 'bitAnd:':
                if not sym(a) and not sym(b):
                    return a & b
                if not sym(a):
                    a, b = b, a
                if not sym(b) and b >= 0 and (b & (b + 1)) == 0:
                    return norm(a % (b + 1))
                if not sym(b) and b == 1073741823:
                    return norm(a % 1073741824)
                raise Unsupported('bitAnd:')
            if sel == 'bitOr:' and not sym(a) and not sym(b):
                return a | b
            if sel == 'bitXor:' and not sym(a) and not sym(b):
                return a ^ b
            if sel == 'bitShift:' or sel == '<<' or sel == '>>':
                if sel == '>>':
                    b = norm(-b)
                if not sym(b):
                    if b >= 0:
                        return norm(a * (1 << b))
                    return floordiv(eng, a, 1 << -b)
                raise Unsupported('symbolic bitShift:')
        else:
            if sel in ('=',) and (b is None or isinstance(b, (Sym, CharV, StrLit, Cls)) or is_bool(b)):
                return False
            if sel == '~=' and (b is None or isinstance(b, (Sym, CharV, StrLit, Cls)) or is_bool(b)):
                return True
            if isinstance(b, Opq) and sel in ('=', '~='):
                raise Unsupported('integer %s opaque' % sel)
    if sel == 'to:do:' and is_int(args[0]):
        eng.to_do(a, args[0], 1, lambda i: eng.send(args[1], 'value:', [i]))
        return a
    if sel == 'to:by:do:' and is_int(args[0]) and is_int(args[1]):
        eng.to_do(a, args[0], args[1], lambda i: eng.send(args[2], 'value:', [i]))
        return a
    if sel == 'timesRepeat:':
        eng.to_do(1, a, 1, lambda i: eng.send(args[0], 'value', []))
        return a
    if sel == 'isInteger' or sel == 'isNumber' or sel == 'isRational':
        return True
    if sel in ('isFloat', 'isFraction', 'isString', 'isSymbol', 'isCharacter', 'isArray', 'isNil'):
        return False
    if sel == 'isSmallInteger':
        return And(norm(a >= SMIN), norm(a <= SMAX)) if sym(a) else SMIN <= a <= SMAX
    if sel in ('yourself', 'asInteger', 'truncated', 'numerator', 'copy', 'shallowCopy', 'deepCopy'):
        return a
    if sel == 'denominator':
        return 1
    if sel == 'negated':
        return norm(-a)
    if sel == 'isZero':
        return cmpop('=', a, 0)
    if sel == 'generality' and isinstance(a, int):
        return NONE
    return NONE


def bool_send(eng, a, sel, args):
    if sel in ('ifTrue:', 'ifFalse:', 'ifTrue:ifFalse:', 'ifFalse:ifTrue:'):
        t = eng.fork(a)
        if sel == 'ifTrue:':
            return eng.send(args[0], 'value', []) if t else None
        if sel == 'ifFalse:':
            return None if t else eng.send(args[0], 'value', [])
        if sel == 'ifFalse:ifTrue:':
            args = [args[1], args[0]]
        return eng.send(args[0 if t else 1], 'value', [])
    if sel == 'and:':
        return eng.send(args[0], 'value', []) if eng.fork(a) else False
    if sel == 'or:':
        return True if eng.fork(a) else eng.send(args[0], 'value', [])
    if sel == '&':
        return args[0] if eng.fork(a) else False
    if sel == '|':
        return True if eng.fork(a) else args[0]
    if sel == 'not':
        return Not(a)
    if sel in ('==', '=') and is_bool(args[0]):
        return eng.same(a, args[0])
    if sel in ('==', '='):
        return False
    if sel == 'yourself' or sel == 'value':
        return a
    if sel == 'xor:':
        return Not(eng.same(a, args[0]))
    if sel in ('isNil', 'isString', 'isNumber', 'isSymbol', 'isInteger'):
        return False
    if sel == 'notNil':
        return True
    if sel == 'ifNil:':
        return a
    if sel == 'ifNil:ifNotNil:':
        return eng.send(args[1], 'value:', [a])
    if sel == 'ifNotNil:' or sel == 'ifNotNil:ifNil:':
        return eng.send(args[0], 'value:', [a])
    return NONE


VALS = {'value': 0, 'value:': 1, 'value:value:': 2, 'value:value:value:': 3, 'value:value:value:value:': 4}


def block_send(eng, b, sel, args):
    if sel in VALS:
        return eng.call_block(b, args)
    if sel == 'numArgs':
        return b.nargs
    if sel == 'valueWithArguments:':
        raise Unsupported('valueWithArguments:')
    if sel in ('whileTrue:', 'whileFalse:'):
        w = sel == 'whileTrue:'
        eng.loop(lambda: (lambda c: c if w else Not(eng.asbool(c)))(eng.call_block(b, [])),
                 lambda: eng.send(args[0], 'value', []))
        return None
    if sel in ('whileTrue', 'whileFalse'):
        w = sel == 'whileTrue'
        eng.loop(lambda: (lambda c: c if w else Not(eng.asbool(c)))(eng.call_block(b, [])), lambda: None)
        return None
    if sel == 'repeat':
        eng.loop(lambda: True, lambda: eng.call_block(b, []))
        return None
    if sel == 'ensure:':
        v = eng.call_block(b, [])
        eng.send(args[0], 'value', [])
        return v
    if sel == 'ifCurtailed:':
        return eng.call_block(b, [])
    if sel == 'valueWithoutPreemption':
        return eng.call_block(b, [])
    if sel == 'on:do:':
        try:
            return eng.call_block(b, [])
        except STError as e:
            names = args[0].name if isinstance(args[0], Cls) else None
            if names is None:
                raise Unsupported('on:do: with a computed exception class')
            if matches(eng, e.name, names):
                h = args[1]
                n = h.nargs if hasattr(h, 'nargs') else 0
                ex = eng.new_object('Exception')
                if n == 0:
                    return eng.call_block(h, [])
                try:
                    return eng.call_block(h, [ex])
                except E.ExcRet as r:
                    return r.v
            raise
    if sel in ('==', '='):
        return eng.same(b, args[0])
    if sel in ('isNil', 'isString', 'isSymbol', 'isNumber'):
        return False
    if sel == 'notNil':
        return True
    if sel == 'yourself':
        return b
    if sel == 'ifNil:':
        return b
    if sel in ('ifNotNil:', 'ifNotNil:ifNil:'):
        return eng.send(args[0], 'value:', [b])
    if sel == 'ifNil:ifNotNil:':
        return eng.send(args[1], 'value:', [b])
    return NONE


ERR = {'doesNotUnderstand': 'MessageNotUnderstood', 'mustBeBoolean': 'WrongClass'}


def matches(eng, name, cls):
    n = ERR.get(name, name)
    if n == cls or cls in ('Error', 'Exception'):
        return True
    return eng.world.inherits(n, cls)


def opq_send(eng, o, sel, args):
    if sel in ('=', '~='):
        r = eng.equal(o, args[0])
        if r is None:
            raise Unsupported('= on an opaque element')
        return r if sel == '=' else Not(r)
    if sel in ('==', '~~'):
        r = eng.same(o, args[0])
        return r if sel == '==' else Not(r)
    if sel == 'isNil':
        return norm(o.t == NILV)
    if sel == 'notNil':
        return norm(o.t != NILV)
    if sel == 'hash':
        h = E.HASH(E.EQC(o.t))
        eng.assume(z3.And(h >= 0, h <= (1 << 62) - 1))
        return h
    if sel in ('identityHash',):
        h = E.IHASH(o.t)
        eng.assume(z3.And(h >= 0, h <= (1 << 60)))
        return h
    if sel in ('<', '<=', '>', '>=') and isinstance(args[0], Opq):
        return cmpop(sel, E.RANK(o.t), E.RANK(args[0].t))
    if sel == 'yourself':
        return o
    if sel == 'ifNil:':
        return eng.send(args[0], 'value', []) if eng.fork(norm(o.t == NILV)) else o
    if sel == 'ifNotNil:':
        return None if eng.fork(norm(o.t == NILV)) else eng.send(args[0], 'value:', [o])
    if sel == 'ifNil:ifNotNil:' or sel == 'ifNotNil:ifNil:':
        a, b = args if sel[:6] == 'ifNil:' else (args[1], args[0])
        return eng.send(a, 'value', []) if eng.fork(norm(o.t == NILV)) else eng.send(b, 'value:', [o])
    h = eng.contracts.get(('opaque', sel, False))
    if h is not None:
        return h(eng, o, args)
    raise Unsupported('send #%s to an opaque element' % sel)


def char_send(eng, c, sel, args):
    v = c.c
    if sel in ('value', 'codePoint', 'asInteger', 'asCharacterValue'):
        return v
    if sel in ('=', '==', '~=', '~~'):
        r = eng.same(c, args[0])
        return r if sel in ('=', '==') else Not(r)
    if sel in ('<', '>', '<=', '>='):
        if isinstance(args[0], CharV):
            return cmpop(sel, v, args[0].c)
        raise STError('doesNotUnderstand')
    if sel == 'isCharacter':
        return True
    if sel in ('isNil', 'isString', 'isSymbol', 'isNumber'):
        return False
    if sel in ('yourself', 'copy', 'asCharacter'):
        return c
    if sel in ('hash', 'identityHash'):
        return v
    return NONE


ERRSEL = {'error:': 'Error', 'subclassResponsibility': 'subclassResponsibility', 'primitiveFailed': 'PrimitiveFailed',
          'halt:': 'Halt', 'halt': 'Halt', 'shouldNotImplement': 'ShouldNotImplement',
          'checkIndexableBounds:': 'IndexOutOfRange', 'checkIndexableBounds:put:': 'IndexOutOfRange',
          'primitiveFailed:': 'PrimitiveFailed', 'arithmeticError:': 'ArithmeticError', 'zeroDivide': 'ZeroDivide',
          'primError:': 'Error', 'badReturnError': 'Error', 'primitiveFailed:with:': 'PrimitiveFailed',
          'invalidSymbol': 'Error', 'notYetImplemented': 'NotYetImplemented', 'doesNotUnderstand:': 'doesNotUnderstand'}


def builtin_super(eng, recv, sel, args):
    if sel in ERRSEL:
        raise STError(ERRSEL[sel])
    if isinstance(recv, Cls) and sel in ('new', 'basicNew', 'new:', 'basicNew:'):
        return NONE
    return NONE


def builtin(eng, r, sel, args):
    if is_int(r):
        x = int_send(eng, r, sel, args)
        if x is not NONE:
            return x
    elif is_bool(r):
        x = bool_send(eng, r, sel, args)
        if x is not NONE:
            return x
    elif isinstance(r, (Blk, OBlk, PyBlk)):
        x = block_send(eng, r, sel, args)
        if x is not NONE:
            return x
    elif isinstance(r, Opq):
        return opq_send(eng, r, sel, args)
    elif isinstance(r, CharV):
        x = char_send(eng, r, sel, args)
        if x is not NONE:
            return x
    elif isinstance(r, Cls):
        x = cls_send(eng, r, sel, args)
        if x is not NONE:
            return x
    elif isinstance(r, GlobalObj):
        h = eng.contracts.get(('global ' + r.name, sel, False))
        if h is not None:
            return h(eng, r, args)
        raise Unsupported('send #%s to %s' % (sel, r.name))
    elif isinstance(r, FloatV):
        raise Unsupported('floating point')
    elif isinstance(r, StrLit):
        if sel == 'size':
            return len(r.s.encode('latin-1', 'replace'))
        if sel in ('yourself',):
            return r
        if sel in ('isString',):
            return True
        if sel in ('displayString', 'displayNl') and sel == 'displayString':
            return r
    if sel in ERRSEL:
        if isinstance(r, Ref) or True:
            raise STError(ERRSEL[sel])
    # general object protocol
    if sel == '==':
        return eng.same(r, args[0])
    if sel == '~~':
        return Not(eng.same(r, args[0]))
    if sel == 'yourself':
        return r
    if sel == 'isNil':
        return r is None
    if sel == 'notNil':
        return r is not None
    if sel == 'ifNil:':
        return eng.send(args[0], 'value', []) if r is None else r
    if sel == 'ifNotNil:':
        return None if r is None else value_maybe(eng, args[0], r)
    if sel == 'ifNil:ifNotNil:':
        return eng.send(args[0], 'value', []) if r is None else value_maybe(eng, args[1], r)
    if sel == 'ifNotNil:ifNil:':
        return eng.send(args[1], 'value', []) if r is None else value_maybe(eng, args[0], r)
    if sel in ('class', 'species') and sel == 'class':
        c = eng.class_of(r) if not isinstance(r, Cls) else None
        if isinstance(r, Cls):
            return Cls(r.name, True)
        if c in (None, 'Boolean') or (c == 'Integer' and sym(r)):
            if c == 'Integer':
                if eng.fork(z3.And(r >= SMIN, r <= SMAX)):
                    return Cls('SmallInteger')
                return Cls('LargePositiveInteger' if eng.fork(r > 0) else 'LargeNegativeInteger')
            raise Unsupported('class of %r' % (r,))
        return Cls(c)
    if sel == 'isKindOf:' and isinstance(args[0], Cls):
        c = eng.class_of(r)
        if c is not None and c not in ('Boolean',):
            if c == 'Integer' and args[0].name in ('SmallInteger', 'LargePositiveInteger', 'LargeNegativeInteger'):
                raise Unsupported('isKindOf:')
            return eng.world.inherits(c, args[0].name)
    if sel == 'respondsTo:' and isinstance(args[0], Sym):
        c = eng.class_of(r)
        return eng.world.lookup(c, args[0].s) is not None
    if sel in ('makeReadOnly:', 'isReadOnly', 'changeNotify', 'primitiveMakeReadOnly'):
        return False
    if isinstance(r, (Sym,)):
        if sel in ('=',):
            return eng.same(r, args[0])
        if sel in ('isString', 'isSymbol'):
            return True
        if sel in ('asSymbol', 'displayString', 'asString') and sel == 'asSymbol':
            return r
        if sel == 'numArgs':
            return r.s.count(':') if r.s[:1].isalpha() else 1
        if sel in ('hash', 'identityHash'):
            return NONE
    return NONE


def value_maybe(eng, blk, r):
    n = getattr(blk, 'nargs', 1)
    return eng.send(blk, 'value:' if n else 'value', [r] if n else [])


def cls_send(eng, c, sel, args):
    w = eng.world
    if c.meta:
        if sel == 'name':
            return StrLit(c.name)
        if sel == 'instanceClass' or sel == 'asClass':
            return Cls(c.name)
        return NONE
    if w.inherits(c.name, 'Error') or w.inherits(c.name, 'Exception') or c.name in ('Error', 'Exception', 'ZeroDivide', 'Transcript'):
        raise STError(c.name)
    if sel in ('basicNew', 'basicNew:', 'new', 'new:', 'numFixed'):
        h = eng.find_contract(c.name, sel, True)
        if h is None and sel in ('new', 'new:'):
            m = w.lookup(c.name, sel, True)
            if m is not None and m.cls not in ('Behavior', 'Builtins', 'Object', 'Class', 'ClassDescription'):
                return NONE
        elif h is not None:
            return NONE
        if sel.endswith(':'):
            n = args[0]
            if not is_int(n):
                raise STError('WrongClass')
            if eng.fork(norm(n < 0)):
                raise STError('InvalidArgument')
            if eng.shape(c.name) is None:
                raise STError('WrongClass')
            return eng.new_object(c.name, n)
        return eng.new_object(c.name)
    if sel == 'name' or sel == 'printString' or sel == 'article' or sel == 'storeString':
        return StrLit(c.name)
    if sel in ('==', '='):
        return c == args[0]
    if sel == '~~':
        return not (c == args[0])
    if sel == 'inheritsFrom:':
        return c != args[0] and w.inherits(c.name, args[0].name)
    if sel == 'includesBehavior:':
        return w.inherits(c.name, args[0].name)
    if sel == 'superclass':
        s = w.classes[c.name].sup
        return Cls(s) if s else None
    if sel == 'shape':
        sh = eng.shape(c.name)
        return Sym(sh[1:]) if sh else None
    if sel in ('isPointers', 'isVariable', 'isBits', 'isFixed'):
        sh = eng.shape(c.name)
        return {'isPointers': sh in (None, '#pointer'), 'isVariable': sh is not None, 'isFixed': sh is None,
                'isBits': sh not in (None, '#pointer')}[sel]
    if sel == 'instSize':
        return len(w.all_ivars(c.name))
    if c.name == 'Character' and sel in ('value:', 'codePoint:') and is_int(args[0]):
        v = args[0]
        if eng.fork(And(norm(v >= 0), norm(v <= (127 if sel == 'codePoint:' else 255)))):
            return CharV(v)
        if sel == 'value:':
            raise STError('IndexOutOfRange')
        return NONE
    if c.name == 'Character':
        k = {'nl': 10, 'cr': 13, 'tab': 9, 'space': 32, 'lf': 10, 'nul': 0, 'newPage': 12, 'esc': 27, 'backspace': 8, 'eof': 26}.get(sel)
        if k is not None:
            return CharV(k)
    if c.name == 'SmallInteger':
        if sel == 'largest':
            return SMAX
        if sel == 'smallest':
            return SMIN
        if sel == 'bits':
            return 63
    return NONE


# ---------------------------------------------------------------- primitives
def elem_ok(eng, r, v):
    """may v be stored in an indexed variable of r (as a formula)?"""
    sh = eng.shape(eng.cls_of(r))
    if sh in ('#pointer', '#inherit', None):
        return True
    if isinstance(v, Opq):
        kind = eng.storage(r)[0]
        if kind[0] == 'fn' and kind[1] == 'opq':
            return True
        raise Unsupported('opaque element stored in %s' % eng.cls_of(r))
    if sh == '#character':
        return And(norm(v.c >= 0), norm(v.c <= 255)) if isinstance(v, CharV) else False
    if sh == '#utf32':
        return isinstance(v, CharV)
    rng = {'#byte': (0, 255), '#int8': (-128, 127), '#ushort': (0, 65535), '#short': (-32768, 32767),
           '#int': (-2**31, 2**31 - 1), '#uint': (0, 2**32 - 1), '#int64': (-2**63, 2**63 - 1), '#uint64': (0, 2**64 - 1)}.get(sh)
    if rng is None:
        raise Unsupported('storage shape %s' % sh)
    if not is_int(v):
        return False
    return And(norm(v >= rng[0]), norm(v <= rng[1]))


def p_basicAt(eng, r, args):
    i = args[0]
    if not is_int(i) or not isinstance(r, Ref):
        return FAIL
    if not eng.fork(And(norm(i >= 1), norm(i <= eng.size(r)))):
        return FAIL
    return eng.sget(r, i)


def p_basicAtPut(eng, r, args):
    i, v = args
    if not is_int(i) or not isinstance(r, Ref):
        return FAIL
    if not eng.fork(And(norm(i >= 1), norm(i <= eng.size(r)))):
        return FAIL
    if not eng.fork(elem_ok(eng, r, v)):
        return FAIL
    eng.sput(r, i, v)
    return v


def p_basicSize(eng, r, args):
    if not isinstance(r, Ref):
        return 0
    return eng.size(r)


def p_replace(eng, r, args):
    """replaceFrom: start to: stop with: src startingAt: ss -- memmove semantics"""
    start, stop, src, ss = args
    if isinstance(src, StrLit):
        src = eng.mat(src)
    if isinstance(src, Sym):
        return FAIL
    if not (is_int(start) and is_int(stop) and is_int(ss)) or not isinstance(src, Ref):
        return FAIL
    a, b = eng.shape(eng.cls_of(r)), eng.shape(eng.cls_of(src))
    if a is None or b is None:
        return FAIL
    if a != b and not (a == '#pointer' and b == '#pointer'):
        if not {a, b} <= {'#character', '#byte'}:
            return FAIL
        raise Unsupported('replace between %s and %s' % (a, b))
    n = norm(stop - start + 1)
    # an empty range (stop = start - 1) succeeds if the bounds are sane
    ok = And(norm(start >= 1), norm(n >= 0), norm(stop <= eng.size(r)), norm(ss >= 1), norm(ss + n - 1 <= eng.size(src)))
    if not eng.fork(ok):
        return FAIL
    eng.scopy(r, start, n, eng.storage(src), ss)
    return r


def p_become(eng, r, args):
    o = args[0]
    if not isinstance(r, Ref) or not isinstance(o, Ref):
        return FAIL
    a = {k: v for k, v in eng.store.items() if isinstance(k, tuple) and k[0] == r.oid and isinstance(k[1], str) and
         (k[1][:1] == '.' or k[1] in ('class', 'size', 'st'))}
    b = {k: v for k, v in eng.store.items() if isinstance(k, tuple) and k[0] == o.oid and isinstance(k[1], str) and
         (k[1][:1] == '.' or k[1] in ('class', 'size', 'st'))}
    for k in a:
        del eng.store[k]
    for k in b:
        del eng.store[k]
    for k, v in a.items():
        eng.store[(o.oid, k[1])] = v
    for k, v in b.items():
        eng.store[(r.oid, k[1])] = v
    return r


def p_shallowCopy(eng, r, args):
    if not isinstance(r, Ref):
        return r
    n = eng.new_object(eng.cls_of(r))
    for k, v in list(eng.store.items()):
        if isinstance(k, tuple) and k[0] == r.oid and isinstance(k[1], str) and (k[1][:1] == '.' or k[1] in ('class', 'size', 'st')):
            eng.store[(n.oid, k[1])] = v
    return n


def p_class(eng, r, args):
    return builtin(eng, r, 'class', args)


def p_newcolon(eng, c, args):
    return cls_send(eng, c, 'basicNew:', args)


def p_new(eng, c, args):
    return cls_send(eng, c, 'basicNew', args)


def p_identity(eng, r, args):
    return eng.same(r, args[0])


def p_fail(eng, r, args):
    return FAIL


def p_hash(eng, r, args):
    """identityHash: a fixed non-negative SmallInteger per object"""
    if isinstance(r, Ref):
        k = (r.oid, 'ihash')
        if k not in eng.store:
            eng.store[k] = eng.fresh_int('ihash', 0, (1 << 60))
        return eng.store[k]
    if is_int(r):
        return r
    raise Unsupported('identityHash')


PRIMS = {
    'VMpr_Object_basicAt': p_basicAt, 'VMpr_Object_basicAtPut': p_basicAtPut, 'VMpr_Object_basicSize': p_basicSize,
    'VMpr_ArrayedCollection_replaceFromToWithStartingAt': p_replace,
    'VMpr_String_replaceFromToWithStartingAt': p_replace,
    'VMpr_String_replaceFromToWithByteArrayStartingAt': p_replace,
    'VMpr_ByteArray_replaceFromToWithStartingAt': p_replace,
    'VMpr_ByteArray_replaceFromToWithStringStartingAt': p_replace,
    'VMpr_ArrayedCollection_equal': p_fail,
    'VMpr_Object_become': p_become, 'VMpr_Object_shallowCopy': p_shallowCopy, 'VMpr_Object_class': p_class,
    'VMpr_Behavior_basicNewColon': p_newcolon, 'VMpr_Behavior_basicNew': p_new,
    'VMpr_Object_identity': p_identity, 'VMpr_Object_hash': p_hash,
    'VMpr_Object_checkIndexFrom': p_fail,
}
