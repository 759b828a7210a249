"""Concrete cases for C02: every operation on boundary operands, both as a
compiled special send and as an explicitly performed primitive."""
from common.stdrive import st_int as I

MX = (1 << 62) - 1
MN = -(1 << 62)
V = sorted(set([0, 1, -1, 2, -2, 3, -3, 7, -7, 10, 61, 62, 63, 64, -61, -62, -63, -64, 65, -65, 1000003,
                2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 + 5, -(2**32) - 5, 2**61, -2**61, 2**61 + 1, -2**61 - 1,
                MX, MX - 1, MN, MN + 1, MX // 2, MN // 2 - 1, 2**45 + 17, -2**45 - 17]))
SETUP = '''Object subclass: VQA [
  VQA class >> b: op with: a with: b [ | r |
'''


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


OPS = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
    '//': lambda a, b: a // b, '\\\\': lambda a, b: a % b, 'quo:': tdiv, 'rem:': lambda a, b: a - b * tdiv(a, b),
    '/': None, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
    '=': lambda a, b: a == b, '~=': lambda a, b: a != b, '==': lambda a, b: a == b,
    'bitAnd:': lambda a, b: a & b, 'bitOr:': lambda a, b: a | b, 'bitXor:': lambda a, b: a ^ b,
    'bitShift:': lambda a, b: (a << b) if b >= 0 else (a >> -b),
}
# the compiled forms: a method per operation, with plain, dup'ed and branching use
SETUP = 'Object subclass: VQA [\n'
SEL = {}
for i, op in enumerate(OPS):
    SEL[op] = 'm%d' % i
    SETUP += '  VQA class >> m%dx: a y: b [ ^a %s b ]\n' % (i, op)
    SETUP += '  VQA class >> j%dx: a y: b [ | t | (t := a %s b) ifTrue: [^1]. ^t == false ifTrue: [0] ifFalse: [2] ]\n' % (i, op)
    SETUP += '  VQA class >> k%dx: a y: b [ a %s b ifFalse: [^0]. ^1 ]\n' % (i, op)
    SETUP += '  VQA class >> l%dx: a y: b [ ^(a %s b) ifTrue: [1] ifFalse: [0] ]\n' % (i, op)
    SETUP += '  VQA class >> p%dx: a y: b [ ^a perform: #%s with: b ]\n' % (i, op)
SETUP += ']\n'


def pr(v):
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    return str(v)


def cases():
    from fractions import Fraction
    cs = []
    for i, (op, f) in enumerate(OPS.items()):
        for a in V:
            exprs, want = [], []
            for b in V:
                if op == 'bitShift:' and abs(b) > 130:
                    continue
                if op in ('//', '\\\\', 'quo:', 'rem:', '/') and b == 0:
                    continue
                if op == '/':
                    r = Fraction(a, b)
                    w = str(r.numerator) if r.denominator == 1 else '%d/%d' % (r.numerator, r.denominator)
                else:
                    w = pr(f(a, b))
                exprs.append(b)
                want.append(w)
            bs = '{' + '. '.join(I(b) for b in exprs) + '}'
            for m in 'mp':
                cs.append(('| a s | a := %s. s := WriteStream on: String new. %s do: [:b | s nextPutAll: (VQA %s%dx: a y: b) printString; nextPut: $|]. s contents' % (I(a), bs, m, i),
                           "'" + '|'.join(want) + "|'"))
            if want and want[0] in ('true', 'false'):
                for m in 'jkl':
                    cs.append(('| a s | a := %s. s := WriteStream on: String new. %s do: [:b | s nextPutAll: (VQA %s%dx: a y: b) printString; nextPut: $|]. s contents' % (I(a), bs, m, i),
                               "'" + '|'.join('1' if w == 'true' else '0' for w in want) + "|'"))
        if op not in ('=', '~=', '=='):
            for m in 'mp':
                cs.append(("[VQA %s%dx: 3 y: nil] on: Error do: [:e | e return: #err]" % (m, i), '#err'))
                cs.append(("[VQA %s%dx: 3 y: Object new] on: Error do: [:e | e return: #err]" % (m, i), '#err'))
        else:
            for m in 'mp':
                cs.append(("VQA %s%dx: 3 y: nil" % (m, i), 'true' if op == '~=' else 'false'))
        if op in ('//', '\\\\', 'quo:', 'rem:', '/'):
            for m in 'mp':
                cs.append(("[VQA %s%dx: 3 y: 0] on: ZeroDivide do: [:e | e return: #zd]" % (m, i), '#zd'))
    return cs
