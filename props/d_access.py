"""Concrete cases for C01 (expected values computed here, independently)."""
from common.stdrive import st_int as I

MAX = (1 << 62) - 1
INTS = {'int8': (-128, 127), 'byte': (0, 255), 'short': (-32768, 32767), 'ushort': (0, 65535),
        'int': (-2**31, 2**31 - 1), 'uint': (0, 2**32 - 1), 'int64': (-2**63, 2**63 - 1), 'uint64': (0, 2**64 - 1)}
SETUP = ''
for k in list(INTS) + ['float', 'double', 'character', 'utf32', 'pointer']:
    for f in (0, 2):
        SETUP += "Object subclass: VQ%s%d [ %s <shape: #%s> at: i [ <category: 'x'> <primitive: VMpr_Object_basicAt> ^self checkIndex: i from: 1 ] at: i put: v [ <category: 'x'> <primitive: VMpr_Object_basicAtPut> ^self checkIndex: i from: 1 put: v ] ]\n" % (
            k, f, '|a b|' if f else '', k)


def cases():
    cs = []

    def c(e, r):
        cs.append((e, r))
    for k, (lo, hi) in INTS.items():
        vals = sorted(set([lo, lo + 1, -1, 0, 1, 5, hi // 2, hi - 1, hi, lo - 1, hi + 1, hi * 2 + 3, -hi - 9,
                           127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, MAX, MAX + 1,
                           -MAX - 1, -MAX - 2, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64 - 1, 2**64, 2**70]))
        for f in (0, 2):
            cl = 'VQ%s%d' % (k, f)
            for v in vals:
                ok = lo <= v <= hi
                c('(%s new: 3) at: 2 put: %s; at: 2' % (cl, I(v)), str(v) if ok else 'ERR')
                c('(%s new: 3) basicAt: 2 put: %s; basicAt: 2' % (cl, I(v)), str(v) if ok else 'ERR')
            c('(%s new: 3) at: 2 put: 3.5' % cl, 'ERR')
            c('(%s new: 3) at: 2 put: $a' % cl, 'ERR')
            c("(%s new: 3) at: 2 put: nil" % cl, 'ERR')
            c("(%s new: 3) at: 2 put: 3/4" % cl, 'ERR')
            for n in (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17):
                c('(%s new: %d) basicSize' % (cl, n), str(n))
                for i in sorted(set([-1, 0, 1, n - 1, n, n + 1, n + 2, n + 7, n + 8, n + 9, 2**31, 2**32, 2**32 + 1, MAX,
                                     2**61 + 1, 2**60 + 1, 2**59 + 1, -MAX - 1, -2**61 + 1])):
                    good = 1 <= i <= n
                    c('| o | o := %s new: %d. 1 to: %d do: [:j | o at: j put: j]. o at: %s' % (cl, n, n, I(i)), str(i) if good else 'ERR')
                    if n in (0, 1, 3, 8, 9):
                        exp = str([(99 if j == i else j) for j in range(1, n + 1)]).replace('[', '(').replace(',', '').replace(']', ' )')
                        c('| o r | o := %s new: %d. 1 to: %d do: [:j | o at: j put: j]. r := [o at: %s put: 99. 1] on: Error do: [:e | e return: 0]. {r. o at: (1 max: (%s min: %d)) ifAbsent: [nil]}' % (cl, n, n, I(i), I(i), n) if False else
                          '| o r x | o := %s new: %d. 1 to: %d do: [:j | o at: j put: j]. r := [o at: %s put: 99. 1] on: Error do: [:e | e return: 0]. x := (1 to: o basicSize) inject: 0 into: [:a :j | a + ((o at: j) * j)]. {r. x}' % (cl, n, n, I(i)),
                          '(%d %d )' % (1 if good else 0, sum((99 if j == i else j) * j for j in range(1, n + 1))))
            # read-only
            c("| o r | o := (%s new: 3) at: 1 put: 5; makeReadOnly: true; yourself. r := (1 to: 4) collect: [:k | [o at: 1 put: 9. 1] on: Error do: [:e | e return: 0]]. {r asArray. o at: 1}" % cl,
              '((0 0 0 0 ) 5 )')
            if f:
                c("| o r | o := (%s new: 3) makeReadOnly: true; yourself. r := [o instVarAt: 1 put: 9. 1] on: Error do: [:e | e return: 0]. {r. o instVarAt: 1}" % cl, '(0 nil )')
                c("| o | o := %s new: 3. o instVarAt: 1 put: 7; instVarAt: 2 put: 8. {o instVarAt: 1. o instVarAt: 2. o at: 1. o at: 3}" % cl, '(7 8 0 0 )')
    for f in (0, 2):
        for n in (0, 1, 2, 5):
            for i in (-1, 0, 1, n - 1, n, n + 1, n + 2, 2**32 + 1, 2**61 + 1, MAX, -MAX - 1):
                good = 1 <= i <= n
                cl = 'VQpointer%d' % f
                c('| o | o := %s new: %d. 1 to: %d do: [:j | o at: j put: j]. o at: %s' % (cl, n, n, I(i)), str(i) if good else 'ERR')
                c('| o r x | o := %s new: %d. 1 to: %d do: [:j | o at: j put: j]. r := [o at: %s put: 99. 1] on: Error do: [:e | e return: 0]. x := (1 to: o basicSize) inject: 0 into: [:a :j | a + ((o at: j) * j)]. {r. x}' % (cl, n, n, I(i)),
                  '(%d %d )' % (1 if good else 0, sum((99 if j == i else j) * j for j in range(1, n + 1))))
        for code in (0, 1, 65, 127, 128, 255):
            c('((VQcharacter%d new: 3) at: 2 put: (Character value: %d); at: 2) value' % (f, code), str(code))
        for code in (256, 0x10ffff):
            c('(VQcharacter%d new: 3) at: 2 put: (Character codePoint: %d)' % (f, code), 'ERR')
        for code in (0, 65, 127, 128, 255, 256, 65535, 65536, 0x10ffff):
            c('((VQutf32%d new: 3) at: 2 put: (UnicodeCharacter codePoint: %d); at: 2) value' % (f, code), str(code))
        for k in ('float', 'double'):
            for v in (0, 1, -1, 3, 1 << 20, -(1 << 20)):
                c('((VQ%s%d new: 3) at: 2 put: %s; at: 2) truncated' % (k, f, I(v)), str(v))
                c('((VQ%s%d new: 3) at: 2 put: %s asFloatD; at: 2) truncated' % (k, f, I(v)), str(v))
                c('((VQ%s%d new: 3) at: 2 put: %s asFloatE; at: 2) truncated' % (k, f, I(v)), str(v))
            c('(VQ%s%d new: 3) at: 2 put: $a' % (k, f), 'ERR')
            c('(VQ%s%d new: 3) at: 2 put: nil' % (k, f), 'ERR')
    for n in (0, 1, 3, 8):
        for i in (-1, 0, 1, n, n + 1, 2**32 + 1):
            good = 1 <= i <= n
            c("| o | o := String new: %d. 1 to: %d do: [:j | o at: j put: (Character value: j + 64)]. o valueAt: %s" % (n, n, I(i)), str(i + 64) if good else 'ERR')
            c("| o | o := UnicodeString new: %d. 1 to: %d do: [:j | o at: j put: (Character value: j + 64)]. o valueAt: %s" % (n, n, I(i)), str(i + 64) if good else 'ERR')
            c("| o | o := String new: %d. o valueAt: %s put: 200. o valueAt: %s" % (n, I(i), I(i)), '200' if good else 'ERR')
    # read-only objects keep their contents through every writer
    for cl, vals in (('String', ('$a', '$b')), ('UnicodeString', ('(UnicodeCharacter value: 300)', '(UnicodeCharacter value: 400)')),
                     ('ByteArray', ('1', '2')), ('Array', ('1', '2')), ('WordArray', ('1', '2'))):
        for w in ('o at: 1 put: %s', 'o basicAt: 1 put: %s', 'o primPut: %s', 'o valueAt: 1 put: %s', 'o instVarAt: 1 put: %s', 'o perform: #at:put: with: 1 with: %s'):
            v2 = vals[1] if 'valueAt' not in w else '90'
            cs.append(("| o | o := (%s new: 2) at: 1 put: %s; makeReadOnly: true; yourself. [%s] on: Error do: [:e | e return: 0]. (o at: 1) = %s" % (cl, vals[0], w % v2, vals[0]), 'true'))
    for code in list(range(0, 256, 9)) + [127, 128, 255]:
        c("| u | u := UnicodeString new: 2. [u basicAt: 1 put: (Character value: %d). 'stored'] on: Error do: [:e | e return: 'refused']" % code,
          "'stored'" if code < 128 else "'refused'" if code < 256 else "'stored'")
        if code < 256:
            c("| u | u := String new: 2. [u basicAt: 1 put: (UnicodeCharacter value: %d). 'stored'] on: Error do: [:e | e return: 'refused']" % code,
              "'stored'" if code < 128 else "'refused'")
    for k in list(INTS) + ['pointer']:
        for f in (0, 2):
            for i in (-1, 0, 1, 2, 3, 4, 5, 6, 2**32 + 1, 2**61 + 1, MAX):
                good = 1 <= i <= f + 2
                # beyond the fixed variables instVarAt: addresses the indexed ones
                c("| o | o := VQ%s%d new: 2. [o instVarAt: %s put: 7. o instVarAt: %s] on: Error do: [:e | e return: #no]" % (k, f, I(i), I(i)), '7' if good else '#no')
                el = [7 if i - f == j else 3 for j in (1, 2)]
                c("| o | o := VQ%s%d new: 2. o basicAt: 1 put: 3; basicAt: 2 put: 3. [o instVarAt: %s put: 7] on: Error do: [:e | e return: #no]. {o basicAt: 1. o basicAt: 2}" % (k, f, I(i)), '(%d %d )' % tuple(el))
                c("| o | o := VQ%s%d new: 2. o basicAt: 1 put: 3; basicAt: 2 put: 3. [o instVarAt: %s put: 'abc'] on: Error do: [:e | e return: #no]. {o basicAt: 1. o basicAt: 2}" % (k, f, I(i)),
                  '(3 3 )' if k != 'pointer' or i <= f or i > f + 2 else lambda g: True)
    for v in (-1, 256, MAX):
        c('(String new: 3) valueAt: 1 put: %s' % I(v), 'ERR')
    return cs
