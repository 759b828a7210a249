"""Concrete cases for C03: objects made on dirty memory, of every shape."""
KINDS = ['int8', 'byte', 'character', 'short', 'ushort', 'int', 'uint', 'int64', 'uint64', 'float', 'double', 'utf32', 'pointer']
FIX = [0, 1, 2, 3, 4, 5, 8, 13]
NAMES = 'abcdefghijklm'
SETUP = ''
for k in KINDS + ['none']:
    for f in FIX:
        SETUP += "Object subclass: VN%s%d [ %s %s ]\n" % (k, f, '|%s|' % ' '.join(NAMES[:f]) if f else '', '<shape: #%s>' % k if k != 'none' else '')
for f in (70, 255, 256, 300, 600):
    SETUP += "Object subclass: VNmany%d [ |%s| ]\nObject subclass: VNmanyi%d [ |%s| <shape: #byte> ]\n" % ((f, ' '.join('v%d' % i for i in range(f))) * 2)
SETUP += '''Object subclass: VNX [
    VNX class >> dirty [ | j | 1 to: 300 do: [:i | j := ByteArray new: i. 1 to: i do: [:q | j at: q put: 16rA5]. j := Array new: i withAll: #junk]. ObjectMemory scavenge ]
    VNX class >> fill: c size: n [
        "answer the number of wrong slots of a new object, for every way to make one"
        | o bad |
        bad := 0.
        self dirty.
        #(#new: #basicNew: #basicNewInFixedSpace:) do: [:s |
            1 to: 5 do: [:rep |
            o := c perform: s with: n.
            o basicSize = n ifFalse: [bad := bad + 1000000].
            o class == c ifFalse: [bad := bad + 1000000].
            1 to: c instSize do: [:i | (o instVarAt: i) isNil ifFalse: [bad := bad + 1]].
            1 to: n do: [:i | | x | x := o basicAt: i. (x isNil or: [x = 0 or: [x isCharacter and: [x value = 0]]]) ifFalse: [bad := bad + 1]]]].
        ^bad ]
    VNX class >> copy: c size: n [
        | o p q bad |
        bad := 0.
        o := n isNil ifTrue: [c basicNew] ifFalse: [c basicNew: n].
        1 to: c instSize do: [:i | o instVarAt: i put: i].
        1 to: (n ifNil: [0]) do: [:i | o basicAt: i put: ((o basicAt: i) isCharacter ifTrue: [Character value: i \\\\ 100 + 1] ifFalse: [(o basicAt: i) isFloat ifTrue: [i \\\\ 100 + 0.5] ifFalse: [i \\\\ 100 + 1]])].
        self dirty.
        p := o shallowCopy. q := o copy.
        (p == o or: [p class ~~ c or: [p basicSize ~= o basicSize]]) ifTrue: [bad := bad + 1000000].
        1 to: c instSize do: [:i | ((p instVarAt: i) == i and: [(o instVarAt: i) == i]) ifFalse: [bad := bad + 1]].
        1 to: (n ifNil: [0]) do: [:i | (p basicAt: i) = (o basicAt: i) ifFalse: [bad := bad + 1]].
        n isNil ifFalse: [n > 0 ifTrue: [| x | x := p basicAt: n. o basicAt: n put: (o basicAt: 1); basicAt: 1 put: x. (p basicAt: n) = x ifFalse: [bad := bad + 1]]].
        ^bad ]
    VNX class >> plain: c [
        | o bad |
        bad := 0. self dirty.
        #(#new #basicNew #basicNewInFixedSpace) do: [:s |
            1 to: 9 do: [:rep |
            o := c perform: s.
            o class == c ifFalse: [bad := bad + 1000000].
            o basicSize = 0 ifFalse: [bad := bad + 1000000].
            1 to: c instSize do: [:i | (o instVarAt: i) isNil ifFalse: [bad := bad + 1]]]].
        ^bad ]
]
'''
SIZES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 33, 100]


def cases():
    cs = []
    for k in KINDS:
        for f in FIX:
            for n in SIZES:
                cs.append(('VNX fill: VN%s%d size: %d' % (k, f, n), '0'))
                if n < 18:
                    cs.append(('VNX copy: VN%s%d size: %d' % (k, f, n), '0'))
            if f in (0, 2):
                for n in (1000, 70000):
                    cs.append(('VNX fill: VN%s%d size: %d' % (k, f, n), '0'))
                for n in ('-1', '(0 - 4611686018427387904)', '4611686018427387903', '2305843009213693953', '2305843009213693952', '4611686018427387904', 'nil', '3.0'):
                    if k != 'pointer' and k not in ('int64', 'uint64', 'double') and n[:3] == '230':
                        continue
                    for m in ('new:', 'basicNew:', 'basicNewInFixedSpace:'):
                        cs.append(('VN%s%d %s %s' % (k, f, m, n), 'ERR'))
    for f in (70, 255, 256, 300, 600):
        cs.append(('VNX plain: VNmany%d' % f, '0'))
        cs.append(('VNX copy: VNmany%d size: nil' % f, '0'))
        cs.append(('VNX fill: VNmanyi%d size: 3' % f, '0'))
    for f in FIX:
        cs.append(('VNX plain: VNnone%d' % f, '0'))
        cs.append(('VNX copy: VNnone%d size: nil' % f, '0'))
        cs.append(('VNnone%d basicNew: 3' % f, 'ERR'))
        cs.append(('VNnone%d new: 0' % f, 'ERR'))
    return cs


def confirm(s):
    from common.stdrive import run_cases
    return run_cases(s, cases(), SETUP, chunk=500, timeout=120)
