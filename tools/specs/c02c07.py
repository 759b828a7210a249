SEEDS=[
dict(id='c02-mul-2p62', prop='C02', edits=[('libgst/interp.inl','  if (result < MIN_ST_INT || result > MAX_ST_INT)\n','  if (labs (result) > MAX_ST_INT + 1L)\n')],
 demo="| a b |\na := 2147483648. b := 2147483648.\n(a * b) printNl.\n(a * (b - 1)) printNl.\n(a negated * b) printNl.\n(a negated * b negated) printNl.\n",
 needs='a product of exactly 2^62', breaks='The product wraps to the smallest SmallInteger.'),
dict(id='c02-shift-negative', prop='C02', edits=[('libgst/gstpriv.h','#define INT_OVERFLOW(i)    (((i) ^ ((i) << 1)) < 0)','#define INT_OVERFLOW(i)    ((i) > MAX_ST_INT)')],
 demo="| a s |\na := -3. s := 61.\n(a bitShift: s) printNl.\n(3 bitShift: s) printNl.\n(a perform: #bitShift: with: s) printNl.\n",
 needs='shifting a negative SmallInteger so that the result is between -2^63 and -2^62', breaks='The result of bitShift: wraps.'),
dict(id='c07-symbol-strncpy', prop='C07', edits=[('libgst/sym.c','  memcpy (symbol->symString, str, len);\n','  strncpy (symbol->symString, str, len);\n')],
 demo="| s t |\ns := 'ab', (String with: (Character value: 0)), 'cd'.\nt := s asSymbol.\n(t size) printNl.\n(t asString = s) printNl.\n(s asSymbol == t) printNl.\n('plain' asSymbol == #plain) printNl.\n",
 needs='interning a string with an embedded NUL character', breaks='The symbol loses the characters after the NUL, so interning again gives another symbol.'),
dict(id='c07-intern-length', prop='C07', edits=[('libgst/sym.c','''  unsigned int len;
  char copyBuf[100], *copyPtr;
  OOP symbolOOP;
''','''  unsigned short len;
  char copyBuf[100], *copyPtr;
  OOP symbolOOP;
''')],
 demo="| s t |\ns := String new: 65540 withAll: $a.\nt := s asSymbol.\n(t size) printNl.\n(t == #aaaa) printNl.\n",
 needs='interning a string of 65536 or more characters', breaks='Different strings give the same symbol.'),
dict(id='c07-full-dictionary', prop='C07', edits=[('libgst/dict.c','''  if UNCOMMON (TO_INT (dict->tally) >= 
	       TO_INT (dict->objSize) * 3 / 4)
''','''  if UNCOMMON (TO_INT (dict->tally) >= 
	       NUM_WORDS (dict) - OOP_FIXED_FIELDS (dictionaryOOP))
''')],
 demo="Object subclass: Foo [\n" + ''.join("  V%d := %d.\n" % (i, i) for i in range(33)) + "  sum [ ^V0 + V32 + V31 ]\n]\nFoo new sum printNl.\nFoo classPool size printNl.\n",
 needs='a dictionary holding exactly as many entries as it has slots', breaks='A full dictionary has no empty slot left, so searching an absent key aborts.'),
dict(id='c07-binding-environment', prop='C07', edits=[('libgst/dict.c','''  memcpy (dictionary->data, oldDictionary->data, sizeof (PTR) * numFixedFields);
''','''  dictionary->data[0] = oldDictionary->data[0];
''')],
 demo="Object subclass: Foo [\n" + ''.join("  V%d := %d.\n" % (i, i) for i in range(60)) + "  sum [ ^V0 + V32 + V31 ]\n]\nFoo new sum printNl.\nFoo classPool size printNl.\n(Foo classPool environment == Foo) printNl. (Foo bindingFor: #V3) printNl.\n",
 needs='a class with enough class variables to make the VM grow its pool', breaks='Growth loses the instance variables of the dictionary (its environment).'),
]
