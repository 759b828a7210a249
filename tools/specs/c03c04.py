SEEDS = [
{'id': 'c03-many-ivars', 'prop': 'C03', 'edits': [('libgst/dict.inl', '  gst_object p_instance;\n  int n;\n  OOP src, *dest;\n', '  gst_object p_instance;\n  unsigned char n;\n  OOP src, *dest;\n'), ('libgst/dict.inl', '  do\n    *dest++ = src;\n  while (--n > 0);\n  return p_instance;\n', '  while (n-- > 0)\n    *dest++ = src;\n  return p_instance;\n')], 'demo': "Object subclass: Foo [ ]\n| c o bad |\nc := Foo.\nc instanceVariableNames: ((1 to: 300) inject: '' into: [:a :i | a, ' v', i printString]).\n1 to: 3000 do: [:i | Array new: 300 withAll: 7].\nObjectMemory scavenge.\nbad := 0.\n1 to: 50 do: [:k | o := c new. 1 to: 300 do: [:i | (o instVarAt: i) == nil ifFalse: [bad := bad + 1]]].\nbad printNl.\n", 'needs': 'a class with more than 255 instance variables', 'breaks': 'The variables beyond n mod 256 of a new object hold junk instead of nil.'},
{'id': 'c03-tail-bytes', 'prop': 'C03', 'edits': [('libgst/dict.inl', '      memset (&p_instance->data[instanceSpec >> ISP_NUMFIXEDFIELDS], 0,\n\t      indexedBytes);\n', '      memset (&p_instance->data[instanceSpec >> ISP_NUMFIXEDFIELDS], 0,\n\t      indexedBytes & ~3);\n')], 'demo': '| b bad |\n1 to: 20000 do: [:i | b := ByteArray new: 40. b replaceFrom: 1 to: 40 with: (b collect: [:x | 165]) startingAt: 1].\nObjectMemory scavenge.\nbad := 0.\n1 to: 5000 do: [:i | b := ByteArray new: i \\\\ 16. 1 to: b size do: [:j | (b at: j) = 0 ifFalse: [bad := bad + 1]]].\nbad printNl.\n', 'needs': 'a byte-indexed object whose size is not a multiple of 4, allocated where another object has been', 'breaks': 'The last bytes of a new object hold junk instead of zero.'},
{'id': 'c04-cobject-tail', 'prop': 'C04', 'edits': [('libgst/dict.inl', '  if (baseOOP->flags & F_BYTE)\n    maxOffset -= (baseOOP->flags & EMPTY_BYTES);\n\n  return (offset + size - 1 < maxOffset);\n', '  if ((baseOOP->flags & F_BYTE) && size <= 4)\n    maxOffset -= (baseOOP->flags & EMPTY_BYTES);\n\n  return (offset + size - 1 < maxOffset);\n')], 'demo': '| a c |\na := ByteArray new: 13.\nc := CObject new storage: a; yourself.\nc address: 0.\n#(0 5 6 8) do: [:i | ([c at: i put: 258 type: CLongType new cObjStoredType. 1] on: Error do: [:e | e return: 0]) printNl].\n', 'needs': 'an 8-byte access at the end of an object whose size is not a multiple of 8', 'breaks': 'The access is accepted although its last bytes are outside the object.'},
{'id': 'c04-int64-boundary', 'prop': 'C04', 'edits': [('libgst/dict.inl', '  if COMMON (i >= MIN_ST_INT && i <= MAX_ST_INT)\n    return (FROM_INT (i));\n\n  if (i < 0)\n    ba = (gst_byte_array) new_instance_with (_gst_large_negative_integer_class, \n\t\t\t\t\t     8, &oop);\n', '  if COMMON (i > MIN_ST_INT && i <= MAX_ST_INT)\n    return (FROM_INT (i));\n\n  if (i < 0)\n    ba = (gst_byte_array) new_instance_with (_gst_large_negative_integer_class, \n\t\t\t\t\t     8, &oop);\n')], 'demo': '| c x |\nc := CObject alloc: 16.\n(0 to: 2) do: [:k | x := (2 raisedTo: 62) negated + k. c at: 0 put: x type: CLongType new cObjStoredType. ((c at: 0 type: CLongType new cObjStoredType) = x) printNl. (c at: 0 type: CLongType new cObjStoredType) class printNl].\n', 'needs': 'the C value -2^62 converted to Smalltalk', 'breaks': 'The smallest SmallInteger arrives as a LargeNegativeInteger that is not equal to it.'},
{'id': 'c03-large-zero', 'prop': 'C03', 'edits': [('libgst/dict.inl', '      memset (&p_instance->data[instanceSpec >> ISP_NUMFIXEDFIELDS], 0,\n\t      indexedBytes);\n', '      if COMMON (indexedBytes <= _gst_mem.big_object_threshold)\n        memset (&p_instance->data[instanceSpec >> ISP_NUMFIXEDFIELDS], 0,\n\t        indexedBytes);\n')], 'demo': '| b bad |\nbad := 0.\n1 to: 5 do: [:k |\n    b := ByteArray new: 100000 + k.\n    1 to: b size do: [:i | (b at: i) = 0 ifFalse: [bad := bad + 1]].\n    1 to: b size do: [:i | b at: i put: 165].\n    b := nil.\n    ObjectMemory globalGarbageCollect].\nbad printNl.\n', 'needs': 'an object big enough to be put directly in old space, where another one was freed', 'breaks': 'The bytes of a new big object hold what the freed object contained.'},
{'id': 'c04-uint64-two62', 'prop': 'C04', 'edits': [('libgst/dict.inl', '  if COMMON (ui <= MAX_ST_INT)\n    return (FROM_INT (ui));\n\n  if UNCOMMON (((int64_t) ui) < 0)\n', '  if COMMON (ui <= (uint64_t) -MIN_ST_INT)\n    return (FROM_INT (ui));\n\n  if UNCOMMON (((int64_t) ui) < 0)\n')], 'demo': '| c x |\nc := CObject alloc: 16.\n-2 to: 2 do: [:k |\n   x := (2 raisedTo: 62) + k.\n   c at: 0 put: x type: CULongType new cObjStoredType.\n   ((c at: 0 type: CULongType new cObjStoredType) = x) printNl].\n', 'needs': 'the unsigned 64-bit C value 2^62', 'breaks': 'It arrives as -2^62.'}]
