From 19957ddf33c4f79e27356c668393aa8f56ce75e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:20 +0000
Subject: [PATCH 01/25] fix: check indexed accesses without overflowing

The bounds check in index_oop_spec and index_oop_put_spec added the fixed
part and one element before comparing, so it underflowed for objects without
indexed instance variables (`ByteArray new at: 1' answered 0) and the product
index * sizeof (type) wrapped for huge indices.
---
 libgst/dict.inl | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 528f870..17d02f3 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -992,14 +992,12 @@ index_oop_spec (OOP oop,
       maxByte -= (oop->flags & EMPTY_BYTES);				\
 									\
     base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);		\
-    index = base + index * sizeof(type);				\
 									\
     /* Check that we're on bounds.  */					\
-    base += sizeof(type);						\
-    if UNCOMMON (index - base > maxByte - base)				\
+    if UNCOMMON (index > (maxByte - base) / sizeof (type))		\
       return (NULL);							\
 									\
-    index -= sizeof(type);						\
+    index = base + (index - 1) * sizeof(type);				\
 									\
     /* Use a cast if unaligned accesses are supported, else memcpy.  */	\
     src = ((char *) object->data) + index;				\
@@ -1085,12 +1083,10 @@ index_oop_spec (OOP oop,
       case GST_ISP_POINTER:
         maxIndex = NUM_WORDS (object);
         base = instanceSpec >> ISP_NUMFIXEDFIELDS;
-        index += base;
-        base++;
-        if UNCOMMON (index - base > maxIndex - base)
+        if UNCOMMON (index > maxIndex - base)
 	  return (NULL);
 
-        return (object->data[index - 1]);
+        return (object->data[base + index - 1]);
     }
 #undef DO_INDEX_OOP
 
@@ -1127,15 +1123,13 @@ index_oop_put_spec (OOP oop,
         if (sizeof (type) <= sizeof (PTR))				\
           maxByte -= (oop->flags & EMPTY_BYTES);			\
 									\
-          base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);	\
-          index = base + index * sizeof(type);				\
+        base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);	\
 									\
         /* Check that we're on bounds.  */				\
-        base += sizeof(type);						\
-        if UNCOMMON (index - base > maxByte - base)			\
+        if UNCOMMON (index > (maxByte - base) / sizeof (type))		\
           return (false);						\
 									\
-        index -= sizeof(type);						\
+        index = base + (index - 1) * sizeof(type);			\
 									\
         /* Use a cast if unaligned accesses are ok, else memcpy.  */	\
         if (sizeof (type) <= sizeof (PTR))				\
@@ -1253,12 +1247,10 @@ index_oop_put_spec (OOP oop,
       case GST_ISP_POINTER:
         maxIndex = NUM_WORDS (object);
         base = instanceSpec >> ISP_NUMFIXEDFIELDS;
-        index += base;
-        base++;
-        if UNCOMMON (index - base > maxIndex - base)
+        if UNCOMMON (index > maxIndex - base)
 	  return (false);
 
-        object->data[index - 1] = value;
+        object->data[base + index - 1] = value;
         return (true);
     }
 #undef DO_INDEX_OOP_PUT
-- 
2.43.0


From f14f313ce9345c1c4728f116620c4399b72e8a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:20 +0000
Subject: [PATCH 02/25] fix: sign-extend the elements of #short objects when
 reading them

---
 libgst/dict.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 17d02f3..e92a9b6 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1027,7 +1027,7 @@ index_oop_spec (OOP oop,
       }
 
       case GST_ISP_SHORT: {
-        uint16_t i;
+        int16_t i;
         DO_INDEX_OOP (int16_t, i);
         return FROM_INT (i);
       }
-- 
2.43.0


From 6087316010ece9416b7c49e19d2fed443f87f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:20 +0000
Subject: [PATCH 03/25] fix: accept INT_MAX and UINT_MAX as 32-bit C integers

---
 libgst/dict.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index e92a9b6..17be5ed 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1289,7 +1289,7 @@ is_c_int_32 (OOP oop)
 #if SIZEOF_OOP == 4
     return (true);
 #else
-    return (TO_INT (oop) >= INT_MIN && TO_INT (oop) < INT_MAX);
+    return (TO_INT (oop) >= INT_MIN && TO_INT (oop) <= INT_MAX);
 #endif
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
@@ -1309,7 +1309,7 @@ is_c_uint_32 (OOP oop)
 #if SIZEOF_OOP == 4
     return (TO_INT (oop) >= 0);
 #else
-    return (TO_INT (oop) >= 0 && TO_INT (oop) < UINT_MAX);
+    return (TO_INT (oop) >= 0 && TO_INT (oop) <= UINT_MAX);
 #endif
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
-- 
2.43.0


From c9fa782ab301b44ea3f2dd6c5a6a7b8f71e55c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:20 +0000
Subject: [PATCH 04/25] fix: convert 9-byte LargePositiveIntegers to uint64_t
 correctly

The mask was computed with a shift by 71, so 2^64-1 was truncated.
---
 libgst/dict.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 17be5ed..22e0599 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1460,7 +1460,8 @@ to_c_uint_64 (OOP oop)
     return (TO_INT (oop));
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
-  mask = (((uint64_t)2) << (NUM_INDEXABLE_FIELDS (oop) * 8 - 1)) - 1;
+  mask = (NUM_INDEXABLE_FIELDS (oop) >= 8 ? ~(uint64_t) 0
+	  : (((uint64_t)2) << (NUM_INDEXABLE_FIELDS (oop) * 8 - 1)) - 1);
   result = ((int64_t) (
 	   (((uint64_t) ba->bytes[3]) << 24) +
 	   (((uint64_t) ba->bytes[2]) << 16) +
@@ -1487,7 +1488,8 @@ to_c_int_64 (OOP oop)
     return (TO_INT (oop));
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
-  mask = (((uint64_t)2) << (NUM_INDEXABLE_FIELDS (oop) * 8 - 1)) - 1;
+  mask = (NUM_INDEXABLE_FIELDS (oop) >= 8 ? ~(uint64_t) 0
+	  : (((uint64_t)2) << (NUM_INDEXABLE_FIELDS (oop) * 8 - 1)) - 1);
   result = (ba->objClass == _gst_large_negative_integer_class) ? ~mask : 0;
   result |= ((int64_t) (
 	   (((uint64_t) ba->bytes[3]) << 24) +
-- 
2.43.0


From 3f10cc7f7cbb78a9a8a380e6019055717fce687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:23 +0000
Subject: [PATCH 05/25] fix: answer a LargeInteger for SmallInteger smallest
 divided by -1

/, // and quo: (and thus rem:) wrapped the quotient to a negative SmallInteger.
---
 libgst/prims.def | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 98b34e1..11afb3f 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -198,7 +198,8 @@ primitive VMpr_SmallInteger_divide [succeed,fail]
       iarg2 *= result;
       if COMMON (iarg1 == iarg2)
 	{
-	  PUSH_INT (result);
+	  /* SmallInteger smallest / -1 is a LargeInteger.  */
+	  PUSH_OOP (FROM_C_LONG (result));
 	  PRIM_SUCCEEDED;
 	}
     }
@@ -253,7 +254,7 @@ primitive VMpr_SmallInteger_intDiv [succeed,fail]
       if (iarg1 < 0)		/* differing signs => use black magic */
 	PUSH_INT (-((iarg2 - 1 - iarg1) / iarg2));
       else
-	PUSH_INT (iarg1 / iarg2);
+	PUSH_OOP (FROM_C_LONG (iarg1 / iarg2));
 
       PRIM_SUCCEEDED;
     }
@@ -278,7 +279,7 @@ primitive VMpr_SmallInteger_quo [succeed,fail]
       iarg2 = TO_INT (oop2);
       if COMMON (iarg2 != 0)
 	{
-	  PUSH_INT (iarg1 / iarg2);
+	  PUSH_OOP (FROM_C_LONG (iarg1 / iarg2));
 	  PRIM_SUCCEEDED;
 	}
     }
-- 
2.43.0


From c86aa5a34de72ced781f3c29091a1df936e2266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:23 +0000
Subject: [PATCH 06/25] fix: do not store into read-only objects through the
 #at:put: cache

---
 libgst/interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/interp.c b/libgst/interp.c
index ab67daf..d69cefb 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -2718,7 +2718,7 @@ cached_index_oop_primitive (OOP rec, OOP idx, intptr_t spec)
 static inline mst_Boolean
 cached_index_oop_put_primitive (OOP rec, OOP idx, OOP val, intptr_t spec)
 {
-  if (!IS_INT (idx))
+  if (!IS_INT (idx) || IS_OOP_READONLY (rec))
     return (true);
 
   if UNCOMMON (!index_oop_put_spec (rec, OOP_TO_OBJ (rec), TO_INT (idx),
-- 
2.43.0


From b93ecc55e6ea520f83f7ff0d1197ee21c090bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:49 +0000
Subject: [PATCH 07/25] fix: do not store into read-only objects through
 #instVarAt:put:

The fallback code in Object>>#instVarAt:put: already expects the primitive
to fail for read-only receivers.
---
 libgst/prims.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 11afb3f..ef162b1 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2420,7 +2420,7 @@ primitive VMpr_Object_instVarAtPut = 74 [succeed,fail,inlined]
   oop3 = POP_OOP ();
   oop2 = POP_OOP ();
   oop1 = STACKTOP ();
-  if COMMON (IS_INT (oop2))
+  if COMMON (IS_INT (oop2) && !IS_OOP_READONLY (oop1))
     {
       intptr_t arg2;
       arg2 = TO_INT (oop2);
-- 
2.43.0


From 48d42ad20748d1b03d6ca50cb9ddcc6d47757755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 08/25] fix: add the elements of an OrderedCollection to itself
 correctly

---
 kernel/OrderColl.st | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kernel/OrderColl.st b/kernel/OrderColl.st
index 9f0cf29..14b8661 100644
--- a/kernel/OrderColl.st
+++ b/kernel/OrderColl.st
@@ -173,6 +173,7 @@ on content (such as add:after:)'>
 
 	<category: 'adding'>
 	| index |
+	aCollection == self ifTrue: [self addAll: self copy. ^aCollection].
 	self makeRoomLastFor: aCollection size.
 	index := lastIndex + 1.
 	lastIndex := lastIndex + aCollection size.
@@ -199,6 +200,7 @@ on content (such as add:after:)'>
 
 	<category: 'adding'>
 	| index |
+	newCollection == self ifTrue: [self addAll: self copy afterIndex: i. ^newCollection].
 	(i between: 0 and: self size) 
 	    ifFalse: [^SystemExceptions.IndexOutOfRange signalOn: self withIndex: i].
 	index := i + firstIndex.
@@ -236,6 +238,7 @@ on content (such as add:after:)'>
 
 	<category: 'adding'>
 	| index |
+	aCollection == self ifTrue: [self addAllFirst: self copy. ^aCollection].
 	self makeRoomFirstFor: aCollection size.
 	index := firstIndex := firstIndex - aCollection size.
 	aCollection do: 
@@ -251,6 +254,7 @@ on content (such as add:after:)'>
 
 	<category: 'adding'>
 	| index |
+	aCollection == self ifTrue: [self addAllLast: self copy. ^aCollection].
 	self makeRoomLastFor: aCollection size.
 	index := lastIndex + 1.
 	lastIndex := lastIndex + aCollection size.
@@ -393,6 +397,7 @@ on content (such as add:after:)'>
 
 	<category: 'private methods'>
 	| index |
+	aCollection == self ifTrue: [self basicAddAllLast: self copy. ^aCollection].
 	self makeRoomLastFor: aCollection size.
 	index := lastIndex + 1.
 	lastIndex := lastIndex + aCollection size.
-- 
2.43.0


From 5168d39c664deba9843b465c89897a3fb277564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 09/25] fix: a descending Interval with one element is not
 empty

---
 kernel/Interval.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index 0631bb8..2c20ceb 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -135,7 +135,7 @@ members that my instance represents.'>
 	"Answer whether the receiver is empty."
 
 	<category: 'basic'>
-	^(step > 0) == (stop < start)
+	^step > 0 ifTrue: [stop < start] ifFalse: [stop > start]
     ]
 
     size [
-- 
2.43.0


From 75d391cbdd21c0ba1e6e33e383748693630dbb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 10/25] fix: answer an empty Interval as the reverse of an
 empty Interval

---
 kernel/Interval.st | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index 2c20ceb..dda51a9 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -151,6 +151,7 @@ members that my instance represents.'>
 	"Answer a copy of the receiver with all of its items reversed"
 
 	<category: 'basic'>
+	self isEmpty ifTrue: [^self copyFrom: 1 to: 0].
 	^Interval 
 	    from: (self at: self size)
 	    to: (self at: 1)
-- 
2.43.0


From 5e1c55dc726587d0ab7c9ca253e2c111ead850ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 11/25] fix: symbols whose strings contain NUL characters must
 compare every byte

---
 libgst/sym.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/sym.c b/libgst/sym.c
index 57f62e7..0dd832e 100644
--- a/libgst/sym.c
+++ b/libgst/sym.c
@@ -1450,7 +1450,7 @@ is_same_string (const char *str,
 		int len)
 {
   if (_gst_string_oop_len (oop) == len)
-    return (strncmp
+    return (memcmp
 	    (str, ((gst_symbol) OOP_TO_OBJ (oop))->symString,
 	     len) == 0);
 
-- 
2.43.0


From ddc61c6133a09b969bea5c0ceb962b545fc4d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 12/25] fix: growing an identity dictionary from the VM must
 not change its tally

---
 libgst/dict.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/dict.c b/libgst/dict.c
index 8b37f0f..7d77aa4 100644
--- a/libgst/dict.c
+++ b/libgst/dict.c
@@ -1628,7 +1628,7 @@ grow_identity_dictionary (OOP oldIdentityDictionaryOOP)
   oldIdentityDictionary = OOP_TO_OBJ (oldIdentityDictionaryOOP);
   oldIdentDict = (gst_identity_dictionary) oldIdentityDictionary;
   identDict = (gst_identity_dictionary) identityDictionary;
-  identDict->tally = INCR_INT (oldIdentDict->tally);
+  identDict->tally = oldIdentDict->tally;
 
   /* rehash all associations from old dictionary into new one */
   for (i = 0; i < oldNumFields; i++)
-- 
2.43.0


From bcc493df608c481dd1b4b87485f2a0c1552f139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:43 +0000
Subject: [PATCH 13/25] fix: reload object pointers after growing a dictionary
 may have moved objects

---
 libgst/dict.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgst/dict.c b/libgst/dict.c
index 7d77aa4..54e3f61 100644
--- a/libgst/dict.c
+++ b/libgst/dict.c
@@ -1589,8 +1589,8 @@ grow_dictionary (OOP oldDictionaryOOP)
 
   dictionary = instantiate_with (OOP_CLASS (oldDictionaryOOP), 
 				 numFields, &dictionaryOOP);
-  memcpy (dictionary->data, oldDictionary->data, sizeof (PTR) * numFixedFields);
   oldDictionary = OOP_TO_OBJ (oldDictionaryOOP);
+  memcpy (dictionary->data, oldDictionary->data, sizeof (PTR) * numFixedFields);
 
   /* rehash all associations from old dictionary into new one */
   for (i = 0; i < oldNumFields; i++)
@@ -1862,6 +1862,9 @@ _gst_dictionary_add (OOP dictionaryOOP,
     {
       dictionary = grow_dictionary (dictionaryOOP);
       dict = (gst_dictionary) dictionary;
+
+      /* Growing can move the association.  */
+      association = (gst_association) OOP_TO_OBJ (associationOOP);
     }
 
   index = find_key_or_nil (dictionaryOOP, association->key);
-- 
2.43.0


From 3339423f4447ebbf78dfa0fb5cea0148cc413994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 14/25] fix: converting a C char above 127 to an object must
 not index before the Character table

---
 libgst/callin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/callin.c b/libgst/callin.c
index dd30511..3135b71 100644
--- a/libgst/callin.c
+++ b/libgst/callin.c
@@ -535,7 +535,7 @@ _gst_char_to_oop (char c)
   if (!_gst_smalltalk_initialized)
     _gst_initialize (NULL, NULL, GST_NO_TTY);
 
-  return (CHAR_OOP_AT (c));
+  return (CHAR_OOP_AT ((gst_uchar) c));
 }
 
 OOP
-- 
2.43.0


From f0f52461a710a4c01fde0a771d94ea929bd18a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 15/25] fix: call-outs returning float must read the float
 member of the result

---
 libgst/cint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index fdb6ce3..f609e81 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -1420,7 +1420,7 @@ c_to_smalltalk (cparam *result, OOP receiverOOP, OOP returnTypeOOP)
       break;
 
     case CDATA_FLOAT:
-      resultOOP = floate_new (result->u.doubleVal);
+      resultOOP = floate_new (result->u.floatVal);
       break;
 
     default:
-- 
2.43.0


From 220183ecc2a1a34117fac7674b75ae8ddda70194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 16/25] fix: accept call-outs returning long double

---
 libgst/cint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libgst/cint.c b/libgst/cint.c
index f609e81..20fcfda 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -1423,6 +1423,10 @@ c_to_smalltalk (cparam *result, OOP receiverOOP, OOP returnTypeOOP)
       resultOOP = floate_new (result->u.floatVal);
       break;
 
+    case CDATA_LONG_DOUBLE:
+      resultOOP = floatq_new (result->u.longDoubleVal);
+      break;
+
     default:
       _gst_errorf
 	("Invalid C function return type specified, index %d\n",
-- 
2.43.0


From 879415a3768141f48aa1411782cd1507be5721b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 17/25] fix: do not round long double call-out arguments to
 double

---
 libgst/cint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index 20fcfda..8ed356f 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -1209,7 +1209,7 @@ smalltalk_to_c (OOP oop,
       switch (cType)
 	{
 	case CDATA_LONG_DOUBLE:
-	  cp->u.longDoubleVal = _gst_oop_to_float (oop);
+	  cp->u.longDoubleVal = _gst_oop_to_long_double (oop);
 	  return &ffi_type_longdouble;
 
 	case CDATA_DOUBLE:
-- 
2.43.0


From 7aa8d901529bf6b0ff5baff99d2209916c0897b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 18/25] fix: CObject>>at:put: must store unsigned ints above
 2^31-1

---
 libgst/prims.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index ef162b1..f5fbe66 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5000,7 +5000,7 @@ primitive VMpr_CObject_atPut [succeed,fail]
 
 	case CDATA_INT:		/* int */
 	case CDATA_UINT:		/* uint */
-	  if (IS_C_INT (oop3))
+	  if (IS_C_INT (oop3) || is_c_uint_32 (oop3))
 	    {
 	      *(int *) addr = (int) TO_C_INT (oop3);
 	      PRIM_SUCCEEDED;
-- 
2.43.0


From de01d4caaf2bb0cc2282dc38a9f490b9aefea064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 19/25] fix: allocate room for whole wide characters when
 converting a UnicodeString to C

---
 libgst/dict.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/dict.c b/libgst/dict.c
index 54e3f61..acf30fd 100644
--- a/libgst/dict.c
+++ b/libgst/dict.c
@@ -2027,7 +2027,7 @@ _gst_to_wide_cstring (OOP stringOOP)
 
   string = (gst_unicode_string) OOP_TO_OBJ (stringOOP);
   len = oop_num_fields (stringOOP);
-  result = (wchar_t *) xmalloc (len + 1);
+  result = (wchar_t *) xmalloc ((len + 1) * sizeof (wchar_t));
   if (sizeof (wchar_t) == 4)
     memcpy (result, string->chars, len * sizeof (wchar_t));
   else
-- 
2.43.0


From ac67556d2a2ff53b88684ad715980f0225219298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:04 +0000
Subject: [PATCH 20/25] fix: fail basicNew: when the size of the object in
 bytes would overflow

---
 libgst/prims.def | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index f5fbe66..7cafc9f 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2322,7 +2322,7 @@ primitive VMpr_Behavior_basicNewColon = 71 [succeed,fail,inlined]
 	{
 	  intptr_t arg2;
 	  arg2 = TO_INT (oop2);
-	  if (arg2 >= 0)
+	  if (arg2 >= 0 && arg2 <= MAX_ST_INT / 16)
 	    {
 	      OOP result;
 	      instantiate_with (oop1, arg2, &result);
@@ -2351,7 +2351,7 @@ primitive VMpr_Behavior_newColonInitialize [succeed,fail,reload_ip]
 	{
 	  intptr_t arg2;
 	  arg2 = TO_INT (oop2);
-	  if (arg2 >= 0)
+	  if (arg2 >= 0 && arg2 <= MAX_ST_INT / 16)
 	    {
 	      OOP result;
 	      instantiate_with (oop1, arg2, &result);
@@ -4659,7 +4659,7 @@ primitive VMpr_Behavior_basicNewFixedColon [succeed,fail]
 	{
 	  intptr_t arg2;
 	  arg2 = TO_INT (oop2);
-	  if (arg2 >= 0)
+	  if (arg2 >= 0 && arg2 <= MAX_ST_INT / 16)
 	    {
 	      OOP result;
 	      instantiate_with (oop1, arg2, &result);
-- 
2.43.0


From 7dd190938a221865c572d89591cf820011bc0544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 21/25] fix: reserve words, not eight times as many, for the
 object allocated after a scavenge

---
 libgst/oop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index 71e837a..ed2b949 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -787,7 +787,7 @@ _gst_alloc_obj (size_t size,
   if UNCOMMON (newAllocPtr >= _gst_mem.eden.maxPtr)
     {
       _gst_scavenge ();
-      newAllocPtr = _gst_mem.eden.allocPtr + size;
+      newAllocPtr = _gst_mem.eden.allocPtr + BYTES_TO_SIZE (size);
     }
 
   p_instance = (gst_object) _gst_mem.eden.allocPtr;
-- 
2.43.0


From a6d7b88f03a5e4f8ef17c786db37913919ce7619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:58 +0000
Subject: [PATCH 22/25] fix: Semaphore>>waitAfterSignalling: made the resumed
 process wait

When the signalled process has at least the priority of the caller, the signal
schedules a switch to it; _gst_sync_wait then put that process, instead of the
caller, on the queue of the receiver.
---
 libgst/prims.def | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 7cafc9f..b3e9c0e 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2909,13 +2909,17 @@ primitive VMpr_Semaphore_wait [succeed,check_interrupt]
 /* Semaphore waitAfterSignalling: aSemaphore */
 primitive VMpr_Semaphore_waitAfterSignalling [succeed,check_interrupt]
 {
-  OOP oop1, oop2;
+  OOP oop1, oop2, processOOP;
   _gst_primitives_executed++;
 
   oop2 = POP_OOP ();
   oop1 = STACKTOP ();
+
+  /* The signal can schedule a switch to the resumed process, but it is the
+     caller that has to wait.  */
+  processOOP = get_active_process ();
   _gst_sync_signal (oop2, true);
-  _gst_sync_wait (oop1);
+  sync_wait_process (oop1, processOOP);
   PRIM_SUCCEEDED;
 }
 
-- 
2.43.0


From c62f47f488af8a91d5e96e74ed200bde82c9f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:58 +0000
Subject: [PATCH 23/25] fix: String>>similarityTo: lost its argument when the
 primitive failed

---
 libgst/prims.def | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index b3e9c0e..12faac7 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -3220,13 +3220,19 @@ primitive VMpr_String_similarityTo [succeed,fail]
   if (IS_INT(oop2)
       || OOP_FIXED_FIELDS (oop2)
       || (OOP_INSTANCE_SPEC (oop2) & ISP_INDEXEDVARS) != GST_ISP_CHARACTER)
-    PRIM_FAILED;
+    {
+      UNPOP (1);
+      PRIM_FAILED;
+    }
 
 #ifndef OPTIMIZE
   if (IS_INT(oop1)
       || OOP_FIXED_FIELDS (oop1)
       || (OOP_INSTANCE_SPEC (oop1) & ISP_INDEXEDVARS) != GST_ISP_CHARACTER)
-    PRIM_FAILED;
+    {
+      UNPOP (1);
+      PRIM_FAILED;
+    }
 #endif
 
   s1 = STRING_OOP_CHARS (oop1);
-- 
2.43.0


From 0c635adc6990a17381740985dced00b7fc3e6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:58 +0000
Subject: [PATCH 24/25] fix: indexOf: on bytes matched truncated or wrongly
 typed elements

The primitive converted the element to a byte, so 257 was found in a ByteArray
holding 1 and 98 in a String holding b; it accepted start indices below 1, and
truncated them to 32 bits.
---
 libgst/prims.def | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 12faac7..93de4eb 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -3318,7 +3318,7 @@ primitive VMpr_ArrayedCollection_equal [succeed,fail]
 primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
 {
   OOP srcIndexOOP, srcOOP, targetOOP;
-  int srcIndex, srcLen, target;
+  intptr_t srcIndex, srcLen, target;
   gst_uchar *srcBase, *srcTarget;
   _gst_primitives_executed++;
 
@@ -3337,11 +3337,28 @@ primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
       if (_gst_log2_sizes[srcSpec & ISP_SHAPE] != 0)
 	goto bad;
 
-      target = IS_INT (targetOOP) ? TO_INT (targetOOP) : CHAR_OOP_VALUE (targetOOP);
+      /* Only characters are found in a String, and only the integers that
+         fit a byte are found in a ByteArray.  */
+      if ((srcSpec & ISP_INDEXEDVARS) == GST_ISP_CHARACTER)
+        {
+          if UNCOMMON (IS_INT (targetOOP))
+            goto bad;
+          target = CHAR_OOP_VALUE (targetOOP);
+        }
+      else
+        {
+          intptr_t min = (srcSpec & ISP_INDEXEDVARS) == GST_ISP_SCHAR ? -128 : 0;
+          if UNCOMMON (!IS_INT (targetOOP))
+            goto bad;
+          target = TO_INT (targetOOP);
+          if UNCOMMON (target < min || target > min + 255)
+            goto bad;
+        }
+
       srcIndex = TO_INT (srcIndexOOP);
       srcLen = NUM_INDEXABLE_FIELDS (srcOOP) - srcIndex + 1;
 
-      if UNCOMMON (srcLen < 0)
+      if UNCOMMON (srcIndex < 1 || srcLen < 0)
 	goto bad;
 
       srcBase = (gst_uchar *) OOP_TO_OBJ (srcOOP)->data;
-- 
2.43.0


From 6a30b442e5c58fb10e92843e8aeb44a6f6941b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:58 +0000
Subject: [PATCH 25/25] fix: replaceFrom:to:with:startingAt: truncated indices,
 wrote to read-only objects

The indices were truncated to 32 bits before the bounds check, and the
primitive never checked whether the receiver is read-only.
---
 libgst/prims.def | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 93de4eb..d6262a0 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -3382,7 +3382,7 @@ primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
 primitive VMpr_ArrayedCollection_replaceFromToWithStartingAt [succeed,fail]
 {
   OOP srcIndexOOP, srcOOP, dstEndIndexOOP, dstStartIndexOOP, dstOOP;
-  int dstEndIndex, dstStartIndex, srcIndex, dstLen, srcLen, dstRangeLen;
+  intptr_t dstEndIndex, dstStartIndex, srcIndex, dstLen, srcLen, dstRangeLen;
   gst_uchar *dstBase, *srcBase;
   _gst_primitives_executed++;
 
@@ -3407,6 +3407,9 @@ primitive VMpr_ArrayedCollection_replaceFromToWithStartingAt [succeed,fail]
       if (srcOffset && !dstOffset)
         goto bad;
 
+      if UNCOMMON (IS_OOP_READONLY (dstOOP))
+        goto bad;
+
       /* Check compatibility.  */
       size = _gst_log2_sizes[srcSpec & ISP_SHAPE];
       if (size != _gst_log2_sizes[dstSpec & ISP_SHAPE])
-- 
2.43.0

