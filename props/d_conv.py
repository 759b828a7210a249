"""Concrete replay for C04: boundary values through the call-out, call-in and
memory conversions of the real code."""
BODY = r'''
#include <limits.h>
#include <malloc.h>
#include <wchar.h>
static const long long vq_v[] = { 0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, INT_MAX, INT_MAX + 1LL, INT_MIN,
  INT_MIN - 1LL, 4294967295LL, 4294967296LL, (1LL << 61), (1LL << 62) - 1, (1LL << 62), (1LL << 62) + 1, -(1LL << 62), -(1LL << 62) - 1, LLONG_MAX, LLONG_MAX - 1,
  LLONG_MIN, LLONG_MIN + 1, 0x123456789abcdef0LL, -0x123456789abcdef0LL };
#define NV (sizeof (vq_v) / sizeof (vq_v[0]))
static OOP vq_st (const char *s) { OOP o = _gst_nvmsg_send (_gst_string_new (s), _gst_intern_string ("asNumber"), NULL, 0); _gst_register_oop (o); return o; }
static const char *vq_pr (OOP o) { char *p = (char *) _gst_to_cstring (_gst_nvmsg_send (o, _gst_intern_string ("printString"), NULL, 0)); return p; }
static int vq_small (const char *w) { __int128 v = 0; int neg = *w == '-'; if (neg) w++; if (*w < '0' || *w > '9') return -1;
  for (; *w >= '0' && *w <= '9'; w++) v = v * 10 + (*w - '0'); if (*w) return -1; if (neg) v = -v; return v >= MIN_ST_INT && v <= MAX_ST_INT; }
static void vq_same (const char *what, OOP o, const char *want) { const char *p = vq_pr (o); if (strcmp (p, want)) VQ_FAIL ("%s: %s instead of %s", what, p, want);
  if (vq_small (want) >= 0 && (IS_INT (o) != 0) != vq_small (want)) VQ_FAIL ("%s: %s is of the wrong class", what, want); }
static OOP vq_back (cparam *cp, int t) { return c_to_smalltalk (cp, _gst_nil_oop, FROM_INT (t)); }
static OOP vq_num (long long v) { char b[40]; sprintf (b, "%lld", v); return vq_st (b); }

static void vq_body (void)
{
  unsigned i, j;
  char b[40], w[40];
  static const struct { int t; const char *n; long long lo, hi; int uns64; } T[] = {
    { CDATA_INT, "int", INT_MIN, INT_MAX }, { CDATA_UINT, "uInt", 0, UINT_MAX }, { CDATA_SHORT, "short", -32768, 32767 }, { CDATA_USHORT, "uShort", 0, 65535 },
    { CDATA_LONG, "long", LLONG_MIN, LLONG_MAX }, { CDATA_LONGLONG, "longLong", LLONG_MIN, LLONG_MAX }, { CDATA_ULONG, "uLong", 0, LLONG_MAX, 1 }, { CDATA_ULONGLONG, "uLongLong", 0, LLONG_MAX, 1 } };
  cparam cp, r;
  for (i = 0; i < NV; i++)
    {
      OOP o = vq_num (vq_v[i]);
      long long v = vq_v[i];
      sprintf (w, "%lld", v);
      sprintf (b, "from_c_int_64 (%lld)", v); vq_same (b, from_c_int_64 (v), w);
      sprintf (b, "_gst_int_to_oop (%lld)", v); vq_same (b, _gst_int_to_oop (v), w);
      if ((int) v == v) { sprintf (b, "from_c_int_32 (%lld)", v); vq_same (b, from_c_int_32 ((int) v), w); if (to_c_int_32 (o) != v) VQ_FAIL ("to_c_int_32 of %lld", v); }
      sprintf (w, "%llu", (unsigned long long) v);
      sprintf (b, "from_c_uint_64 (%s)", w); vq_same (b, from_c_uint_64 (v), w);
      sprintf (b, "_gst_uint_to_oop (%s)", w); vq_same (b, _gst_uint_to_oop (v), w);
      if (to_c_uint_64 (vq_st (w)) != (unsigned long long) v) VQ_FAIL ("to_c_uint_64 of %s", w);
      if (!is_c_uint_64 (vq_st (w))) VQ_FAIL ("is_c_uint_64 of %s", w);
      if (is_c_int_64 (vq_st (w)) != (v >= 0)) VQ_FAIL ("is_c_int_64 of %s", w);
      sprintf (w, "%u", (unsigned) v);
      sprintf (b, "from_c_uint_32 (%s)", w); vq_same (b, from_c_uint_32 ((unsigned) v), w);
      if (is_c_int_32 (o) != (v == (int) v)) VQ_FAIL ("is_c_int_32 of %lld", v);
      if (is_c_uint_32 (o) != (v == (unsigned) v)) VQ_FAIL ("is_c_uint_32 of %lld", v);
      if (!is_c_int_64 (o)) VQ_FAIL ("is_c_int_64 of %lld", v);
      if (is_c_uint_64 (o) != (v >= 0)) VQ_FAIL ("is_c_uint_64 of %lld", v);
      if (to_c_int_64 (o) != v) VQ_FAIL ("to_c_int_64 of %lld", v);
      if (_gst_oop_to_int (o) != v) VQ_FAIL ("_gst_oop_to_int of %lld", v);
      if (_gst_oop_to_c (o) != v) VQ_FAIL ("_gst_oop_to_c of %lld", v);
      if (_gst_oop_to_float (o) != (double) v && IS_INT (o)) VQ_FAIL ("_gst_oop_to_float of %lld", v);
      for (j = 0; j < sizeof (T) / sizeof (T[0]); j++)
        if (v >= T[j].lo && v <= T[j].hi)
          {
            OOP x;
            if (!smalltalk_to_c (o, &cp, T[j].t)) { VQ_FAIL ("passing %lld as #%s", v, T[j].n); continue; }
            memset (&r, 0, sizeof (r)); r.u = cp.u;
            sprintf (b, "#%s", T[j].n); sprintf (w, "%lld", v);
            vq_same (b, vq_back (&r, T[j].t), w);
            {
              /* through memory */
              char e[400], *p;
              OOP m;
              sprintf (e, "| c | c := CObject alloc: 16 type: (CArrayCType elementType: #char numberOfElements: 16). c at: 0 put: %s type: %d. ^c at: 0 type: %d", w, T[j].t, T[j].t);
              m = _gst_eval_expr (e);
              sprintf (b, "CObject memory #%s", T[j].n);
              vq_same (b, m, w);
            }
          }
    }
  for (i = 0; i < 256; i++)
    {
      OOP o = _gst_char_to_oop ((char) i);
      if (o != CHAR_OOP_AT (i)) VQ_FAIL ("_gst_char_to_oop of byte %d", i);
      else if ((unsigned char) _gst_oop_to_char (o) != i) VQ_FAIL ("_gst_oop_to_char of byte %d", i);
      memset (&r, 0, sizeof (r)); r.u.longVal = (char) i;
      if (vq_back (&r, CDATA_CHAR) != CHAR_OOP_AT (i)) VQ_FAIL ("a #char result of %d", i);
      if (vq_back (&r, CDATA_UCHAR) != CHAR_OOP_AT (i)) VQ_FAIL ("a #uChar result of %d", i);
      if (!smalltalk_to_c (CHAR_OOP_AT (i), &cp, CDATA_UCHAR) || (unsigned char) cp.u.longVal != i) VQ_FAIL ("passing character %d", i);
    }
  for (i = 0; i < 0x110000; i += i < 300 ? 1 : 1009)
    {
      OOP o = _gst_wchar_to_oop (i);
      if (_gst_oop_to_wchar (o) != i) VQ_FAIL ("wchar %x", i);
      if ((i < 128) != (o == CHAR_OOP_AT (i & 255))) VQ_FAIL ("wchar %x identity", i);
      memset (&r, 0, sizeof (r)); r.u.longVal = i;
      o = vq_back (&r, CDATA_WCHAR);
      if (CHAR_OOP_VALUE (o) != i) VQ_FAIL ("a #wchar result of %x", i);
    }
  {
    double d[] = { 0, 1, -1, 0.5, 1e10, -3.25, 1e300, 1.1, 123456789.125 };
    for (i = 0; i < 9; i++)
      {
        if (_gst_oop_to_float (_gst_float_to_oop (d[i])) != d[i]) VQ_FAIL ("double %g through a call-in", d[i]);
        memset (&r, 0, sizeof (r)); r.u.doubleVal = d[i];
        if (_gst_oop_to_float (vq_back (&r, CDATA_DOUBLE)) != d[i]) VQ_FAIL ("a #double result of %g", d[i]);
        memset (&r, 0x55, sizeof (r)); r.u.floatVal = d[i];
        if ((float) _gst_oop_to_float (vq_back (&r, CDATA_FLOAT)) != (float) d[i]) VQ_FAIL ("a #float result of %g", d[i]);
        if (!smalltalk_to_c (_gst_float_to_oop (d[i]), &cp, CDATA_DOUBLE) || cp.u.doubleVal != d[i]) VQ_FAIL ("passing %g as #double", d[i]);
        if (!smalltalk_to_c (_gst_float_to_oop (d[i]), &cp, CDATA_FLOAT) || cp.u.floatVal != (float) d[i]) VQ_FAIL ("passing %g as #float", d[i]);
        {
          long double q = (long double) d[i] + 0x1p-60L * d[i];
          OOP o = _gst_long_double_to_oop (q);
          if (_gst_oop_to_long_double (o) != q) VQ_FAIL ("long double %g through a call-in", d[i]);
          if (!smalltalk_to_c (o, &cp, CDATA_LONG_DOUBLE) || cp.u.longDoubleVal != q) VQ_FAIL ("passing %g as #longDouble", d[i]);
          memset (&r, 0, sizeof (r)); r.u.longDoubleVal = q;
          if (_gst_oop_to_long_double (vq_back (&r, CDATA_LONG_DOUBLE)) != q) VQ_FAIL ("a #longDouble result of %g", d[i]);
        }
      }
  }
  if (_gst_bool_to_oop (1) != _gst_true_oop || _gst_bool_to_oop (0) != _gst_false_oop || _gst_bool_to_oop (256) != _gst_true_oop || _gst_bool_to_oop (-1) != _gst_true_oop) VQ_FAIL ("_gst_bool_to_oop");
  if (_gst_oop_to_bool (_gst_true_oop) != 1 || _gst_oop_to_bool (_gst_false_oop) || _gst_oop_to_bool (_gst_nil_oop)) VQ_FAIL ("_gst_oop_to_bool");
  for (i = 0; i < 2; i++)
    {
      if (!smalltalk_to_c (i ? _gst_true_oop : _gst_false_oop, &cp, CDATA_BOOLEAN) || (int) cp.u.longVal != i) VQ_FAIL ("passing a Boolean");
      memset (&r, 0, sizeof (r)); r.u.longVal = i * 256;
      if (vq_back (&r, CDATA_BOOLEAN) != (i ? _gst_true_oop : _gst_false_oop)) VQ_FAIL ("a #boolean result");
    }
  for (i = 0; i < 200; i = i * 3 / 2 + 1)
    {
      wchar_t w[201], *q;
      char c[201], *p;
      OOP o;
      for (j = 0; j < i; j++) w[j] = 0x10ffff - j, c[j] = 255 - j % 200;
      w[i] = 0; c[i] = 0;
      o = _gst_unicode_string_new (w);
      q = _gst_to_wide_cstring (o);
      if (wcscmp (w, q)) VQ_FAIL ("wide string of %d through the VM", i);
      if (malloc_usable_size (q) < (i + 1) * sizeof (wchar_t)) VQ_FAIL ("wide string of %d: only %d bytes were allocated", i, (int) malloc_usable_size (q));
      o = _gst_string_new (c);
      p = _gst_to_cstring (o);
      if (strcmp (c, p) || NUM_INDEXABLE_FIELDS (o) != i) VQ_FAIL ("string of %d through the VM", i);
      if (malloc_usable_size (p) < i + 1) VQ_FAIL ("string of %d: only %d bytes were allocated", i, (int) malloc_usable_size (p));
      o = _gst_counted_string_new (c, i / 2);
      if (NUM_INDEXABLE_FIELDS (o) != i / 2 || memcmp (((gst_string) OOP_TO_OBJ (o))->chars, c, i / 2)) VQ_FAIL ("counted string of %d", i / 2);
      o = _gst_byte_array_new (c, i);
      p = _gst_to_byte_array (o);
      if (NUM_INDEXABLE_FIELDS (o) != i || memcmp (c, p, i)) VQ_FAIL ("byte array of %d through the VM", i);
      for (j = 0; j < i; j++) c[j] ^= 0x5a;
      _gst_set_oop_bytes (o, c);
      p = _gst_to_byte_array (o);
      if (NUM_INDEXABLE_FIELDS (o) != i || memcmp (c, p, i)) VQ_FAIL ("byte array of %d set from C", i);
    }
  /* bounds of CObjects on the bytes of an object */
  for (i = 0; i < 20; i++)
    for (j = 0; j < sizeof (T) / sizeof (T[0]); j++)
      {
        char e[400];
        OOP m;
        int sz = _gst_c_type_size (T[j].t), ok = i + sz <= 13;
        sprintf (e, "| c a | a := ByteArray new: 13. c := CObject new storage: a; yourself. c address: 0. ^[c at: %d put: 77 type: %d. (a indexOf: 77) * 1000 + (c at: %d type: %d)] on: Error do: [:x | x return: -1]", i, T[j].t, i, T[j].t);
        m = _gst_eval_expr (e);
        if (!IS_INT (m) || TO_INT (m) != (ok ? (int) (i + 1) * 1000 + 77 : -1)) VQ_FAIL ("#%s at offset %d of 13 bytes: %s", T[j].n, i, vq_pr (m));
      }
}
'''


def confirm(s):
    from common.cdrive import run_c
    return run_c(s, 'cint.c', BODY)
