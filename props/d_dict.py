"""Concrete replay for C07: VM dictionaries against an association list."""
BODY = r'''
static OOP vq_keys[4000], vq_vals[4000];
static int vq_n;
static OOP vq_get (OOP k)
{
  int i;
  for (i = 0; i < vq_n; i++) if (vq_keys[i] == k) return vq_vals[i];
  return NULL;
}
static OOP vq_set (OOP k, OOP v)
{
  int i;
  for (i = 0; i < vq_n; i++) if (vq_keys[i] == k) { OOP o = vq_vals[i]; vq_vals[i] = v; return o; }
  vq_keys[vq_n] = k; vq_vals[vq_n++] = v;
  return NULL;
}
static OOP vq_key (unsigned r) { return vq_pool[r % 997]; }

static void vq_ident (int seed, int size, int n)
{
  int i, j;
  OOP d;
  unsigned r = seed;
  vq_n = 0;
  d = _gst_identity_dictionary_new (_gst_identity_dictionary_class, size);
  _gst_register_oop (d);
  for (i = 0; i < n; i++)
    {
      OOP k, v, old, mine;
      r = r * 1103515245u + 12345u;
      k = vq_key (r >> 16);
      v = FROM_INT (i + 1);
      if (i % 5 == 4 && vq_get (k) && IS_INT (vq_get (k)))
        {
          int o = _gst_identity_dictionary_at_inc (d, k, 7);
          if (o != TO_INT (vq_get (k))) VQ_FAIL ("identity dictionary at_inc answered %d", o);
          vq_set (k, FROM_INT (TO_INT (vq_get (k)) + 7));
        }
      else
        {
          old = _gst_identity_dictionary_at_put (d, k, v);
          mine = vq_set (k, v);
          if (mine ? old != mine : old != _gst_nil_oop) VQ_FAIL ("identity dictionary at_put answered a wrong old value (seed %d step %d)", seed, i);
        }
      for (j = 0; j < 997; j += 1 + (i % 7))
        {
          OOP x = vq_key (j), w = vq_get (x), g;
          g = _gst_identity_dictionary_at (d, x);
          if (g != (w ? w : _gst_nil_oop)) { VQ_FAIL ("identity dictionary lost or invented an entry (seed %d size %d step %d key %d)", seed, size, i, j); return; }
          if ((identity_dictionary_find_key (d, x) >= 0) != (w != NULL)) { VQ_FAIL ("identity_dictionary_find_key (seed %d step %d)", seed, i); return; }
        }
      if (TO_INT (((gst_identity_dictionary) OOP_TO_OBJ (d))->tally) != vq_n) { VQ_FAIL ("identity dictionary tally %ld for %d keys (seed %d step %d)", (long) TO_INT (((gst_identity_dictionary) OOP_TO_OBJ (d))->tally), vq_n, seed, i); return; }
    }
  _gst_unregister_oop (d);
}

static void vq_dict (int seed, int size, int n, int binding)
{
  int i, j;
  OOP d;
  unsigned r = seed;
  vq_n = 0;
  d = binding ? _gst_binding_dictionary_new (size, _gst_smalltalk_dictionary) : _gst_dictionary_new (size);
  _gst_register_oop (d);
  for (i = 0; i < n; i++)
    {
      OOP k, v, a;
      r = r * 1103515245u + 12345u;
      k = vq_key (r >> 16);
      v = FROM_INT (i + 1);
      a = DICTIONARY_AT_PUT (d, k, v);
      vq_set (k, v);
      if (dictionary_association_at (d, k) != a) VQ_FAIL ("dictionary_add answers another association (seed %d step %d)", seed, i);
      for (j = 0; j < 997; j += 1 + (i % 7))
        {
          OOP x = vq_key (j), w = vq_get (x), g;
          g = dictionary_at (d, x);
          if (g != (w ? w : _gst_nil_oop)) { VQ_FAIL ("dictionary lost or invented an entry (seed %d size %d step %d key %d)", seed, size, i, j); return; }
        }
      if (TO_INT (((gst_dictionary) OOP_TO_OBJ (d))->tally) != vq_n) { VQ_FAIL ("dictionary tally (seed %d step %d)", seed, i); return; }
      if (binding && ((gst_binding_dictionary) OOP_TO_OBJ (d))->environment != _gst_smalltalk_dictionary) { VQ_FAIL ("binding dictionary environment (seed %d step %d)", seed, i); return; }
    }
  _gst_unregister_oop (d);
}

static OOP vq_pool[997];
static void vq_body (void)
{
  int i, s;
  for (i = 0; i < 997; i++)
    {
      char b[20];
      sprintf (b, "vqKey%d", i * 31);
      vq_pool[i] = _gst_intern_string (b);
    }
  for (i = 1; i < 200; i++)
    {
      int n = new_num_fields (i);
      if (n <= i || (n & (n - 1))) VQ_FAIL ("new_num_fields (%d) = %d", i, n);
    }
  for (s = 1; s <= 6; s++)
    {
      vq_ident (s, s == 1 ? 6 : 32, s < 4 ? 60 : 400);
      vq_dict (s, s == 2 ? 32 : 8, s < 4 ? 60 : 400, s & 1);
    }
}
'''
BODY = 'static OOP vq_pool[];\n' + BODY

# symbols, through the functions of sym.c
SYM = r'''
static void vq_sym (const char *a, int la, const char *b, int lb, const char *what)
{
  OOP x = intern_counted_string (a, la), y = intern_counted_string (b, lb), z = intern_counted_string (a, la), w = intern_counted_string (b, lb);
  int eq = la == lb && memcmp (a, b, la) == 0;
  if ((x == y) != eq) VQ_FAIL ("%s: strings of %d and %d characters give %s symbol", what, la, lb, eq ? "a different" : "the same");
  if (x != z || y != w) VQ_FAIL ("%s: interning again gives another symbol", what);
  if (_gst_string_oop_len (x) != la || memcmp (((gst_symbol) OOP_TO_OBJ (x))->symString, a, la)) VQ_FAIL ("%s: the symbol has other characters", what);
  if (OOP_CLASS (x) != _gst_symbol_class) VQ_FAIL ("%s: not a Symbol", what);
  if (!IS_OOP_READONLY (x)) VQ_FAIL ("%s: symbol not read-only", what);
  {
    OOP str = _gst_counted_string_new (a, la);
    if (_gst_intern_string_oop (str) != x) VQ_FAIL ("%s: asSymbol of the String gives another symbol (length %d)", what, la);
  }
}
static void vq_body (void)
{
  char a[400], b[400];
  int i, j, n;
  static const int lens[] = { 0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 31, 64, 98, 99, 100, 101, 102, 128, 200, 300 };
  for (i = 0; i < 20; i++)
    {
      n = lens[i];
      for (j = 0; j < 400; j++) a[j] = b[j] = 'a' + j % 26;
      vq_sym (a, n, b, n, "equal");
      vq_sym (a, n, b, n + 1, "prefix");
      vq_sym (a, n + 8, b, n, "prefix");
      for (j = 0; j < n; j += 1 + n / 16)
        {
          b[j] ^= 1; vq_sym (a, n, b, n, "one character"); b[j] ^= 1;
          a[j] = 0; b[j] = 0; b[n - 1] ^= 3; vq_sym (a, n, b, n, "NUL"); b[n - 1] ^= 3;
          a[j] = (char) 0xe9; b[j] = (char) 0xe8; vq_sym (a, n, b, n, "high");
          a[j] = b[j] = 'a' + j % 26;
        }
    }
  /* equal and different symbols in crowded chains */
  {
    static OOP s[6000];
    for (i = 0; i < 6000; i++) { n = sprintf (a, "vq%dx", i); s[i] = _gst_intern_string (a); }
    for (i = 0; i < 6000; i++)
      {
        n = sprintf (a, "vq%dx", i);
        if (_gst_intern_string (a) != s[i]) VQ_FAIL ("symbol vq%dx is not unique", i);
        if (i && s[i] == s[i - 1]) VQ_FAIL ("symbols vq%dx and vq%dx are the same", i, i - 1);
        if (_gst_string_oop_len (s[i]) != n || memcmp (((gst_symbol) OOP_TO_OBJ (s[i]))->symString, a, n)) VQ_FAIL ("symbol vq%dx has other characters", i);
      }
  }
}
'''


def confirm(s):
    from common.cdrive import run_c
    return run_c(s, 'dict.c', BODY, name='vqdict') + run_c(s, 'sym.c', SYM, name='vqsym')
