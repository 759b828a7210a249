"""Replays the digest contracts on the compiled code: random messages, split and
aligned at random, against Python's hashlib."""
import hashlib
import os
import random
import subprocess
from common.scratch import sh, BuildError

C = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "md5.h"
#include "%s"
static unsigned char *pool;
static int hexd (int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
int main (void)
{
  static char line[1 << 20];
  pool = malloc (1 << 21);
  while (fgets (line, sizeof line, stdin))
    {
      /* alg whole align chunks... : hex   or   alg 0 repeat chunk  */
      char *p = line, *h = strchr (line, ':'), *e;
      int alg = strtol (p, &p, 10), whole = strtol (p, &p, 10), align = strtol (p, &p, 10), i;
      size_t n = 0;
      unsigned char *buf = pool + 64 + align;
      union { unsigned int u[8]; unsigned char b[32]; } out;
      struct md5_ctx mc; struct sha1_ctx sc;
      memset (out.b, 0, 32);
      memset (pool, 0xee, 64 + align);
      for (h++; h[0] > ' '; h += 2) buf[n++] = hexd (h[0]) << 4 | hexd (h[1]);
      memset (buf + n, 0xee, 64);
      if (whole)
        {
          if (alg) sha1_buffer ((char *) buf, n, out.b); else md5_buffer ((char *) buf, n, out.b);
        }
      else
        {
          if (alg) sha1_init_ctx (&sc); else md5_init_ctx (&mc);
          while (*p != ':')
            {
              size_t k = strtoul (p, &e, 10);
              unsigned long rep = 1;
              p = e;
              if (*p == 'x') rep = strtoul (p + 1, &p, 10);
              while (*p == ' ') p++;
              while (rep--)
                if (alg) sha1_process_bytes (buf, k, &sc); else md5_process_bytes (buf, k, &mc);
              if (*p == '+') { buf += k; p++; while (*p == ' ') p++; }
            }
          if (alg) sha1_finish_ctx (&sc, out.b); else md5_finish_ctx (&mc, out.b);
        }
      for (i = 0; i < (alg ? 20 : 16); i++) printf ("%%02x", out.b[i]);
      putchar ('\n');
    }
  return 0;
}
'''


def cases(large):
    rng = random.Random(11)
    cs = []

    def add(alg, data, whole, align, chunks):
        line = '%d %d %d %s:%s\n' % (alg, whole, align, ''.join('%d + ' % k for k in chunks), data.hex())
        cs.append((line, (hashlib.sha1 if alg else hashlib.md5)(data).hexdigest(),
                   '%s of %d bytes, %s, alignment %d' % (('MD5', 'SHA-1')[alg], len(data), 'in one buffer' if whole else 'in chunks of %s' % chunks[:20], align)))
    for alg in (0, 1):
        for n in list(range(0, 200)) + [255, 256, 1023, 1024, 5000]:
            d = rng.randbytes(n)
            add(alg, d, 1, 0, [])
            add(alg, d, 1, rng.randrange(1, 4), [])
        for _ in range(1500):
            n = rng.choice([rng.randrange(1, 130), rng.randrange(1, 300), rng.randrange(60, 70)])
            ks, left = [], n
            while left:
                k = min(left, rng.choice([rng.randrange(0, 9), rng.randrange(50, 80), rng.randrange(0, 200), 64, 128]))
                ks.append(k)
                left -= k
            add(alg, rng.randbytes(n), 0, rng.choice([0, 0, 1, 2, 3]), ks)
        # lengths whose count of bits or bytes passes 2^32
        m = 1 << 17
        d = rng.randbytes(m)
        for rep in (4096 + 7, 32768 + 3) if large else ():
            h = (hashlib.sha1 if alg else hashlib.md5)()
            for _ in range(rep):
                h.update(d)
            cs.append(('%d 0 0 %dx%d :%s\n' % (alg, m, rep, d.hex()), h.hexdigest(),
                       '%s of %d bytes in chunks of %d' % (('MD5', 'SHA-1')[alg], m * rep, m)))
    return cs


def confirm(s, dirs):
    """dirs: (directory of md5.c, directory of sha1.c)"""
    src = s.path('vqdigest.c')
    open(src, 'w').write(C % os.path.join(dirs[1], 'sha1.h'))
    exe = s.path('vqdigest')
    rc, out = sh(['gcc', '-w', '-O2', '-DHAVE_CONFIG_H', '-I' + dirs[0], '-I' + dirs[1]] + s.inc() +
                 ['-o', exe, src, os.path.join(dirs[0], 'md5.c'), os.path.join(dirs[1], 'sha1.c')])
    if rc:
        raise BuildError('driver: ' + out[-2000:])
    return replay(exe, cases(False)) or replay(exe, [c for c in cases(True) if 'x' in c[0].split(':')[0]])


def replay(exe, cs):
    r = subprocess.run([exe], input=''.join(c[0] for c in cs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
    got = r.stdout.split('\n')
    fails = []
    for (line, want, what), g in zip(cs, got + [''] * len(cs)):
        if g != want and len(fails) < 8:
            fails.append(('%s: %s, should be %s' % (what, g or 'no answer (rc %s)' % r.returncode, want), line[:4000]))
    return fails
