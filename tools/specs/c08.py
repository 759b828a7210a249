DEMO = '''#!/bin/bash
# exit 0: the property holds in this case; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -w -O2 -DHAVE_CONFIG_H -I packages/digest -I . -I lib-src -o "$T/demo" "$D/demo.c" packages/digest/md5.c packages/digest/sha1.c || exit 2
timeout 200 "$T/demo" > "$T/out" || exit 1
diff "$T/out" "$D/expected.txt"
'''
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "md5.h"
#include "sha1.h"
static void put (unsigned char *p, int n) { while (n--) printf ("%02x", *p++); putchar ('\\n'); }
static unsigned char out[32] __attribute__ ((aligned (8)));
'''
import hashlib


def spec(id, f, edits, body, expected, needs, breaks):
    return {'id': id, 'prop': 'C08', 'edits': [(f, a, b) for a, b in edits], 'demo': DEMO, 'needs': needs, 'breaks': breaks,
            'files': {'demo.c': PRE + body, 'expected.txt': expected}}


M, S = 'packages/digest/md5.c', 'packages/digest/sha1.c'
x = lambda n: bytes((i * 7 + 3) & 255 for i in range(n))
FILL = 'static unsigned char in[1 << 20];\nint main (void)\n{\n  int i;\n  for (i = 0; i < sizeof in; i++) in[i] = i * 7 + 3;\n'
big = hashlib.md5()
for _ in range(600):
    big.update(x(1 << 20))
SEEDS = [
spec('c08-md5-pad56', M, [('pad = bytes >= 56 ? 64 + 56 - bytes : 56 - bytes;', 'pad = bytes > 56 ? 64 + 56 - bytes : 56 - bytes;')],
     FILL + '  md5_buffer (in, 56, out); put (out, 16);\n  md5_buffer (in, 120, out); put (out, 16);\n  return 0;\n}\n',
     hashlib.md5(x(56)).hexdigest() + '\n' + hashlib.md5(x(120)).hexdigest() + '\n',
     'a message whose length is 56 modulo 64', 'The padding of such a message lacks its one bit.'),
spec('c08-md5-long', M, [('''SWAP ((ctx->total[1] << 3) |
                                                        (ctx->total[0] >> 29));''', '''SWAP (ctx->total[1] << 3);''')],
     FILL + '  struct md5_ctx c;\n  md5_init_ctx (&c);\n  for (i = 0; i < 600; i++) md5_process_bytes (in, sizeof in, &c);\n  md5_finish_ctx (&c, out); put (out, 16);\n  return 0;\n}\n',
     big.hexdigest() + '\n', 'a message of 512 megabytes or more', 'The length in bits loses the bits above 2^32.'),
spec('c08-sha1-two-blocks', S, [('''	  sha1_process_block (ctx->buffer, ctx->buflen & ~63, ctx);

	  ctx->buflen &= 63;
	  /* The regions in the following copy operation cannot overlap.  */
	  memcpy (ctx->buffer,
		  &((char *) ctx->buffer)[(left_over + add) & ~63],
		  ctx->buflen);
''', '''	  sha1_process_block (ctx->buffer, 64, ctx);

	  /* Keep what is left for the next call.  */
	  ctx->buflen &= 63;
	  memcpy (ctx->buffer, &ctx->buffer[16], ctx->buflen);
''')],
     FILL + '  struct sha1_ctx c;\n  sha1_init_ctx (&c);\n  sha1_process_bytes (in, 50, &c);\n  sha1_process_bytes (in + 50, 150, &c);\n  sha1_finish_ctx (&c, out); put (out, 20);\n  return 0;\n}\n',
     hashlib.sha1(x(200)).hexdigest() + '\n', 'a partial block in the buffer, then an update long enough to fill both blocks of the buffer',
     'The second block of the buffer is dropped.'),
spec('c08-sha1-unaligned', S, [('''	while (len > 64)
	  {''', '''	while (len >= 64)
	  {'''), ('''	  memcpy (ctx->buffer, &ctx->buffer[16], left_over);
	}
      ctx->buflen = left_over;''', '''	  memcpy (ctx->buffer, &ctx->buffer[16], left_over);
	}
      ctx->buflen += len;''')],
     FILL + '  struct sha1_ctx c;\n  for (i = 0; i < 300; i += 13)\n    {\n      sha1_init_ctx (&c);\n      sha1_process_bytes (in + 1, i, &c);\n      sha1_process_bytes (in + 1 + i, 300 - i, &c);\n      sha1_finish_ctx (&c, out); put (out, 20);\n    }\n  return 0;\n}\n',
     (hashlib.sha1(x(301)[1:]).hexdigest() + '\n') * 24, '', ''),
spec('c08-md5-full-buffer', M, [('''      if (left_over + add > 64)
        {''', '''      if (left_over + add >= 64)
        {'''), ('''          ctx->buflen = (left_over + add) & 63;
''', '''          ctx->buflen = left_over + add - 64;
''')],
     FILL + '  struct md5_ctx c;\n  md5_init_ctx (&c);\n  md5_process_bytes (in, 60, &c);\n  md5_process_bytes (in + 60, 68, &c);\n  md5_process_bytes (in + 128, 1, &c);\n  md5_finish_ctx (&c, out); put (out, 16);\n  return 0;\n}\n',
     hashlib.md5(x(129)).hexdigest() + '\n', 'updates that fill both blocks of the buffer exactly', 'The buffer is thought to hold one more block that was hashed already.'),
]
SEEDS = [s for s in SEEDS if s['needs']]
