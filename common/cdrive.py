"""Replaying contracts on the real C code: a small driver is compiled with one
libgst source included (so that its static functions can be called) and linked
with the rest of libgst as built from the current tree."""
import os, subprocess
from .scratch import sh, BuildError

MAIN = r'''
static int vq_fails;
#define VQ_FAIL(...) do { if (vq_fails++ < 20) { printf ("FAIL: " __VA_ARGS__); printf ("\n"); } } while (0)
static void vq_body (void);
int main (int argc, char **argv)
{
  gst_set_var (GST_VERBOSITY, 0);
  gst_set_executable_path (argv[0]);
  if (gst_initialize (argv[1], argv[2], GST_NO_TTY | GST_IGNORE_USER_FILES)) return 3;
  vq_body ();
  fflush (stdout);
  printf ("DONE %d\n", vq_fails);
  fflush (stdout);
  _exit (0);
}
'''


def run_c(s, include, body, timeout=60, vm=True, name='vqdrv', extra=()):
    """-> list of (description, replay)"""
    s.build_gst()
    src = s.path('libgst', name + '.c')
    text = '#include "%s"\n#include <stdio.h>\n#include <unistd.h>\n#include <stdlib.h>\n#include <string.h>\n' % include + MAIN + body
    open(src, 'w').write(text)
    base = os.path.basename(include)[:-2] if include.endswith('.c') else None
    objs = [s.path('libgst', f + '.o') for f in s.GST if f != base]
    exe = s.path(name)
    rc, out = sh(['gcc', '-w', '-O2', '-fno-gcse', '-fno-strict-aliasing', '-rdynamic'] + list(extra) + s.inc() + ['-o', exe, src] + objs + s.libobjs +
                 ['-lsigsegv', '-lffi', '-lreadline', '-lltdl', '-lgmp', '-ldl', '-lpthread', '-lm'], cwd=s.path('libgst'))
    if rc:
        raise BuildError('driver: ' + out[-2000:])
    env = dict(os.environ, HOME=s.dir, LANG='C')
    try:
        r = subprocess.run([exe, os.path.join(s.repo, 'kernel'), s.path('gst.im')], cwd=s.dir, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
        rc, out = r.returncode, r.stdout.decode('latin-1')
    except subprocess.TimeoutExpired as e:
        rc, out = 'timeout', (e.stdout or b'').decode('latin-1')
    fails = [l for l in out.split('\n') if l.startswith('FAIL: ')]
    if not fails and 'DONE ' not in out:
        fails = ['the driver stopped (rc %s): %s' % (rc, out[-400:])]
    return [(f, 'driver (includes %s):\n%s' % (include, body)) for f in fails[:10]]
