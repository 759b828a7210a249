"""Scratch copies and builds of /repo's current working tree.

Nothing is ever written under /repo.  The generated sources (prims.inl, vm.inl,
match.h, builtins.inl) are regenerated from the current .def files because
build.sh is not run again before a check."""
import atexit
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/lib/llvm-18/bin/clang'
if not os.path.exists(CLANG):
    CLANG = '/usr/bin/clang-18'


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    kw.setdefault('text', True)
    r = subprocess.run(cmd, **kw)
    return r.returncode, r.stdout


class Scratch:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.dir = tempfile.mkdtemp(prefix='gstv-', dir=os.environ.get('TMPDIR') or '/tmp')
        self.owner = os.getpid()
        atexit.register(self.cleanup)
        self._src = False
        self._gen = False
        self._libs = False
        self._gst = None

    def cleanup(self):
        if os.getpid() == self.owner:
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    # -- sources
    def sources(self):
        if self._src:
            return
        keep = ('c', 'h', 'inl', 'def', 'y', 'l', 'gperf', 'in', 'stamp')
        for sub in ('libgst', 'lib-src', 'snprintfv', 'lightning'):
            src = os.path.join(self.repo, sub)
            for root, dirs, fs in os.walk(src):
                dirs[:] = [d for d in dirs if not d.startswith('.')]
                dst = self.path(os.path.relpath(root, self.repo))
                os.makedirs(dst, exist_ok=True)
                for f in fs:
                    if f.rsplit('.', 1)[-1] in keep:
                        shutil.copy(os.path.join(root, f), os.path.join(dst, f))
        for f in ('main.c', 'config.h'):
            p = os.path.join(self.repo, f)
            if os.path.exists(p):
                shutil.copy(p, self.path(f))
        if not os.path.exists(self.path('config.h')):
            shutil.copy(os.path.join(HERE, 'support', 'config.h'), self.path('config.h'))
        # headers generated at configure/build time, if the tree lacks them
        sup = os.path.join(HERE, 'support')
        for root, _, fs in os.walk(sup):
            rel = os.path.relpath(root, sup)
            for f in fs:
                t = self.path(rel, f)
                if not os.path.exists(t):
                    os.makedirs(os.path.dirname(t), exist_ok=True)
                    shutil.copy(os.path.join(root, f), t)
        self._src = True

    def inc(self):
        d = self.dir
        return ['-DHAVE_CONFIG_H', '-DDEFAULT_EXECUTABLE="%s/gst"' % d, '-DCMD_XZIP="zip"', '-DCMD_INSTALL="install"',
                '-DCMD_LN_S="ln -s"', '-I' + d + '/libgst', '-I' + d, '-I' + d + '/lib-src', '-I' + d + '/snprintfv',
                '-I' + d + '/lightning']

    def cc(self, jobs, opt=('-O1',)):
        def one(j):
            src, obj = j
            rc, out = sh(['gcc', '-w', '-g0'] + list(opt) + ['-fno-gcse', '-fno-strict-aliasing', '-std=gnu89'
                          if False else '-fno-strict-aliasing'] + self.inc() +
                         ['-c', src, '-o', obj], cwd=os.path.dirname(src))
            return rc, out, src
        with ThreadPoolExecutor(8) as ex:
            for rc, out, src in ex.map(one, jobs):
                if rc:
                    raise BuildError('%s: %s' % (src, out[-2000:]))

    LIBSRC = 'getopt getopt1 md5 avltrees rbtrees lock strspell regex socketx pointer-set'.split()
    SNPV = 'custom filament format mem printf stream'.split()
    GST = ('gstpub files gst-parse lex str tree byte comp sym dict oop opt save cint heap input sysdep callin '
           'xlat mpz print alloc re interp real sockets events').split()

    def libs(self):
        if self._libs:
            return
        self.sources()
        jobs = [(self.path('lib-src', f + '.c'), self.path('lib-src', f + '.o')) for f in self.LIBSRC]
        jobs += [(self.path('snprintfv/snprintfv', f + '.c'), self.path('snprintfv/snprintfv', f + '.o')) for f in self.SNPV]
        self.cc(jobs)
        self.libobjs = [o for _, o in jobs]
        self._libs = True

    def generate(self):
        """prims.inl, vm.inl, match.h, builtins.inl from the current tree."""
        if self._gen:
            return
        self.libs()
        L = self.path('libgst')
        for f in ('prims.inl', 'vm.inl', 'match.h'):
            if os.path.exists(os.path.join(L, f)):
                os.unlink(os.path.join(L, f))
        for p in ('genbc-decl', 'genbc-impl', 'genpr-parse', 'genvm-parse'):
            rc, out = sh(['bison', '-d', '-o', p + '.c', p + '.y'], cwd=L)
            if rc:
                raise BuildError(out)
        for p in ('genbc-scan', 'genpr-scan', 'genvm-scan'):
            rc, out = sh(['flex', '-o', p + '.c', p + '.l'], cwd=L)
            if rc:
                raise BuildError(out)
        names = ['genbc-decl', 'genbc-impl', 'genbc-scan', 'genbc', 'genpr-parse', 'genpr-scan', 'genvm-parse', 'genvm-scan']
        self.cc([(os.path.join(L, n + '.c'), os.path.join(L, n + '.o')) for n in names], opt=('-O0',))
        for exe, objs in (('genprims', ['genpr-parse', 'genpr-scan']), ('genvm', ['genvm-parse', 'genvm-scan']),
                          ('genbc', ['genbc-decl', 'genbc-impl', 'genbc-scan', 'genbc'])):
            rc, out = sh(['gcc', '-o', os.path.join(L, exe)] + [os.path.join(L, o + '.o') for o in objs] +
                         self.libobjs + ['-lm', '-lpthread'])
            if rc:
                raise BuildError(out)
        rc, out = sh('./genprims < prims.def > prims.inl', shell=True, cwd=L)
        rc2, out2 = sh("./genvm < vm.def | awk '{ /^#/ && gsub(/__oline__/,NR+1); print }' > vm.inl", shell=True, cwd=L)
        rc3, out3 = sh('./genbc byte.def byte.c opt.c xlat.c > match.h', shell=True, cwd=L)
        if rc or rc2 or rc3:
            raise BuildError(out + out2 + out3)
        self._gen = True

    def ir(self, *files, extra=()):
        """Compile libgst sources to LLVM IR; returns {file: path}."""
        self.generate()
        out = {}

        def one(f):
            src = f if os.path.isabs(f) else self.path('libgst', f)
            ll = self.path(os.path.basename(f).replace('.c', '') + '.ll')
            rc, o = sh([CLANG, '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
                        '-w'] + self.inc() + list(extra) + [src, '-o', ll], cwd=os.path.dirname(src))
            return f, ll, rc, o
        with ThreadPoolExecutor(8) as ex:
            for f, ll, rc, o in ex.map(one, files):
                if rc:
                    raise BuildError('clang %s: %s' % (f, o[-2000:]))
                out[f] = ll
        return out

    def build_gst(self):
        """The real VM and an image from the current tree; returns argv prefix."""
        if self._gst:
            return self._gst
        self.generate()
        jobs = [(self.path('libgst', f + '.c'), self.path('libgst', f + '.o')) for f in self.GST]
        jobs.sort(key=lambda j: 'interp' not in j[0])
        jobs.append((self.path('main.c'), self.path('main.o')))
        self.cc(jobs, opt=('-O2',))
        objs = [o for _, o in jobs]
        exe = self.path('gst')
        rc, out = sh(['gcc', '-rdynamic', '-o', exe] + objs + self.libobjs +
                     ['-lsigsegv', '-lffi', '-lreadline', '-lltdl', '-lgmp', '-ldl', '-lpthread', '-lm'])
        if rc:
            raise BuildError(out[-3000:])
        self.exe = exe
        img = self.path('gst.im')
        empty = self.path('empty.st')
        open(empty, 'w').write('')
        env = dict(os.environ, SMALLTALK_KERNEL=os.path.join(self.repo, 'kernel'), HOME=self.dir, LANG='C')
        rc, out = sh([exe, '-iQ', '--no-user-files', '-I', img, '--kernel-directory', os.path.join(self.repo, 'kernel'), empty],
                     env=env, cwd=self.dir, timeout=120)
        if not os.path.exists(img):
            raise BuildError('image: rc %s %s' % (rc, out[-3000:]))
        self._gst = [exe, '-Q', '--no-user-files', '-I', img, '--kernel-directory', os.path.join(self.repo, 'kernel')]
        return self._gst

    def run_st(self, text, timeout=60, name='t.st'):
        """Run Smalltalk source on the real VM; -> (rc, output)"""
        argv = self.build_gst()
        f = self.path(name)
        open(f, 'w', encoding='utf-8').write(text)
        env = dict(os.environ, HOME=self.dir, LANG='C', SMALLTALK_KERNEL=os.path.join(self.repo, 'kernel'))
        try:
            r = subprocess.run(argv + [f], cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode('latin-1')
        return r.returncode, r.stdout.decode('latin-1')
