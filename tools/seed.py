"""Plant and validate bugs: python3 tools/seed.py SPECS.py [id...]
SPECS.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=st text or
sh text (starting with #!), needs, breaks)].  Each is validated in a private
mount of a copy of /repo: builds, passes the stable tests, demo fails; and the
demo passes on the unpatched tree."""
import json, os, subprocess, sys, shutil, importlib.util
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# exit 0: the property holds in this case; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
timeout 60 ./gst -I gst.im --no-user-files "$D/demo.st" < /dev/null > "$T/out" 2>&1
diff "$T/out" "$D/expected.txt"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def one(sd):
    i = sd['id']
    d = os.path.join(H, 'seeded', i)
    w = '/tmp/seedw/' + i
    if os.path.exists(w):
        shutil.rmtree(w)
    os.makedirs('/tmp/seedw', exist_ok=True)
    sh('cp -a /repo %s' % w)
    try:
        for f, old, new in sd['edits']:
            p = os.path.join(w, f)
            s = open(p, encoding='latin-1').read()
            if s.count(old) != 1:
                return i, 'edit matches %d times in %s' % (s.count(old), f)
            open(p, 'w', encoding='latin-1').write(s.replace(old, new))
        patch = sh('git -C %s diff' % w).stdout
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        open(d + '/patch.diff', 'wb').write(patch)
        json.dump(dict(property=sd['prop'], needs=sd['needs'], what_it_breaks=sd['breaks']), open(d + '/meta.json', 'w'), indent=1)
        if sd['demo'].startswith('#!'):
            open(d + '/demo.sh', 'w').write(sd['demo'])
        else:
            open(d + '/demo.sh', 'w').write(DEMO)
            open(d + '/demo.st', 'w').write(sd['demo'])
            if 'expected' in sd:
                open(d + '/expected.txt', 'w').write(sd['expected'])
            else:
                o = sh('cd /repo && timeout 60 ./gst -I gst.im --no-user-files %s/demo.st < /dev/null' % d).stdout
                open(d + '/expected.txt', 'wb').write(o)
        for n, c in sd.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(c)
        os.chmod(d + '/demo.sh', 0o755)
        r = sh('cd /repo && bash %s/demo.sh' % d, timeout=300)
        if r.returncode != 0:
            return i, 'demo fails on the unpatched tree: %s' % r.stdout[-300:].decode('latin-1')
        inner = 'ip link set lo up; mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh > /tmp/seedw/%s.build 2>&1 && bash /opt/vp/test.sh /tmp/seedw/%s.json > /tmp/seedw/%s.test 2>&1; cd /repo && timeout 250 bash %s/demo.sh > /tmp/seedw/%s.demo 2>&1; echo demo=$?' % (w, i, i, i, d, i)
        r = sh("unshare -rmn bash -c '%s'" % inner, timeout=1500)
        out = r.stdout.decode('latin-1')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        try:
            res = json.load(open('/tmp/seedw/%s.json' % i))
        except Exception:
            return i, 'tests did not run'
        miss = base - set(res['passed'])
        if miss:
            return i, 'INVALID: %d stable tests fail: %s' % (len(miss), sorted(miss)[:5])
        if 'demo=0' in out or 'demo=' not in out:
            return i, 'INVALID: demo does not fail: ' + out[-200:]
        return i, 'OK (%s) %s' % (out.strip()[-8:], open('/tmp/seedw/%s.demo' % i, encoding='latin-1').read()[:160].replace('\n', ' / '))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location('specs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:]
    sds = [s for s in m.SEEDS if not ids or s['id'] in ids]
    with ThreadPoolExecutor(int(os.environ.get('SEEDJ', '4'))) as ex:
        for i, r in ex.map(lambda s: one(s), sds):
            print(i, r, flush=True)
            if not r.startswith('OK'):
                shutil.rmtree(os.path.join(H, 'seeded', i), ignore_errors=True)


main()
