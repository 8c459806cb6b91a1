"""python3 tools/seed.py ID...   confirms planted changes: for each seeded/<ID>, on /repo itself: demo on the
unchanged tree, apply, build, stable tests, demo, the property's quick check; undone straight afterwards.
   --nocheck / --notest skip parts."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    args = sys.argv[1:]
    flags = [a for a in args if a.startswith('--')]
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(HERE + '/seeded'))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        patch = open(d + '/patch.diff').read()
        nat = any(x in patch for x in ('lib_gnome', '.pyx', '.pxd', 'poly_clockwise', '.c\n'))
        res = {}
        r0 = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
        res['demo0'] = r0.returncode
        if r0.returncode:
            print(r0.stdout[-1500:])
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode:
            print(i, 'DOES NOT APPLY', a.stdout)
            continue
        try:
            if nat:
                b = sh('bash /opt/vp/build.sh')
                res['build'] = b.returncode
            r1 = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
            res['demo1'] = r1.returncode
            if r1.returncode == 0:
                print('demo does not fail:', r1.stdout[-800:])
            elif '-v' in flags or '--v' in flags:
                print(r1.stdout[-500:])
            if '--notest' not in flags:
                sh('bash /opt/vp/test.sh /tmp/seed_out.json')
                o = json.load(open('/tmp/seed_out.json'))
                res['broken_tests'] = sorted(stable - set(o['passed']))[:5]
            if '--nocheck' not in flags:
                t = time.time()
                c = sh('/opt/venv/bin/python -m vp.run %s quick' % meta['property'], cwd=HERE)
                res['check'] = ('caught' if c.returncode == 1 and 'VIOLATION property=' + meta['property'] in c.stdout
                                else 'MISSED (%d)' % c.returncode)
                res['s'] = round(time.time() - t)
                if '--v' in flags:
                    print(c.stdout[:1500])
        finally:
            sh('git -C /repo checkout -- .')
            if nat:
                sh('bash /opt/vp/build.sh')
        ok = res.get('demo0') == 0 and res.get('demo1') not in (0, None) and not res.get('broken_tests')
        print(i, meta['property'], 'OK ' if ok else 'BAD', res, flush=True)


main()
