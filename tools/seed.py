"""plant a bug in a scratch worktree, confirm it (applies, stable tests pass, demo tells it apart) and keep it under seeded/
usage: seed.py SPECFILE [id...]   (spec: python file with a list SEEDS of dicts; run by hand, no check reads its output)"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
DEMO = '''#!/bin/bash
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py" > /dev/null
'''


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable(cwd):
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    sh('. /opt/vp/env.sh; PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -o '
       'junit_family=xunit2 --junitxml=/tmp/seed_junit.xml oranssi/tests' % cwd, cwd, executable='/bin/bash')
    import xml.etree.ElementTree as T
    bad = set()
    ok = 0
    for c in T.parse('/tmp/seed_junit.xml').getroot().iter('testcase'):
        f = any(x.tag in ('failure', 'error') for x in c)
        name = '%s::%s' % (c.get('classname'), c.get('name'))
        if f:
            bad.add(name)
        else:
            ok += 1
    return bad, ok, base


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    sh('git -C /repo worktree remove --force %s; rm -rf /tmp/seedwt; git -C /repo worktree prune' % WT)
    print(sh('git clone -q /repo %s' % WT).stdout)
    for s in spec['SEEDS']:
        if only and s['id'] not in only:
            continue
        sh('git checkout -q -- .', WT)
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as f:
            f.write(s['demo'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        r0 = sh('bash %s/demo.sh' % d, WT)
        bad = None
        for fn, old, new in s['edits']:
            p = os.path.join(WT, 'oranssi', fn)
            t = open(p).read()
            n = t.count(old)
            if n != 1 and not s.get('nth'):
                bad = '%s: %d occurrences of %r' % (fn, n, old[:60])
                break
            if s.get('nth'):
                parts = t.split(old)
                k = s['nth']
                t = old.join(parts[:k]) + new + old.join(parts[k:])
            else:
                t = t.replace(old, new)
            open(p, 'w').write(t)
        if bad:
            print(s['id'], 'NOT APPLIED', bad)
            continue
        r1 = sh('bash %s/demo.sh' % d, WT)
        fails, ok, base = stable(WT)
        good = r0.returncode == 0 and r1.returncode != 0 and ok >= 39
        print(s['id'], s['property'], 'ok' if good else 'BAD', 'demo %d/%d' % (r0.returncode, r1.returncode), 'tests ok %d' % ok,
              sorted(fails)[:4])
        if r0.returncode or 'rror' in r1.stdout and 'Assertion' not in r1.stdout:
            print((r0.stdout if r0.returncode else r1.stdout)[-500:])
        if good:
            with open(d + '/patch.diff', 'w') as f:
                f.write(sh('git diff', WT).stdout)
            with open(d + '/meta.json', 'w') as f:
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
        else:
            sh('rm -rf %s' % d)
    sh('rm -rf /tmp/seedwt')


main()
