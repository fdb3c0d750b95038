"""Create seeded bugs: add(id, property, file, [(old, new)], needs, what,
demo) writes seeded/<id>/ after confirming it on /repo, which is left as it
was."""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str),
                          capture_output=True, text=True, **kw)


def tests():
    out = '/tmp/seed_tests.json'
    sh('bash /opt/vp/test.sh ' + out)
    d = json.load(open(out))
    os.remove(out)
    return d


BASE = None


def failed(d):
    t = d.get('tests', d)
    return {k for k, v in t.items() if v not in ('passed', 'pass', 'ok')} \
        if isinstance(t, dict) else t


def add(sid, prop, file, pairs, needs, what, demo, checks=None):
    global BASE
    assert not sh(['git', '-C', REPO, 'status', '--short']).stdout.strip()
    d = os.path.join(VERIF, 'seeded', sid)
    path = os.path.join(REPO, 'src/zope/tal', file)
    src = open(path).read()
    new = src
    for a, b in pairs:
        if new.count(a) != 1:
            print(sid, 'NOT UNIQUE', new.count(a), repr(a)[:80])
            return
        new = new.replace(a, b)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    with open(d + '/demo.py', 'w') as f:
        f.write(demo.lstrip('\n'))
    shutil.copy(os.path.join(VERIF, 'tools/seedlib/lib.py'), d + '/lib.py')
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    with open(d + '/meta.json', 'w') as f:
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), f,
                  indent=1)
        f.write('\n')
    r0 = sh(['bash', d + '/demo.sh'], cwd=REPO)
    try:
        with open(path, 'w') as f:
            f.write(new)
        diff = sh(['git', '-C', REPO, 'diff']).stdout
        r1 = sh(['bash', d + '/demo.sh'], cwd=REPO)
        t = sh('bash /opt/vp/test.sh /tmp/seed_tests.json')
        tail = [x for x in (t.stdout + t.stderr).splitlines() if x.strip()]
        b = sh('bash /opt/vp/build.sh').returncode
        cs = []
        for c in checks or [prop]:
            p = sh([sys.executable, 'check.py', c], cwd=VERIF)
            cs.append('%s:%d' % (c, p.returncode))
    finally:
        sh(['git', '-C', REPO, 'checkout', '--', '.'])
    base = sh(['git', '-C', REPO, 'show',
               '39236e6:src/zope/tal/' + file]).stdout.splitlines()
    added = [x for x in diff.splitlines() if x.startswith('-')
             and not x.startswith('---') and x[1:] not in base]
    if added:
        print('   ', sid, 'changes a line that is not in the base:', added)
    with open(d + '/patch.diff', 'w') as f:
        f.write(diff)
    ok = r0.returncode == 0 and r1.returncode != 0 and b == 0 \
        and '221 passed' in tail[-1]
    print(sid, 'ok' if ok else 'BAD', 'demo', r0.returncode, r1.returncode,
          'build', b, tail[-1][:60], ' '.join(cs))
    if not ok:
        print('   ', r0.stdout[-300:], r0.stderr[-600:], '|',
              r1.stdout[-300:])
        shutil.rmtree(d)
    sys.stdout.flush()
