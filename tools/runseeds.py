#!/usr/bin/env python3
"""Run the check of each seeded bug on a scratch copy of the source.

usage: runseeds.py [--write] [ID ...]

With --write the table of seeded bugs in DESIGN.md is replaced.  The checks
themselves never read /verif/seeded.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')


def one(sid):
    meta = json.load(open(os.path.join(SEEDED, sid, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        shutil.copytree('/repo/src', tmp + '/src')
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory', tmp,
                        os.path.join(SEEDED, sid, 'patch.diff')],
                       check=True, cwd='/')
        r = subprocess.run(
            [sys.executable, 'check.py', meta['property'], '--root',
             tmp + '/src'], cwd=VERIF, capture_output=True, text=True)
    finally:
        shutil.rmtree(tmp)
    rules = sorted(set(re.findall(r' \[([a-z0-9-]+)\] ', r.stdout)))
    return sid, meta, r.returncode, rules


def main():
    ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(
        os.listdir(SEEDED))
    with ThreadPoolExecutor(3) as ex:
        res = list(ex.map(one, ids))
    res.sort(key=lambda x: (x[1]['property'], x[0]))
    rows = ['| property | seeded bug | what it breaks | caught by rule |',
            '|---|---|---|---|']
    for sid, meta, code, rules in res:
        what = meta['what_it_breaks'].replace('|', '/')
        rows.append('| %s | %s | %s | %s |' % (
            meta['property'], sid, what,
            ', '.join(rules) if code == 1 else '**missed** (exit %d)' % code))
        print(meta['property'], sid, code, rules, flush=True)
    if '--write' in sys.argv:
        p = os.path.join(VERIF, 'DESIGN.md')
        s = open(p).read()
        s = re.sub(r'(<!-- seeds -->\n).*?(<!-- end of seeds -->)',
                   lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2),
                   s, flags=re.S)
        open(p, 'w').write(s)


main()
