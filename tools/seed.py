#!/usr/bin/env python3
"""
Try planted bugs: seed.py ID...  (all if none given)

In a scratch copy of /repo: the demonstration must pass before and fail after
the patch; with --checks the check of the bug's property must then report it.
Not used by any check.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def build(d):
    subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'], cwd=d, check=True, capture_output=True)


def demo(src, d):
    with tempfile.TemporaryDirectory() as t:
        for f in os.listdir(src):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                s = f'{src}/{f}'
                (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, f'{t}/{f}')
        r = subprocess.run(['bash', f'{t}/demo.sh'], cwd=d, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-400:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--checks', action='store_true')
    ap.add_argument('--also', default='')
    ap.add_argument('--tests', action='store_true')
    a = ap.parse_args()
    for i in a.ids or sorted(os.listdir(f'{HERE}/seeded')):
        src = f'{HERE}/seeded/{i}'
        if not os.path.isdir(src):
            continue
        meta = json.load(open(f'{src}/meta.json'))
        d = tempfile.mkdtemp(prefix='seed')
        try:
            subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
            build(d)
            r0, o0 = demo(src, d)
            subprocess.run(['git', 'apply', f'{src}/patch.diff'], cwd=d, check=True)
            build(d)
            r1, o1 = demo(src, d)
            line = f'{i} {meta["property"]}: demo {r0}->{r1} ' + ('ok' if r0 == 0 and r1 != 0 else 'BAD ' + o0 + o1)
            print(line, '|', o1.strip().splitlines()[-1] if o1.strip() else '', flush=True)
            if a.checks:
                for c in [meta['property']] + [x for x in a.also.split(',') if x]:
                    r = subprocess.run([f'{HERE}/bin/check', c], env={**os.environ, 'VT_REPO': d, 'VT_OUT': d, 'VERIF_SEED': '1',
                                                                      'VERIF_TIER': 'quick'},
                                       capture_output=True, text=True)
                    cl = sorted(set(re.findall(r'clauses=(\S+)', r.stdout)))
                    print('   ', c, 'CAUGHT' if r.returncode == 1 and f'VIOLATION property={c} ' in r.stdout else f'MISSED rc={r.returncode}',
                          cl[:4], r.stderr[-300:] if r.returncode > 1 else '', flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    sys.exit(main())
