#!/usr/bin/env python3
"""Confirm planted bugs and what the checks say about them (nothing registered runs this).

  tools/seeds.py demo [ID...]    each demonstration: 0 without the change, nonzero with it
  tools/seeds.py tests [ID...]   the project's stable tests with the change
  tools/seeds.py check [ID...]   the quick check of the property, with the change
"""
import json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


class Applied:
    def __init__(self, sid):
        self.patch = os.path.join(SEEDED, sid, 'patch.diff')

    def __enter__(self):
        assert not sh(['git', '-C', '/repo', 'status', '--porcelain']).stdout.strip(), '/repo is not clean'
        r = sh(['git', '-C', '/repo', 'apply', self.patch])
        assert r.returncode == 0, r.stdout

    def __exit__(self, *a):
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])


def main():
    mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(SEEDED))
    for sid in ids:
        meta = json.load(open(os.path.join(SEEDED, sid, 'meta.json')))
        if mode == 'demo':
            demo = os.path.join(SEEDED, sid, 'demo.sh')
            a = sh(['bash', demo], cwd='/repo')
            with Applied(sid):
                b = sh(['bash', demo], cwd='/repo')
            ok = a.returncode == 0 and b.returncode != 0
            print(sid, 'ok' if ok else 'BAD', a.returncode, b.returncode, flush=True)
            if not ok:
                print(a.stdout[-1500:], '-----\n', b.stdout[-1500:])
            else:
                print('   ', [l for l in b.stdout.splitlines() if 'panicked' in l or 'left' in l or 'error' in l or 'rror' in l][:2])
        elif mode == 'tests':
            with Applied(sid):
                b = sh(['bash', '/opt/vp/build.sh'])
                t = sh(['bash', '/opt/vp/test.sh', '/tmp/seed_tests.json'])
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            passed = set(json.load(open('/tmp/seed_tests.json'))['passed'])
            print(sid, 'build', b.returncode, 'tests', 'ok' if stable <= passed else 'BROKEN %s' % sorted(stable - passed)[:3], flush=True)
        else:
            with Applied(sid):
                r = sh(['python3', os.path.join(VERIF, 'check.py'), meta['property'], '--tier', 'quick', '--seed', '1'], cwd=VERIF)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(sid, meta['property'], 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, v[:1], flush=True)


main()
