#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy and keep them below /verif/seeded.

usage: seed.py SPEC.py [ID...]     SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
Development tool; no check uses it.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seed_w'
ENV = dict(os.environ, PYTHONPATH=W + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', HOME='/root')


def sh(cmd, cwd=W, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)


def tests():
    sh('rm -rf /tmp/seed_rep; mkdir -p /tmp/seed_rep')
    o = sh('MPLCONFIGDIR=/tmp/seed_rep/mpl /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors '
           '--doctest-modules -o junit_family=xunit2 --junitxml=/tmp/seed_rep/junit.xml src')
    sh('/usr/bin/python3 /opt/vp/results.py /tmp/seed_rep/o.json junit:/tmp/seed_rep/junit.xml')
    got = json.load(open('/tmp/seed_rep/o.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in stable if t not in got['passed']], o.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        shutil.rmtree(W, ignore_errors=True)
        shutil.copytree('/repo', W, symlinks=True)
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as fh:
            fh.write('import warnings\nwarnings.simplefilter("ignore")\nimport numpy as np\nimport nvector as nv\n' + s['demo'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as fh:
            fh.write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        clean = sh('bash %s/demo.sh' % d)
        ok = True
        for f, old, new in s['edits']:
            p = '%s/src/nvector/%s.py' % (W, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT does not apply once:', t.count(old), old[:60])
                ok = False
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            shutil.rmtree(d)
            continue
        diff = sh('git diff').stdout
        with open(d + '/patch.diff', 'w') as fh:
            fh.write(diff)
        bad = sh('bash %s/demo.sh' % d)
        failed, _o = tests()
        with open(d + '/meta.json', 'w') as fh:
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), fh, indent=1)
            fh.write('\n')
        r = subprocess.run(['python3', 'check.py', s['property']], cwd=V, env=dict(os.environ, NVSTAT_ROOT=W + '/src'), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        verdict = 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % s['property'] in r.stdout else 'MISSED(rc=%d)' % r.returncode
        valid = clean.returncode == 0 and bad.returncode != 0 and not failed
        print('%-28s %s %s  clean=%d patched=%d failed=%s' % (s['id'], 'valid' if valid else 'INVALID', verdict, clean.returncode, bad.returncode, failed[:3]))
        if not valid:
            print(clean.stdout[-600:], bad.stdout[-300:])
            shutil.rmtree(d)
        else:
            for l in r.stdout.splitlines():
                if l.startswith('  ') or l.startswith('UNDEC'):
                    print('     ', l[:260])
                    if verdict == 'CAUGHT':
                        break
    shutil.rmtree(W, ignore_errors=True)


main()
