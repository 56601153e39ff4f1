"""Development aid: turns bug descriptions (a Python file with a list B of dicts) into seeded/<id>/ after confirming each in a scratch copy.
usage: plant.py BUGS.py [id...]   (writes seeded/<id>/ when valid; prints which quick check catches it)"""
import functools
import importlib.util
import json
import os
import shutil
import subprocess
import sys

print = functools.partial(print, flush=True)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant_w'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['cp', '-a', os.environ.get('PLANT_FROM', '/repo'), W])
    sh('git checkout -q -- .', W)


def tests():
    out = '/tmp/plant_o.xml'
    sh(f'. /opt/vp/env.sh; export PYTHONPATH=/opt/vp/plugins; {PY} -m pytest -p seed_numpy tests -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={out}', W)
    rc, o = sh(f'{PY} /opt/vp/results.py /tmp/plant_o.json junit:{out}')
    got = json.load(open('/tmp/plant_o.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    return set(base['stable']) - set(got['passed'])


def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    for b in m.B:
        if only and b['id'] not in only:
            continue
        fresh()
        p = os.path.join(W, b['file'])
        s = open(p).read()
        if s.count(b['old']) != b.get('count', 1):
            print(b['id'], 'INVALID: old text occurs', s.count(b['old']))
            continue
        demo = '/tmp/plant_demo.py'
        open(demo, 'w').write(b['demo'])
        rc0, o0 = sh(f'ulimit -v 8000000; timeout 60 {PY} {demo}', W)
        open(p, 'w').write(s.replace(b['old'], b['new']))
        rc1, o1 = sh(f'ulimit -v 8000000; timeout 60 {PY} {demo}', W)
        miss = tests()
        if rc0 or not rc1 or miss:
            print(b['id'], 'INVALID: demo', rc0, rc1, 'missing', miss, o0[-300:] if rc0 else '', o1[-100:])
            continue
        d = os.path.join(HERE, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        sh(f'git diff > {d}/patch.diff', W)
        open(d + '/demo.py', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        rc, o = sh(f'python3-vt run.py {b["prop"]} quick', HERE, {'VERIF_REPO': W, 'VERIF_NOEVIDENCE': '1'})
        lines = [x for x in o.splitlines() if x.startswith(('VIOLATION', 'ERROR'))]
        print(b['id'], b['prop'], 'demo says:', (o1.strip().splitlines() or ['killed'])[-1][:80], '| check rc', rc, (lines or [''])[0][:140])
    shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    main()
