"""plant(id, ...): make /verif/seeded/<id> from a textual edit, confirm it in a
scratch copy of /repo (tests pass, demo fails with it and passes without)."""
import json
import os
import shutil
import subprocess
import sys

BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(id, prop, edits, demo, needs, breaks):
    """edits: [(file, old, new)]; demo: python code, exits non-zero when broken"""
    d = f'/verif/seeded/{id}'
    w = f'/tmp/plant_{id}'
    shutil.rmtree(w, ignore_errors=True)
    sh(f'cp -a /repo {w}')
    try:
        for f, old, new in edits:
            p = f'{w}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'EDIT NOT UNIQUE', s.count(old), repr(old[:60]))
                return False
            open(p, 'w').write(s.replace(old, new))
        diff = sh(f'cd {w} && git diff').stdout
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.py', 'w').write(demo)
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = repository root\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
        a = sh(f'cd /repo && bash {d}/demo.sh')
        b = sh(f'cd {w} && bash {d}/demo.sh')
        t = sh(f'cd {w} && PYTHONPATH={w} PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -5')
        ok_t = ' passed' in t.stdout and 'failed' not in t.stdout and 'error' not in t.stdout
        ok = a.returncode == 0 and b.returncode != 0 and ok_t
        print(id, 'OK' if ok else 'BAD', 'clean', a.returncode, 'patched', b.returncode, 'tests', ok_t)
        if not ok:
            print(a.stdout[-300:], a.stderr[-600:], '|', b.stdout[-300:], t.stdout[-600:])
            shutil.rmtree(d, ignore_errors=True)
        return ok
    finally:
        shutil.rmtree(w, ignore_errors=True)


def catch(id):
    """run this property's check with the patch applied to /repo"""
    d = f'/verif/seeded/{id}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    r = sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode:
        print(id, 'does not apply', r.stderr)
        return
    try:
        r = sh(f'cd /verif && ./check.sh {prop}')
    finally:
        sh('git -C /repo checkout -- .')
    v = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'failing input', 'UNDEC', 'failed obl'))]
    print(id, 'rc', r.returncode, ' || '.join(v)[:400])


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
    for i in ids:
        catch(i)
