"""python3 tools/catch.py [-jN] [ids]: run the check of each planted bug's property on a
scratch copy of /repo with the patch applied; writes tools/caught.json."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = f'{HERE}/seeded/{i}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='catch_')
    try:
        subprocess.run(f'cp -a /repo {w}/repo && mkdir {w}/v && cp -a {HERE}/contracts {HERE}/props {HERE}/pyvc {HERE}/run.py {HERE}/known_findings.jsonl {w}/v && git -C {w}/repo apply {d}/patch.diff', shell=True, check=True)
        r = subprocess.run(f'cd {w}/v && VERIF_REPO={w}/repo PYTHONPATH={w}/repo:{w}/v PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC /opt/venv/bin/python run.py {prop}', shell=True, capture_output=True, text=True)
        rp = {}
        try:
            rp = json.load(open(f'{w}/v/evidence/replay/{prop}.json'))
        except OSError:
            pass
        return i, r.returncode, prop, r.stdout, rp
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    args = sys.argv[1:]
    j = 4
    if args and args[0].startswith('-j'):
        j = int(args.pop(0)[2:])
    ids = args or sorted(os.listdir(f'{HERE}/seeded'))
    p = f'{HERE}/tools/caught.json'
    try:
        how = json.load(open(p))
    except OSError:
        how = {}
    with ThreadPoolExecutor(j) as ex:
        for i, rc, prop, out, rp in ex.map(one, ids):
            how[i] = summarize(rc, out, rp)
            print(i, prop, 'rc', rc, how[i], flush=True)
            json.dump(how, open(p, 'w'), indent=1, sort_keys=True)


def summarize(rc, out, rp):
    if rc == 0:
        return '**missed**'
    fo = rp.get('failed_obligations') or []
    n = len(fo)
    und = re.findall(r'^UNDECIDED .*?: ([\w.<>]+):', out, re.M)
    f = re.search(r'^failing input: (\S+)', out, re.M)
    s = []
    if n:
        s.append(f'{n} failed obligation' + 's' * (n > 1))
    if und:
        s.append('undecided: ' + ', '.join(sorted(set(und))))
    s.append(f'failing input by {f.group(1)}' if f else 'no failing input')
    return '; '.join(s)


if __name__ == '__main__':
    main()
