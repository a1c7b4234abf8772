"""Run the check of each planted change against a scratch copy with the change applied.
usage: evalseeds.py [id ...]   (-a: run every check, not only the one of the property)"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
root = '/verif/seeded'
args = [a for a in sys.argv[1:] if a != '-a']
ALL = '-a' in sys.argv
ids = args or sorted(os.listdir(root))


def one(i):
    w = tempfile.mkdtemp(prefix='ev-')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        subprocess.run(['git', 'apply', f'{root}/{i}/patch.diff'], cwd=w + '/repo', check=True)
        p = json.load(open(f'{root}/{i}/meta.json'))['property']
        res = []
        for c in (['C%02d' % k for k in range(1, 39)] if ALL else [p]):
            r = subprocess.run(['/verif/bin/check', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_REPO=w + '/repo', VERIF_JOBS='2', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            if r.returncode == 1 and v:
                res.append(c)
            elif r.returncode:
                res.append(f'{c}:rc{r.returncode}')
        return i, p, p in res, res
    finally:
        shutil.rmtree(w, ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    for i, p, ok, res in ex.map(one, ids):
        print('CAUGHT' if ok else 'MISSED', i, p, res, flush=True)
