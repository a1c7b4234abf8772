"""Make and confirm the planted changes of /verif/seeded.

usage: seedtool.py DEFS.py [id ...]      (run with any python3; uses a scratch copy of /repo)
DEFS.py defines SEEDS = [dict(id=, property=, edits=[(file, old, new)...], demo=<python text>, needs=, breaks=)].
A change is kept only if: it applies, the demo exits 0 without it and non-zero with it, and the
repository's test-suite passes with it.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
PY = '/opt/venv/bin/python'
OUT = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# Runs with the working directory at the repository: exit 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def tests(cwd):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if False else None
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu',
               MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', 'tests'], cwd, 1200, env)
    return r.returncode == 0, r.stdout[-1500:]


def one(s):
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = w + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        d = w + '/demo'
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        r = run(['bash', d + '/demo.sh'], repo)
        if r.returncode != 0:
            return s['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:]
        for f, old, new in s['edits']:
            p = repo + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], f'EDIT {f}: {t.count(old)} matches', old
            open(p, 'w').write(t.replace(old, new))
        diff = run(['git', 'diff'], repo).stdout
        r = run(['bash', d + '/demo.sh'], repo)
        if r.returncode == 0:
            return s['id'], 'DEMO PASSES WITH THE CHANGE', r.stdout[-500:]
        dem = r.stdout.strip().split('\n')[-1]
        ok, out = tests(repo)
        if not ok:
            return s['id'], 'TESTS FAIL', out
        o = OUT + '/' + s['id']
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + '/patch.diff', 'w').write(diff)
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(d + '/' + n, o + '/' + n)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(o + '/meta.json', 'w'), indent=1)
        return s['id'], 'KEPT', dem
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    spec = importlib.util.spec_from_file_location('defs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [s for s in m.SEEDS if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for i, st, msg in ex.map(one, todo):
            print(i, st, '|', msg if st != 'KEPT' else msg[:150], flush=True)
