"""Apply the behaviour-preserving edits of FILE to a copy of /repo and run the checks: all must stay quiet.
usage: run.py FILE.py [Cxx ...]"""
import ast, importlib.util, os, shutil, subprocess, sys, tempfile
spec = importlib.util.spec_from_file_location('e', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
w = tempfile.mkdtemp(prefix='rf-')
try:
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    for f, cls, fn, new in m.EDITS:
        p = w + '/repo/pysad/' + f
        src = open(p).read()
        body = ast.parse(src).body
        if cls:
            body = [n for n in body if isinstance(n, ast.ClassDef) and n.name == cls][0].body
        n = [n for n in body if isinstance(n, ast.FunctionDef) and n.name == fn][0]
        lines = src.split('\n')
        lines[n.lineno - 1:n.end_lineno] = new.strip('\n').split('\n')
        open(p, 'w').write('\n'.join(lines))
    for f, t in getattr(m, 'IMPORTS', {}).items():
        p = w + '/repo/pysad/' + f
        s = open(p).read()
        open(p, 'w').write(t + s)
    if os.environ.get('TESTS'):
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '6', 'tests'], cwd=w + '/repo', stdout=subprocess.PIPE, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', OMP_NUM_THREADS='1'))
        print(r.stdout[-800:])
    bad = []
    for c in sys.argv[2:] or ['C%02d' % k for k in range(1, 31)]:
        r = subprocess.run(['/verif/bin/check', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=w + '/repo'))
        if r.returncode:
            bad.append(c)
            print(c, r.returncode, r.stdout[-1500:], flush=True)
    print('alarms:', bad)
finally:
    shutil.rmtree(w, ignore_errors=True)
