"""Mutation sweep: small syntactic changes of /repo's pysad in scratch copies, against the checks
of the properties anchored there.   mutate.py N SEED OUT [file-substring ...]
Writes one JSON line per mutant: file, line, change, checks that caught it / missed it, tests.
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
PY = "/opt/venv/bin/python"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"] if "anchors" in d else d["anchor"]["files"]:
        MAP.setdefault(f, []).append(d["id"])
EXTRA = {"pysad/models/loda.py": ["C25", "C27", "C28"], "pysad/models/inqmad.py": ["C25", "C27", "C28"], "pysad/models/loop.py": ["C09", "C10"],
         "pysad/models/kitnet_model/utils.py": ["C17"], "pysad/core/base_statistic.py": ["C02"]}
GENERIC = ["C25", "C26", "C27", "C28", "C08"]


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.out = []

    def add(self, node, kind):
        self.out.append((node, kind))

    def generic_visit(self, n):
        if isinstance(n, ast.Compare):
            for k in ("cmp", "cmpneg"):
                self.add(n, k)
        if isinstance(n, ast.BinOp):
            self.add(n, "bin")
        if isinstance(n, ast.BoolOp):
            self.add(n, "bool")
        if isinstance(n, ast.UnaryOp):
            self.add(n, "unary")
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            self.add(n, "const+") if not isinstance(n.value, bool) else self.add(n, "constb")
            if not isinstance(n.value, bool):
                self.add(n, "const-")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            self.add(n, "iftrue")
            self.add(n, "iffalse")
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            self.add(n, "drop")
        if isinstance(n, ast.AugAssign):
            self.add(n, "aug")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
            self.add(n, "retnone")
        if isinstance(n, ast.Call) and n.args:
            self.add(n, "call1")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            self.add(n, "slice")
        if isinstance(n, ast.Attribute) and n.attr in ("copy", "pop", "popleft", "append", "max", "min", "mean", "median", "sum"):
            self.add(n, "attr")
        super().generic_visit(n)


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
NEG = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.Gt, ast.NotEq: ast.Gt}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}
ATTR = dict(max="min", min="max", mean="sum", median="mean", sum="max", popleft="pop", append="append", copy="copy", pop="pop")


def apply(tree, idx):
    s = Sites()
    s.visit(tree)
    n, k = s.out[idx]
    line = n.lineno if hasattr(n, "lineno") else 0
    before = ast.unparse(n)
    if k in ("cmp", "cmpneg"):
        t = (CMP if k == "cmp" else NEG).get(type(n.ops[0]))
        if t is None:
            return None
        n.ops[0] = t()
    elif k == "bin":
        t = BIN.get(type(n.op))
        if t is None:
            return None
        n.op = t()
    elif k == "aug":
        t = BIN.get(type(n.op))
        if t is None:
            return None
        n.op = t()
    elif k == "bool":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif k == "unary":
        if isinstance(n.op, ast.Not):
            n.op = ast.UAdd()
            n.operand = ast.Call(ast.Name("bool", ast.Load()), [n.operand], [])
        elif isinstance(n.op, ast.USub):
            n.op = ast.UAdd()
        else:
            return None
    elif k == "const+":
        n.value = n.value + 1 if isinstance(n.value, int) else n.value * 1.5
    elif k == "const-":
        if n.value == 0 and isinstance(n.value, float):
            return None
        n.value = n.value - 1 if isinstance(n.value, int) else n.value * .5
    elif k == "constb":
        n.value = not n.value
    elif k == "iftrue":
        n.test = ast.Constant(True) if not isinstance(n, ast.While) else n.test
    elif k == "iffalse":
        n.test = ast.Constant(False)
    elif k == "drop":
        for p in ast.walk(tree):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and n in b:
                    if isinstance(p, (ast.Module, ast.ClassDef)):
                        return None
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
    elif k == "retnone":
        return None
    elif k == "call1":
        if isinstance(n.func, ast.Name) and n.func.id in ("super", "len", "range", "isinstance", "type", "ValueError", "int", "float") or len(n.args) != 1:
            return None
        for p in ast.walk(tree):
            for f, v in ast.iter_fields(p):
                if v is n and isinstance(p, (ast.Assign, ast.Return, ast.BinOp)):
                    setattr(p, f, n.args[0])
                    return line, k, before, ast.unparse(n.args[0])
        return None
    elif k == "slice":
        sl = n.slice
        if sl.lower is not None:
            sl.lower = ast.BinOp(sl.lower, ast.Add(), ast.Constant(1))
        elif sl.upper is not None:
            sl.upper = ast.BinOp(sl.upper, ast.Sub(), ast.Constant(1))
        else:
            return None
    elif k == "attr":
        if ATTR[n.attr] == n.attr:
            return None
        n.attr = ATTR[n.attr]
    after = ast.unparse(n) if k != "drop" else "pass"
    if after == before:
        return None
    return line, k, before[:200], after[:200]


def nsites(src):
    s = Sites()
    s.visit(ast.parse(src))
    return len(s.out)


def env(repo):
    return dict(os.environ, VERIF_REPO=repo, VERIF_JOBS="2", VERIF_TLCJOBS="2", VERIF_MCCACHE="/tmp/mut/mc", VERIF_TIER="quick", VERIF_SEED="1")


def one(job):
    f, idx = job
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
    try:
        repo = w + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        src = open(os.path.join("/repo", f)).read()
        tree = ast.parse(src)
        r = apply(tree, idx)
        if r is None:
            return None
        try:
            out = ast.unparse(ast.fix_missing_locations(tree))
            compile(out, f, "exec")
        except Exception:
            return None
        if ast.dump(ast.parse(out)) == ast.dump(ast.parse(src)):
            return None
        open(os.path.join(repo, f), "w").write(out)
        res = dict(file=f, line=r[0], kind=r[1], before=r[2], after=r[3], idx=idx, caught=[], missed=[], err=[])
        ids = list(MAP.get(f, [])) + EXTRA.get(f, [])
        ids = [i for i in ids if i not in GENERIC] + [i for i in ids if i in GENERIC]
        for c in ids:
            try:
                p = subprocess.run([V + "/bin/check", c, "quick"], env=env(repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            (res["caught"] if rc == 1 else res["missed"] if rc == 0 else res["err"]).append(c if rc < 2 else [c, rc, p.stdout[-300:] if rc != 99 else ""])
            if rc == 1:
                break
        if not res["caught"]:
            e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            try:
                p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300", "tests"], cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                res["tests"] = "pass" if p.returncode == 0 else "fail"
            except subprocess.TimeoutExpired:
                res["tests"] = "timeout"
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    n, seed, outp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    os.makedirs("/tmp/mut/mc", exist_ok=True)
    files = [f for f in sorted(set(MAP) | set(EXTRA)) if f.endswith(".py") and os.path.exists("/repo/" + f)]
    if sys.argv[4:]:
        files = [f for f in files if any(s in f for s in sys.argv[4:])]
    jobs = []
    for f in files:
        jobs += [(f, i) for i in range(nsites(open("/repo/" + f).read()))]
    done = set()
    if os.path.exists(outp):
        done = {(json.loads(l)["file"], json.loads(l)["idx"]) for l in open(outp)}
    random.Random(seed).shuffle(jobs)
    jobs = [j for j in jobs if j not in done][:n]
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(4) as ex, open(outp, "a") as o:
        for r in ex.map(one, jobs):
            if r:
                o.write(json.dumps(r) + "\n")
                o.flush()


if __name__ == "__main__":
    main()
