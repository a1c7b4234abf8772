from common import *
import json, os, random, subprocess, sys
import zoo
from drivers import c25
SPEC = "Fun"
ASSUMPTIONS = ["results of runs with the same seed are compared with relative tolerance 1e-9 (1e-5 for Inqmad)"]


def mc(tier):
    r = c25.mc(tier)
    r[0]["emit"] = emit
    r[0]["limit"] = 150 if tier == "quick" else 1500
    return r


def emit(s):
    return [dict(model=[[o["op"], o["o"], o["x"]] for o in s["ops"]], same=s["cfg"]["same"])]


def scenarios(rng, tier):
    out = []
    q = tier == "quick"
    es = zoo.entries()
    for e in es:
        for r in range((2 if e.cost < 10 else 1) if q else (15 if e.cost < 10 else 3)):
            out.append(one(rng, [e]))
        if e.cost <= 2 and e.kind in ("model", "trans"):
            for r in range(2 if q else 10):
                out.append(one(rng, [e], rng.choice([30, 60])))
    for nm in ("AverageOfMaximumScoreEnsembler", "MaximumOfAverageScoreEnsembler"):
        e = zoo.by_name(nm + "-dynamic")
        out.append(dict(one(rng, [e], 20), finding=nm + "-dynamic"))
    cheap = [e for e in es if e.cost < 10]
    for r in range(30 if q else 400):
        out.append(one(rng, [rng.choice(cheap) for _ in range(2)]))
    return out


def one(rng, es, more=0):
    specs, ops = [], []
    for i, e in enumerate(es):
        pre = e.pre(e.args(rng))
        sp = zoo.spec_of(e, rng, pre + more + rng.choice([3, 6, 10]) if e.cost < 10 else 5)
        specs.append(sp)
        if not (len(es) > 1 and i == 1 and rng.random() < .5):
            ops.append([["new", i + 1, i]])
        else:
            ops.append([])
        for t in range(len(sp["table"])):
            ops[-1].append([rng.choice(["fit", "fr"]), i + 1, t])
            if rng.random() < .5 and (e.cost < 3 or t > pre - 2):
                ops[-1].append(["read", i + 1, rng.randrange(len(sp["table"]))])
        ops[-1] += [["read", i + 1, t] for t in range(min(3, len(sp["table"])))]
        if ops[-1][0][0] != "new":
            ops[-1].insert(0, ["new", i + 1, i])
    flat = []
    while any(ops):
        k = rng.choice([j for j, o in enumerate(ops) if o])
        flat.append(ops[k].pop(0))
    return dict(specs=specs, ops=flat, seed=rng.choice([0, 1, 42, 61, 2 ** 31, 2 ** 32 - 1, rng.randrange(2 ** 32)]), seed2=rng.randrange(1000))


def prepare_scns(scns, tier, seed):
    es = [e for e in zoo.entries() if e.cost < 10]
    for i, s in enumerate(scns):
        if "model" in s:
            r = random.Random("bind27-%d" % i)
            e = es[i % len(es)]
            sp = [zoo.spec_of(e, r, e.pre(e.args(r)) + 4)]
            sp.append(sp[0] if s["same"] else zoo.spec_of(e, r, len(sp[0]["table"])))
            T = len(sp[0]["table"])
            ops = []
            for o in (1, 2):
                k = min(e.pre(sp[o - 1]["p"]), T)
                ops += [["new", o, o - 1]] + [["fit", o, t] for t in range(k)]
            ops += [[a, o, T - x] for a, o, x in s["model"]] + [["read", 1, 0], ["read", 2, 0]]
            s.update(specs=sp, ops=ops, seed=r.randrange(2 ** 31), seed2=7)
    # another process with another string hash seed
    scratch = os.environ["VERIF_SCRATCH"]
    n = 4
    procs = []
    for j in range(n):
        src, dst = os.path.join(scratch, "in%d.json" % j), os.path.join(scratch, "out%d.json" % j)
        part = [[i, s] for i, s in enumerate(scns) if i % n == j]
        part.reverse()                     # another order of scenarios, too
        with open(src, "w") as f:
            json.dump(part, f)
        env = dict(os.environ, PYTHONHASHSEED=str(1000 + j))
        procs.append((dst, subprocess.Popen([sys.executable, os.path.join(os.path.dirname(__file__), "..", "sub27.py"), src, dst], env=env,
                                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    for dst, p in procs:
        err = p.communicate(timeout=800)[1]
        if p.returncode != 0 or not os.path.exists(dst):
            raise RuntimeError("subprocess failed: " + err.decode()[-2000:])
        with open(dst) as f:
            for i, raw in json.load(f):
                scns[i]["remote"] = raw


def run(scn, world, off=0):
    from pysad.utils import fix_seed
    w = world or zoo.World(scn["specs"], rng="free", shared=False)
    w.raw = []
    mark = len(w.ev)
    fix_seed(scn["seed"])
    w.do([[a, o + off, x] for a, o, x in scn["ops"]])
    return w, w.raw, w.ev[mark:]


def execute(scn):
    k = len(scn["specs"])
    w, raw1, ev1 = run(scn, None)
    # other random draws, another seed, other objects
    import random as R
    from pysad.utils import fix_seed
    fix_seed(scn["seed2"])
    np.random.rand(scn["seed2"] % 5 + 1)
    R.random()
    for sp in scn["specs"]:
        e = zoo.by_name(sp["zoo"])
        try:
            o = e.build(sp["p"], zoo.given(e, sp["p"]))
            for t in range(min(3, len(sp["table"]))):
                e.fit(o, zoo.arr(e, sp["table"][t]), sp["labels"][t] if e.kind == "model" else None)
        except Exception:
            pass
    run(scn, w, k)
    rem = list(scn["remote"])
    for d in ev1:
        d = dict(d, o=d["o"] + 2 * k)
        if d["op"] in ("read", "fr"):
            d["out"] = w.intern(rem.pop(0)) if rem else 0
        w.ev.append(d)
    if len(scn["remote"]) != len(raw1):
        w.ev.append(dict(w.ev[-1], k="another-process-stopped-elsewhere"))
    for sp in scn["specs"]:
        if sp["zoo"] == "RandomModel":
            for v in raw1:
                s = scalar(v) if not isinstance(v, str) else None
                if len(scn["specs"]) == 1:
                    bad = s is None or s != s or abs(s) > 100
                    w.ev.append(dict(op="unit", o=1, id=0, k="bad" if bad else "num", kept=True, x=0 if bad else math.floor(s * 10 ** 6), call="", out=10 ** 6, rm=False))
    scn.pop("remote")
    t = dict(cfg=w.cfg(3 * k, readmut=True), ev=w.ev)
    if "finding" in scn:
        t["finding"], t["clause"] = scn["finding"], "result-depends-on-more-than-its-own-history"
    return [t]
