from common import *
SPEC = "Projector"
ASSUMPTIONS = ["linear map compared to about 1e-6 relative accuracy; num_components given explicitly ('auto' is scikit-learn's choice)"]


def emit(s):
    return [dict(kind=k, k=2, dims=[2], objs=1, ops=[dict(op="transform", o=1, x=o["x"], how="partial") for o in s["ops"]], density=-1, seed=len(s["ops"])) for k in ("gauss", "sparse", "hash")]


def mc(tier):
    c = dict(MaxLen=3 if tier == "quick" else 4, EmitScn="TRUE")
    return [dict(module="MC_Projector", emit=emit, limit=30 if tier == "quick" else 200, cfg=mccfg(["Accepts", "Rejects", "Counting", "Emit"], c))]


def unit(d, f):
    return [1 if i == f else 0 for i in range(d)]


def scenarios(rng, tier):
    out = []
    for i in range(260 if tier == "quick" else 2500):
        kind = rng.choice(["gauss", "sparse", "hash", "hash"])
        k = rng.choice([1, 1, 2, 3, 5, 10, 30])
        objs = rng.choice([1, 2, 3])
        big = rng.random() < .12
        dims = [rng.choice([1, 2, 3, 4, 7, 12] if not big else [11, 20, 33, 64, 101] + ([130, 260] if k <= 3 else [])) for _ in range(objs)]
        if big:
            objs = min(objs, 2)
            dims = dims[:objs]
        ops = []

        def vec(o):
            d = dims[o - 1] if kind != "hash" else rng.choice(dims + [rng.randint(1, 12), rng.randint(1, max(dims))])
            r = rng.random()
            if r < .5:
                return unit(d, rng.randrange(d))
            return [rng.randint(-5, 5) for _ in range(d)]
        for j in range(rng.randint(2, 12)):
            o = rng.randint(1, objs)
            op = rng.choice(["transform", "transform", "fit_transform", "fit", "batch", "noise"])
            ops.append(dict(op=op, o=o, x=vec(o), how="partial"))
        for o in range(1, objs + 1):
            for f in range(dims[o - 1]):
                ops.append(dict(op="transform", o=o, x=unit(dims[o - 1], f), how="partial"))
        for j in range(rng.randint(1, 8)):
            o = rng.randint(1, objs)
            ops.append(dict(op=rng.choice(["transform", "fit_transform", "batch", "fit", "noise"]), o=o, x=vec(o), how="partial"))
        for o in range(1, objs + 1):
            ops.append(dict(op="transform", o=o, x=[rng.choice([1, -2, 3]) for _ in range(dims[o - 1])], how="partial"))
        for op in ops:
            op["scale"] = rng.choice([1.0, 1.0, 1.0, 2.0, .5, 1e6, 1e-6, 1e-9, 3.7])
            op["as"] = rng.choice(["f8", "f8", "f8", "int", "f4", "strided", "readonly"])
        out.append(dict(kind=kind, k=k, dims=dims, objs=objs, ops=ops, density=rng.choice([-1, -1, 1.0, .5, .25]), seed=rng.randrange(10 ** 6)))
    return out


OTHER = {}
KS, DENS = [1, 2, 3, 5, 10, 30], [-1, 1.0, .5, .25]
CHILD = """
import sys, json
sys.path[:0] = json.loads(sys.argv[1])
import numpy as np
from pysad.transform.projection import StreamhashProjector
out = []
for k in %r:
    for d in %r:
        n = 260 if k in (1, 3) and d in (-1, .5) else 104 if k in (1, 5) else 30
        m = StreamhashProjector(num_components=k, **({} if d < 0 else dict(density=d)))
        out.append([k, d, [np.asarray(m.transform_partial(np.eye(n)[f])).ravel().tolist() for f in range(n)]])
print("OUT " + json.dumps(out))
""" % (KS, DENS)


def prepare():
    """the stream-hash map as another process (another hash seed) sees it"""
    import json, os, subprocess, sys
    env = dict(os.environ, PYTHONHASHSEED="4242")
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, json.dumps(sys.path)], env=env, capture_output=True, text=True, timeout=300)
    for line in p.stdout.splitlines():
        if line.startswith("OUT "):
            for k, d, cols in json.loads(line[4:]):
                OTHER[(k, d)] = cols


def execute(scn):
    from pysad.transform.projection import GaussianRandomProjector, SparseRandomProjector, StreamhashProjector
    from pysad.utils import fix_seed
    fix_seed(scn["seed"])
    k, kind, den = scn["k"], scn["kind"], scn["density"]
    Q = 10 ** 6
    dd = [den if den >= 0 else 1 / 3.0 if kind == "hash" else 1 / math.sqrt(d) for d in scn["dims"]]
    md = max([12] + scn["dims"] + [len(o["x"]) for o in scn["ops"]])
    cfg = dict(k=k, Q=Q, hash=kind == "hash", kind=kind, pct=[int(round(100 * v)) for v in dd], c=[int(round(math.sqrt(1 / v) / math.sqrt(k) * Q)) for v in dd], dim=1, objs=scn["objs"], maxdim=md)

    def new():
        if kind == "gauss":
            return GaussianRandomProjector(num_components=k)
        if kind == "sparse":
            return SparseRandomProjector(num_components=k, **({} if den < 0 else dict(density=den)))
        return StreamhashProjector(num_components=k, **({} if den < 0 else dict(density=den)))
    box = []
    ev = []
    for o in range(scn["objs"]):
        ev.append(dict(op="new", r=do(lambda: box.append(new()))))
    if kind == "hash":
        for f, col in enumerate(OTHER.get((k, den), [])[:md]):
            ev.append(dict(op="transform", o=1, x=unit(md, f), r=[num(w, Q) for w in col]))
    def enc(v):
        a = np.asarray(v)
        return [num(w, Q, sc) for w in a] if a.ndim == 1 else []
    if len(box) == scn["objs"]:
        for o in scn["ops"]:
            m = box[o["o"] - 1]
            how, sc = o.get("as", "f8"), o.get("scale", 1.0)
            if o["op"] == "batch" or how == "int":
                sc = 1.0 if sc != int(sc) else sc
            X = np.array(o["x"], dtype=float) * sc
            if how == "int":
                X = X.astype(int)
            elif how == "f4" and kind != "hash":
                X = X.astype(np.float32)
            elif how == "strided":
                X = np.repeat(X, 2)[::2]
            elif how == "readonly":
                X.setflags(write=False)
            if o["op"] == "noise":
                np.random.rand(3)
            elif o["op"] == "fit":
                ev.append(dict(op="fit", r=do(m.fit_partial, X)))
            elif o["op"] == "batch":
                A = np.array([o["x"], unit(len(o["x"]), 0), o["x"]], dtype=float) * sc
                try:
                    R = m.transform(A) if len(ev) % 2 else m.fit_transform(A)
                except Exception:
                    R = [None] * 3
                for i in range(3):
                    r = call(lambda: R[i], enc=enc)
                    ev.append(dict(op="transform", o=o["o"], x=[int(round(v / sc)) for v in A[i]], r=r if isinstance(r, list) else []))
            else:
                f = m.transform_partial if o["op"] == "transform" else m.fit_transform_partial
                r = call(f, X, enc=enc)
                ev.append(dict(op="transform", o=o["o"], x=o["x"], r=r if isinstance(r, list) else []))
        ev += [dict(op="census", o=o + 1) for o in range(1 if kind == "hash" else scn["objs"])]
    return [dict(cfg=cfg, ev=ev)]
