from common import *
import random
import zoo
SPEC = "Contract"
ASSUMPTIONS = ["integration models return whatever the wrapped detector returns; Z-scores and instance-standardised values are not constrained to be finite when the spread is zero",
               "area under the ROC curve is read only after both classes have been seen; results before the first fit are not specified"]
RANGE = {"ExactStorm": "unit", "KNNCAD": "unit", "LocalOutlierProbability": "unit", "RandomModel": "halfopen", "NullModel": "half", "HalfSpaceTrees": "nonpos",
         "KitNet": "nonneg", "RSHash": "nonneg", "RobustRandomCutForest": "nonneg", "SeasonalESD": "nonneg", "SeasonalHybridESD": "nonneg", "RelativeEntropy": "flag",
         "OneFitModel": "free", "ReferenceWindowModel": "free", "ZScorePostprocessor": "free", "RunningZScorePostprocessor": "free",
         "ConformalProbabilityCalibrator": "unit", "GaussianTailProbabilityCalibrator": "unit", "InstanceStandardScaler": "free", "InstanceUnitNormScaler": "free",
         "PrecisionMetric": "unit", "RecallMetric": "unit", "AUROCMetric": "unit", "AUPRMetric": "unit", "WindowedMetric": "unit",
         "VarianceMeter": "nonneg", "SumSquaresMeter": "nonneg", "CountMeter": "count"}
SKIP = {"Windowed-AUROCMetric", "ArrayStreamer", "PandasStreamer", "Window", "UnlimitedWindow"}


def emit(s):
    return [dict(model=[[o["op"], o["n"]] for o in s["ops"]])]


def mc(tier):
    q = tier == "quick"
    return [dict(module="MC_Contract", emit=emit, limit=300 if q else 3000, cfg=mccfg(["Counted", "Emit"], dict(MaxLen="4" if q else "5", EmitScn="TRUE"))),
            dict(module="MC_Contract", cfg=mccfg(["Satisfiable", "Refuses", "Nested"], dict(MaxLen="3" if q else "4", EmitScn="FALSE")))]


def es():
    return [e for e in zoo.entries() if e.key not in SKIP]


def stream(rng, n, d):
    """finite instances of every character"""
    m = rng.randrange(9)
    if m == 0:
        c = rng.choice([0.0, 1.0, -5.0, .3])
        return [[c] * d for _ in range(n)]
    if m == 1:
        return [[rng.choice([0.0, 1.0]) for _ in range(d)] for _ in range(n)]
    if m == 2:
        return [[rng.gauss(0, 1e6) for _ in range(d)] for _ in range(n)]
    if m == 3:
        return [[rng.gauss(0, 1e-6) for _ in range(d)] for _ in range(n)]
    if m == 4:
        return [[rng.gauss(0, 1) if i < n // 2 else 1e9 for _ in range(d)] for i in range(n)]
    if m == 5:
        return [[-5.0 if i % 2 else 5.0] * d for i in range(n)]
    if m == 6:
        return [[float(i + j) for j in range(d)] for i in range(n)]
    if m == 7:
        return [[-abs(rng.gauss(3, 2)) for _ in range(d)] for _ in range(n)]
    return [[rng.random() for _ in range(d)] for _ in range(n)]


def table(e, rng, p, n):
    t = e.gen(rng, n, p)
    if e.kind == "metric":
        return t
    if rng.random() < .5 and e.name not in ("Inqmad", "InstanceUnitNormScaler", "InstanceStandardScaler"):
        if e.kind in ("model", "trans"):
            return stream(rng, n, len(t[0]))
        return [x[0] for x in stream(rng, n, 1)]
    return t


def bind(s, e, r):
    p = e.args(r)
    pre = e.pre(p)
    k = 0 if r.random() < .3 else pre if pre < 30 else pre + 1
    s.update(zoo=e.key, p=p, table=table(e, r, p, k + 12), labels=[r.randint(0, 1) for _ in range(k + 12)], ops=[["fit", 1]] * k + s["model"] + [["fit", 1], ["read", 1]])


def prepare_scns(scns, tier, seed):
    zs = [e for e in es() if e.cost < 10]
    for i, s in enumerate(x for x in scns if "model" in x):
        bind(s, zs[i % len(zs)], random.Random("contract-%d-%d" % (i, seed)))


def scenarios(rng, tier):
    out = []
    q = tier == "quick"
    for e in es():
        for r in range((5 if e.cost < 4 else 3 if e.cost < 10 else 1) if q else (60 if e.cost < 10 else 4)):
            p = e.args(rng)
            pre = e.pre(p)
            n = pre + rng.choice([6, 12, 40] + ([300] if e.cost <= 1 and e.name != "RobustRandomCutForest" else [])) if e.cost < 10 else 6
            ops = []
            left = n
            while left > 0:
                o = rng.choice(["fit", "fit", "fs", "fitbatch", "fsbatch", "chain"] if e.cost < 10 else ["fit", "fs", "chain"])
                k = min(left, 1 if o in ("fit", "fs") else rng.choice([2, 3, 5]))
                if k == 1 and o not in ("fit", "fs"):
                    o = "fit"
                ops.append([o, k])
                if rng.random() < .1:
                    ops += [["remove", 1]] * rng.choice([2, 5, 40])
                left -= k
                while rng.random() < .4:
                    ops.append(rng.choice([["read", 1], ["readbatch", rng.choice([1, 2, 4])], ["remove", 1]]))
            out.append(dict(zoo=e.key, p=p, table=table(e, rng, p, n), labels=[rng.randint(0, 1) for _ in range(n)], ops=ops))
    return out


def code(v):
    try:
        f = float(v)
    except Exception:
        return dict(k="other", s=0, u=0, i=99)
    if f != f:
        return dict(k="nan", s=0, u=0, i=99)
    if f in (math.inf, -math.inf):
        return dict(k="inf" if f > 0 else "ninf", s=0, u=0, i=99)
    if 1 < f < 1 + 1e-9:             # rounding
        f = 1.0
    if -1e-9 < f < 0:
        f = 0.0
    return dict(k="num", s=(f > 0) - (f < 0), u=(f > 1) - (f < 1), i=int(f) if f.is_integer() and abs(f) < 99 else 99 if not f.is_integer() else 98 if f > 0 else -98)


def result(v):
    """size, dimensions and entries of a result"""
    if isinstance(v, (list, tuple)) or v is None or isinstance(v, (str, bytes)):
        return dict(size=-1, nd=0, v=[])
    a = np.asarray(v)
    if a.dtype.kind not in "fiub":
        return dict(size=-1, nd=0, v=[dict(k="other", s=0, u=0, i=99)])
    seen = []
    for x in a.ravel()[:4000]:
        c = code(x)
        if c not in seen:
            seen.append(c)
    return dict(size=int(a.size), nd=int(a.ndim), v=seen)


def execute(scn):
    e = zoo.by_name(scn["zoo"])
    p, T, L = scn["p"], scn["table"], scn["labels"]
    inner = e.key.split("-")[1] if e.key.startswith("Running-") or e.key.startswith("Abs-") else e.name
    rangeof = RANGE.get(inner, "finite")
    if e.name in ("MedianAbsoluteDeviation", "StandardAbsoluteDeviation"):
        rangeof = "nonneg" if p["absolute"] else "finite"
    dim = len(T[0]) if hasattr(T[0], "__len__") else 1
    out = -1 if e.kind == "trans" else 1
    if e.name in zoo.ENS:
        out = 1
    elif "Projector" in e.name:
        out = p["num_components"]
    chainable = e.kind in ("model", "trans", "post", "stat") or e.name == "WindowedMetric"
    ev, box = [], []
    rec_ = dict(self=True, size=0, nd=0, v=[], n=1)

    def run(f):
        try:
            return "ok", f()
        except Timeout:
            raise
        except Exception as x:
            return "exc:" + type(x).__name__, None
    st = random.Random(zoo.h32(scn["zoo"], len(scn["ops"])))
    np.random.seed(st.randrange(2 ** 31))
    random.seed(st.randrange(2 ** 31))
    r, o = run(lambda: e.build(p, zoo.given(e, p)))
    ev.append(dict(rec_, op="new", r=r))
    t, n, held = 0, 0, []
    fresh = lambda i: reuse(zoo.arr(e, T[i % len(T)]))
    lab = lambda i: L[i % len(L)] if e.kind == "model" and e.y != "none" else None
    pairs = e.kind == "metric"
    stat = e.kind == "stat"
    name = {"model": "score", "trans": "transform", "post": "transform"}.get(e.kind)
    pend = 0                     # labels waiting in the perfect model
    classes = set()
    for op, k in scn["ops"] if r == "ok" else []:
        if t + k > len(T):
            continue
        if op in ("fitbatch", "fsbatch", "readbatch") and (stat or pairs or not e.batch):
            continue
        if op == "remove" and (e.kind != "stat" or not held or e.key.startswith("Running-")):
            continue
        if op == "chain" and (not chainable or pairs and e.name != "WindowedMetric"):
            continue
        if op == "fs" and (stat or pairs):
            op = "fit"
        if op in ("read", "readbatch", "chain") and (n == 0 and op != "chain") or op == "read" and stat and not held:
            continue
        if e.name == "PerfectModel" and op in ("read", "readbatch") and pend < k:
            continue
        d = dict(rec_, op=op, n=k, r="ok")
        if op in ("fit", "fitbatch", "fs", "fsbatch", "chain"):
            idx = list(range(t, t + k))
            t += k
            n += k
            if stat:
                held += [T[i] for i in idx]
            if pairs:
                classes |= {T[i][0] for i in idx}
        if op == "fit":
            d["r"], v = run(lambda: e.fit(o, fresh(idx[0]), lab(idx[0])))
            d["self"] = v is o
            pend += 1
        elif op == "remove":
            x = held.pop(0)
            d["r"], v = run(lambda: o.remove(x))
            d["self"] = v is o
        elif op == "fitbatch":
            X = zoo.A([T[i] for i in idx])
            y = np.array([lab(i) for i in idx]) if e.kind == "model" and lab(0) is not None else None
            d["r"], v = run(lambda: o.fit(X, y) if e.kind == "model" else o.fit(X))
            d["self"] = v is o
            pend += k
        elif op == "fs":
            d["r"], v = run(lambda: e.fs(o, fresh(idx[0]), lab(idx[0])))
            d.update(result(v))
        elif op == "fsbatch":
            X = zoo.A([T[i] for i in idx])
            y = np.array([lab(i) for i in idx]) if e.kind == "model" and lab(0) is not None else None
            d["r"], v = run(lambda: (o.fit_score(X, y) if e.kind == "model" else o.fit_transform(X)))
            d.update(result(v))
        elif op == "read":
            if e.name == "AUROCMetric" and len(classes) < 2:
                continue
            d["r"], v = run(lambda: e.read(o, e.calls()[0], fresh(t - 1)))
            pend -= 1
            d.update(result(v))
        elif op == "readbatch":
            X = zoo.A([T[(t - 1 - i) % len(T)] for i in range(k)])
            d["r"], v = run(lambda: getattr(o, name)(X))
            pend -= k
            d.update(result(v))
        elif op == "chain":
            def go():
                q = o
                for i in idx:
                    q = e.fit(q, fresh(i), lab(i))
                return e.read(q, e.calls()[0], fresh(idx[-1]))
            d["r"], v = run(go)
            pend += k - 1
            d.update(result(v))
        ev.append(d)
        if d["r"] != "ok":
            break
    return [dict(cfg=dict(role=e.kind, range=rangeof, dim=dim, out=out, self=chainable), ev=ev)]
