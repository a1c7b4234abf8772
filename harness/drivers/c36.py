from common import *
import random
import zoo
from enc import Timeout
SPEC = "Params"
ASSUMPTIONS = ["the documented parameters and their defaults are written down in this driver (from the class documentation)",
               "random generator state is controlled: set before construction and before every call, depending on the history only",
               "results are compared with relative tolerance 1e-9 (1e-5 for Inqmad)"]
INV = ["Binds", "Accepts", "Mute", "Sensitive"]
REQ = object()


def mc(tier):
    q = tier == "quick"
    return [dict(module="MC_Params", emit=emit, limit=300 if q else 4000, timeout=800, cfg=mccfg(INV + ["Emit"], dict(MaxLen=3, EmitScn="TRUE", Toks="{1}"))),
            dict(module="MC_Params", timeout=800, cfg=mccfg(INV, dict(MaxLen=4 if q else 5, EmitScn="FALSE", Toks="{1}")))]


def emit(s):
    w = [[o["pos"], o["kw"]] for o in s["ops"] if o["op"] == "new"]
    return [dict(ways=w, alias=s["cfg"]["alias"][2] != 0, npos=s["cfg"]["npos"])]


# ---------------------------------------------------------------------------
# P(name, documented default, other values); REQ: must be given; Same(name): the value of that parameter
class Same:
    def __init__(self, name):
        self.name = name


def P(name, default, *alts):
    return (name, default, list(alts))


def cluster(d):
    def g(rng, n):
        return [[rng.choice([.2, .25, .3, .31, .35, .4, .45, .5]) if rng.random() < .8 else rng.random() for _ in range(d)] for _ in range(n)]
    return g


def grid1(rng, n):
    return [[rng.choice([0., .05, .1, .15, .2, .3])] for _ in range(n)]


def smooth(rng, n):
    return [[math.sin(i * 1.3) * 3 + rng.random() + (9 if rng.random() < .08 else 0)] for i in range(n)]


def smooth52(rng, n):
    """the 52nd and 53rd values are the first of their kind"""
    r = smooth(rng, n)
    if n > 55 and rng.random() < .8:
        for i in range(53):
            r[i] = [2 + 3 * rng.random() if i < 51 else [12., -3.][i - 51]]
    return r


def scores(rng, n):
    return [rng.gauss(0, 1) for _ in range(n)]


def labelled(rng, n):
    return [[i % 2, rng.random()] for i in range(n)]


def init(n, d=2):
    r = random.Random(n)
    return [[r.random() for _ in range(d)] for _ in range(n)]


C = {}


def add(key, params, gen, n, deep=(), npos=None, heavy=()):
    """n: length of short histories; deep: (left out, settings of the others, fits at which to read)"""
    C[key] = dict(params=params, gen=gen, n=n, deep=list(deep), npos=len(params) if npos is None else npos, heavy=set(heavy))


MX = {"$a": init(40)}
add("ExactStorm", [P("window_size", 10000, 3, 7), P("max_radius", .1, .06, .3)], grid1, 14, [({"window_size"}, {}, [9990, 9999, 10000, 10001, 10002])])
add("HalfSpaceTrees", [P("feature_mins", REQ, [0., 0.]), P("feature_maxes", REQ, [1., 1.]), P("window_size", 100, 4, 9), P("num_trees", 25, 2, 7), P("max_depth", 15, 2, 3), P("initial_window_X", None, MX)],
    cluster(2), 20, [({"window_size"}, dict(num_trees=2, max_depth=4), [30, 98, 99, 100, 101, 120, 199, 200, 201]), ({"num_trees"}, dict(window_size=5, max_depth=3), [3, 12]),
                     ({"max_depth"}, dict(window_size=5, num_trees=1), [3, 12]), ({"initial_window_X"}, dict(window_size=5, num_trees=2, max_depth=3), [3, 12])], heavy=["max_depth", "num_trees"])
add("IForestASD", [P("initial_window_X", None, MX), P("window_size", 2048, 3, 5)], cluster(2), 8,
    [({"window_size"}, dict(initial_window_X=MX), [1, 1000, 2047, 2048, 2049])])
add("Inqmad", [P("input_shape", REQ, 2), P("dim_x", REQ, 4, 8), P("gamma", REQ, 1, 2), P("random_state", 42, 1, 7), P("batch_size", 300, 2, 50)], cluster(2), 3)
add("KNNCAD", [P("probationary_period", REQ, 48, 50)], smooth, 56)
add("KitNet", [P("max_size_ae", 10, 1, 3), P("grace_feature_mapping", Same("grace_anomaly_detector"), 1, 3), P("grace_anomaly_detector", 50000, 2, 5), P("learning_rate", .1, .5, .01), P("hidden_ratio", .75, .3, 1.0)],
    cluster(13), 14, [({"max_size_ae", "grace_feature_mapping", "learning_rate", "hidden_ratio"}, dict(grace_anomaly_detector=4), [4, 5, 6, 8, 9, 10, 11]),
                      ({"learning_rate"}, dict(grace_anomaly_detector=4), [11]), ({"hidden_ratio"}, dict(grace_anomaly_detector=4, grace_feature_mapping=2), [6, 8]),
                      ({"max_size_ae"}, dict(grace_anomaly_detector=3, grace_feature_mapping=9), [14]),
                      ({"grace_feature_mapping"}, dict(grace_anomaly_detector=1500), [1002, 1501, 1502, 1600, 3003]), ({"grace_feature_mapping"}, dict(grace_anomaly_detector=7000), [5002, 7001, 7003, 14002]),
                      ({"grace_anomaly_detector"}, dict(grace_feature_mapping=2, max_size_ae=13), [3, 4, 49999, 50002, 50003, 50004, 50006])])
add("LODA", [P("num_bins", 10, 3, 4), P("num_random_cuts", 100, 3, 20)], cluster(3), 6)
add("LocalOutlierProbability", [P("initial_X", REQ, MX), P("num_neighbors", 10, 3, 6), P("extent", 3, 1, 2)], cluster(2), 3)
add("MedianAbsoluteDeviation", [P("absolute", True, False), P("b", 1.4826, 1.0, 2.5)], smooth, 9)
add("StandardAbsoluteDeviation", [P("substracted_statistic", "mean", "median"), P("absolute", True, False)], smooth, 9)
add("RSHash", [P("feature_mins", REQ, [0., 0.]), P("feature_maxes", REQ, [1., 1.]), P("sampling_points", 1000, 10, 1), P("decay", .015, .5, 2.0), P("num_components", 100, 2, 7), P("num_hash_fns", 1, 2, 3)],
    cluster(2), 20)
add("RelativeEntropy", [P("min_val", REQ, -4.), P("max_val", REQ, 13.), P("num_bins", 5, 2, 8), P("window_size", 52, 4, 11)], smooth52, 40,
    [({"window_size"}, {}, list(range(46, 60)))] * 3 + [({"window_size"}, {}, list(range(46, 60)) + list(range(60, 200, 7))), ({"num_bins", "window_size"}, {}, list(range(50, 300, 9))), ({"num_bins"}, dict(window_size=12), list(range(10, 120, 5)))])
add("RobustRandomCutForest", [P("num_trees", 4, 1, 2), P("shingle_size", 4, 1, 2), P("tree_size", 256, 4, 8)], lambda r, n: [[r.uniform(-1, 1), r.uniform(-1, 1)] for _ in range(n)], 14,
    [({"tree_size"}, dict(num_trees=1), [10, 254, 255, 256, 257, 258, 259])])
add("SeasonalESD", [P("period", REQ, 2, 3), P("window_size", REQ, 9, 12), P("max_anomalies", REQ, 1, 2), P("alpha", .05, .3, .01), P("robust", True, False)], smooth, 24)
add("SeasonalHybridESD", [P("period", REQ, 2, 3), P("window_size", REQ, 9, 12), P("max_anomalies", REQ, 1, 2), P("alpha", .05, .3, .01), P("robust", True, False)], smooth, 24)
add("xStream", [P("num_components", 100, 2, 7), P("n_chains", 100, 2, 3), P("depth", 25, 2, 4), P("window_size", 25, 3, 6)], cluster(2), 12,
    [({"window_size"}, dict(num_components=3, n_chains=2, depth=4), [20, 23, 24, 25, 26, 30, 49, 50, 51, 60]), ({"depth"}, dict(num_components=3, n_chains=2, window_size=5), [4, 12, 16]),
     ({"n_chains"}, dict(num_components=3, depth=3, window_size=4), [3, 9]), ({"num_components"}, dict(n_chains=2, depth=5, window_size=4), [3, 9])])
KNN = {"$det": "KNN"}
add("OneFitModel-KNN", [P("model_cls", REQ, KNN, {"$det": "HBOS"}), P("initial_X", REQ, MX), P("initial_y", None)], cluster(2), 3)
add("ReferenceWindowModel-KNN", [P("model_cls", REQ, KNN, {"$det": "HBOS"}), P("window_size", REQ, 8, 12), P("sliding_size", REQ, 3, 5), P("initial_window_X", None, MX), P("initial_window_y", None)], cluster(2), 20)
add("InstanceUnitNormScaler", [P("pow", 2, 1, 3)], cluster(3), 4)
add("ModifiedSTLResidualTransformer", [P("period", REQ, 2, 3), P("window_size", REQ, 9, 12), P("robust", True, False)], smooth, 16)
add("SeasonalTrendDecomposer", [P("season_length", REQ, 2, 3, 4), P("trend_window", Same("season_length"), 1, 3, 5)], smooth, 14)
add("GaussianRandomProjector", [P("num_components", "auto", 2, 3), P("eps", .1, .5)], cluster(4), 4, npos=1)
add("SparseRandomProjector", [P("num_components", "auto", 2, 3), P("density", "auto", .5, .9), P("eps", .1, .5)], cluster(4), 4)
add("StreamhashProjector", [P("num_components", REQ, 3, 20), P("density", 1 / 3.0, .5, .9)], cluster(9), 4)
for nm in ("RunningAveragePostprocessor", "RunningMaxPostprocessor", "RunningMedianPostprocessor", "RunningZScorePostprocessor"):
    add(nm, [P("window_size", REQ, 3, 6)], scores, 9)
add("ConformalProbabilityCalibrator", [P("windowed", True, False), P("window_size", 300, 3, 8)], scores, 12, [({"window_size"}, {}, [5, 298, 299, 300, 301, 302, 305])])
add("GaussianTailProbabilityCalibrator", [P("running_statistics", True, False), P("window_size", 6400, 3, 8)], lambda r, n: [50.0 + i % 7 if i < 3 else r.gauss(0, 1) for i in range(n)], 12,
    [({"window_size"}, {}, [5, 6398, 6399, 6400, 6401, 6402, 6405])])
for nm in ("AverageOfMaximumScoreEnsembler", "MaximumOfAverageScoreEnsembler"):
    add(nm, [P("n_buckets", 5, 2, 10), P("method", "static"), P("bootstrap_estimators", False, True)], lambda r, n: [[r.gauss(0, 1) for _ in range(10)] for _ in range(n)], 4)
add("AverageScoreEnsembler", [P("estimator_weights", None, {"$a": [[1., 2., 0., 3.]]})], lambda r, n: [[r.gauss(0, 1) for _ in range(4)] for _ in range(n)], 4)
add("Windowed-AUROCMetric", [P("metric_cls", REQ, {"$met": "AUROCMetric"}, {"$met": "AUPRMetric"}), P("window_size", REQ, 4, 6), P("ignore_nonempty_last", True, False)], labelled, 13)
add("Running-VarianceMeter", [P("statistic_cls", REQ, {"$st": "VarianceMeter"}, {"$st": "MaxMeter"}), P("window_size", REQ, 3, 5)], scores, 9)
add("Abs-AverageMeter", [P("statistic_cls", REQ, {"$st": "AverageMeter"}, {"$st": "MinMeter"})], scores, 6)
add("Window", [P("window_size", REQ, 2, 4)], scores, 7)
for nm in ("ArrayStreamer", "PandasStreamer"):
    add(nm, [P("shuffle", False, True)], lambda r, n: [[[r.random(), float(i)] for i in range(7)] for _ in range(n)], 2)


def real(v):
    if isinstance(v, dict):
        if "$a" in v:
            return np.array(v["$a"], dtype=float)
        if "$det" in v:
            return zoo._det(v["$det"])
        return zoo._met(v["$met"]) if "$met" in v else zoo._st(v["$st"])
    return np.array(v) if isinstance(v, list) else v


# ---------------------------------------------------------------------------
def write(rng, c, want, keep_out):
    """a call that means the values want (parameter -> value); keep_out: parameters to leave out where possible"""
    ps = c["params"]
    names = [p[0] for p in ps]
    default = {p[0]: p[1] for p in ps}
    out = {n for n in names if n in keep_out and default[n] is not REQ}
    first = min([i for i, n in enumerate(names) if n in out] + [len(names)])
    k = rng.randint(0, min(first, c["npos"])) if rng.random() < .8 else 0
    kw = [n for n in names[k:] if n not in out]
    rng.shuffle(kw)
    return dict(pos=[want[n] for n in names[:k]], kw=[[n, want[n]] for n in kw])


def settle(c, want):
    """explicit values for the documented defaults"""
    for n, d, _ in c["params"]:
        if n not in want or want[n] is REQ:
            want[n] = None if isinstance(d, Same) else d
    return want


def pick(rng, c, small):
    want = {}
    for n, d, alts in c["params"]:
        vals = list(alts) if d is REQ or (small and alts and n in small) else list(alts) + [None if isinstance(d, Same) else d] * 2
        want[n] = rng.choice(vals)
    return want


def one(rng, key, forced=None, deep=None):
    c = C[key]
    n = c["n"]
    at = None
    if deep:
        out, rest, at = deep
        want = pick(rng, c, ())
        for nm, d, alts in c["params"]:
            if nm in out:
                want[nm] = None if isinstance(d, Same) else d
            elif nm in rest:
                want[nm] = rest[nm]
            elif d is not REQ:
                want[nm] = None if isinstance(d, Same) else d
        news = [write(rng, c, want, out), write(rng, c, want, set()), write(rng, c, want, set(out) | set(rest) - set(rest))][:2]
        for nm, d, alts in c["params"]:
            if isinstance(d, Same) and nm in out and want[nm] is None:
                news[1] = write(rng, c, dict(want, **{nm: want[d.name]}), set())
        n = max(at) + 1
        others = {}
    elif forced:
        news = forced
    else:
        big = rng.choice(sorted(c["heavy"])) if c["heavy"] and rng.random() < .2 else ""
        want = pick(rng, c, c["heavy"] - {big})
        dflt = {nm for nm, d, a in c["params"] if d is not REQ and want[nm] == (None if isinstance(d, Same) else d)}
        news = [write(rng, c, want, dflt), write(rng, c, want, set()), write(rng, c, want, {x for x in dflt if rng.random() < .5})]
        al = [(nm, d.name) for nm, d, a in c["params"] if isinstance(d, Same)]
        for nm, other in al:             # None and the other parameter's own value mean the same
            if want[nm] is None:
                news.append(write(rng, c, dict(want, **{nm: want[other]}), dflt - {nm}))
        if rng.random() < .3:
            news.append(write(rng, c, pick(rng, c, c["heavy"]), set()))
        if rng.random() < .3:
            i = rng.randrange(len(news))
            q = json_copy(news[i])
            m = rng.choice(["double", "missing"])
            if m == "double" and q["pos"]:
                q["kw"].append([c["params"][0][0], q["pos"][0]])
            elif m == "missing" and any(p[1] is REQ for p in c["params"]):
                q = dict(pos=[], kw=[x for x in q["kw"] if dict((p[0], p[1]) for p in c["params"])[x[0]] is not REQ])
            news.append(q)
    if at is None:
        at = sorted({1, n} | {rng.randint(1, n) for _ in range(4 if zoo.by_name(key).cost < 10 else 1)})
    table = c["gen"](rng, n)
    if deep and key in ("ExactStorm",):
        for i in range(3):
            table[i] = [50.0]
    return dict(key=key, news=news, table=table, at=at, seed=rng.randrange(10 ** 6), probes=[0, rng.randrange(n), n - 1])


def json_copy(x):
    import json
    return json.loads(json.dumps(x))


def scenarios(rng, tier):
    out = []
    q = tier == "quick"
    for key, c in C.items():
        cost = zoo.by_name(key).cost
        for _ in range((8 if cost < 10 else 2) if q else (60 if cost < 10 else 6)):
            out.append(one(rng, key))
        for d in c["deep"]:
            for _ in range(1 if q else 2):
                out.append(one(rng, key, deep=d))
    return out


def prepare_scns(scns, tier, seed):
    """parameters of a real component in the place of the model's: those that must be
    given, then the others in two groups"""
    keys = [k for k in C if zoo.by_name(k).cost < 10]
    for i, s in enumerate(scns):
        if "ways" not in s:
            continue
        r = random.Random("bind36-%d" % i)
        ks = [k for k in keys if any(isinstance(p[1], Same) for p in C[k]["params"]) == s["alias"]] if i % 2 else keys
        key = ks[i // 2 % len(ks)]
        c = C[key]
        ps = c["params"]
        req = [p for p in ps if p[1] is REQ]
        opt = [p for p in ps if p[1] is not REQ]
        cut = r.randint(0, len(opt))
        group = {p[0]: 1 for p in req}
        group.update({p[0]: 2 if j < cut else 3 for j, p in enumerate(opt)})
        news = []
        fix = pick(r, c, c["heavy"])
        for pos, kw in s["ways"]:
            way = {g + 1: ("pos", v) for g, v in enumerate(pos)}
            way.update({g: ("kw", v) for g, v in kw if g not in way})
            val = {}
            for nm, d, alts in ps:
                how, v = way.get(group[nm], ("out", 0))
                dv = None if isinstance(d, Same) else d
                if d is REQ:
                    val[nm] = (how, fix[nm] if v != 2 or len(alts) < 2 else alts[1])
                elif how == "out":
                    val[nm] = (how, None)
                else:
                    heavy = nm in c["heavy"]
                    val[nm] = (how, dv if v in (1, 3) and not heavy else alts[0] if alts else dv)
                    if heavy:
                        val[nm] = (how, alts[0])
            k = 0
            while k < len(ps) and k < c["npos"] and val[ps[k][0]][0] == "pos":
                k += 1
            call = dict(pos=[val[p[0]][1] for p in ps[:k]], kw=[[p[0], val[p[0]][1]] for p in ps[k:] if val[p[0]][0] != "out"])
            if len(pos) and any(g <= len(pos) for g, v in kw) and call["pos"]:
                call["kw"].append([ps[0][0], call["pos"][0]])
            for nm in c["heavy"]:       # never several heavy defaults at once
                if nm not in [x[0] for x in call["kw"]] and [p[0] for p in ps].index(nm) >= k:
                    call["kw"].append([nm, dict((p[0], p[2]) for p in ps)[nm][0]])
            r.shuffle(call["kw"])
            news.append(call)
        scns[i].update(one(r, key, forced=news))


def execute(scn):
    import json
    e = zoo.by_name(scn["key"])
    c = C[scn["key"]]
    ps = c["params"]
    names = [p[0] for p in ps]
    toks = {}

    def tok(v):
        return toks.setdefault(json.dumps([str(type(v)), v], sort_keys=True), len(toks) + 1)
    none = tok(None)
    cfg = dict(nobj=len(scn["news"]), none=none, npos=c["npos"], alias=[names.index(p[1].name) + 1 if isinstance(p[1], Same) else 0 for p in ps],
               **{"def": [0 if p[1] is REQ or isinstance(p[1], Same) else tok(p[1]) for p in ps]})
    w = zoo.World([], tol=e.tol)
    ev, objs = [], {}
    cls = zoo.CLASSES[e.name].get()

    def put(op, o, **kw):
        ev.append(dict(dict(op=op, o=o, pos=[], kw=[], x=0, n=0, call="", out=0, k="ok", rm=False), **kw))

    def seed(*a):
        w.seed(scn["seed"], *a)
    extra = dict(n_estimators=2, random_state=7) if e.name == "IForestASD" else {}
    for i, nw in enumerate(scn["news"]):
        o, k = i + 1, "ok"
        names_kw = [x[0] for x in nw["kw"]]
        seed("new")
        try:
            if len(set(names_kw)) != len(names_kw):
                raise TypeError
            objs[o] = cls(*[real(v) for v in nw["pos"]], **{n: real(v) for n, v in nw["kw"]}, **extra)
        except Timeout:
            raise
        except Exception as ex:
            k = "exc:" + type(ex).__name__
        put("new", o, pos=[tok(v) for v in nw["pos"]], kw=[[names.index(n) + 1, tok(v)] for n, v in nw["kw"]], k=k)
    T = scn["table"]
    lab = [i % 2 for i in range(len(T))]

    def read(o, t):
        x = zoo.arr(e, T[t])
        call = e.calls()[0] if e.split else "fs"
        out = w._val(lambda: e.read(objs[o], call, x) if e.split else e.fs(objs[o], x))
        put("read", o, x=t + 1, call=call, out=out, rm=e.readmut or not e.split)
    for o in sorted(objs):
        done = 0
        for stop in scn["at"]:
            k = "ok"
            n = 0
            for t in range(done, stop):
                if not (done < t < stop - 1 and len(T) > 500):
                    seed("fit") if e.const else seed("fit", t)
                try:
                    e.fit(objs[o], zoo.arr(e, T[t]), lab[t] if e.y == "need" else None)
                except Timeout:
                    raise
                except Exception as ex:
                    k = "exc:" + type(ex).__name__
                    break
                n += 1
            if k != "ok" and n == 0 and e.kind == "trans":
                break
            put("fit", o, x=done + 1, n=stop - done)
            done = stop
            for t in scn["probes"]:
                if t < len(T):
                    seed("fit") if e.const else seed("read", stop)
                    read(o, t)
            if k != "ok":
                break
    return [dict(cfg=cfg, ev=ev)]
