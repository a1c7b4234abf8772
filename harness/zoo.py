"""Every public component of pysad behind one interface, for the checks that
hold for all of them (C08, C25, C26, C27, C28).

A scenario is a schedule of operations on objects; an operation names an object,
a call and an index into a table of instances.  The recorded events are judged by
spec/Fun.tla: every component is a deterministic function of its construction
(class, arguments, seed) and of the instances *it* was fitted with, in order."""
import copy, math, random, zlib
import numpy as np
from enc import Timeout, reuse


class Entry:
    def __init__(self, name, args, gen, kind, **kw):
        self.name, self.args, self.gen, self.kind = name, args, gen, kind
        self.stat = kind in ("stat", "metric", "window")
        self.y = kw.pop("y", "opt")            # label: opt | need | none
        self.split = kw.pop("split", True)     # fit_score == fit then score
        self.readmut = kw.pop("readmut", False)
        self.rread = kw.pop("rread", False)    # reads draw random numbers
        self.once = kw.pop("once", False)      # ... and only the first transform draws
        self.const = kw.pop("const", False)    # lazy random draw: same generator state before every call
        self.win = kw.pop("win", None)         # params -> (suffix length, phase)
        self.mem = kw.pop("mem", None)         # params for the memory check, or None: accumulates by definition
        self.pool = kw.pop("pool", None)       # params for the memory check on finitely many distinct instances
        self.memhow = kw.pop("memhow", ["fitread", "fs"])
        self.cost = kw.pop("cost", 1)
        self.tol = kw.pop("tol", 1e-9)
        self.wtol = kw.pop("wtol", None)
        self.pre = kw.pop("pre", lambda p: 0)  # number of fits that reach the interesting phase
        self.batch = kw.pop("batch", True)
        assert not kw

    def build(self, p, given):
        return CLASSES[self.name](given)

    # -- uniform calls -------------------------------------------------------
    def fit(self, o, x, y=None):
        if self.kind == "stream":
            return None
        if self.kind == "metric":
            return o.update(x[0], x[1])
        if self.kind in ("stat", "window"):
            return o.update(x)
        if self.kind == "model":
            return o.fit_partial(x, y) if y is not None else o.fit_partial(x)
        return o.fit_partial(x)

    def calls(self):
        return ["iter"] if self.kind == "stream" else ["get"] if self.stat else ["score"] if self.kind == "model" else ["transform"]

    def read(self, o, call, x):
        if call == "get":
            return o.get()
        if self.kind == "stream":
            if self.name == "PandasStreamer":
                import pandas as pd
                x = pd.DataFrame(x)
                y = pd.Series(range(len(x)))
            else:
                y = np.arange(len(x))
            return np.array([np.append(a, b) for a, b in o.iter(x, y)] if len(x) % 2 else list(o.iter(x)))
        return o.score_partial(x) if self.kind == "model" else o.transform_partial(x)

    def fs(self, o, x, y=None):
        if self.kind == "stream":
            return self.read(o, "iter", x)
        if self.kind == "model":
            return o.fit_score_partial(x, y) if y is not None else o.fit_score_partial(x)
        return o.fit_transform_partial(x)


# ---------------------------------------------------------------------------
# instances
def vec(d):
    def g(rng, n, p):
        dd = p.get("d", d)
        mode = rng.randrange(5)
        if mode == 0:
            base = [[rng.random() for _ in range(dd)] for _ in range(max(1, n // 3))]
            return [list(rng.choice(base)) for _ in range(n)]
        if mode == 1:
            return [[rng.choice([0.0, 0.25, 0.5, 0.75, 1.0]) for _ in range(dd)] for _ in range(n)]
        if mode == 2:
            return [[rng.gauss(0.5, 0.1) if rng.random() < .9 else rng.uniform(-5, 5) for _ in range(dd)] for _ in range(n)]
        if mode == 3:
            return [[i / 10.0 + 0.01 * j for j in range(dd)] for i in range(n)]
        return [[rng.random() for _ in range(dd)] for _ in range(n)]
    return g


def dvec(rng, n, p):
    """pairwise distinct instances"""
    return [[rng.uniform(-1, 1) for _ in range(p.get("d", 2))] for _ in range(n)]


def one(rng, n, p):
    return [[v] for v in sca(rng, n, p)]


def sca(rng, n, p):
    mode = rng.randrange(4)
    if mode == 0:
        return [rng.gauss(0, 1) for _ in range(n)]
    if mode == 1:
        return [float(rng.randint(-3, 3)) for _ in range(n)]
    if mode == 2:
        return [math.sin(i) * 3 + rng.random() for i in range(n)]
    return [rng.choice([1.0, 2.0, 50.0, rng.random()]) for _ in range(n)]


def pair(rng, n, p):
    if p.get("alt"):
        return [[i % 2, rng.random()] for i in range(n)]
    return [[rng.randint(0, 1), float(rng.randint(0, 1)) if p.get("bin") else rng.random()] for _ in range(n)]


def rows(rng, n, p):
    return [[[rng.random(), float(i)] for i in range(rng.choice([1, 2, 5, 8]))] for _ in range(n)]


def pvec(rng, n, p):
    return [[rng.random() + 0.01 for _ in range(p["d"])] for _ in range(n)]


def A(x):
    return np.array(x, dtype=np.float64)


# ---------------------------------------------------------------------------
# constructors; g is the dictionary of arguments (shared between objects built
# from the same arguments)
def _c(path, cls):
    def f(g):
        import importlib
        m = importlib.import_module("pysad." + path)
        return getattr(m, cls)(**g)

    def get():
        import importlib
        return getattr(importlib.import_module("pysad." + path), cls)
    f.get = get
    return f


def _det(name):
    if name == "KNN":
        from pyod.models.knn import KNN
        return KNN
    if name == "HBOS":
        from pyod.models.hbos import HBOS
        return HBOS
    if name == "PCA":
        from pyod.models.pca import PCA
        return PCA
    from pyod.models.iforest import IForest
    return IForest


def _met(name):
    import pysad.evaluation as E
    return getattr(E, name)


def _st(name):
    import pysad.statistics as S
    return getattr(S, name)


MODELS = ["ExactStorm", "HalfSpaceTrees", "IForestASD", "Inqmad", "KitNet", "KNNCAD", "LODA", "LocalOutlierProbability",
          "MedianAbsoluteDeviation", "NullModel", "PerfectModel", "RandomModel", "RelativeEntropy", "RobustRandomCutForest",
          "RSHash", "StandardAbsoluteDeviation", "xStream", "SeasonalESD", "SeasonalHybridESD"]
CLASSES = {m: _c("models", m) for m in MODELS}
CLASSES["OneFitModel"] = _c("models.integrations", "OneFitModel")
CLASSES["ReferenceWindowModel"] = _c("models.integrations", "ReferenceWindowModel")
for m in ["IdentityScaler", "InstanceStandardScaler", "InstanceUnitNormScaler", "SeasonalTrendDecomposer", "ModifiedSTLResidualTransformer"]:
    CLASSES[m] = _c("transform.preprocessing", m)
for m in ["GaussianRandomProjector", "SparseRandomProjector", "StreamhashProjector"]:
    CLASSES[m] = _c("transform.projection", m)
POST = ["AveragePostprocessor", "MaxPostprocessor", "MedianPostprocessor", "ZScorePostprocessor"]
RPOST = ["RunningAveragePostprocessor", "RunningMaxPostprocessor", "RunningMedianPostprocessor", "RunningZScorePostprocessor"]
for m in POST + RPOST:
    CLASSES[m] = _c("transform.postprocessing", m)
for m in ["ConformalProbabilityCalibrator", "GaussianTailProbabilityCalibrator"]:
    CLASSES[m] = _c("transform.probability_calibration", m)
ENS = ["AverageScoreEnsembler", "MaximumScoreEnsembler", "MedianScoreEnsembler", "AverageOfMaximumScoreEnsembler", "MaximumOfAverageScoreEnsembler"]
for m in ENS:
    CLASSES[m] = _c("transform.ensemble", m)
METERS = ["AverageMeter", "CountMeter", "MaxMeter", "MedianMeter", "MinMeter", "SumMeter", "SumSquaresMeter", "VarianceMeter"]
for m in METERS + ["AbsStatistic", "RunningStatistic"]:
    CLASSES[m] = _c("statistics", m)
for m in ["PrecisionMetric", "RecallMetric", "AUROCMetric", "AUPRMetric", "WindowedMetric"]:
    CLASSES[m] = _c("evaluation", m)
for m in ["Window", "UnlimitedWindow"]:
    CLASSES[m] = _c("utils.window", m)


def entries():
    """list of (Entry); args(rng) draws parameters (JSON); given(p) builds the
    argument dictionary."""
    return list(_ENTRIES)


def by_name(n):
    return _BY[n]


def init_rows(p, n):
    r = random.Random(p.get("iseed", 0))
    return A([[r.random() for _ in range(p["d"])] for _ in range(n)])


_ENTRIES, _BY, _GIVEN = [], {}, {}


def add(name, kind, params, given, gen, **kw):
    key = kw.pop("key", name)
    hidden = kw.pop("hidden", False)           # found by name only
    e = Entry(name, params, gen, kind, **kw)
    e.key = key
    if not hidden:
        _ENTRIES.append(e)
    _BY[key] = e
    _GIVEN[key] = given


def given(e, p):
    return _GIVEN[e.key](p)


W = lambda r: r.choice([1, 2, 3, 4, 5, 7, 7, 12, 20])
D = lambda r: r.choice([1, 2, 3, 3, 6, 9, 20])
same = lambda p: {k: v for k, v in p.items() if k not in ("d", "iseed", "bin", "init", "det", "alt")}

add("ExactStorm", "model", lambda r: dict(window_size=W(r), max_radius=r.choice([.1, .5, 1.0]), d=D(r)), same, vec(2),
    win=lambda p: (p["window_size"], 1), mem=dict(window_size=16, max_radius=.5, d=2))
add("HalfSpaceTrees", "model", lambda r: dict(window_size=W(r), num_trees=r.choice([1, 3]), max_depth=r.choice([1, 3, 4]), d=D(r), init=r.choice([0, 0, 3]), iseed=r.randrange(99)),
    lambda p: dict(feature_mins=np.zeros(p["d"]), feature_maxes=np.ones(p["d"]), window_size=p["window_size"], num_trees=p["num_trees"],
                   max_depth=p["max_depth"], **({"initial_window_X": init_rows(p, p["init"])} if p["init"] else {})),
    vec(2), win=lambda p: (2 * p["window_size"], p["window_size"]),
    mem=dict(window_size=16, num_trees=3, max_depth=4, d=2, init=0))
add("HalfSpaceTrees", "model", lambda r: dict(window_size=W(r), num_trees=2, max_depth=3, d=D(r)),
    lambda p: dict(feature_mins=[0.0] * p["d"], feature_maxes=[1.0] * p["d"], window_size=p["window_size"], num_trees=2, max_depth=3),
    vec(2), key="HalfSpaceTrees-lists")
add("IForestASD", "model", lambda r: dict(window_size=r.choice([3, 5, 8]), n_estimators=3, d=D(r), init=r.choice([0, 6]), iseed=r.randrange(99)),
    lambda p: dict(window_size=p["window_size"], n_estimators=p["n_estimators"], **({"initial_window_X": init_rows(p, p["init"])} if p["init"] else {})),
    vec(2), cost=4, mem=dict(window_size=16, n_estimators=3, d=2, init=0), win=lambda p: (2 * p["window_size"], p["window_size"]))
add("Inqmad", "model", lambda r: dict(input_shape=2, dim_x=r.choice([4, 8]), gamma=1, random_state=r.choice([1, 42]), d=2),
    lambda p: {k: v for k, v in p.items() if k != "d"}, vec(2), cost=40, tol=1e-5, mem=dict(input_shape=2, dim_x=8, gamma=1, random_state=1, d=2))
add("KitNet", "model", lambda r: dict(max_size_ae=r.choice([2, 10]), grace_feature_mapping=r.choice([2, 4]), grace_anomaly_detector=r.choice([2, 5]), d=r.choice([1, 2, 4])),
    same, vec(2), pre=lambda p: 5, mem=dict(max_size_ae=3, grace_feature_mapping=10, grace_anomaly_detector=30, d=3))
add("KitNet", "model", lambda r: dict(max_size_ae=20, grace_feature_mapping=r.choice([2, 3]), grace_anomaly_detector=r.choice([2, 5]), d=r.choice([9, 14, 18])),
    same, vec(2), pre=lambda p: 4, key="KitNet-wide")
add("KNNCAD", "model", lambda r: dict(probationary_period=48), same, one, readmut=True, pre=lambda p: 47, cost=3, mem=dict(probationary_period=48))
add("LODA", "model", lambda r: dict(num_bins=r.choice([3, 5]), num_random_cuts=r.choice([2, 5, 20]), d=r.choice([1, 2, 3, 6, 9, 9, 20])), same, vec(2), mem=dict(num_bins=5, num_random_cuts=5, d=3))
add("LocalOutlierProbability", "model", lambda r: dict(num_neighbors=3, d=2, iseed=r.randrange(99)),
    lambda p: dict(initial_X=init_rows(p, 12), num_neighbors=p["num_neighbors"]), dvec, cost=2, mem=dict(num_neighbors=3, d=2, iseed=1))
add("MedianAbsoluteDeviation", "model", lambda r: dict(absolute=r.random() < .5), same, one)
add("StandardAbsoluteDeviation", "model", lambda r: dict(absolute=r.random() < .5, substracted_statistic=r.choice(["mean", "median"])), same, one)
add("NullModel", "model", lambda r: dict(d=2), same, vec(2), mem=dict(d=2))
add("PerfectModel", "model", lambda r: dict(d=2), same, vec(2), readmut=True, y="need", mem=dict(d=2), memhow=["fs"])
add("RandomModel", "model", lambda r: dict(d=2), same, vec(2), rread=True, mem=dict(d=2))
add("RelativeEntropy", "model", lambda r: dict(min_val=-3.0, max_val=3.0, num_bins=r.choice([2, 5]), window_size=r.choice([3, 5, 8])), same, one,
    mem=dict(min_val=-3.0, max_val=3.0, num_bins=5, window_size=16))
add("RobustRandomCutForest", "model", lambda r: dict(num_trees=2, tree_size=r.choice([2, 4, 6]), d=2), same, dvec, rread=True, mem=dict(num_trees=2, tree_size=16, d=2))
add("RSHash", "model", lambda r: dict(sampling_points=r.choice([10, 1000]), decay=r.choice([.015, .5]), num_components=r.choice([2, 6, 30]), num_hash_fns=r.choice([1, 2]), d=D(r)),
    lambda p: dict(feature_mins=np.zeros(p["d"]), feature_maxes=np.ones(p["d"]), **same(p)), vec(2),
    pool=dict(sampling_points=1000, decay=.015, num_components=4, num_hash_fns=2, d=2))
add("xStream", "model", lambda r: dict(num_components=r.choice([2, 4, 20]), n_chains=r.choice([1, 3, 8]), depth=r.choice([2, 4]), window_size=W(r), d=D(r)), same, vec(2),
    win=lambda p: (3 * p["window_size"], p["window_size"]), mem=dict(num_components=3, n_chains=2, depth=4, window_size=16, d=2))
for nm in ("SeasonalESD", "SeasonalHybridESD"):
    add(nm, "model", lambda r: dict(period=2, window_size=r.choice([7, 9]), max_anomalies=r.choice([1, 2])), same, one, split=False, cost=4,
        pre=lambda p: p["window_size"] - 3, win=lambda p: (p["window_size"], 1), mem=dict(period=2, window_size=9, max_anomalies=2))
for det in ("KNN", "HBOS", "IForest", "PCA"):
    def kw(p, det=det):
        return {"KNN": dict(n_neighbors=2), "HBOS": dict(n_bins=4), "IForest": dict(n_estimators=3, random_state=7), "PCA": dict(n_components=1)}[det]
    add("OneFitModel", "model", lambda r: dict(d=2, iseed=r.randrange(99)), lambda p, kw=kw, det=det: dict(model_cls=_det(det), initial_X=init_rows(p, 10), **kw(p)), vec(2),
        key="OneFitModel-" + det, cost=3, mem=dict(d=2, iseed=1))
    add("ReferenceWindowModel", "model", lambda r: dict(d=2, window_size=r.choice([4, 6]), sliding_size=r.choice([1, 2, 3]), iseed=r.randrange(99)),
        lambda p, kw=kw, det=det: dict(model_cls=_det(det), window_size=p["window_size"], sliding_size=p["sliding_size"], initial_window_X=init_rows(p, 6), **kw(p)), vec(2),
        key="ReferenceWindowModel-" + det, cost=4, win=lambda p: (p["window_size"] + p["sliding_size"], p["sliding_size"]),
        mem=dict(d=2, window_size=16, sliding_size=4, iseed=1))

add("IdentityScaler", "trans", lambda r: dict(d=D(r)), same, vec(2), mem=dict(d=2), win=lambda p: (0, 1))
add("InstanceStandardScaler", "trans", lambda r: dict(d=r.choice([2, 3, 5])), same, vec(2), mem=dict(d=2), win=lambda p: (0, 1))
add("InstanceUnitNormScaler", "trans", lambda r: dict(d=D(r), pow=r.choice([1, 2, 3])), same, pvec, mem=dict(d=2, pow=2), win=lambda p: (0, 1))
add("SeasonalTrendDecomposer", "trans", lambda r: dict(season_length=r.choice([2, 3]), trend_window=r.choice([2, 3, 4])), same, one, split=False,
    mem=dict(season_length=4, trend_window=8))
add("ModifiedSTLResidualTransformer", "trans", lambda r: dict(period=2, window_size=r.choice([7, 9])), same, one, split=False, cost=3, pre=lambda p: 3,
    win=lambda p: (p["window_size"], 1), mem=dict(period=2, window_size=9))
add("GaussianRandomProjector", "trans", lambda r: dict(num_components=r.choice([1, 2, 3]), d=r.choice([2, 3, 4])), same, vec(3), const=True, once=True, mem=dict(num_components=2, d=4))
add("SparseRandomProjector", "trans", lambda r: dict(num_components=r.choice([1, 2, 3]), density=.7, d=r.choice([3, 4])), same, vec(3), const=True, once=True, mem=dict(num_components=2, density=.7, d=4))
add("StreamhashProjector", "trans", lambda r: dict(num_components=r.choice([1, 2, 5]), density=r.choice([1 / 3.0, .8]), d=r.choice([2, 4])), same, vec(3),
    win=lambda p: (0, 1), mem=dict(num_components=3, d=4))
for nm in POST:
    add(nm, "post", lambda r: {}, same, sca, y="none", mem=None if nm in ("MedianPostprocessor", "MaxPostprocessor") else {})
for nm in RPOST:
    add(nm, "post", lambda r: dict(window_size=W(r)), same, sca, y="none", mem=dict(window_size=16), win=lambda p: (p["window_size"], 1), wtol=1e-5)
add("ConformalProbabilityCalibrator", "post", lambda r: dict(windowed=True, window_size=W(r)), same, sca, y="none", mem=dict(windowed=True, window_size=16),
    win=lambda p: (p["window_size"], 1))
add("ConformalProbabilityCalibrator", "post", lambda r: dict(windowed=False), same, sca, y="none", key="Conformal-all")
add("GaussianTailProbabilityCalibrator", "post", lambda r: dict(running_statistics=True, window_size=W(r)), same, sca, y="none",
    mem=dict(running_statistics=True, window_size=16), win=lambda p: (p["window_size"], 1), wtol=1e-5)
add("GaussianTailProbabilityCalibrator", "post", lambda r: dict(running_statistics=False, window_size=W(r)), same, sca, y="none", key="GaussianTail-all",
    mem=dict(running_statistics=False, window_size=16))
for nm in ENS:
    add(nm, "trans", lambda r: dict(d=r.choice([4, 6])), (lambda p: dict(n_buckets=2)) if "Of" in nm else (lambda p: {}), vec(4), const="Of" in nm, mem=dict(d=4), batch=True,
        win=None if "Of" in nm else lambda p: (0, 1))
add("AverageScoreEnsembler", "trans", lambda r: dict(d=4), lambda p: dict(estimator_weights=A([[1, 2, 0, 3]])), vec(4), key="AverageScoreEnsembler-w", mem=dict(d=4))
for nm in ENS[3:]:
    add(nm, "trans", lambda r: dict(d=12), lambda p: dict(n_buckets=2, method="dynamic"), vec(12), key=nm + "-dynamic", hidden=True)
for nm in METERS:
    add(nm, "stat", lambda r: {}, same, sca, y="none", mem=None if nm in ("MedianMeter", "MaxMeter", "MinMeter") else {})
    add("RunningStatistic", "stat", lambda r: dict(window_size=W(r)), lambda p, nm=nm: dict(statistic_cls=_st(nm), window_size=p["window_size"]), sca, y="none", key="Running-" + nm,
        mem=dict(window_size=16), win=lambda p: (p["window_size"], 1), wtol=1e-6)
    add("AbsStatistic", "stat", lambda r: {}, lambda p, nm=nm: dict(statistic_cls=_st(nm)), sca, y="none", key="Abs-" + nm)
add("RunningStatistic", "stat", lambda r: dict(window_size=W(r)), lambda p: dict(statistic_cls=_st("AbsStatistic"), window_size=p["window_size"]), sca, y="none", key="Running-Abs-none")
_ENTRIES.pop()
del _BY["Running-Abs-none"]
for nm in ("PrecisionMetric", "RecallMetric", "AUROCMetric", "AUPRMetric"):
    add(nm, "metric", lambda r, nm=nm: dict(bin=nm[0] in "PR"), lambda p: {}, pair, y="none")
    add("WindowedMetric", "metric", lambda r, nm=nm: dict(window_size=r.choice([1, 3, 6] if nm[0] in "PR" else [6]), ignore_nonempty_last=r.random() < .5, bin=nm[0] in "PR", alt=nm[0] not in "PR"),
        lambda p, nm=nm: dict(metric_cls=_met(nm), **same(p)), pair, y="none", key="Windowed-" + nm,
        mem=dict(window_size=16, ignore_nonempty_last=True, bin=True, alt=True))
add("Window", "window", lambda r: dict(window_size=W(r)), same, sca, y="none", mem=dict(window_size=16), win=lambda p: (p["window_size"], 1))
add("UnlimitedWindow", "window", lambda r: {}, same, sca, y="none")
for nm in ("ArrayStreamer", "PandasStreamer"):
    CLASSES[nm] = _c("utils", nm)
    add(nm, "stream", lambda r: dict(shuffle=r.random() < .7), same, rows, y="none", rread=True, batch=False)


# ---------------------------------------------------------------------------
# recording
class Intern:
    """results to tokens, equal within a relative tolerance"""

    def __init__(self, tol):
        self.tol = tol
        self.tab = []

    def __call__(self, v):
        k = self.norm(v)
        for t, (sh, a) in enumerate(self.tab):
            if sh == k[0] and self.eq(a, k[1]):
                return t + 1
        self.tab.append(k)
        return len(self.tab)

    def norm(self, v):
        try:
            if isinstance(v, str):
                return ("str", ""), v
            a = np.array(v, dtype=np.float64).ravel()
            return ("num", a.shape), a
        except Exception:
            return ("other", repr(type(v))), repr(v)

    def eq(self, a, b):
        if isinstance(a, str):
            return a == b
        return bool(np.allclose(a, b, rtol=self.tol, atol=self.tol, equal_nan=True))


def arr(e, x):
    if e.kind in ("model", "trans", "stream"):
        return A(x)
    return x


def same_value(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same_value(a[k], b[k]) for k in a)
    return a is b or a == b


def snap(a):
    if isinstance(a, np.ndarray):
        return a.copy()
    if isinstance(a, list):
        return [snap(x) for x in a]
    if isinstance(a, tuple):
        return tuple(snap(x) for x in a)
    if isinstance(a, dict):
        return {k: snap(v) for k, v in a.items()}
    return a


def h32(*a):
    return zlib.crc32(repr(a).encode()) & 0x7fffffff


class World:
    """executes operations and records events for spec/Fun.tla.
    specs[i] = dict(zoo, p, table, labels) is identity i."""

    def __init__(self, specs, tol=None, rng="perfit", shared=True):
        self.specs = [dict(s, e=by_name(s["zoo"])) for s in specs]
        self.intern = Intern(tol or max(s["e"].tol for s in self.specs))
        self.ev, self.o, self.state, self.n = [], {}, {}, {}
        self.given = {}
        self.rng, self.shared = rng, shared
        self.drawn = {}
        self.ids = {}
        self.nexc = 0
        self.raw = None

    def seed(self, *a):
        import random as R
        s = h32(*a)
        np.random.seed(s)
        R.seed(s)

    def save(self):
        import random as R
        return (np.random.get_state(), R.getstate())

    def load(self, s):
        import random as R
        np.random.set_state(s[0])
        R.setstate(s[1])

    def event(self, op, o, k="ok", kept=True, x=0, call="", out=0):
        e = self.specs[self.ids[o]]["e"]
        self.ev.append(dict(op=op, o=o, id=self.ids[o], k=k, kept=kept, x=x, call=call, out=out, rm=e.readmut))

    def new(self, o, i):
        """object o of identity i"""
        sp = self.specs[i]
        e, p = sp["e"], sp["p"]
        if not self.shared or i not in self.given:
            g = given(e, p)
            self.given[i] = (g, snap(g))
        g, g0 = self.given[i]
        if self.rng == "free":
            pass
        else:
            self.seed("new", i)
        k = "ok"
        try:
            self.o[o] = e.build(p, dict(g))
        except Timeout:
            raise
        except Exception as x:
            k = "exc:" + type(x).__name__
        self.state[o] = self.save()
        self.n[o] = 0
        self.ids[o] = i
        self.drawn[o] = False
        self.event("new", o, k=k, kept=same_value(g0, g))
        return k == "ok"

    def _x(self, o, t):
        sp = self.specs[self.ids[o]]
        e = sp["e"]
        return reuse(arr(e, sp["table"][t])), (sp["labels"][t] if e.kind == "model" and e.y != "none" else None), e

    def _enter(self, o, fit, e):
        if self.rng == "free":
            return
        mode = "const" if e.const and self.rng == "perfit" and not (e.once and self.drawn[o]) else self.rng
        if fit and mode == "perfit":
            self.seed("fit", self.ids[o], self.n[o])
        elif mode == "perfit":
            self.seed("read", self.ids[o], self.n[o])
        elif mode == "const":
            self.seed("fit", self.ids[o])
        else:
            self.load(self.state[o])

    def _kept(self, o, x, x0):
        g, g0 = self.given[self.ids[o]]
        return same_value(x0, x) and same_value(g0, g)

    def fit(self, o, t):
        x, y, e = self._x(o, t)
        x0 = snap(x)
        self._enter(o, True, e)
        k = "ok"
        try:
            e.fit(self.o[o], x, y)
        except Timeout:
            raise
        except Exception as ex:
            k = "exc:" + type(ex).__name__
        self.state[o] = self.save()
        self.n[o] += 1
        self.event("fit", o, k=k, kept=self._kept(o, x, x0), x=t + 1)
        return k == "ok"

    def _val(self, fn):
        try:
            v = fn()
        except Timeout:
            raise
        except Exception as ex:
            self.nexc += 1
            v = "exc:" + type(ex).__name__
        if self.raw is not None:
            self.raw.append(v if isinstance(v, str) else np.array(v, dtype=float).ravel().copy())
        return self.intern(v)

    def read(self, o, t, restore=True):
        x, y, e = self._x(o, t)
        x0 = snap(x)
        self._enter(o, False, e)
        call = e.calls()[0]
        out = self._val(lambda: e.read(self.o[o], call, x))
        self.drawn[o] = True
        if not restore:
            self.state[o] = self.save()
        self.event("read", o, kept=self._kept(o, x, x0), x=0 if call == "get" else t + 1, call=call, out=out)

    def fs(self, o, t):
        x, y, e = self._x(o, t)
        if e.stat:
            return self.fit(o, t)
        x0 = snap(x)
        self._enter(o, True, e)
        out = self._val(lambda: e.fs(self.o[o], x, y))
        self.drawn[o] = True
        self.state[o] = self.save()
        self.n[o] += 1
        self.event("fr", o, kept=self._kept(o, x, x0), x=t + 1, call=e.calls()[0] if e.split and not e.rread else "fs", out=out)

    def copy(self, o, src, how):
        """object o becomes a copy of object src"""
        import copy, pickle
        k = "ok"
        self._enter(src, True, self.specs[self.ids[src]]["e"])
        try:
            self.o[o] = copy.deepcopy(self.o[src]) if how == "deepcopy" else pickle.loads(pickle.dumps(self.o[src]))
        except Timeout:
            raise
        except Exception as ex:
            k = "exc:" + type(ex).__name__
        self.state[o], self.n[o], self.ids[o], self.drawn[o] = self.state[src], self.n[src], self.ids[src], self.drawn[src]
        self.event("copy", o, k=k, kept=True, x=src)
        return k == "ok"

    def do(self, ops):
        for op in ops:
            if op[0] == "new":
                if not self.new(op[1], op[2]):
                    return
            elif op[0] == "copy":
                if not self.copy(op[1], op[2], op[3]):
                    return
            elif op[1] in self.o:
                if op[0] == "fit":
                    if not self.fit(op[1], op[2]):
                        return
                elif op[0] == "read":
                    self.read(op[1], op[2])
                else:
                    self.fs(op[1], op[2])

    def cfg(self, nobj, win=(0, 0), readmut=False):
        return dict(nobj=nobj, win=win[0], phase=win[1], readmut=readmut)


def spec_of(e, rng, n):
    """a random identity with a table of n instances"""
    p = e.args(rng)
    return dict(zoo=e.key, p=p, table=e.gen(rng, n, p), labels=[rng.randint(0, 1) for _ in range(n)])


# ---------------------------------------------------------------------------
# C08: batch against one at a time
def batch_scenario(e, rng, r):
    p = e.args(rng)
    pre = e.pre(p)
    n = pre + rng.choice([3, 6, 8]) if e.cost < 10 else 4
    T = e.gen(rng, n, p)
    labels = [rng.randint(0, 1) for _ in range(n)]
    ops, i = [], 0
    if pre > 12:
        ops.append(("fit", 0, pre - 3))
        i = pre - 3
    while i < n:
        k = min(n - i, rng.choice([1, 2, 3, 5]))
        if e.name in ("IForestASD",) and i == 0:
            k = max(k, min(n, 2))
        m = rng.choice(["fit", "fs", "fs"])
        if e.name == "PerfectModel":
            m = "fs"
        ops.append((m, i, i + k))
        i += k
        if rng.random() < .6 and e.name != "PerfectModel":
            a = rng.randrange(n)
            ops.append(("read", a, min(n, a + rng.choice([1, 2, 4]))))
    return dict(zoo=e.key, p=p, table=T, labels=labels, ops=ops, usey=rng.random() < .5)


def run_batch(scn):
    e = by_name(scn["zoo"])
    sp = dict(zoo=scn["zoo"], p=scn["p"], table=scn["table"],
              labels=[None] * len(scn["table"]) if e.y == "opt" and not scn["usey"] else scn["labels"])
    w = World([sp], rng="cont", shared=False)
    # object 1: one at a time
    if not w.new(1, 0):
        return [dict(spec="Fun", cfg=w.cfg(2, readmut=True), ev=w.ev)]
    done = []
    for (m, a, b) in scn["ops"]:
        mark, toks = len(w.ev), w.nexc
        for t in range(a, b):
            if m == "fit":
                w.fit(1, t)
            elif m == "fs":
                if e.split:
                    w.fit(1, t)
                    w.read(1, t, restore=False)
                else:
                    w.fs(1, t)
            else:
                w.read(1, t, restore=False)
        if w.nexc > toks:      # the component raises here: compare up to this point
            del w.ev[mark:]
            break
        done.append((m, a, b))
    # object 2: in batches
    w.new(2, 0)
    o = w.o[2]
    for (m, a, b) in done:
        X = A(sp["table"][a:b])
        y = None if e.kind != "model" or sp["labels"][a] is None else np.array(sp["labels"][a:b])
        X0 = X.copy()
        w.load(w.state[2])
        R, err = None, None
        try:
            if m == "fit":
                R = o.fit(X, y) if e.kind == "model" else o.fit(X)
            elif m == "fs":
                R = (o.fit_score(X, y) if y is not None else o.fit_score(X)) if e.kind == "model" else o.fit_transform(X)
            else:
                R = o.score(X) if e.kind == "model" else o.transform(X)
        except Timeout:
            raise
        except Exception as ex:
            err = "exc:" + type(ex).__name__
        w.state[2] = w.save()
        kept = same_value(X0, X)
        if m == "fit":
            k = err or ("ok" if R is o else "fit-did-not-return-the-object")
        else:
            k = "ok"
            if err is None and not (isinstance(R, np.ndarray) and R.dtype == np.float64 and len(R) == b - a):
                k = "not-a-float64-array"
        call = e.calls()[0]
        for j, t in enumerate(range(a, b)):
            d = dict(o=2, id=0, k=k, kept=kept, x=t + 1, call="", out=0, rm=False)
            if m == "fit":
                d["op"] = "fit"
            else:
                d["out"] = w.intern(err if err else R[j] if k == "ok" else k)
                d["op"] = "fr" if m == "fs" else "read"
                d["call"] = call if e.split or m == "read" else "fs"
            w.ev.append(d)
    return [dict(spec="Fun", cfg=w.cfg(2, readmut=True), ev=w.ev)]
