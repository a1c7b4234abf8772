from common import *
SPEC = "RSHash"
ASSUMPTIONS = ["instances are integer vectors: the randomly drawn cell width is below 1, so equality on the subspace is equality of cells (for every random shift); near-duplicates are at most 1e-12 apart, so they share the cells of their integer vector"]


def emit(s):
    return [dict(ops=[o["x"] for o in s["ops"]], dim=1, m=m, w=w, decay=d, seed=1) for m, w, d in ((1, 1, 1.0), (4, 2, .015))]


def mc(tier):
    c = dict(MaxLen=6 if tier == "quick" else 9, EmitScn="TRUE", Pts="{0, 1, 2}" if tier == "quick" else "{0, 1}")
    return [dict(module="MC_RSHash", emit=emit, limit=300 if tier == "quick" else 512, cfg=mccfg(["LazyInv", "FreshInv", "Emit"], c))]


def scenarios(rng, tier):
    out = []
    for i in range(220 if tier == "quick" else 2000):
        dim = rng.choice([1, 1, 2, 3])
        m = rng.choice([1, 2, 5, 20]) if dim == 1 else rng.choice([1, 1, 2])
        L = rng.choice([5, 15, 40, 80]) if dim == 1 else rng.choice([5, 15, 30])
        decay = rng.choice([.015, .1, .5, 1.0, 2.0])
        if dim > 1 and m == 2:
            decay = 2.0
        k = rng.choice([1, 2, 4])
        pool = [[rng.randint(-k, k) for _ in range(dim)] for _ in range(rng.choice([2, 5, 20]))]
        fixed = [f for f in range(dim) if rng.random() < .4] if dim > 1 and rng.random() < .4 else []
        out.append(dict(fixed=fixed, near=rng.choice([0, 0, 1e-12]), ops=[rng.choice(pool) for _ in range(L)], dim=dim, m=m, w=rng.choice([1, 1, 2, 4]), decay=decay, U=rng.choice([1, 1, 1, 7, 2.0 ** 31, -2.0 ** 34, 1e12]), seed=rng.randrange(10 ** 6)))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for i in range(4 if tier == "quick" else 12):
        pool = [[rng.randint(-4, 4)] for _ in range(4)]
        rare = [[7], [-7]]
        ops = [rare[j % 2] if j % 397 < 2 else rng.choice(pool) for j in range(1250 if i % 4 else 5000)]
        out.append(dict(ops=ops, dim=1, m=rng.choice([1, 5]), w=rng.choice([1, 4]), decay=rng.choice([.015, .002, .1]), seed=rng.randrange(10 ** 6), ps=.03 if i % 4 else .01))
    return out


def execute(scn):
    import random
    from pysad.models import RSHash
    from pysad.utils import fix_seed
    dim, m = scn["dim"], scn["m"]
    rng = random.Random(scn["seed"])
    feat = [f + 1 for f in range(dim) if f not in scn.get("fixed", [])] or list(range(1, dim + 1))
    two = len(feat) > 1 and m == 2
    Q = 10000 if two else 10 ** 6
    L = len(scn["ops"])
    U = scn.get("U", 1)
    if not two:
        Q = int(10 ** math.floor(math.log10(9e8 / (2 + min(L, 1 / (1 - 2.0 ** -scn["decay"]))))))
    low, high = np.full(dim, -10.), np.full(dim, 10.)
    for f in scn.get("fixed", []):
        low[f] = high[f] = f
    near = scn.get("near", 0) if U == 1 else 0
    cfg = dict(feat=feat, m=m, dim=dim, Q=Q, tab=[round(2 ** (-scn["decay"] * a) * Q) for a in range(L + 1)])
    fix_seed(scn["seed"])
    box = []
    ev = [dict(op="new", r=do(lambda: box.append(RSHash(low, high, sampling_points=rng.choice([1000, 10, 1]), decay=scn["decay"], num_components=m, num_hash_fns=scn["w"]))))]

    def enc(v):
        f = scalar(v)
        if f is None or f != f or abs(f) > 30:
            return num(v)
        return num(math.exp(f * (2 if two else 1)) - 1, Q)
    if box:
        mod = box[0]
        for x in scn["ops"]:
            X = np.array(x, dtype=float) * U + [near * rng.uniform(-1, 1) for _ in range(dim)]
            if rng.random() < .3:
                r = call(mod.fit_score_partial, X, enc=enc)
                ev.append(dict(op="fit", x=x, r=dict(OK)))
                ev.append(dict(op="score", r=r))
            else:
                ev.append(dict(op="fit", x=x, r=do(mod.fit_partial, X)))
            while rng.random() < scn.get("ps", .5):
                q = X if rng.random() < .3 else np.array([rng.randint(-4, 4) for _ in range(dim)], dtype=float) * U
                ev.append(dict(op="score", r=call(mod.score_partial, q, enc=enc)))
        ev.append(dict(op="score", r=call(mod.score_partial, X, enc=enc)))
    return [dict(cfg=cfg, ev=ev)]
