from common import *
SPEC = "HST"
ASSUMPTIONS = ["feature ranges are divisible by 2^max_depth in exactly representable units, so that midpoints are exact"]


def emit(s):
    c = s["cfg"]
    return [dict(cfg=dict(c, mult=t), ops=[dict(o) for o in s["ops"]], scale=sc, probe=1, offs=[0], trees=t, seed=1, how="none") for t, sc in ((1, 1.0), (5, .5))]


def mc(tier):
    c = dict(MaxLen=5 if tier == "quick" else 7, EmitScn="TRUE", Ws="{1, 2, 3}" if tier == "quick" else "{1, 2, 3, 4}", Pts="{0, 3, 4, 7}" if tier == "quick" else "{0, 4, 7}", Depth="2")
    return [dict(module="MC_HST", emit=emit, limit=400 if tier == "quick" else 4000, cfg=mccfg(["MassInv", "RefInv", "Emit"], c))]


def scenarios(rng, tier):
    out = []
    for i in range(260 if tier == "quick" else 2000):
        nd = rng.choice([1, 1, 1, 2, 2, 3])
        if nd == 1:
            depth = rng.choice([0, 1, 2, 3, 5, 8, 15]) if i % 9 else 15
            trees = rng.choice([1, 2, 5, 25]) if depth < 15 else rng.choice([1, 2])
            w = rng.choice([1, 2, 3, 5, 8, 10, 17, 25])
            rg = [2 ** depth * rng.choice([1, 2, 4] if depth < 15 else [1])]
            cfgtrees, mult = 1, trees
        else:
            depth = rng.choice([1, 2, 2, 3]) if nd == 2 else rng.choice([1, 2])
            trees = rng.choice([1, 1, 2]) if depth <= (2 if nd == 2 else 1) else 1
            w = rng.choice([1, 2, 3, 5, 8])
            rg = [2 ** depth * rng.choice([1, 2, 3]) for _ in range(nd)]
            cfgtrees, mult = trees, 1
        pt = lambda: [rng.randint(0, g) if rng.random() < .9 else rng.choice([-1, g + 1]) for g in rg]
        L = min(60 if nd == 1 else 30, rng.choice([w, w + 1, 2 * w + 1, 3 * w + 2, 4 * w]))
        if depth == 15:
            L = min(L, 12)
        k = rng.choice([0, 0, 0, 1, w, w + 1, 2 * w])
        ops = []
        pool = [pt() for _ in range(rng.choice([2, 4, 30]))]
        for _ in range(L):
            ops.append(dict(op="fit", x=rng.choice(pool)))
            while rng.random() < .45:
                ops.append(dict(op="score", x=rng.choice(pool + [pt()])))
        ops.append(dict(op="score", x=pt()))
        out.append(dict(cfg=dict(w=w, depth=depth, trees=cfgtrees, range=rg, mult=mult, init=[pt() for _ in range(min(k, 20))]), trees=trees, ops=ops,
                        scale=rng.choice([1.0, .5, 4.0, 2 ** -8, 2.0 ** -30, 2.0 ** -45, 2.0 ** 24]), probe=0, offs=[rng.choice([0, 0, -4, 8, 0, 2 ** 26, 2 ** 33 + 1, -2 ** 29]) for _ in rg], seed=rng.randrange(10 ** 6),
                        how=rng.choice(["array", "list"])))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for w, n in [(1, 1500), (20, 1500), (100, 1500), (250, 1500), (600, 1500), (250, 5000), (2300, 5200)] * (1 if tier == "quick" else 3):
        depth, rg = rng.choice([3, 5]), 32
        pool = [[rng.randint(0, rg)] for _ in range(12)]
        ops = []
        for j in range(n):
            ops.append(dict(op="fit", x=pool[(j // 50 + rng.randint(0, 3)) % 12]))
            if rng.random() < .03:
                ops.append(dict(op="score", x=rng.choice(pool)))
        trees = rng.choice([1, 25])
        out.append(dict(cfg=dict(w=w, depth=depth, trees=1, range=[rg], mult=trees, init=[]), trees=trees, ops=ops, scale=1.0, probe=0, offs=[0],
                        seed=rng.randrange(10 ** 6), how="array"))
    return out


def execute(scn):
    from pysad.models import HalfSpaceTrees
    from pysad.utils import fix_seed
    c, a = scn["cfg"], scn["scale"]
    offs = np.array(scn["offs"], dtype=float)
    X = lambda p: (np.array(p, dtype=float) + offs) * a
    lo, hi = X([0] * len(c["range"])), X(c["range"])
    fix_seed(scn["seed"])
    box = []

    def mk():
        kw = {}
        if c["init"]:
            kw["initial_window_X"] = np.array([X(p) for p in c["init"]])
        l, h = (lo, hi) if scn["how"] != "list" else (list(lo), list(hi))
        box.append(HalfSpaceTrees(l, h, window_size=c["w"], num_trees=scn["trees"], max_depth=c["depth"], **kw))
    ev = [dict(op="new", r=do(mk))]
    if box:
        m = box[0]
        pts = sorted({tuple(o["x"]) for o in scn["ops"]})
        for o in scn["ops"]:
            if o["op"] == "fit":
                ev.append(dict(op="fit", x=o["x"], r=do(m.fit_partial, X(o["x"]))))
                if scn["probe"]:
                    for p in pts:
                        ev.append(dict(op="score", x=list(p), r=call(m.score_partial, X(p))))
            else:
                ev.append(dict(op="score", x=o["x"], r=call(m.score_partial, X(o["x"]))))
    return [dict(cfg=c, ev=ev)]
