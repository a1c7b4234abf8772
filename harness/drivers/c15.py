from common import *
SPEC = "RRCF"
ASSUMPTIONS = ["instances are 10^(9e)*direction, so that the hidden random cuts are known but for a chance of about 1e-9 per cut; rrcf itself is trusted to hold the points it is given (its handling of equal points is not judged)"]


def emit(s):
    c = s["cfg"]
    return [dict(cfg=dict(c, trees=t), ops=[dict(op="fit", x=o["x"]) for o in s["ops"]], dim=d, seed=len(s["ops"]), probe=True) for t, d in ((1, 1), (3, 2))]


def mc(tier):
    c = dict(MaxLen=6 if tier == "quick" else 7, EmitScn="TRUE", Sizes="{1, 2, 3, 4}", Pts="{1, 3, 5}")
    out = [dict(module="MC_RRCF", emit=emit, limit=250 if tier == "quick" else 1500, cfg=mccfg(["IndexInv", "RankInv", "Emit"], c))]
    c = dict(MaxLen=5 if tier == "quick" else 7, EmitScn="FALSE", Sizes="{2, 3, 4, 5}", Pts="{1, 2, 3, 4}")
    out.append(dict(module="MC_RRCF", cfg=mccfg(["IndexInv", "RankInv"], c)))
    return out


def scenarios(rng, tier):
    out = []
    for i in range(220 if tier == "quick" else 2000):
        size = rng.choice([1, 2, 3, 4, 5, 8, 12, 16])
        trees = rng.choice([1, 2, 4, 7])
        L = min(60, rng.choice([size, size + 1, size + 2, 2 * size + 3, 3 * size + 1]))
        ops, recent = [], []
        dup = rng.random() < .2
        pool = rng.sample(range(-30, 31), min(60, size + rng.choice([1, 2, 3, 8])))
        for j in range(L):
            x = rng.choice(pool if dup else [p for p in pool if p not in recent])
            recent = (recent + [x])[-size:]
            ops.append(dict(op="fit", x=x))
            while rng.random() < .5:
                r = rng.random()
                ops.append(dict(op="score", x=31 if r < .2 else rng.choice(pool) if r < .4 else rng.choice(recent) if r < .6 else rng.randint(-31, 31)))
        ops.append(dict(op="score", x=31))
        ops.append(dict(op="score", x=rng.choice(recent)))
        out.append(dict(cfg=dict(size=size, trees=trees, Q=1000), ops=ops, dim=rng.choice([1, 1, 2, 4]), seed=rng.randrange(10 ** 6), probe=False))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    """long streams; beyond 60 points the tokens repeat, and only the number retained is seen"""
    out = []
    for size in [3, 20, 59, 59, 100, 256] * (1 if tier == "quick" else 3):
        L = 1100 if size == 3 else 420 if size < 100 else size * 2 + 60
        ops, recent = [], []
        for j in range(L):
            x = rng.choice([p for p in range(-30, 31) if p not in recent] if size < 60 else list(range(-30, 31)))
            recent = (recent + [x])[-size:]
            ops.append(dict(op="fit", x=x))
            if rng.random() < .04 or j in (size - 1, size, size + 1):
                ops.append(dict(op="score", x=31))
                ops.append(dict(op="score", x=rng.choice(recent)))
        ops.append(dict(op="score", x=31))
        out.append(dict(cfg=dict(size=size, trees=1 if size > 60 else 2, Q=1000), ops=ops, dim=rng.choice([1, 2]), seed=rng.randrange(10 ** 6), probe=False))
    return out



def execute(scn):
    from pysad.models import RobustRandomCutForest
    from pysad.utils import fix_seed
    c, dim = scn["cfg"], scn["dim"]
    fix_seed(scn["seed"])
    u = np.array([1.0, -.5, 2.0, .25])[:dim]
    X = lambda t: u * 10.0 ** (9 * t)
    box = []
    ev = [dict(op="new", r=do(lambda: box.append(RobustRandomCutForest(num_trees=c["trees"], tree_size=c["size"]))))]
    if box:
        m = box[0]
        vals = sorted({o["x"] for o in scn["ops"]})
        for o in scn["ops"]:
            if o["op"] == "fit":
                ev.append(dict(op="fit", x=o["x"], r=do(m.fit_partial, X(o["x"]))))
                if scn["probe"]:
                    for v in vals + [4, 6]:
                        ev.append(dict(op="score", x=v, r=call(m.score_partial, X(v), Q=c["Q"])))
            else:
                ev.append(dict(op="score", x=o["x"], r=call(m.score_partial, X(o["x"]), Q=c["Q"])))
    return [dict(cfg=c, ev=ev)]
