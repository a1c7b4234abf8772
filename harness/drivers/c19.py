from common import *
SPEC = "Deviation"
ASSUMPTIONS = ["values are integer multiples (|m| <= 12) of a scale between 0.1 and 1e6; relative accuracy 1e-3"]
BS = {1.4826: (7413, 5000), 1.0: (1, 1), 2.0: (2, 1), .5: (1, 2)}


def emit(s):
    ops = []
    for o in s["ops"]:
        ops += [dict(op="fit", x=o["x"]), dict(op="score", x=o["x"]), dict(op="score", x=3 - o["x"])]
    return [dict(kind=s["cfg"]["kind"], abs=s["cfg"]["abs"], b=1.4826, ops=ops, scale=1.0)]


def mc(tier):
    c = dict(MaxLen=5 if tier == "quick" else 7, EmitScn="TRUE", Kinds=sset(["mad", "mean", "median"]), Pts="{0, 1, 4}" if tier == "quick" else "{-2, 0, 1, 4}")
    return [dict(module="MC_Deviation", emit=emit, limit=300 if tier == "quick" else 3000, cfg=mccfg(["DevInv", "MeterInv", "Emit"], c))]


def scenarios(rng, tier):
    out = []
    for i in range(300 if tier == "quick" else 3000):
        n = rng.choice([1, 2, 3, 5, 8, 13, 20, 40, 60])
        ops, p = [], rng.choice([1.0, .5, .2])
        for x in values(rng, n, 12):
            ops.append(dict(op="fit", x=x))
            while rng.random() < p:
                ops.append(dict(op="score", x=x if rng.random() < .5 else rng.randint(-12, 12)))
                if rng.random() < .6:
                    break
        ops.append(dict(op="score", x=rng.randint(-12, 12)))
        out.append(dict(kind=rng.choice(["mad", "mad", "mean", "median"]), abs=rng.random() < .5, b=rng.choice(list(BS) + [1.4826]), ops=ops,
                        scale=rng.choice([1.0, .5, .1, 3.7, 1e3, 1e6])))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    # as many small as large deviations: one more or less of either moves the median
    for n, off in [(1060, 6), (1060, -5)] + ([] if tier == "quick" else [(2100, 7), (2100, -6)]):
        ops = []
        while len(ops) < n:
            block = [off, off + 1, off - 1, off + 3, off - 3, off + (3 if len(ops) % 4 else -3)]
            rng.shuffle(block)
            for x in block:
                ops.append(dict(op="fit", x=x))
            if rng.random() < .1 or len(ops) > n - 12 or 0 < len(ops) % 1024 < 14:
                ops.append(dict(op="score", x=off + rng.choice([2, 4])))
        out.append(dict(kind="mad", abs=rng.random() < .5, b=rng.choice(list(BS)), ops=ops, scale=rng.choice([1.0, .1])))
    for kind in ["mad", "mean", "median"] * (1 if tier == "quick" else 3):
        ops = []
        n = 1300 if kind == "mad" else 1700
        for j in range(n):
            ops.append(dict(op="fit", x=rng.randint(-3, 3) + (4 if j > n // 2 else 0)))
            if rng.random() < .02:
                ops.append(dict(op="score", x=rng.randint(-5, 9)))
        out.append(dict(kind=kind, abs=rng.random() < .5, b=rng.choice(list(BS)), ops=ops, scale=rng.choice([1.0, .1])))
    for kind in ["mean", "median"] * (1 if tier == "quick" else 2):
        ops = []
        for j in range(11000):
            ops.append(dict(op="fit", x=rng.choice([0, 2, 2] if j < 4000 else [-1, 0, 1])))
            if rng.random() < .0008:
                ops.append(dict(op="score", x=rng.randint(-2, 2)))
        out.append(dict(kind=kind, abs=rng.random() < .5, b=1.0, ops=ops + [dict(op="score", x=2)], scale=1.0))
    return out


def execute(scn):
    from pysad.models import MedianAbsoluteDeviation, StandardAbsoluteDeviation
    bn, bd = BS[scn["b"]]
    cfg = dict(kind=scn["kind"], abs=scn["abs"], bn=bn, bd=bd, Q=1000)
    sc = scn["scale"]

    def new():
        if scn["kind"] == "mad":
            kw = {} if scn["b"] == 1.4826 else dict(b=scn["b"])
            if not scn["abs"] or scn["b"] == 2.0:
                kw["absolute"] = scn["abs"]
            box.append(MedianAbsoluteDeviation(**kw))
        else:
            kw = {} if scn["abs"] else dict(absolute=False)
            if scn["kind"] == "median" or scn["b"] == 1.0:
                kw["substracted_statistic"] = scn["kind"]
            box.append(StandardAbsoluteDeviation(**kw))
    box = []
    ev = [dict(op="new", r=do(new))]
    for o in scn["ops"] if box else []:
        X = np.array([o["x"] * sc])
        if o["op"] == "fit":
            ev.append(dict(op="fit", x=o["x"], r=do(box[0].fit_partial, X)))
        else:
            ev.append(dict(op="score", x=o["x"], r=call(box[0].score_partial, X, Q=1000)))
    return [dict(cfg=cfg, ev=ev)]
