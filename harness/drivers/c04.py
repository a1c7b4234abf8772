from common import *
SPEC = "Post"
KINDS = ["avg", "max", "median", "z"]
ASSUMPTIONS = ["scores are integers times a scale factor", "Z-score with zero deviation and reads before the first fit are not claimed"]


def emit(s):
    w = s["cfg"]["w"]
    return [dict(ops=s["ops"], w=w, kind=k, scale=1.0) for k in KINDS]


def mc(tier):
    L = 4 if tier == "quick" else 5
    out = [dict(module="MC_Post", emit=emit, limit=400 if tier == "quick" else 3000,
                cfg=mccfg(["PostInv", "ConfInv", "Emit"], dict(MaxLen=L, EmitScn="TRUE", Vals="{-1, 0, 2}", Sizes="{0, 1, 2, 3}")))]
    return out


def scenarios(rng, tier):
    out = []
    for i in range(400 if tier == "quick" else 3000):
        w = 0 if rng.random() < .4 else wsize(rng, True)
        L = min(300, rng.choice([8, 25, (w or 20) * 2 + 3, (w or 30) * 3 + 2]))
        lim = 30 if L <= 100 else 5
        vals = values(rng, L, lim)
        style = rng.choice(["mix", "ft", "fits"])
        often = rng.choice([.1, .35, .6])
        ops = []
        for j, v in enumerate(vals):
            if style == "ft" or (style == "mix" and rng.random() < .4):
                ops.append(dict(op="fit_transform", x=v))
            else:
                ops.append(dict(op="fit", x=v))
            while rng.random() < often and style != "ft":
                ops.append(dict(op="transform", x=rng.randint(-lim, lim)))
        ops.append(dict(op="transform", x=rng.randint(-lim, lim)))
        out.append(dict(ops=ops, w=w, kind=KINDS[i % 4], scale=rng.choice(SCALES), ty=rng.choice(["float", "np64", "int"])))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for i, kind in enumerate(KINDS * (2 if tier == "quick" else 6)):
        w = 0 if i % 8 < 4 else rng.choice([1, 2, 10, 50, 300, 1000])
        ops = []
        for x in values(rng, 2300, 4):
            ops.append(dict(op="fit", x=x) if rng.random() < .97 else dict(op="fit_transform", x=x))
            if rng.random() < .02:
                ops.append(dict(op="transform", x=rng.randint(-5, 5)))
        ops.append(dict(op="transform", x=2))
        out.append(dict(ops=ops, w=w, kind=kind, scale=rng.choice([1.0, .5, .1, 1e-6]), ty="float"))
    for i, kind in enumerate(KINDS * (1 if tier == "quick" else 3)):
        w = 0 if i < 4 else rng.choice([0, 1500, 5000])
        ops = []
        for j in range(12000):
            ops.append(dict(op="fit", x=rng.choice([-3, 3, 3] if j < 4000 else [-3, 2, -2]) if j not in (7, 5000) else 4))
            if rng.random() < .0006:
                ops.append(dict(op="transform", x=rng.randint(-5, 5)))
        ops.append(dict(op="transform", x=2))
        out.append(dict(ops=ops, w=w, kind=kind, scale=rng.choice([1.0, .5, .1]), ty="float"))
    return out


def make(kind, w):
    from pysad.transform import postprocessing as P
    if w:
        return dict(avg=P.RunningAveragePostprocessor, max=P.RunningMaxPostprocessor, median=P.RunningMedianPostprocessor,
                    z=P.RunningZScorePostprocessor)[kind](w)
    return dict(avg=P.AveragePostprocessor, max=P.MaxPostprocessor, median=P.MedianPostprocessor, z=P.ZScorePostprocessor)[kind]()


def execute(scn):
    k, a, w = scn["kind"], scn["scale"], scn["w"]
    Q = 1000
    rs = 1.0 if k == "z" else a
    box = []
    ev = [dict(op="new", r=do(lambda: box.append(make(k, w))))]
    cfg = dict(kind=k, w=w, Q=Q, za=1, zb=1)
    if box:
        m = box[0]
        for o in scn["ops"]:
            x = typed(scn.get("ty", "float"), o["x"] * a)
            if o["op"] == "fit":
                ev.append(dict(op="fit", x=o["x"], r=do(m.fit_partial, x)))
            elif o["op"] == "transform":
                ev.append(dict(op="transform", x=o["x"], r=call(m.transform_partial, x, Q=Q, scale=rs)))
            else:
                ev.append(dict(op="fit_transform", x=o["x"], r=call(m.fit_transform_partial, x, Q=Q, scale=rs)))
    return [dict(cfg=cfg, ev=ev)]
