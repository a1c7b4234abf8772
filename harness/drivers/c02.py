from common import *
SPEC = "Meters"
KINDS = ["count", "sum", "sumsq", "avg", "var", "min", "max", "median"]
ASSUMPTIONS = ["values are integers times a scale factor; results compared to 1e-4 relative to the scale (exact rationals in the specification)"]


def emit(s):
    return [dict(ops=s["ops"], kind=k, abs=a, scale=sc, reads=1, ty="float") for k, a, sc in
            [(k, False, 1.0) for k in KINDS] + [("min", True, .1), ("max", True, 1.0), ("avg", True, .5)]]


def mc(tier):
    L = 5 if tier == "quick" else 6
    out = [dict(module="MC_Meters", emit=emit, limit=700 if tier == "quick" else 4000,
                cfg=mccfg(["MeterInv", "VarNonNeg", "Order", "Emit"], dict(MaxLen=L, EmitScn="TRUE", Vals="{-1, 0, 2}")))]
    if tier == "thorough":
        out.append(dict(module="MC_Meters", cfg=mccfg(["MeterInv", "VarNonNeg", "Order"], dict(MaxLen=7, EmitScn="FALSE", Vals="{-1, 0, 2}"))))
    return out


def scenarios(rng, tier):
    out = []
    for i in range(450 if tier == "quick" else 3000):
        kind = KINDS[i % 8]
        ab = rng.random() < .25
        L = rng.choice([5, 12, 30, 60, 120] + ([400] if rng.random() < .2 else []))
        lim = 30 if L <= 60 else 5
        vals = values(rng, L, lim)
        ops, held = [], []
        pr = rng.choice([0, .1, .3, .45, .5])
        style = rng.choice(["random", "fifo", "lifo", "extreme", "dup"])
        vi = iter(vals)
        for _ in range(L):
            if held and rng.random() < pr:
                if style == "fifo":
                    x = held[0]
                elif style == "lifo":
                    x = held[-1]
                elif style == "extreme":
                    x = rng.choice([min(held), max(held)])
                elif style == "dup":
                    ds = [v for v in held if held.count(v) > 1]
                    x = rng.choice(ds or held)
                else:
                    x = rng.choice(held)
                held.remove(x)
                ops.append(dict(op="remove", x=x))
            else:
                x = next(vi)
                held.append(x)
                ops.append(dict(op="update", x=x))
        if rng.random() < .25:          # drain completely and refill
            for x in held:
                ops.append(dict(op="remove", x=x))
            for x in values(rng, 4, lim):
                ops.append(dict(op="update", x=x))
        out.append(dict(ops=ops, kind=kind, abs=ab, scale=rng.choice(SCALES), reads=rng.choice([.1, .5, 1, 1]), ty=rng.choice(["float", "int", "np64"]),
                        seed=rng.randrange(10 ** 6)))
    # variance of constant streams never negative
    for c in [0.1, 1 / 3., 1e-8, 123456.789, 1e8 + .1, -7.3]:
        for n in (3, 10, 57):
            out.append(dict(ops=[dict(op="update", x=1)] * n, kind="var", abs=False, scale=c, reads=1, ty="float"))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    """thousands of values held and removed"""
    out = []
    for kind in KINDS * (1 if tier == "quick" else 4):
        n, ops, held = 2300, [], []
        pr = rng.choice([0, .05, .45])
        xs = values(rng, n, 4)
        for i, x in enumerate(xs):
            if held and rng.random() < pr:
                y = held.pop(rng.randrange(len(held)))
                ops.append(dict(op="remove", x=y))
            held.append(x)
            ops.append(dict(op="update", x=x))
        out.append(dict(ops=ops, kind=kind, abs=rng.random() < .2, scale=rng.choice([1.0, .5, .1, 100.0]), reads=.01, ty="float", seed=rng.randrange(10 ** 6)))
    for kind in KINDS * (1 if tier == "quick" else 3):
        n, ops, held = 12000, [], []
        for i in range(n):
            x = rng.choice([-3, 3, 3] if i < n // 3 else [-3, 2, -2])
            if kind in ("max", "min") and i in (7, 1500, 5000):
                x = 9 if kind == "max" else -9
            if i and rng.random() < .01 and ops[-1]["op"] == "update":
                ops.append(dict(op="remove", x=ops[-1]["x"]))
            ops.append(dict(op="update", x=x))
        out.append(dict(ops=ops, kind=kind, abs=False, scale=rng.choice([1.0, .5, .1]), reads=.0006, ty="float", seed=rng.randrange(10 ** 6)))
    return out


def execute(scn):
    import random
    from pysad import statistics as S
    cls = dict(count=S.CountMeter, sum=S.SumMeter, sumsq=S.SumSquaresMeter, avg=S.AverageMeter, var=S.VarianceMeter,
               min=S.MinMeter, max=S.MaxMeter, median=S.MedianMeter)[scn["kind"]]
    k, a = scn["kind"], scn["scale"]
    rng = random.Random(scn.get("seed", 0))
    rs = 1.0 if k == "count" else a * a if k in ("sumsq", "var") else a
    n = sum(o["op"] == "update" for o in scn["ops"])
    mx = max([abs(o["x"]) for o in scn["ops"]] + [1])
    Q = 1 if k in ("count", "sumsq") else 10 if n > 5000 else 100 if n > 150 else 1000
    if k in ("sum", "avg", "min", "max", "median"):
        Q = 1000
    box = []
    ev = [dict(op="new", r=do(lambda: box.append(S.AbsStatistic(cls) if scn["abs"] else cls())))]
    cfg = dict(kind=k, abs=scn["abs"], Q=Q)
    if not box:
        return [dict(cfg=cfg, ev=ev)]
    m = box[0]

    def get():
        raw = []
        r = call(m.get, Q=Q, scale=rs, enc=lambda v: (raw.append(v), num(v, Q, rs))[1])
        f = scalar(raw[0]) if raw else None
        ev.append(dict(op="get", r=r, neg=bool(f is not None and f < 0)))
    get()
    for o in scn["ops"]:
        x = typed(scn["ty"], o["x"] * a)
        ev.append(dict(op=o["op"], x=o["x"], r=do(getattr(m, o["op"]), x)))
        while rng.random() < scn["reads"] * .7 or (scn["reads"] == 1 and ev[-1]["op"] != "get"):
            get()
    get()
    return [dict(cfg=cfg, ev=ev)]
