from common import *
SPEC = "Metric"
KINDS = ["precision", "recall", "auroc", "aupr"]


def emit(s):
    ops = [dict(op="update", y=o["y"], s=o["s"]) for o in s["ops"]]
    out = [dict(ops=ops, kind=k, reads="end", ty="int") for k in ("auroc", "aupr")]
    if all(o["s"] in (0, 1) for o in ops):
        out += [dict(ops=ops, kind=k, reads="all", ty="int") for k in ("precision", "recall")]
    return out


def mc(tier):
    L = 4 if tier == "quick" else 5
    out = [dict(module="MC_Metric", emit=emit, limit=300 if tier == "quick" else 4000,
                cfg=mccfg(["Sane", "Counted", "OrderFree", "Mirror", "Emit"], dict(MaxLen=L, EmitScn="TRUE", Scores="{0, 1, 2}")))]
    out.append(dict(module="MC_Metric", emit=emit, limit=300 if tier == "quick" else 3000,
                    cfg=mccfg(["Sane", "Counted", "OrderFree", "Mirror", "Emit"], dict(MaxLen=L + 1, EmitScn="TRUE", Scores="{0, 1}"))))
    return out


def scenarios(rng, tier):
    out = []
    for i in range(260 if tier == "quick" else 2500):
        k = KINDS[i % 4]
        L = rng.choice([3, 8, 20, 40, 60] + ([110] if rng.random() < .3 else []))
        pp = rng.choice([.05, .3, .5, .8])
        lv = rng.choice([2, 3, 5, 20])
        ops = []
        for _ in range(L):
            ops.append(dict(op="update", y=int(rng.random() < pp), s=rng.randint(0, 1) if i % 4 < 2 else rng.randint(0, lv)))
        out.append(dict(ops=ops, kind=k, reads=rng.choice(["end", "some", "all"]) if L < 30 else rng.choice(["end", "some"]),
                        ty=rng.choice(["int", "float", "np", "bool"]), seed=rng.randrange(10 ** 6), scale=rng.choice([1.0, .1, 100.0, 1e-5, 1e-9, 1e-13, 1e12]), off=rng.choice([0, 0, 0, 1.0, -1.0])))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    """long histories, read rarely: every pair still counts"""
    out = []
    for i, k in enumerate(KINDS * (2 if tier == "quick" else 5)):
        n = rng.choice([1100, 2200, 4500]) if k in ("precision", "recall") else rng.choice([1050, 1300, 2200])
        pp = rng.choice([.05, .3]) if k in ("precision", "recall") else 60 / n
        lv = rng.choice([2, 4])
        ops = []
        for j in range(n):
            late = j > n // 2
            y = int(rng.random() < pp * (1.6 if late else .4))
            if k in ("precision", "recall"):
                s = int(rng.random() < (.7 if late == (i % 2 == 0) else .2))
            else:
                s = rng.randint(0, lv) + (y if late == (i % 2 == 0) else 0)
            ops.append(dict(op="update", y=y, s=s))
        out.append(dict(ops=ops, kind=k, reads="rare", ty="int", seed=rng.randrange(10 ** 6), scale=1.0, Q=1000))
    for k in KINDS * (1 if tier == "quick" else 3):
        n, ops = 12000, []
        for j in range(n):
            early = j < n // 3
            if k in ("precision", "recall"):
                y, s = int(rng.random() < (.6 if early else .2)), int(rng.random() < .5)
                s = y if early and rng.random() < .5 else s
            else:
                y = int(rng.random() < 90 / n)
                s = rng.randint(0, 3) + (2 * y if early else 0)
            ops.append(dict(op="update", y=y, s=s))
        out.append(dict(ops=ops, kind=k, reads="end", ty="int", seed=0, scale=1.0, Q=1000))
    for k in ["auroc", "aupr"] * (1 if tier == "quick" else 3):
        # one class only at the end
        last = rng.randrange(2)
        ops = [dict(op="update", y=int(rng.random() < .5) if j < 60 else last, s=rng.randint(0, 3) + (j < 60)) for j in range(rng.choice([10200, 11500]))]
        out.append(dict(ops=ops, kind=k, reads="end", ty=rng.choice(["int", "float"]), seed=0, scale=1.0, Q=1000))
    return out


def execute(scn):
    import random
    from pysad.evaluation import PrecisionMetric, RecallMetric, AUROCMetric, AUPRMetric
    k, ty = scn["kind"], scn["ty"]
    rng = random.Random(scn.get("seed", 0))
    Q = scn.get("Q", 10000)
    box = []
    cls = dict(precision=PrecisionMetric, recall=RecallMetric, auroc=AUROCMetric, aupr=AUPRMetric)[k]
    ev = [dict(op="new", r=do(lambda: box.append(cls())))]
    if box:
        m = box[0]
        for o in scn["ops"]:
            y = {"int": int, "float": float, "np": np.int64, "bool": bool}[ty](o["y"])
            s = o["s"]
            if k in ("auroc", "aupr"):
                s = s * scn.get("scale", 1.0) + scn.get("off", 0)
            else:
                s = {"int": int, "float": float, "np": np.int64, "bool": bool}[ty](s)
            ev.append(dict(op="update", y=o["y"], s=o["s"], r=do(m.update, y, s)))
            if scn["reads"] == "all" or (scn["reads"] == "some" and rng.random() < .15) or (scn["reads"] == "rare" and rng.random() < .002):
                for _ in range(rng.choice([1, 1, 2])):
                    ev.append(dict(op="get", r=call(m.get, Q=Q)))
        ev.append(dict(op="get", r=call(m.get, Q=Q)))
        ev.append(dict(op="get", r=call(m.get, Q=Q)))
    return [dict(cfg=dict(kind=k, Q=Q), ev=ev)]
