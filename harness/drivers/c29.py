from common import *
SPEC = "Ensembler"
ASSUMPTIONS = ["average-of-maximum and maximum-of-average are judged for static buckets without bootstrapping and for numbers of scores divisible by n_buckets"]


def emit(s):
    c = s["cfg"]
    return [dict(cfg=c, ops=[dict(op=o["op"], ss=[o["s"]], how="partial") for o in s["ops"]], scale=1.0, default=False, seed=1)]


def mc(tier):
    q = tier == "quick"
    c = dict(MaxLen=2 if q else 3, EmitScn="TRUE", Vecs="{<<0, 1, 2, 5>>, <<-3, -3, 4, 1>>, <<7, 0, 0, 7>>}")
    return [dict(module="MC_Ensembler", emit=emit, limit=150 if q else 1000, cfg=mccfg(["Between", "Order", "Unique", "Emit"], c))]


def scenarios(rng, tier):
    out = []
    for i in range(300 if tier == "quick" else 2500):
        kind = rng.choice(["avg", "wavg", "wavg", "max", "med", "aom", "aom", "moa", "moa"])
        b = rng.choice([2, 2, 3, 4, 5])
        if kind in ("aom", "moa"):
            n = b * rng.choice([1, 2, 3] if b <= 3 else [1, 2])
            n = n if n <= 9 else b
        else:
            n = rng.choice([1, 2, 3, 4, 5, 8, 9, 20, 33, 65, 130, 300])
        w = [rng.randint(0, 5) for _ in range(n)]
        if kind == "wavg" and n > 1 and rng.random() < .4:
            w = [rng.choice([1, 1, 2, 5, 40]) for _ in range(n)]
            for j in range(rng.choice([1, 1, 3])):
                w[rng.randrange(n)] = rng.choice([600, 9000, 30000])
        if sum(w) == 0:
            w[0] = 1
        ops = []
        for j in range(rng.randint(1, 7)):
            k = rng.choice([1, 1, 3, 5])
            ops.append(dict(op=rng.choice(["fit", "transform", "transform", "fit_transform"]), ss=[values(rng, n, 20) for _ in range(k)], how=rng.choice(["partial", "batch"])))
        out.append(dict(cfg=dict(kind=kind, w=w, b=b, Q=10000), ops=ops, scale=rng.choice([1.0, .5, .1, 1e-3, 3.7, 1e4]), default=rng.random() < .5, seed=rng.randrange(10 ** 6)))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for kind in ["avg", "wavg", "max", "med", "aom", "moa"]:
        n = 4 if kind in ("aom", "moa") else 5
        ops = [dict(op=rng.choice(["fit", "transform", "transform", "fit_transform"]), ss=[values(rng, n, 20) for _ in range(k)], how="batch" if k > 1 else "partial")
               for k in [rng.choice([1, 1, 1, 40]) for _ in range(400)]]
        out.append(dict(cfg=dict(kind=kind, w=[1, 2, 0, 3, 1][:n], b=2, Q=10000), ops=ops, scale=1.0, default=False, seed=rng.randrange(10 ** 6)))
    return out


def execute(scn):
    from pysad.transform import ensemble as E
    from pysad.utils import fix_seed
    fix_seed(scn["seed"])
    c, sc, Q = scn["cfg"], scn["scale"], scn["cfg"]["Q"]
    box = []

    def new():
        k = c["kind"]
        if k == "avg":
            box.append(E.AverageScoreEnsembler())
        elif k == "wavg":
            box.append(E.AverageScoreEnsembler(estimator_weights=np.array([c["w"]], dtype=float)))
        elif k == "max":
            box.append(E.MaximumScoreEnsembler())
        elif k == "med":
            box.append(E.MedianScoreEnsembler())
        else:
            cls = E.AverageOfMaximumScoreEnsembler if k == "aom" else E.MaximumOfAverageScoreEnsembler
            box.append(cls() if c["b"] == 5 and scn["default"] else cls(n_buckets=c["b"]))
    ev = [dict(op="new", r=do(new))]
    for o in scn["ops"] if box else []:
        m = box[0]
        A = np.array(o["ss"], dtype=float) * sc
        A0 = A.copy()
        if o["how"] == "batch":
            fn = {"fit": m.fit, "transform": m.transform, "fit_transform": m.fit_transform}[o["op"]]
            try:
                R, err = fn(A), None
            except Exception as e:
                R, err = None, exc(e)
            kept = bool((A == A0).all())
            for i, s in enumerate(o["ss"]):
                if o["op"] == "fit":
                    ev.append(dict(op="fit", r=err or dict(OK)))
                else:
                    ev.append(dict(op="transform", s=s, kept=kept, r=err or call(lambda: R[i], Q=Q, scale=sc)))
        else:
            fn = {"fit": m.fit_partial, "transform": m.transform_partial, "fit_transform": m.fit_transform_partial}[o["op"]]
            for i, s in enumerate(o["ss"]):
                if o["op"] == "fit":
                    ev.append(dict(op="fit", r=do(fn, A[i])))
                else:
                    r = call(fn, A[i], Q=Q, scale=sc)
                    ev.append(dict(op="transform", s=s, kept=bool((A[i] == A0[i]).all()), r=r))
    return [dict(cfg=c, ev=ev)]
