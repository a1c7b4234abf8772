from common import *
SPEC = "KitNet"
ASSUMPTIONS = ["that a training instance changes the scores is only required on random (non-degenerate) streams"]


def emit(s):
    return [dict(cfg=s["cfg"], ops=[o["op"] for o in s["ops"]], d=1 + (len(s["ops"]) + s["cfg"]["ad"]) % 4, m=2, kind="rand", seed=7, lr=.1, hr=.75)]


def mc(tier):
    c = dict(MaxLen=9 if tier == "quick" else 11, EmitScn="TRUE", Fms="{-1, 0, 1, 2, 3}", Ads="{1, 2, 3}")
    return [dict(module="MC_KitNet", emit=emit, limit=200 if tier == "quick" else 1500, cfg=mccfg(["CodeInv", "Emit"], c))]


def scenarios(rng, tier):
    out = []
    for i in range(160 if tier == "quick" else 1500):
        fm = rng.choice([-1, 0, 1, 2, 3, 5, 8, 13, 30])
        ad = rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 30])
        L = (ad if fm < 0 else fm) + ad + rng.choice([3, 6, 20])
        p = rng.choice([1.0, .5, .2])
        ops = []
        for _ in range(L):
            ops.append("fit")
            while rng.random() < p:
                ops.append("probe")
                if rng.random() < .7:
                    break
        ops.append("probe")
        out.append(dict(cfg=dict(fm=fm, ad=ad), ops=ops, d=rng.choice([1, 1, 2, 3, 4, 7, 12]), m=rng.choice([1, 2, 3, 10]),
                        kind=rng.choice(["rand", "rand", "rand", "wide", "const", "mixed", "dup"]), seed=rng.randrange(10 ** 6),
                        lr=rng.choice([.1, .1, .5, .01]), hr=rng.choice([.75, .75, .5, 1.0])))
    for i in range(60 if tier == "quick" else 400):
        # features in families of scaled copies
        fm, ad, d = rng.choice([3, 5, 12, 40]), rng.choice([0, 1, 4]), rng.choice([2, 3, 5, 8, 12])
        out.append(dict(cfg=dict(fm=fm, ad=ad), ops=["fit"] * (fm + 1) + ["map"] + ["fit"] * (ad + 3) + ["map", "probe"], d=d, m=rng.choice([0, 1, 2, 3, 4, 10]), kind="families",
                        fam=[rng.randint(1, max(1, d // 2)) for _ in range(d)], seed=rng.randrange(10 ** 6), lr=.1, hr=.75))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    """the network stays frozen through a long stream; long grace periods"""
    out = []
    for fm, ad, L in [(5, 20, 1500), (300, 200, 900), (-1, 100, 700), (1, 5, 6000), (2500, 1500, 4300)]:
        ops = []
        for j in range(L):
            ops.append("fit")
            if rng.random() < min(.03, 40 / L):
                ops.append("probe")
        ops += ["probe", "probe"]
        out.append(dict(cfg=dict(fm=fm, ad=ad), ops=ops, d=rng.choice([2, 4]), m=3, kind="rand", seed=rng.randrange(10 ** 6), lr=.1, hr=.75))
    # nothing varies before the last training instance
    for ad in [1, 2, 3, 64, 128, 100, rng.randint(4, 150)] * (1 if tier == "quick" else 6):
        fm = rng.choice([1, 2, 6])
        out.append(dict(cfg=dict(fm=fm, ad=ad), ops=["fit"] * (fm + 1 + ad) + ["probe", "fit", "fit", "probe"], d=rng.choice([2, 3, 5]), m=rng.choice([1, 3]), kind="late",
                        seed=rng.randrange(10 ** 6), lr=.1, hr=.75))
    return out


def execute(scn):
    from pysad.models import KitNet
    c = dict(scn["cfg"])
    c["m"] = scn["m"]
    c["moving"] = scn["kind"] in ("rand", "wide")
    rs = np.random.RandomState(scn["seed"])
    n, d = len(scn["ops"]), scn["d"]
    X = rs.uniform(-1, 1, size=(n, d))
    if scn["kind"] == "wide":
        X = X * 10.0 ** rs.randint(-2, 3, size=d) + rs.uniform(-5, 5, size=d)
    elif scn["kind"] == "const":
        X[:] = rs.uniform(-2, 2)
    elif scn["kind"] == "mixed":
        X[:, ::2] = 1.5
    elif scn["kind"] == "dup":
        X[:] = X[:, :1]
    elif scn["kind"] == "families":
        X = X[:, [f - 1 for f in scn["fam"]]] * 2.0 ** rs.randint(-4, 5, size=d) + rs.randint(-3, 4, size=d)
    elif scn["kind"] == "late":
        last = c["fm"] + c["ad"]
        X[:last] = X[0]
        X[last] = X[0] + rs.choice([-1, -1, 1], size=d) * rs.uniform(.5, 2, size=d)
    probes = [rs.uniform(-1, 1, size=d) * X.std() + X.mean() for _ in range(2)] + [X[0].copy()]
    seen = [[] for _ in probes]

    def tok(i, v):
        for j, w in enumerate(seen[i]):
            if v == w or abs(v - w) <= 1e-9 * max(abs(v), abs(w)):
                return j
        seen[i].append(v)
        return len(seen[i]) - 1
    twin, far = [], (c["moving"] or scn["kind"] == "late") and n < 400
    mul = 2.0 ** np.array([(scn["seed"] // 7 + 5 * i) % 13 - 6 for i in range(d)])

    def value(m, p):
        try:
            v = scalar(m.score_partial(p))
        except Exception:
            return None
        return v if v is not None and math.isfinite(v) else None

    def agree(v, w):
        return v is not None and w is not None and abs(v - w) <= 1e-6 * max(abs(v), abs(w), 1e-3)
    kw = dict(max_size_ae=scn["m"], grace_anomaly_detector=c["ad"], learning_rate=scn["lr"], hidden_ratio=scn["hr"])
    if c["fm"] >= 0:
        kw["grace_feature_mapping"] = c["fm"]
    box, k = [], 0
    ev = [dict(op="new", r=do(lambda: box.append(KitNet(**kw))))]
    if box and far:
        twin = [KitNet(**kw)]
    for o in scn["ops"] if box else []:
        if o == "fit":
            for w in twin:
                w.fit_partial(X[k] * mul)
            ev.append(dict(op="fit", r=do(box[0].fit_partial, X[k].copy())))
            k += 1
        elif o == "map":
            v = getattr(getattr(box[0], "model", None), "v", None)
            if v is None or all(isinstance(i, (int, np.integer)) for g in v for i in g):
                ev.append(dict(op="map", v=[[int(i) + 1 for i in g] for g in v or []], fam=scn["fam"]))
        elif k:
            z, f, t = [], [], []
            for i, p in enumerate(probes):
                try:
                    v = scalar(box[0].score_partial(p.copy()))
                except Exception:
                    v = None
                z.append(v is not None and v == 0)
                ok = v is not None and math.isfinite(v) and v >= 0
                f.append(ok)
                t.append(tok(i, v) if ok else -1)
            ev.append(dict(op="probe", zero=z, fin=f, t=t, units=[agree(value(box[0], p.copy()), value(w, p * mul)) for p in probes for w in twin if scn["kind"] != "late" or k > c["fm"] + c["ad"]]))
    if box and far and k > 1:
        # every feature on its own, far outside everything fitted
        base, span, r = X[0], X[:k].max(axis=0) - X[:k].min(axis=0), []
        b = value(box[0], base.copy())
        for i in range(d):
            for s in (-1e9, 1e9):
                p = base.copy()
                p[i] += s * span[i]
                v = value(box[0], p)
                r.append(v is not None and b is not None and v > b)
        ev.append(dict(op="far", hi=r))
    return [dict(cfg=c, ev=ev)]
