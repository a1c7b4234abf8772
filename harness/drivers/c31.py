from common import *
SPEC = "Guard"
ASSUMPTIONS = ["integer-valued size parameters; NaN instances are not specified"]
AQ = 10 ** 7
ALPHA = {"5e5": ("num", 500000), "0": ("num", 0), "1": ("num", AQ), "neg": ("num", -500000), "two": ("num", 2 * AQ), "tiny": ("num", 1), "near1": ("num", AQ - 1),
         "nan": ("nan", 0), "inf": ("inf", 0), "ninf": ("ninf", 0)}



def emit(s):
    c = s["cfg"]
    ops = [dict(op=o["op"], o=o["o"], x=o["x"], shape=o["shape"], how="arr") for o in s["ops"] if o["op"] != "new"]
    twin = [dict(o, o=2) for o in ops if ok(c["cls"], c["p"], o)]
    end = probes(c["cls"], 1) + probes(c["cls"], 2) if ops else []
    return [dict(cls=c["cls"], p=c["p"], hybrid=k, ops=ops + twin + end, probes=[], two=bool(ops)) for k in ((False, True) if c["cls"] == "esd" else (False,))]


def probes(cls, o):
    return [dict(op="score", o=o, x=x, shape=[1], how="arr") for x in ("3", "40")] if cls != "sad" else []


def ok(cls, p, o):
    """which calls the twin repeats; the specification judges validity itself"""
    if cls == "esd":
        return o["shape"] == [1]
    if cls == "stl":
        uni = len(o["shape"]) == 1 or (len(o["shape"]) == 2 and o["shape"][1] == 1)
        return uni and (o["op"] == "window" or o["shape"][0] == 1)
    return True


def mc(tier):
    q = tier == "quick"
    inv = ["EsdSound", "History", "NothingMade", "Monotone", "Emit"]
    al = "{" + ", ".join('[k |-> "%s", v |-> %s]' % ALPHA[k] for k in ("5e5", "0", "1", "neg", "tiny", "near1", "nan", "inf")) + "}"
    one = '{[k |-> "num", v |-> 2500000]}'
    sh = "{<<1>>, <<2>>, <<>>, <<1, 1>>, <<0>>, <<1, 2>>}"
    return [dict(module="MC_Guard", emit=emit, cfg=mccfg(inv, dict(
                MaxLen="1", EmitScn="TRUE", Periods="-1..4" if q else "-1..6", Windows="-1..10" if q else "-1..16", Maxans="-1..5" if q else "-1..8", Alphas=al,
                Vals='{"1"}', Shapes=sh)), limit=3000 if q else 12000),
            dict(module="MC_Guard", emit=emit, limit=150 if q else 1500, cfg=mccfg(inv, dict(
                MaxLen="4", EmitScn="TRUE", Periods="{2}", Windows="{-1, 4, 5}", Maxans="{1, 2}", Alphas=one, Vals='{"1"}' if q else '{"1", "7"}', Shapes=sh)), timeout=1500)]



def par(cls, rng):
    """parameters on either side of every limit"""
    a = rng.choice(list(ALPHA.values()) + [("num", rng.randint(1, AQ - 1)) for _ in range(12)])
    if cls == "esd":
        per = rng.choice([-3, 0, 1, 2, 2, 3, 3, 5, 7, 12, 24, 60])
        w = rng.choice([2 * per, 2 * per, 2 * per - 1, 2 * per + 1, 3 * per + 2, rng.randint(0, 300), rng.choice([100, 200, 300, 700, 1000, 5000])])
        w = max(w, 0)
        m = 49 * w // 100
        m = rng.choice([m, m, m + 1, m - 1, 1, 1, 0, -1, rng.randint(0, 10), w // 2, w])
        return dict(period=per, window=w, maxan=m, alpha=dict(k=a[0], v=a[1]), stat="")
    per = rng.choice([-2, 0, 1, 2, 3, 5, 7, 12, 24, 100])
    w = rng.choice([-1, 2 * per, 2 * per - 1, 2 * per + 1, 1, 0, rng.randint(0, 50), -5 if cls == "decomp" else 0])
    if w < 0 and cls == "stl":
        w = -1
    return dict(period=per, window=w, maxan=0, alpha=dict(k="num", v=0), stat=rng.choice(["mean", "median", "mode", "", "Mean", "MEDIAN", "std", "None", "average", "mean ", "medians"]) if cls == "sad" else "")


BAD = [[2], [3], [], [0], [1, 2], [2, 2], [4]]


def scenarios(rng, tier):
    q = tier == "quick"
    out = []
    for i in range(40 if q else 400):        # many constructions, none in the way of the others
        pr = []
        for j in range(60):
            cls = rng.choice(["esd", "esd", "esd", "stl", "decomp", "sad"])
            pr.append(dict(cls=cls, p=par(cls, rng), hybrid=rng.random() < .5))
        out.append(dict(cls="sad", p=par("sad", rng), hybrid=False, ops=[], probes=pr, two=False))
    for i in range(70 if q else 900):
        cls = rng.choice(["esd", "esd", "stl", "stl"])
        per = rng.choice([2, 2, 3, 5])
        w = 2 * per + rng.choice([0, 1, 2, 5])
        if cls == "stl" and rng.random() < .1:
            w = -1
        p = dict(period=per, window=w, maxan=max(1, 49 * w // 100), alpha=dict(k="num", v=rng.choice([500000, 4000000])), stat="")
        ops = []
        L = w + rng.choice([1, 3, w])
        dens = rng.choice([.1, .5, .9])
        xs = [str(rng.randint(-9, 9) + (60 if rng.random() < .1 else 0)) for _ in range(L + 1)]
        for x in xs:
            while rng.random() < dens * .6:
                bad = rng.choice(BAD + ([[1, 1]] if cls == "esd" else [[2, 1], [3, 1], [1, 1, 1]]))
                op = rng.choice(["fit", "fit", "score", "fs"] + (["window"] if cls == "stl" else []))
                if op == "window":
                    bad = rng.choice([[2 * per - 1], [1], [0], [2 * per - 1, 1], [2 * per, 2], [2, 2 * per], [], [2 * per, 1, 1]])
                ops.append(dict(op=op, o=1, x=rng.choice(xs), shape=bad, how=rng.choice(["arr", "list", "batch"])))
            early = len(ops) < w
            n = rng.choice(["fit"] if early and rng.random() < .6 else ["fit", "score", "fs", "fs"] + (["window"] if cls == "stl" else []))
            sh = [2 * per + rng.randint(0, 4)] + ([1] if rng.random() < .4 else []) if n == "window" else [1] if cls == "esd" or rng.random() < .6 else [1, 1]
            for o in (1, 2):
                ops.append(dict(op=n, o=o, x=x, shape=sh, how=rng.choice(["arr", "list", "batch"])))
        ops += probes(cls, 1) + probes(cls, 2)
        out.append(dict(cls=cls, p=p, hybrid=rng.random() < .5, ops=ops, probes=[], two=True))
    return out


def alpha(a):
    return {"nan": float("nan"), "inf": float("inf"), "ninf": -float("inf")}.get(a["k"], a["v"] / AQ)


def build(cls, p, hybrid):
    import pysad.models as M
    import pysad.transform.preprocessing as T
    w = None if p["window"] == -1 else p["window"]
    if cls == "esd":
        return (M.SeasonalHybridESD if hybrid else M.SeasonalESD)(period=p["period"], window_size=w, max_anomalies=p["maxan"], alpha=alpha(p["alpha"]))
    if cls == "stl":
        return T.ModifiedSTLResidualTransformer(period=p["period"], window_size=w)
    if cls == "decomp":
        return T.SeasonalTrendDecomposer(season_length=p["period"], trend_window=w)
    return M.StandardAbsoluteDeviation(substracted_statistic=None if p["stat"] == "None" else p["stat"])


def data(o):
    sh = o["shape"]
    n = int(np.prod(sh)) if sh else 1
    v = float(o["x"])
    a = np.array([v + (7 * i) % 5 if i else v for i in range(n)], dtype=np.float64).reshape(sh)
    return a.tolist() if o["how"] == "list" else a


def execute(scn):
    cls, p = scn["cls"], scn["p"]
    objs, ev = {}, []
    for q in scn["probes"]:
        ev.append(dict(op="probe", cls=q["cls"], p=q["p"], r=do(lambda: build(q["cls"], q["p"], q["hybrid"]))))
    for o in (1, 2) if scn["two"] else (1,):
        def mk():
            objs[o] = build(cls, p, scn["hybrid"])
        ev.append(dict(op="new", o=o, r=do(mk)))
    for o in scn["ops"]:
        if o["o"] not in objs:
            continue
        m, X = objs[o["o"]], data(o)
        box = []
        model = cls in ("esd", "sad")
        batch = o["how"] == "batch" and cls == "esd"
        def go():
            if o["op"] == "window":
                box.append(m.transform_window(X))
            elif batch:
                B = np.array([X])
                r = {"fit": m.fit, "score": m.score, "fs": m.fit_score}[o["op"]](B)
                box.append(r if o["op"] == "fit" else r[0])
            elif o["op"] == "fit":
                m.fit_partial(X)
            elif o["op"] == "score":
                box.append(m.score_partial(X) if model else m.transform_partial(X))
            else:
                box.append(m.fit_score_partial(X) if model else m.fit_transform_partial(X))
        r = do(go)
        out = "-"
        if r["k"] == "ok" and o["op"] != "fit":
            try:
                out = ",".join("%.9g" % (v + 0.0) for v in np.asarray(box[0], dtype=np.float64).ravel())
            except Exception as e:
                out = "?" + type(e).__name__
        x = o["x"] if o["op"] != "window" else "%s:%d" % (o["x"], o["shape"][0] if o["shape"] else -1)
        ev.append(dict(op=o["op"], o=o["o"], x=x, shape=o["shape"], r=r, out=out))
    return [dict(cfg=dict(cls=cls, p=p), ev=ev)]
