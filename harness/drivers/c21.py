from common import *
SPEC = "Decomposer"
ASSUMPTIONS = ["statsmodels' STL is trusted and run by the harness on the window the specification prescribes"]


def emit(s):
    c = s["cfg"]
    return [dict(kind="dec", cfg=c, ops=[dict(op=o["op"], x=o["x"]) for o in s["ops"]], scale=1.0, tup=False)]


def emit2(s):
    c = s["cfg"]
    return [dict(kind="stl", cfg=c, ops=[dict(op="fit", x=3), dict(op="fit", x=0)] + [dict(op=o["op"], x=o["x"]) for o in s["ops"]], scale=1.0, robust=True, kw={}, shape=1)]


def mc(tier):
    q = tier == "quick"
    c = dict(MaxLen=5 if q else 6, EmitScn="TRUE", Ls="{1, 2, 3}", Tws="{1, 2, 3}", Pts="{0, 2}")
    out = [dict(module="MC_Decomposer", emit=emit, limit=300 if q else 3000, cfg=mccfg(["DeclInv", "TrendInv", "Emit"], c))]
    c = dict(MaxLen=4 if q else 5, EmitScn="TRUE", Ws="{4, 5, 6}", Pts="{0, 5}")
    out.append(dict(module="MC_StlResidual", emit=emit2, limit=150 if q else 1000, cfg=mccfg(["WinInv", "Emit"], c)))
    return out


def scenarios(rng, tier):
    out = []
    q = tier == "quick"
    for i in range(250 if q else 2500):
        L = rng.choice([1, 2, 3, 4, 5, 7, 12])
        tw = rng.choice([-1, 1, 2, 3, 4, 6, 7, 10, 20])
        d = rng.choice([1, 1, 2, 3])
        n = rng.choice([3, L + 2, 2 * L + 3, 4 * L + 5, 40])
        pf = rng.choice([.2, .5, .8])
        cols = [values(rng, n, 20) for _ in range(d)]
        ops = []
        for j in range(n):
            while rng.random() < .35:
                ops.append(dict(op="transform", x=[rng.randint(-20, 20) for _ in range(d)]))
            ops.append(dict(op="fit" if rng.random() < pf else "fit_transform", x=[c[j] for c in cols]))
        ops.append(dict(op="transform", x=[5] * d))
        out.append(dict(kind="dec", cfg=dict(L=L, tw=tw, d=d, Q=100000), ops=ops, scale=rng.choice([1.0, .5, .1, 3.7, 1e4]), tup=rng.random() < .2))
    for i in range(60 if q else 600):
        p = rng.choice([2, 3, 4, 6])
        W = 2 * p + rng.choice([0, 1, 2, 5, 9])
        n = rng.choice([2 * p, W + 3, 2 * W])
        pat = [rng.randint(-6, 6) for _ in range(p)]
        ops = []
        for j in range(n):
            x = pat[j % p] + rng.randint(-2, 2) + (rng.choice([0, 0, 0, 9]))
            while rng.random() < .3:
                ops.append(dict(op="transform", x=x + rng.choice([0, 7, -7])))
            ops.append(dict(op="fit" if rng.random() < .5 else "fit_transform", x=x))
        ops.append(dict(op="transform", x=4))
        out.append(dict(kind="stl", cfg=dict(W=W, p=p, Q=10000), ops=ops, scale=rng.choice([1.0, .5, 4.0]), robust=rng.random() < .6,
                        kw=rng.choice([{}, {}, {"seasonal": 9}]), shape=rng.choice([1, 1, 2])))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for L, tw in [(2, 3), (7, 50), (24, 200), (1, -1), (365, 30), (7, 30), (12, 2200)]:
        ops = []
        for j in range(1100 if tw not in (-1, 30, 2200) else 5000):
            x = [j % L % 9 + rng.randint(-2, 2)]
            ops.append(dict(op="fit" if rng.random() < .95 else "fit_transform", x=x))
            if rng.random() < .03:
                ops.append(dict(op="transform", x=[rng.randint(-9, 9)]))
        out.append(dict(kind="dec", cfg=dict(L=L, tw=tw, d=1, Q=1000 if L > 1 else 100), ops=ops, scale=1.0, tup=False))
    for p, W in [(3, 12), (7, 100)]:
        ops = []
        for j in range(700):
            ops.append(dict(op="fit" if rng.random() < .96 else "fit_transform", x=j % p + rng.randint(-2, 2)))
            if rng.random() < .02:
                ops.append(dict(op="transform", x=rng.randint(-5, 5)))
        out.append(dict(kind="stl", cfg=dict(W=W, p=p, Q=10000), ops=ops, scale=1.0, robust=False, kw={}, shape=1))
    return out


def execute(scn):
    return dec(scn) if scn["kind"] == "dec" else stl(scn)


def dec(scn):
    from pysad.transform.preprocessing import SeasonalTrendDecomposer
    c = dict(scn["cfg"])
    sc, Q = scn["scale"], c["Q"]
    box = []
    if c["tw"] < 0:
        new = lambda: box.append(SeasonalTrendDecomposer(c["L"]))
    else:
        new = lambda: box.append(SeasonalTrendDecomposer(season_length=c["L"], trend_window=c["tw"]))
    ev = [dict(op="new", r=do(new))]
    if c["tw"] < 0:
        c["tw"] = c["L"]

    def vec(r):
        a = np.asarray(r, dtype=float)
        return [num(v, Q, sc) for v in a.ravel()] if a.shape == (c["d"],) else []
    for o in scn["ops"] if box else []:
        X = np.array(o["x"], dtype=float) * sc
        if scn["tup"]:
            X = (X, None)
        m = box[0]
        if o["op"] == "fit":
            ev.append(dict(op="fit", x=o["x"], r=do(m.fit_partial, X)))
        else:
            f = m.transform_partial if o["op"] == "transform" else m.fit_transform_partial
            r = call(f, X, enc=vec)
            ev.append(dict(op=o["op"], x=o["x"], r=r if isinstance(r, list) else []))
    return [dict(cfg=c, ev=ev)]


def stl(scn):
    from pysad.transform.preprocessing import ModifiedSTLResidualTransformer
    from statsmodels.tsa.seasonal import STL
    c, sc = scn["cfg"], scn["scale"]
    Q, W, p = c["Q"], c["W"], c["p"]
    box, win = [], []
    kw = dict(scn["kw"])
    if not scn["robust"]:
        kw["robust"] = False
    ev = [dict(op="new", r=do(lambda: box.append(ModifiedSTLResidualTransformer(p, window_size=W, **kw))))]
    for o in scn["ops"] if box else []:
        X = np.array([o["x"] * sc])
        if scn["shape"] == 2:
            X = X.reshape(1, 1)
        m, cand = box[0], (win + [o["x"]])[-W:]
        if o["op"] == "fit":
            ev.append(dict(op="fit", x=o["x"], r=do(m.fit_partial, X)))
        else:
            s = 0
            if len(cand) >= 2 * p:
                s = int(round(STL(np.array(cand, dtype=float), period=p, robust=scn["robust"], **scn["kw"]).fit().seasonal[-1] * Q))
            f = m.transform_partial if o["op"] == "transform" else m.fit_transform_partial
            ev.append(dict(op=o["op"], x=o["x"], win=cand, seas=s, r=call(f, X, Q=Q, scale=sc)))
        if o["op"] != "transform":
            win = cand
    return [dict(cfg=c, ev=ev, spec="StlResidual")]
