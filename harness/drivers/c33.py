from common import *
SPEC = "LoOP"
ASSUMPTIONS = ["the local outlier probability itself is PyNomaly's, computed by a detector built directly on the same data; instances are integer-valued, up to a common scale"]
Q = 10 ** 8
DATA = [[[0, 0], [1, 0], [0, 2], [3, 3], [5, 1], [2, 4]], [[0, 0], [9, 1], [1, 8], [7, 7], [4, 4], [2, 2], [6, 1]]]


def tla(rows):
    return "<<" + ", ".join("<<%s>>" % ", ".join(map(str, r)) for r in rows) + ">>"


def emit(s):
    c = s["cfg"]
    return [dict(data=c["data"], k=c["k"], ext=3, scale=1.0, ops=[dict(op=o["op"], x=o["x"], how="partial") for o in s["ops"]] + [dict(op="score", x=[1, 1], how="partial")], wrap="pos")]


def mc(tier):
    q = tier == "quick"
    data = "{" + ", ".join(tla(d) for d in DATA) + "}"
    return [dict(module="MC_LoOP", emit=emit, limit=100 if q else 1000, cfg=mccfg(["Frozen", "Accepted", "Emit"], dict(MaxLen="3" if q else "4", EmitScn="TRUE", Pts="{0, 5}", Data=data, Ks="{2, 3}"))),
            dict(module="MC_LoOP", cfg=mccfg(["Frozen", "Accepted", "Closeness"], dict(MaxLen="2" if q else "3", EmitScn="FALSE", Pts="{0, 2, 7}" if q else "{-3, 0, 2, 7}", Data=data, Ks="1..5")))]


def scenarios(rng, tier):
    out = []
    for i in range(90 if tier == "quick" else 1200):
        d = rng.choice([1, 2, 2, 3, 5])
        k = rng.choice([1, 2, 3, 3, 5, 10])
        n = k + rng.choice([2, 4, 10, 30])
        lim = rng.choice([5, 20, 100, 400])
        data = [[rng.randint(-lim, lim) for _ in range(d)] for _ in range(n)]
        if rng.random() < .4:            # a cluster and some far points
            data = [[rng.randint(-2, 2) for _ in range(d)] if j % 5 else r for j, r in enumerate(data)]
        ops = []
        seen = []
        for j in range(rng.choice([5, 15, 40])):
            m = rng.random()
            x = [rng.randint(-lim, lim) for _ in range(d)] if m < .5 else list(rng.choice(data)) if m < .7 or not seen else list(rng.choice(seen))
            if rng.random() < .1:
                x = [v * 5 for v in x]
            if seen and rng.random() < .2:      # next to the one before
                x = list(seen[-1])
                x[rng.randrange(d)] += rng.choice([-1, 1, 2])
            seen.append(x)
            ops.append(dict(op=rng.choice(["fit", "score", "fs"]), x=x, how=rng.choice(["partial", "partial", "batch"])))
        ops += [dict(op="score", x=list(x), how="partial") for x in seen[:5]]
        out.append(dict(data=data, k=k, ext=rng.choice([1, 2, 3, 3]), scale=rng.choice([1.0, 1.0, .5, .1, 1000.0, 1e-4, 1e-8]), ops=ops, wrap=rng.choice(["pos", "kw", "default"]) if k == 10 else rng.choice(["pos", "kw"])))
    for i in range(1 if tier == "quick" else 4):      # many fits
        data = [[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(14)]
        ops = []
        for j in range(2500):
            ops.append(dict(op="fit", x=[rng.randint(-9, 9), rng.randint(-9, 9)], how="partial"))
            if j % 60 == 0:
                ops.append(dict(op="score", x=[rng.randint(-19, 19), rng.randint(-9, 9)], how="partial"))
        out.append(dict(data=data, k=4, ext=3, scale=1.0, ops=ops, wrap="kw"))
    return out


def execute(scn):
    from PyNomaly import loop
    from pysad.models import LocalOutlierProbability
    sc = scn["scale"]
    A = lambda r: np.array(r, dtype=np.float64) * sc
    if scn["wrap"] == "default":
        scn = dict(scn, ext=3)
    ref = loop.LocalOutlierProbability(A(scn["data"]), extent=scn["ext"], n_neighbors=scn["k"]).fit()
    box = []
    def mk():
        if scn["wrap"] == "pos":
            box.append(LocalOutlierProbability(A(scn["data"]), scn["k"], scn["ext"]))
        elif scn["wrap"] == "kw":
            box.append(LocalOutlierProbability(initial_X=A(scn["data"]), num_neighbors=scn["k"], extent=scn["ext"]))
        else:
            box.append(LocalOutlierProbability(A(scn["data"])))
    ev = [dict(op="new", r=do(mk))]
    for o in scn["ops"] if box else []:
        m, x = box[0], A(o["x"])
        b = o["how"] == "batch"
        if o["op"] == "fit":
            ev.append(dict(op="fit", r=do(m.fit, x.reshape(1, -1)) if b else do(m.fit_partial, x)))
            continue
        want = num(ref.stream(A(o["x"])), Q=Q)
        if want["k"] != "num":
            continue                     # degenerate initial data: the detector itself has no answer
        f = (m.fit_score if b else m.fit_score_partial) if o["op"] == "fs" else (m.score if b else m.score_partial)
        ev.append(dict(op="score", x=o["x"], ref=want, r=call(f, x.reshape(1, -1) if b else x, Q=Q)))
    return [dict(cfg=dict(data=scn["data"], k=scn["k"]), ev=ev)]
