from common import *
SPEC = "Oracle"
ASSUMPTIONS = ["what the perfect model does when more scores are requested than labels fitted is not specified"]
LAB = {"0": 0, "1": 1, "2": 2, "-3": -3, "0.25": .25, "7": 7, "none": None}


def emit(s):
    return [dict(kind=s["cfg"]["kind"], ops=[dict(op=o["op"], y=o["y"], n=o["n"], how="partial") for o in s["ops"]], x="arr")]


def mc(tier):
    q = tier == "quick"
    c = dict(MaxLen=5 if q else 6, EmitScn="TRUE", Labels='{"0", "1", "none"}')
    return [dict(module="MC_Oracle", emit=emit, limit=400 if q else 4000, cfg=mccfg(["Fifo", "Emit"], c))]


def scenarios(rng, tier):
    out = []
    for i in range(250 if tier == "quick" else 2500):
        kind = rng.choice(["perfect", "perfect", "perfect", "null"])
        ops, pend = [], 0
        labs = rng.choice([["0", "1"], ["0", "1", "2", "7"], ["0", "1", "-3", "0.25"]])
        for j in range(rng.choice([3, 8, 25])):
            op = rng.choice(["fit", "fit", "score", "fit_score"])
            how = rng.choice(["partial", "partial", "batch"])
            n = 1 if how == "partial" else rng.choice([1, 2, 5])
            if op == "score":
                n = n if kind == "null" else min(n, pend)
                if n == 0:
                    continue
                ops.append(dict(op=op, y=[], n=n, how=how))
                pend -= n
            else:
                y = [rng.choice(labs) for _ in range(n)]
                if how == "partial" and rng.random() < .15:
                    y = ["none"]
                ops.append(dict(op=op, y=y, n=n if op == "fit_score" else 0, how=how))
                if y != ["none"] and op == "fit":
                    pend += n
        out.append(dict(kind=kind, ops=ops, x=rng.choice(["arr", "none", "obj"])))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for i in range(2 if tier == "quick" else 8):
        ops, pend = [], 0
        for ph in range(4):
            for j in range(1100 if i else 6000):
                if rng.random() < (.9 if ph % 2 == 0 else .1):
                    ops.append(dict(op="fit", y=[rng.choice(["0", "1", "2"])], n=0, how="partial"))
                    pend += 1
                elif pend:
                    ops.append(dict(op="score", y=[], n=1, how="partial"))
                    pend -= 1
        out.append(dict(kind="perfect", ops=ops, x="arr"))
    return out


def tok(v):
    f = scalar(v)
    return "?" if f is None else repr(int(f)) if float(f).is_integer() else repr(f)


def execute(scn):
    from pysad.models import PerfectModel, NullModel
    box = []
    ev = [dict(op="new", r=do(lambda: box.append(PerfectModel() if scn["kind"] == "perfect" else NullModel())))]
    k = 0
    for o in scn["ops"] if box else []:
        m = box[0]
        n = max(len(o["y"]), o["n"])
        k += 1
        X = np.full((n, 2), float(k))
        y = [LAB[v] for v in o["y"]]
        x1 = X[0] if scn["x"] == "arr" else None if scn["x"] == "none" else "anything"
        s, r = [], dict(OK)
        try:
            if o["how"] == "batch":
                ya = np.array(y)
                if o["op"] == "fit":
                    m.fit(X, ya)
                else:
                    R = m.score(X) if o["op"] == "score" else m.fit_score(X, ya)
                    s = [tok(v) for v in R]
            elif o["op"] == "fit":
                m.fit_partial(x1, y[0])
            elif o["op"] == "score":
                s = [tok(m.score_partial(x1))]
            else:
                s = [tok(m.fit_score_partial(x1, y[0]))]
        except Exception as e:
            r = exc(e)
        ev.append(dict(op=o["op"], y=o["y"], n=o["n"], s=s, r=r))
    return [dict(cfg=dict(kind=scn["kind"]), ev=ev)]
