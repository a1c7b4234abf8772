from common import *
SPEC = "Storm"
ASSUMPTIONS = ["instances are integer vectors times a scale; radii that can tie with a distance are exactly representable"]


def emit(s):
    return [dict(cfg=s["cfg"], ops=s["ops"], scale=1.0), dict(cfg=s["cfg"], ops=s["ops"], scale=.25)]


def mc(tier):
    c = dict(MaxLen=4 if tier == "quick" else 5, EmitScn="TRUE", Ws="{1, 2, 3}", Pts="{0, 1, 2}", R4s="{4, 5}")
    return [dict(module="MC_Storm", emit=emit, limit=900 if tier == "quick" else 8000, cfg=mccfg(["WinInv", "Mono", "Emit"], c))]


def scenarios(rng, tier):
    out = []
    for i in range(250 if tier == "quick" else 2500):
        w = wsize(rng, True)
        d = rng.choice([1, 1, 2, 2, 3, 5])
        L = min(rng.choice([10, w + 3, 2 * w + 5]), 300)
        dy = rng.random() < .5
        R = rng.choice([1, 2, 3, 5])
        R4 = 4 * R * R if dy else rng.choice([3, 5, 13, 29, 51, 101])
        scale = rng.choice([1.0, .5, 4.0, 2.0 ** -10]) if dy else rng.choice([1.0, .1, 3.7, 1e-3, 1e3])
        lim = rng.choice([1, 3, 6])
        ops = []
        for _ in range(L):
            x = [rng.randint(-lim, lim) for _ in range(d)]
            ops.append(dict(op=rng.choice(["fit", "fit", "score", "fit_score"]) if L < 100 else rng.choice(["fit"] * 6 + ["score", "fit_score"]), x=x))
        ops.append(dict(op="score", x=[0] * d))
        out.append(dict(cfg=dict(w=w, R4=R4, Q=10000), ops=ops, scale=scale, off=rng.choice([0, 0, 1, -1]) * 2.0 ** rng.choice([10, 20, 30, 36]) if dy else 0.0))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for w in [1, 3, 40, 300, 1000] * (1 if tier == "quick" else 4):
        d = rng.choice([1, 2])
        ops = []
        for j in range(2100):
            x = [rng.randint(-6, 6) for _ in range(d)]
            ops.append(dict(op="fit", x=x))
            if rng.random() < .03:
                ops.append(dict(op=rng.choice(["score", "fit_score"]), x=[rng.randint(-6, 6) for _ in range(d)]))
        ops.append(dict(op="score", x=[0] * d))
        out.append(dict(cfg=dict(w=w, R4=13, Q=10000), ops=ops, scale=rng.choice([1.0, .1, 100.0])))
    for w in [10000] if tier == "quick" else [10000, 10000, 4000, 11500]:
        ops = []
        for j in range(12000):
            x = [rng.randint(-6, 6) + (3 if j < 3000 else 0)]
            ops.append(dict(op="fit", x=x) if rng.random() > .002 else dict(op=rng.choice(["score", "fit_score"]), x=x))
        out.append(dict(cfg=dict(w=w, R4=13, Q=10000), ops=ops + [dict(op="score", x=[5])], scale=rng.choice([1.0, .1])))
    return out


def execute(scn):
    from pysad.models import ExactStorm
    c, a = scn["cfg"], scn["scale"]
    Q = c["Q"]
    box = []
    rad = a * math.sqrt(c["R4"]) / 2
    ev = [dict(op="new", r=do(lambda: box.append(ExactStorm(max_radius=rad) if c["w"] == 10000 else ExactStorm(window_size=c["w"], max_radius=rad))))]
    if box:
        m = box[0]
        for o in scn["ops"]:
            x = np.array(o["x"], dtype=float) * a + scn.get("off", 0.0)
            if o["op"] == "fit":
                ev.append(dict(op="fit", x=o["x"], r=do(m.fit_partial, x)))
            else:
                ev.append(dict(op=o["op"], x=o["x"], r=call(m.score_partial if o["op"] == "score" else m.fit_score_partial, x, Q=Q)))
    return [dict(cfg=c, ev=ev)]
