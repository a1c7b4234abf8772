from common import *
import drivers.c04 as c04
SPEC = "Post"
ASSUMPTIONS = ["the Gaussian probability is compared through its standard normal quantile (scipy.special.ndtri) up to 4 standard deviations, beyond that only to lie in the right far tail",
               "exactly zero variance is only exercised with values for which float sums are exact"]


def emit(s):
    w = s["cfg"]["w"]
    return [dict(ops=s["ops"], w=w, kind=k, scale=sc, off=300) for k, sc in (("conf", 1.0), ("conf", .1), ("gauss", 1.0))]


def mc(tier):
    L = 4 if tier == "quick" else 5
    return [dict(module="MC_Post", emit=emit, limit=500 if tier == "quick" else 4000,
                 cfg=mccfg(["PostInv", "ConfInv", "Emit"], dict(MaxLen=L, EmitScn="TRUE", Vals="{-1, 0, 2}", Sizes="{0, 1, 2, 3}")))]


def scenarios(rng, tier):
    out = []
    for i, s in enumerate(c04.scenarios(rng, tier)):
        s["kind"] = ["conf", "gauss"][i % 2]
        s["off"] = rng.choice([1, 2, 5, 17, 300, 6400])
        if s["kind"] == "gauss":
            s["scale"] = rng.choice([1.0, .5, 2.0, .25, 1.0, .1, 3.7, 1e-3, 1e-5, 1e-7, 1e-10, 2.0 ** -30, 1e5])
        out.append(s)
    # (c04.longs is included above)
    # fit far from, then transform at, both extremes
    for w in (0, 5, 40):
        ops = [dict(op="fit", x=i % 3) for i in range(60)]
        ops += [dict(op="transform", x=x) for x in range(-30, 31, 3)]
        for k in ("conf", "gauss"):
            out.append(dict(ops=ops, w=w, kind=k, scale=1.0, off=7, ty="float"))
    # windows at their default sizes
    for k, w in (("conf", 300), ("gauss", -1)):
        ops = []
        for i in range(340):
            ops.append(dict(op="fit", x=(i * 7) % 11 - (5 if i > 200 else 0)))
            if i % 20 == 0:
                ops.append(dict(op="transform", x=rng.randint(-5, 10)))
        out.append(dict(ops=ops, w=w if w > 0 else 6400, kind=k, scale=1.0, off=0, ty="float", default=True))
    for w in (6400,) if tier == "quick" else (6400, 6400, 300, 5000):
        ops = []
        for i in range(9000):
            ops.append(dict(op="fit", x=rng.choice([-3, 3, 3] if i < 4000 else [-3, 2, -2])))
            if rng.random() < .001:
                ops.append(dict(op="transform", x=rng.randint(-5, 5)))
        out.append(dict(ops=ops + [dict(op="transform", x=1)], w=w, kind="gauss", scale=1.0, off=0, ty="float", default=w == 6400))
    return out


def execute(scn):
    from scipy.special import ndtri
    from pysad.transform.probability_calibration import ConformalProbabilityCalibrator as C, GaussianTailProbabilityCalibrator as G
    k, a, w = scn["kind"], scn["scale"], scn["w"]
    off = scn.get("off", 300)
    Q = 10 ** 6
    dy = a in (1.0, .5, 2.0, .25)
    za, zb = (int(1 / a), 1) if a < 1 else (1, int(a))
    if not dy:
        za, zb = 0, 0
    box = []

    def mk():
        if scn.get("default"):
            box.append(C() if k == "conf" else G())
        elif k == "conf":
            box.append(C(windowed=True, window_size=w) if w else C(windowed=False, window_size=off))
        else:
            box.append(G(running_statistics=True, window_size=w) if w else G(running_statistics=False, window_size=off))
    ev = [dict(op="new", r=do(mk))]
    QQ = 10000 if k == "conf" else Q
    cfg = dict(kind=k, w=w, Q=QQ, za=za, zb=zb)
    if box:
        m = box[0]
        for o in scn["ops"]:
            x = typed(scn.get("ty", "float"), o["x"] * a)
            if o["op"] == "fit":
                ev.append(dict(op="fit", x=o["x"], r=do(m.fit_partial, x)))
                continue
            raw = []
            f = m.transform_partial if o["op"] == "transform" else m.fit_transform_partial
            r = call(f, x, enc=lambda v: (raw.append(v), num(v, QQ))[1])
            e = dict(op=o["op"], x=o["x"], r=r)
            if k == "gauss":
                p = scalar(raw[0]) if raw else None
                e["in01"] = bool(p is not None and 0 <= p <= 1)
                e["z"] = num(ndtri(p), 10000) if e["in01"] else rec("nan")
            ev.append(e)
    return [dict(cfg=cfg, ev=ev)]
