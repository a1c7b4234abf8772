from common import *
SPEC = "RelEntropy"
ASSUMPTIONS = ["instances lie within [min_val, max_val]; test statistics within 1e-5*(2W+20) of the threshold may be decided either way"]


def mk(c, ops, base, step, arg, seed=0):
    return dict(W=c["W"], N=c["N"], ops=ops, base=base, step=step, arg=arg)


def emit(s):
    ops = []
    for o in s["ops"]:
        ops += [dict(op="fit", h=o["h"]), dict(op="score")]
    return [mk(s["cfg"], ops, 0.0, 1.0, "same"), mk(s["cfg"], ops, -3.0, .25, "other")]


def mc(tier):
    c = dict(MaxLen=6 if tier == "quick" else 8, EmitScn="TRUE", Ws="{1, 2, 3, 5}", N="2", Hs="{0, 2}")
    out = [dict(module="MC_RelEntropy", emit=emit, limit=150 if tier == "quick" else 1000, cfg=mccfg(["CodeInv", "SelfInv", "Emit"], c))]
    c = dict(MaxLen=6 if tier == "quick" else 8, EmitScn="FALSE", Ws="{1, 2, 4}", N="3", Hs="{0, 1, 3, 6}")
    out.append(dict(module="MC_RelEntropy", cfg=mccfg(["CodeInv", "SelfInv"], c)))
    return out


def scenarios(rng, tier):
    out = []
    for i in range(220 if tier == "quick" else 2000):
        W = rng.choice([1, 2, 3, 5, 8, 10, 20, 31, 52, 52, 80])
        N = rng.choice([2, 3, 4, 5, 5, 8, 12])
        L = W + rng.choice([-1, 0, 1, 3, W, W + 2, 2 * W + 3, 3 * W])
        ops, mode = [], rng.randrange(4)
        p = rng.choice([1.0, .6, .2])
        cen = [rng.randint(0, 2 * N) for _ in range(6)]
        for j in range(max(1, L)):
            if mode == 0:
                h = rng.randint(0, 2 * N)
            elif mode == 1:                             # drifting narrow distribution
                h = cen[j // max(W, 4) % 6] + rng.choice([-1, 0, 0, 1, 2])
            elif mode == 2:                             # two-point distribution with changing odds
                h = cen[0] if rng.random() < [.5, .7, .2, .4][j // max(W, 1) % 4] else cen[1]
            else:
                h = rng.choice(cen[:3]) if rng.random() < .9 else rng.randint(0, 2 * N)
            ops.append(dict(op="fit", h=max(0, min(2 * N, h))))
            while rng.random() < p:
                ops.append(dict(op="score"))
                if rng.random() < .8:
                    break
        ops.append(dict(op="score"))
        out.append(mk(dict(W=W, N=N), ops, rng.choice([0.0, -4.0, 10.0, .5]), rng.choice([1.0, .5, .25, 4.0]), rng.choice(["same", "other"])))
    for i in range(30 if tier == "quick" else 300):
        # one bin common, a few others rare: later windows in fewer or more bins
        W, N = rng.choice([5, 8, 10, 16, 31]), rng.choice([5, 8, 12])
        a = rng.randint(1, 2 * N - 1)
        few = [rng.randint(0, 2 * N) for _ in range(rng.choice([3, 6]))]
        ops = []
        for j in range(W + rng.choice([W, 2 * W + 3])):
            first = j < W
            ops.append(dict(op="fit", h=a if rng.random() < (.6 if first else rng.choice([.8, 1.0, 1.0])) else rng.choice(few)))
            if not first and rng.random() < .6:
                ops.append(dict(op="score"))
        ops += [dict(op="fit", h=a)] * W + [dict(op="score")]
        out.append(mk(dict(W=W, N=N), ops, 0.0, 1.0, "other"))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for W, n in [(10, 1600), (52, 1600), (200, 1600), (450, 1600), (52, 6000), (2100, 5000)] * (1 if tier == "quick" else 3):
        N = rng.choice([3, 5, 8])
        cen = [rng.randint(0, 2 * N) for _ in range(3)]
        ops = []
        for j in range(n):
            far = (j // 180) % 3 == 1
            ops.append(dict(op="fit", h=max(0, min(2 * N, (rng.randint(0, 2 * N) if far else rng.choice(cen))))))
            if rng.random() < (.05 if n < 2000 else .01):
                ops.append(dict(op="score"))
        out.append(mk(dict(W=W, N=N), ops, 0.0, 1.0, "other"))
    n0 = 260
    for p in (dict(min_val=-3.0, max_val=3.0, num_bins=5, window_size=16), dict(min_val=-3.0, max_val=3.0, num_bins=3, window_size=40)):
        for how in ("fitread", "fs"):
            out.append(dict(zoo="RelativeEntropy", p=p, how=how, n0=n0, step=29, cap=3000, seed=rng.randrange(10 ** 6), bin=False, memory=True))
    return out


def execute(scn):
    if scn.get("memory"):
        from drivers import c28
        return c28.memory(scn)
    from pysad.models import RelativeEntropy
    from scipy.stats import chi2
    W, N, step, base = scn["W"], scn["N"], scn["step"], scn["base"]
    cfg = dict(W=W, N=N, T=int(round(float(chi2.ppf(.99, N - 1)) * 1e5)), ln=[int(round(math.log(k) * 1e5)) for k in range(1, W + 1)])
    box = []
    ev = [dict(op="new", r=do(lambda: box.append(RelativeEntropy(min_val=base, max_val=base + N * step, num_bins=N, window_size=W))))]
    x = base
    for o in scn["ops"] if box else []:
        if o["op"] == "fit":
            x = base + o["h"] * step / 2
            ev.append(dict(op="fit", h=o["h"], r=do(box[0].fit_partial, np.array([x]))))
        else:
            ev.append(dict(op="score", r=call(box[0].score_partial, np.array([x if scn["arg"] == "same" else base]), Q=1000)))
    return [dict(cfg=cfg, ev=ev)]
