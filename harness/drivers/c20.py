from common import *
import random as _random
import sys
SPEC = "ESD"
ASSUMPTIONS = ["STL is replaced by an integer-valued one (a fixed pattern, or statsmodels' own seasonal component rounded to integers), so that the ESD arithmetic is exact; the real STL path is judged in C21"]


def emit(s):
    c = s["cfg"]
    ops = [dict(op=o["op"], x=o["x"]) for o in s["ops"]]
    return [dict(W=c["W"], k=c["k"], period=2, hybrid=c["hybrid"], alpha=.05, ops=ops, mode="zero", scale=1.0, robust=True, kw={}, pat=[0, 0], pre=3)]


def mc(tier):
    q = tier == "quick"
    c = dict(MaxLen=4 if q else 5, EmitScn="TRUE", Pts="{0, 9}", W="5", K="2")
    out = [dict(module="MC_ESD", emit=emit, limit=200 if q else 1500, cfg=mccfg(["WinInv", "Emit"], c))]
    c = dict(MaxLen=5 if q else 6, EmitScn="FALSE", Pts="{0, 1, 9}" if q else "{0, 1, 2, 9}", W="4", K="1")
    out.append(dict(module="MC_ESD", cfg=mccfg(["WinInv", "OutInv"], c)))
    if not q:
        c = dict(MaxLen=6, EmitScn="FALSE", Pts="{0, 1, 9}", W="5", K="2")
        out.append(dict(module="MC_ESD", cfg=mccfg(["WinInv", "OutInv"], c), timeout=3000))
    return out


def scenarios(rng, tier):
    out = []
    for i in range(260 if tier == "quick" else 2500):
        period = rng.choice([2, 2, 3, 4, 5, 7])
        W = 2 * period + rng.choice([0, 0, 1, 2, 3, 7, 12])
        kmax = int(W * .49)
        k = rng.choice([1, 2, kmax, max(1, kmax - 1)])
        k = min(k, kmax)
        L = W + rng.choice([0, 2, 5, W])
        pat = [rng.randint(-4, 4) if rng.random() < .6 else 0 for _ in range(period)]
        noise = rng.choice([0, 1, 1, 2, 3])
        spike = rng.choice([0, .05, .15, .3])
        amp = rng.choice([4, 9, 20, 25])
        ops = []
        def val(j):
            v = pat[j % period] + rng.randint(-noise, noise)
            if rng.random() < spike:
                v += rng.choice([-1, 1]) * rng.randint(amp // 2, amp)
            return v
        for j in range(L):
            r = rng.random()
            early = j < W - 2
            while rng.random() < (.1 if early else .4):
                ops.append(dict(op="score", x=val(j) if rng.random() < .5 else val(j) + rng.choice([-1, 1]) * amp))
            ops.append(dict(op="fit" if r < (.9 if early else .4) else "fit_score", x=val(j)))
        ops.append(dict(op="score", x=val(L) + amp))
        ops.append(dict(op="score", x=val(L)))
        out.append(dict(W=W, k=k, period=period, hybrid=rng.random() < .5, alpha=rng.choice([.05, .05, .01, .2, .5]), ops=ops,
                        mode=rng.choice(["zero", "pat", "pat", "stl"]), scale=rng.choice([1.0, .5, 4.0]), robust=rng.random() < .6,
                        kw=rng.choice([{}, {}, {"seasonal": 9}]), pat=[rng.randint(-3, 3) for _ in range(period)], pre=0))
    out += longs(rng, tier) + wide(rng, tier)
    return out


def wide(rng, tier):
    """spikes far larger than the spread, and very small or large units"""
    out = []
    for i in range(70 if tier == "quick" else 500):
        period = rng.choice([2, 3, 4])
        W = 2 * period + rng.choice([1, 3, 7])
        hybrid = rng.random() < .7
        amp = rng.choice([100, 10 ** 4, 10 ** 6, 10 ** 8, 2 * 10 ** 8]) if hybrid else rng.choice([60, 250])
        noise = rng.choice([1, 1, 3])
        ops = []

        def val(j):
            v = rng.randint(-noise, noise)
            return v + rng.choice([-1, 1]) * (amp - rng.randint(0, amp // 10)) if rng.random() < .15 else v
        for j in range(W + rng.choice([2, 5, W])):
            while j > W - 3 and rng.random() < .4:
                ops.append(dict(op="score", x=val(j)))
            ops.append(dict(op="fit" if j < W - 2 or rng.random() < .5 else "fit_score", x=val(j)))
        ops += [dict(op="score", x=amp), dict(op="score", x=-amp), dict(op="score", x=0)]
        out.append(dict(W=W, k=rng.randint(1, int(W * .49)), period=period, hybrid=hybrid, alpha=rng.choice([.05, .2]), ops=ops, mode="zero",
                        scale=rng.choice([1.0, 2.0 ** -20, 2.0 ** -10, 2.0 ** 30]), robust=True, kw={}, pat=[0] * period, pre=0, Q=1000 if amp <= 10 ** 4 else 1))
    return out


def longs(rng, tier):
    out = []
    for hybrid in (False, True):
        for W, period in [(9, 3), (40, 7), (130, 12)]:
            pat = [rng.randint(-4, 4) for _ in range(period)]
            ops = []
            for j in range(1100 if W < 100 else 400):
                x = pat[j % period] + rng.randint(-1, 1)
                hot = rng.random() < .02
                ops.append(dict(op="fit_score" if hot else "fit", x=x + (9 if hot and rng.random() < .5 else 0)))
                if rng.random() < .01:
                    ops.append(dict(op="score", x=x + rng.choice([0, 9, -9])))
            ops.append(dict(op="score", x=9))
            out.append(dict(W=W, k=3, period=period, hybrid=hybrid, alpha=.05, ops=ops, mode=rng.choice(["pat", "stl"]) if W < 100 else "pat", scale=1.0, robust=False,
                            kw={}, pat=[rng.randint(-3, 3) for _ in range(period)], pre=0))
    return out


def execute(scn):
    import statsmodels.tsa.seasonal as tsa
    from scipy.stats import t as tdist
    REAL = getattr(tsa, "_verif_real_STL", tsa.STL)
    tsa._verif_real_STL = REAL
    W, k, per, sc = scn["W"], scn["k"], scn["period"], scn["scale"]
    cache = {}

    def seas(ints):
        key = tuple(ints)
        if key not in cache:
            if scn["mode"] == "zero":
                cache[key] = [0] * len(key)
            elif scn["mode"] == "pat":
                cache[key] = [scn["pat"][j % per] for j in range(len(key))]
            else:
                s = REAL(np.array(key, dtype=float), period=per, robust=scn["robust"], **scn["kw"]).fit().seasonal
                cache[key] = [int(max(-60, min(60, round(float(v))))) for v in s]
        return cache[key]

    class Fake:
        def __init__(self, endog, period=None, seasonal=7, trend=None, low_pass=None, seasonal_deg=1, trend_deg=1, low_pass_deg=1,
                     robust=False, seasonal_jump=1, trend_jump=1, low_pass_jump=1):
            got = dict(seasonal=seasonal, trend=trend, low_pass=low_pass, degs=(seasonal_deg, trend_deg, low_pass_deg),
                       jumps=(seasonal_jump, trend_jump, low_pass_jump))
            want = dict(dict(seasonal=7, trend=None, low_pass=None, degs=(1, 1, 1), jumps=(1, 1, 1)), **scn["kw"])
            assert period == per and bool(robust) == scn["robust"] and got == want, (period, robust, got)
            self.x = [int(round(float(v) / sc)) for v in np.asarray(endog, dtype=float).ravel()]

        def fit(self, *a, **k):
            class R:
                pass
            r = R()
            r.seasonal = np.array(seas(self.x), dtype=float) * sc
            r.trend = np.zeros(len(self.x))
            r.resid = np.array(self.x) * sc - r.seasonal
            return r
    from pysad.models import SeasonalESD, SeasonalHybridESD
    # wherever it was imported to, under whatever name
    sites = [(m, n) for mn, m in list(sys.modules.items()) if m is not None and mn.split(".")[0] in ("pysad", "statsmodels")
             for n, v in list(vars(m).items()) if v is REAL and not n.startswith("_verif")]
    for m, n in sites:
        setattr(m, n, Fake)

    def crit(n, i):
        tv = float(tdist.isf(scn["alpha"] / (2.0 * (n - i + 1)), n - i - 1))
        return (n - i) * tv / math.sqrt((n - i - 1 + tv * tv) * (n - i + 1))
    cfg = dict(W=W, k=k, hybrid=scn["hybrid"], lam=[int(round(1e4 * crit(W, i))) for i in range(1, k + 1)], Q=scn.get("Q", 1000))
    box = []
    cls = SeasonalHybridESD if scn["hybrid"] else SeasonalESD
    kw = dict(scn["kw"])
    if scn["alpha"] != .05:
        kw["alpha"] = scn["alpha"]
    if not scn["robust"]:
        kw["robust"] = False
    ev = [dict(op="new", r=do(lambda: box.append(cls(period=per, window_size=W, max_anomalies=k, **kw))))]
    if box:
        m, win = box[0], []
        ops = [dict(op="fit", x=(5 * j) % 3) for j in range(scn["pre"])] + scn["ops"]
        for o in ops:
            X = np.array([o["x"] * sc])
            cand = (win + [o["x"]])[-W:]
            s = seas(cand) if len(cand) == W and o["op"] != "fit" else []
            if o["op"] == "fit":
                ev.append(dict(op="fit", x=o["x"], r=do(m.fit_partial, X)))
            elif o["op"] == "score":
                ev.append(dict(op="score", x=o["x"], seas=s, r=call(m.score_partial, X, Q=cfg["Q"])))
            else:
                ev.append(dict(op="fit_score", x=o["x"], seas=s, r=call(m.fit_score_partial, X, Q=cfg["Q"])))
            if o["op"] != "score":
                win = cand
    for m, n in sites:
        setattr(m, n, REAL)
    return [dict(cfg=cfg, ev=ev)]
