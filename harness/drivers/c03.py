from common import *
SPEC = "RunningStat"
KINDS = ["count", "sum", "sumsq", "avg", "var", "min", "max", "median", "usum", "useq"]
ASSUMPTIONS = ["user-defined statistics: a weighted sum and an order-sensitive weighted sum, both constructed through keyword arguments"]


def emit(s):
    out = []
    for k in KINDS:
        if s["cfg"]["w"] <= 3:
            out.append(dict(xs=[o["x"] for o in s["ops"]], w=s["cfg"]["w"], kind=k, abs=False, wt=3, scale=1.0, reads=1))
    return out


def mc(tier):
    L = 6 if tier == "quick" else 8
    return [dict(module="MC_RunningStat", emit=emit, limit=150 if tier == "quick" else 1500,
                 cfg=mccfg(["RunningInv", "WindowInv", "Emit"], dict(MaxLen=L, EmitScn="TRUE", Vals="{-1, 0, 2}", Sizes="{1, 2, 3, 5}")))]


def scenarios(rng, tier):
    out = []
    for i in range(350 if tier == "quick" else 3000):
        w = wsize(rng, True)
        L = min(400, rng.choice([w + 3, 2 * w + 3, 3 * w + 1, 20]))
        lim = 30 if min(w, L) <= 33 else 5
        out.append(dict(xs=values(rng, L, lim), w=w, kind=KINDS[i % 10], abs=rng.random() < .2, wt=rng.choice([1, 2, 5]),
                        scale=rng.choice(SCALES[:8]), reads=rng.choice([.1, .5, 1]), seed=rng.randrange(10 ** 6)))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for i, kind in enumerate(KINDS * (1 if tier == "quick" else 4)):
        w = rng.choice([1, 2, 7, 20, 50, 300, 1000])
        out.append(dict(xs=values(rng, rng.choice([1300, 2300, 3 * w + 50]), 4), w=w, kind=kind, abs=rng.random() < .2, wt=2,
                        scale=rng.choice([1.0, .5, .1, 100.0]), reads=.03, seed=rng.randrange(10 ** 6)))
    for kind in KINDS if tier == "thorough" else rng.sample(KINDS, 4):
        w = rng.choice([1, 1500, 5000])
        out.append(dict(xs=[rng.choice([-1, 0, 1, 1] if (j // 700) % 2 else [-1, -1, 0]) for j in range(12000)], w=w, kind=kind, abs=False, wt=2, scale=1.0, reads=.001,
                        seed=rng.randrange(10 ** 6)))
    return out


def stats():
    from pysad import statistics as S
    from pysad.core.base_statistic import UnivariateStatistic

    class USum(UnivariateStatistic):
        def __init__(self, weight, power=1):
            self.weight, self.power, self.s = weight, power, 0.0

        def update(self, num):
            self.s += num
            return self

        def remove(self, num):
            self.s -= num
            return self

        def get(self):
            return self.weight * self.s

    class USeq(UnivariateStatistic):
        def __init__(self, weight, power=1):
            self.weight, self.power, self.l = weight, power, []

        def update(self, num):
            self.l.append(num)
            return self

        def remove(self, num):
            self.l.remove(num)
            return self

        def get(self):
            return self.weight * sum((i + 1) * x for i, x in enumerate(self.l))

    return dict(count=S.CountMeter, sum=S.SumMeter, sumsq=S.SumSquaresMeter, avg=S.AverageMeter, var=S.VarianceMeter,
                min=S.MinMeter, max=S.MaxMeter, median=S.MedianMeter, usum=USum, useq=USeq)


def execute(scn):
    import random
    from pysad.statistics import RunningStatistic, AbsStatistic
    k, a, w = scn["kind"], scn["scale"], scn["w"]
    rng = random.Random(scn.get("seed", 0))
    rs = 1.0 if k == "count" else a * a if k in ("sumsq", "var") else a
    Q = 1 if k in ("count", "sumsq") else 100 if w > 150 else 1000
    cls = stats()[k]
    kw = dict(weight=scn["wt"]) if k in ("usum", "useq") else {}
    box = []
    if scn["abs"]:
        mk = lambda: box.append(RunningStatistic(AbsStatistic, w, statistic_cls_=None) if 0 else RunningStatistic(lambda **q: AbsStatistic(cls, **q), w, **kw))
    else:
        mk = lambda: box.append(RunningStatistic(cls, w, **kw))
    ev = [dict(op="new", r=do(mk))]
    cfg = dict(kind=k, abs=scn["abs"], wt=scn["wt"], w=w, Q=Q)
    if box:
        m = box[0]
        for x in scn["xs"]:
            ev.append(dict(op="update", x=x, r=do(m.update, x * a)))
            while rng.random() < scn["reads"] * .6 or (scn["reads"] == 1 and ev[-1]["op"] != "get"):
                ev.append(dict(op="get", r=call(m.get, Q=Q, scale=rs)))
        ev.append(dict(op="get", r=call(m.get, Q=Q, scale=rs)))
    return [dict(cfg=cfg, ev=ev)]
