from common import *
SPEC = "WindowedMetric"


def emit(s):
    c = s["cfg"]
    return [dict(ops=s["ops"], kind=k, w=c["w"], ign=c["ign"], wt=3, reads="all") for k in ("user", "precision", "recall")]


def mc(tier):
    L = 4 if tier == "quick" else 6
    out = [dict(module="MC_WindowedMetric", emit=emit, limit=400 if tier == "quick" else 4000,
                cfg=mccfg(["ClosedInv", "RestInv", "Emit"], dict(MaxLen=L, EmitScn="TRUE", Sizes="{1, 2, 3, 5}")))]
    return out


def scenarios(rng, tier):
    out = []
    for i in range(300 if tier == "quick" else 2500):
        k = ["user", "user", "precision", "recall", "auroc"][i % 5]
        w = wsize(rng)
        if k == "auroc":
            w = max(w, 2)
        L = min(120, rng.choice([w - 1, w, w + 1, 2 * w, 2 * w + 1, 3 * w + w // 2, 5 * w, 6 * w + 1]))
        L = max(L, 1)
        pp = rng.choice([.2, .5, .8])
        ops = [dict(op="update", y=int(rng.random() < pp), s=rng.randint(0, 1) if k != "auroc" else rng.randint(0, 4)) for _ in range(L)]
        if k == "auroc":    # both classes in the first two pairs of every window
            for j in range(0, L, w):
                ops[j]["y"] = 0
                if j + 1 < L:
                    ops[j + 1]["y"] = 1
        out.append(dict(ops=ops, kind=k, w=w, ign=rng.random() < .5, wt=rng.choice([1, 3, 7]), reads=rng.choice(["all", "some", "end"]), seed=rng.randrange(10 ** 6)))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for i in range(10 if tier == "quick" else 50):
        k = ["user", "precision", "recall", "auroc", "user"][i % 5]
        w = rng.choice([2, 3, 10, 200, 700] if k != "user" else [1, 2, 5, 10])
        n = rng.choice([1100, 2150]) + rng.randint(0, w)
        ops = [dict(op="update", y=int(rng.random() < .3), s=rng.randint(0, 1) if k != "auroc" else rng.randint(0, 4)) for _ in range(n)]
        if k == "auroc":
            w = min(w, 200)
            for j in range(0, n, w):
                ops[j]["y"] = 0
                if j + 1 < n:
                    ops[j + 1]["y"] = 1
        out.append(dict(ops=ops, kind=k, w=w, ign=rng.random() < .5, wt=1, reads="rare", seed=rng.randrange(10 ** 6)))
    for k, w in [("precision", 4500), ("user", 5)] if tier == "quick" else [("precision", 3000), ("recall", 4500), ("user", 2), ("user", 10), ("auroc", 1000)]:
        n = 10500
        ops = [dict(op="update", y=int(rng.random() < .3), s=rng.randint(0, 1)) for _ in range(n)]
        for j in range(0, n, w):
            ops[j]["y"], ops[j + 1]["y"] = 0, 1
        out.append(dict(ops=ops, kind=k, w=w, ign=rng.random() < .5, wt=1, reads="vrare", seed=rng.randrange(10 ** 6)))
    return out


def execute(scn):
    import random
    from pysad.core.base_metric import BaseMetric
    from pysad.evaluation import WindowedMetric, PrecisionMetric, RecallMetric, AUROCMetric

    class User(BaseMetric):
        def __init__(self, weight=None, bias=None):
            super().__init__()
            if weight is None or bias is None:
                raise RuntimeError("keyword arguments lost")
            self.weight, self.bias = weight, bias
            self.h = []

        def update(self, y_true, y_pred):
            self.h.append((y_true, y_pred))
            return self

        def get(self):
            return self.bias + self.weight * sum((i + 1) * (2 * y + s) for i, (y, s) in enumerate(self.h))

    rng = random.Random(scn.get("seed", 0))
    k, w, wt = scn["kind"], scn["w"], scn["wt"]
    Q = 100 if k == "user" else 10000
    cls = dict(user=User, precision=PrecisionMetric, recall=RecallMetric, auroc=AUROCMetric)[k]
    kw = dict(weight=wt, bias=0) if k == "user" else {}
    box = []
    ev = [dict(op="new", r=do(lambda: box.append(WindowedMetric(cls, w, ignore_nonempty_last=scn["ign"], **kw))))]
    if box:
        m = box[0]
        n = 0
        for o in scn["ops"]:
            ev.append(dict(op="update", y=o["y"], s=o["s"], r=do(m.update, o["y"], o["s"])))
            n += 1
            if k == "auroc" and n % w == 1:      # the open window has one class only
                continue
            if scn["reads"] == "all" or (scn["reads"] == "some" and rng.random() < .2) or (scn["reads"] in ("rare", "vrare") and rng.random() < (.01 if scn["reads"] == "rare" else .0005)):
                for _ in range(rng.choice([1, 2])):
                    ev.append(dict(op="get", r=call(m.get, Q=Q)))
        if not (k == "auroc" and n % w == 1):
            ev.append(dict(op="get", r=call(m.get, Q=Q)))
    return [dict(cfg=dict(kind=k, w=w, ign=scn["ign"], wt=wt, Q=Q), ev=ev)]
