from common import *
from drivers.c09 import Rec, SPACING, inst
SPEC = "RefWindow"
ASSUMPTIONS = ["the wrapped detector is a recording stub with PyOD's interface"]


def emit(s):
    c = dict(s["cfg"])
    if not c["hasInit"]:
        return []
    c["onefit"] = True
    return [dict(cfg=c, ops=s["ops"], dim=2, arr=True, seed=3)]


def mc(tier):
    c = dict(MaxLen=3 if tier == "quick" else 6, EmitScn="TRUE", Ws="{1}", Ss="{1}", InitLens="{0, 1, 2, 3, 5}" if tier == "quick" else "{0, 1, 2, 3, 4, 5, 6, 9, 12}")
    return [dict(module="MC_RefWindow", emit=emit, cfg=mccfg(["TrainedInv", "CountInv", "SizeInv", "Emit"], c))]


def scenarios(rng, tier):
    out = []
    for i in range(150 if tier == "quick" else 1500):
        k = rng.choice([1, 2, 3, 7, 20, 50])
        lab = rng.random() < .5
        y = lambda: rng.choice([1, 2]) if lab else 0
        cfg = dict(w=1, s=1, hasInit=True, init=[[1 + rng.randrange(300), y()] for j in range(k)], lab=lab, onefit=True)
        L = rng.choice([0, 1, 5, 30, 80])
        ops = [dict(op="fit", x=1 + rng.randrange(300), y=y()) for j in range(L)]
        out.append(dict(cfg=cfg, ops=ops, dim=rng.choice([1, 2, 4]), arr=rng.random() < .7, seed=rng.randrange(10 ** 6)))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for k, lab in [(3, False), (300, True)]:
        y = lambda: rng.choice([1, 2]) if lab else 0
        cfg = dict(w=1, s=1, hasInit=True, init=[[1 + rng.randrange(300), y()] for j in range(k)], lab=lab, onefit=True)
        out.append(dict(cfg=cfg, ops=[dict(op="fit", x=1 + rng.randrange(300), y=y()) for j in range(1200 if lab else 6000)], dim=2, arr=True, seed=rng.randrange(10 ** 6)))
    return out


def execute(scn):
    import random
    from pysad.models.integrations import OneFitModel
    rng = random.Random(scn["seed"])
    c, dim = scn["cfg"], scn["dim"]
    sp = SPACING[scn["seed"] % len(SPACING)]
    rc = Rec(dim, sp)
    box = []

    def mk():
        X = [inst(e[0], dim, sp) for e in c["init"]]
        y = [e[1] for e in c["init"]]
        kw = dict(initial_y=np.array(y) if scn["arr"] else y) if c["lab"] else {}
        box.append(OneFitModel(rc.cls, np.array(X) if scn["arr"] else X, alpha_=3, beta_="b", **kw))
    ev = [dict(op="new", r=do(mk), fits=rc.take(), blind=False)]
    if box:
        m = box[0]

        def score():
            q = rng.choice([333, rng.randint(1, 300), rng.randint(1, 12), rng.randint(1, 12)])
            r = call(m.score_partial, inst(q, dim, sp))
            ev.append(dict(op="score", x=q, r=r, fits=rc.take(), held=rc.last_held))
        score()
        for o in scn["ops"]:
            k = rng.randrange(4)
            a = (inst(o["x"], dim, sp), o["y"]) if c["lab"] else (inst(o["x"], dim, sp),)
            if k < 2:
                ev.append(dict(op="fit", x=o["x"], y=o["y"], r=do(m.fit_partial, *a), fits=rc.take(), blind=False))
            elif k == 2:    # batch fit
                ev.append(dict(op="fit", x=o["x"], y=o["y"], r=do(m.fit, np.array([a[0]] * 2), *((np.array([a[1]] * 2),) if c["lab"] else ())), fits=rc.take(), blind=False))
            else:
                r = call(m.fit_score_partial, *a)
                ev.append(dict(op="score", x=o["x"], r=r, fits=rc.take(), held=rc.last_held))
            if rng.random() < .5:
                score()
        score()
    return [dict(cfg=c, ev=ev)]
