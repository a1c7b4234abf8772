from common import *
import random
import zoo
from drivers import c25
SPEC = "Fun"
ASSUMPTIONS = c25.ASSUMPTIONS + ["copies are made with copy.deepcopy and pickle; RobustRandomCutForest (which keeps a module) is not copied and Inqmad (which keeps compiled functions) is not pickled"]
HOW = ["deepcopy", "pickle"]


def can(e, how):
    return e.name != "RobustRandomCutForest" and not (e.name == "Inqmad" and how == "pickle")


def mc(tier):
    q = tier == "quick"
    inv = ["Accepts", "Descends", "Apart"]
    return [dict(module="MC_Copy", emit=emit, limit=250 if q else 3000, timeout=800, cfg=mccfg(inv + ["Emit"], dict(MaxLen=4, EmitScn="TRUE", Toks="{1}", Wins="{<<0, 1>>}"))),
            dict(module="MC_Copy", timeout=800, cfg=mccfg(inv, dict(MaxLen=3 if q else 5, EmitScn="FALSE", Toks="{1, 2}" if q else "{1}", Wins="{<<0, 1>>, <<2, 1>>, <<2, 2>>, <<-1, 1>>}")))]


def emit(s):
    return [dict(model=[[o["op"], o["o"], o["x"]] for o in s["ops"]])]


def scenarios(rng, tier):
    out = []
    q = tier == "quick"
    for e in zoo.entries():
        for how in HOW:
            if can(e, how):
                for _ in range((3 if e.cost < 10 else 1) if q else (20 if e.cost < 10 else 3)):
                    out.append(family(rng, e, how))
    return out


def family(rng, e, how):
    """object 1, copied at some points; every copy and the original then go their own ways;
    each way is taken again by a fresh object that was never copied"""
    sp = zoo.spec_of(e, rng, (e.pre(e.args(rng)) if rng.random() < .8 else 0) + rng.choice([4, 8, 12]) if e.cost < 10 else 5)
    T, pre = len(sp["table"]), e.pre(sp["p"])
    few = e.name not in ("RobustRandomCutForest", "LocalOutlierProbability")

    def step(t):
        r = [[rng.choice(["fit", "fr"]) if not e.stat else "fit", t]]
        if rng.random() < .4 and (e.cost < 3 or t > pre - 2):
            r.append(["read", rng.randrange(T)])
        return r
    way = {1: []}
    ops = [["new", 1, 0]]
    n = 1
    copies = sorted(rng.sample(range(T + 1), min(T + 1, rng.choice([1, 2, 3])) if e.cost < 10 else 1))
    for t in range(T + 1):
        if t in copies:
            src = rng.choice(sorted(way))
            n += 1
            ops.append(["copy", n, src, how])
            way[n] = list(way[src])
        if t < T:
            for o in sorted(way):
                if o == 1 or rng.random() < .7:
                    x = step(t if o == 1 or not few or rng.random() < .5 else rng.randrange(T))
                    way[o] += x
                    ops += [[a, o, i] for a, i in x]
    for o in sorted(way):
        x = [["read", i] for i in range(min(3, T))]
        way[o] += x
        ops += [[a, o, i] for a, i in x]
    for o in sorted(way):
        n += 1
        ops.append(["new", n, 0])
        ops += [[a, n, i] for a, i in way[o]]
    return dict(specs=[sp], ops=ops)


def prepare_scns(scns, tier, seed):
    es = [e for e in zoo.entries() if e.cost < 10 and can(e, "pickle")]
    for i, s in enumerate(scns):
        if "model" in s:
            r = random.Random("bind37-%d" % i)
            e = es[i % len(es)]
            sp = zoo.spec_of(e, r, e.pre(e.args(r)) + 4)
            T, k = len(sp["table"]), min(e.pre(sp["p"]), len(sp["table"]))
            ops = []
            for o in (1, 2):
                ops += [["new", o, 0]] + [["fit", o, t] for t in range(k)]
            s["ops"] = ops + [[a, o, x] + [r.choice(HOW)] if a == "copy" else [a, o, T - x] for a, o, x in s["model"]] + [["read", o, t] for o in (1, 2) for t in (0, 1)]
            s["specs"] = [sp]


def execute(scn):
    w = zoo.World(scn["specs"])
    w.do(scn["ops"])
    return [dict(cfg=w.cfg(max(o[1] for o in scn["ops"])), ev=w.ev)]
