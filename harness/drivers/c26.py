from common import *
import random
import zoo
from drivers import c25
SPEC = "Fun"
ASSUMPTIONS = c25.ASSUMPTIONS + ["mutable arguments are compared before and after every call; arrays that the caller changes later are judged by C35"]
mc_base = c25.mc


def emit(s):
    return [dict(model=[[o["op"], o["o"], o["x"]] for o in s["ops"]], same=s["cfg"]["same"])]


def mc(tier):
    r = c25.mc(tier)
    for m in r:
        if "emit" in m:
            m["emit"] = emit
    return r


def mix(rng, es, k, tier):
    """k identities, two objects each, interleaved, then each alone"""
    specs = [zoo.spec_of(e, rng, (e.pre(e.args(rng)) if rng.random() < .7 else 0) + rng.choice([4, 8, 12]) if e.cost < 10 else 5) for e in es]
    n = len(specs)
    hist = {}
    for i, (e, sp) in enumerate(zip(es, specs)):
        for o in (2 * i + 1, 2 * i + 2):
            h = []
            ts = list(range(len(sp["table"])))
            if o % 2 == 0 and rng.random() < .5:
                ts = ts[rng.randrange(len(ts)):] if e.name != "RobustRandomCutForest" else ts
            for j, t in enumerate(ts):
                h.append([rng.choice(["fit", "fr"]) if e.split and not e.stat or not e.split else "fit", o, t])
                if rng.random() < .4 and (e.cost < 3 or j > e.pre(sp["p"]) - 2):
                    h.append(["read", o, rng.randrange(len(sp["table"]))])
            h += [["read", o, t] for t in range(min(4, len(sp["table"])))]
            hist[o] = h
    ops = []
    left = {o: list(h) for o, h in hist.items()}
    born = set()
    lazy = rng.random() < .5
    if not lazy:
        for o in sorted(left):
            ops.append(["new", o, (o - 1) // 2])
            born.add(o)
    while left:
        o = rng.choice(sorted(left))
        if o not in born:
            ops.append(["new", o, (o - 1) // 2])
            born.add(o)
        for _ in range(rng.choice([1, 1, 2, 4])):
            if left[o]:
                ops.append(left[o].pop(0))
        if not left[o]:
            del left[o]
    for o in sorted(hist):
        ops.append(["new", 2 * n + o, (o - 1) // 2])
        ops += [[a, 2 * n + o, t] for a, _, t in hist[o]]
    return dict(specs=specs, ops=ops)


def scenarios(rng, tier):
    out = []
    es = zoo.entries()
    q = tier == "quick"
    for e in es:
        for r in range((2 if e.cost < 10 else 1) if q else (20 if e.cost < 10 else 3)):
            out.append(mix(rng, [e, e] if e.cost < 10 and rng.random() < .5 else [e], 1, tier))
    cheap = [e for e in es if e.cost < 10]
    for r in range(60 if q else 600):
        out.append(mix(rng, [rng.choice(cheap) for _ in range(rng.choice([2, 3]))], 2, tier))
    # components of one family share base classes
    fam = {}
    for e in cheap:
        fam.setdefault(e.kind, []).append(e)
    for r in range(40 if q else 400):
        f = rng.choice(sorted(fam))
        out.append(mix(rng, [rng.choice(fam[f]) for _ in range(2)], 2, tier))
    return out


def prepare_scns(scns, tier, seed):
    es = [e for e in zoo.entries() if e.cost < 10]
    for i, s in enumerate(scns):
        if "model" in s:
            r = random.Random("bind26-%d" % i)
            e = es[i % len(es)]
            spec = [zoo.spec_of(e, r, e.pre(e.args(r)) + 4)]
            if not s["same"]:
                spec.append(zoo.spec_of(e, r, len(spec[0]["table"])))
            ops, alone = [], []
            for o in (1, 2):
                i_ = 0 if s["same"] or o == 1 else 1
                pre = min(e.pre(spec[i_]["p"]), len(spec[i_]["table"]))
                k = pre if pre > 20 else r.choice([0, pre])
                seqo = [["fit", o, t] for t in range(k)]
                mine = [[a, o, len(spec[i_]["table"]) - x] for a, oo, x in s["model"] if oo == o]
                ops += [["new", o, i_]] + seqo
                alone += [["new", o + 2, i_]] + [[a, o + 2, t] for a, _, t in seqo + mine + [["read", o, 0]]]
            T = len(spec[0]["table"])
            ops += [[a, o, T - x] for a, o, x in s["model"]] + [["read", 1, 0], ["read", 2, 0]]
            s["specs"], s["ops"] = spec, ops + alone


def execute(scn):
    w = zoo.World(scn["specs"])
    w.do(scn["ops"])
    n = max(o[1] for o in scn["ops"])
    return [dict(cfg=w.cfg(n), ev=w.ev)]
