from common import *
import zoo
SPEC = "Fun"
ASSUMPTIONS = ["random generator state is controlled: it is a function of the object's identity and number of fits, and restored after reads",
               "results are compared with relative tolerance 1e-9 (1e-5 for the single-precision Inqmad model)"]
OPS = '{"fit", "read", "fr"}'


def mc(tier):
    q = tier == "quick"
    inv = ["Accepts", "Independent", "Pure", "Sensitive"]
    return [dict(module="MC_Fun", emit=emit, limit=260 if q else 3000, timeout=800,
                 cfg=mccfg(inv + ["Emit"], dict(MaxLen=3 if q else 4, EmitScn="TRUE", Toks="{1, 2}", Wins="{<<0, 1>>}", OpNames=OPS))),
            dict(module="MC_Fun", timeout=800,
                 cfg=mccfg(inv, dict(MaxLen=3 if q else 5, EmitScn="FALSE", Toks="{1, 2}", Wins="{<<0, 1>>, <<2, 1>>, <<2, 2>>, <<-1, 1>>}",
                                     OpNames='{"fit", "read"}')))]


def emit(s):
    if not s["cfg"]["same"]:
        return []
    return [dict(model=[[o["op"], o["o"], o["x"]] for o in s["ops"]])]


def bind(scns, rng, cheap=8):
    """give every history from the specification a component"""
    es = [e for e in zoo.entries() if e.cost < 10]
    for i, s in enumerate(scns):
        if "model" in s:
            r = random.Random("bind-%d" % i)
            e = es[i % len(es)]
            pre = e.pre(e.args(r))
            sp = zoo.spec_of(e, r, pre + 4)
            pre = e.pre(sp["p"])
            k = r.choice([0, pre, pre + 1, pre + 1]) if pre < 20 else pre + r.choice([0, 1])
            ops = []
            for o in (1, 2):
                ops.append(["new", o, 0])
                ops += [["fit", o, t] for t in range(k)]
            s["specs"], s["ops"] = [sp], ops + [[a, o, len(sp["table"]) - x] for a, o, x in s["model"]] + [["read", o, t] for o in (1, 2) for t in (0, 1)]


import random


def scenarios(rng, tier):
    out = []
    for e in zoo.entries():
        reps = (3 if e.cost < 10 else 1) if tier == "quick" else (40 if e.cost < 10 else 4)
        for r in range(reps):
            out.append(history(e, rng))
        if e.cost <= 1:
            for r in range((6 if e.win is not None else 2) if tier == "quick" else 16):
                out.append(long_history(e, rng, r))
    return out


def long_history(e, rng, r=0):
    """hundreds of fits; the second object is read throughout, the first only now and then"""
    nf = rng.choice([150, 300]) if e.name != "RobustRandomCutForest" else 60
    sp = zoo.spec_of(e, rng, nf)
    for k in ("window_size", "trend_window"):
        if k in sp["p"] and rng.random() < .75:
            sp["p"][k] = rng.choice([40, 66, 100, 130])
    marks = sorted(rng.sample(range(nf), 12)) + [nf - 1]
    a, b = [["new", 1, 0]], [["new", 2, 0]]
    # few distinct instances, or runs of the same one
    few = e.name not in ("RobustRandomCutForest", "LocalOutlierProbability", "WindowedMetric") and r % 2 == 0
    pool, run = [rng.randrange(nf) for _ in range(rng.choice([1, 3, 8, 8, 20, 20]))], rng.choice([0, .5, .9])
    t = 0
    for i in range(nf):
        if not few:
            t = i
        elif i == 0 or rng.random() >= run:
            t = rng.choice(pool)
        a.append(["fit", 1, t])
        b.append(["fit", 2, t])
        if e.readmut:
            if i in marks:
                a.append(["read", 1, i])
                b.append(["read", 2, i])
            continue
        if rng.random() < .25:
            b += [["read", 2, rng.randrange(nf)] for _ in range(rng.choice([1, 1, 5]))]
        if i in marks:
            ps = [rng.randrange(nf) for _ in range(3)]
            a += [["read", 1, x] for x in ps]
            b += [["read", 2, x] for x in ps]
    return dict(specs=[sp], ops=a + b)


def history(e, rng):
    p0 = e.args(rng)
    pre = e.pre(p0)
    nf = pre + rng.choice([4, 8, 16]) if e.cost < 10 else 5
    sp = zoo.spec_of(e, rng, nf)
    npr = min(nf, 3)
    fits = [rng.randrange(nf) for _ in range(nf)] if rng.random() < .3 and e.name not in ("RobustRandomCutForest", "LocalOutlierProbability", "WindowedMetric") else list(range(nf))
    probes = [rng.randrange(nf) for _ in range(npr)]
    a, b = [["new", 1, 0]], [["new", 2, 0]]
    dens = rng.choice([1, 1, 3])
    for i, t in enumerate(fits):
        late = i >= pre - 2 or e.cost < 3
        if rng.random() < .7 and late:      # extra reads before and after
            b += [["read", 2, rng.randrange(nf)] for _ in range(rng.randint(1, dens))]
        m = "fr" if e.split and rng.random() < .3 and not e.stat and not e.readmut else "fit"
        m2 = m
        if e.split and not e.rread and not e.stat and not e.readmut and rng.random() < .3:
            m2 = "fr" if m == "fit" else "fit"
        if not e.split or e.rread:
            m = m2 = rng.choice(["fit", "fr"])
        a.append([m, 1, t])
        b.append([m2, 2, t])
        if late:
            if rng.random() < .5:
                b += [["read", 2, x] for x in probes for _ in range(rng.randint(1, dens))]
            if i == nf - 1 or rng.random() < .25:
                a += [["read", 1, x] for x in probes]
    if e.readmut:                            # reads are part of the history: identical schedules, extra gets of nothing
        b = [[op[0], 2, op[2]] for op in a]
    a += [["read", 1, x] for x in range(nf)][:12]
    b += [["read", 2, x] for x in range(nf)][:12]
    return dict(specs=[sp], ops=a + b)


def execute(scn):
    if "model" in scn and "ops" not in scn:
        raise RuntimeError("unbound scenario")
    w = zoo.World(scn["specs"])
    w.do(scn["ops"])
    n = max(o[1] for o in scn["ops"])
    return [dict(cfg=w.cfg(n), ev=w.ev)]


def prepare_scns(scns, tier, seed):
    bind(scns, None)
