from common import *
SPEC = "XStream"
ASSUMPTIONS = ["instances are chosen so that their projections (computed with the public StreamhashProjector) are integers", "window ranges are 0, 1, 2, 4 or 8 so that cell widths are exact"]


def emit(s):
    c = s["cfg"]
    pts = [[-1], [0], [1], [2], [4]]
    ops = []
    for o in s["ops"]:
        ops.append(dict(op="fit", y=o["y"]))
        ops += [dict(op="score", y=p) for p in pts[1:4]]
    return [dict(cfg=dict(c, act=[True], far=False), ops=ops, chains=1, seed=len(ops) + sum(o["y"][0] for o in s["ops"]))]


def mc(tier):
    c = dict(MaxLen=5 if tier == "quick" else 7, EmitScn="TRUE", Ws="{1, 2, 3}", Pts="{0, 1, 2}" if tier == "quick" else "{0, 1, 4}", Depth="2" if tier == "quick" else "3")
    return [dict(module="MC_XStream", emit=emit, limit=300 if tier == "quick" else 2500, cfg=mccfg(["DictInv", "Refine", "Emit"], c))]


def window(rng, w, K, aligned):
    cols = []
    for _ in range(K):
        R = rng.choice([0, 1, 2, 4, 8])
        base = rng.randint(-4, 4)
        if w == 1 or R == 0:
            cols.append([base] * w)
            continue
        xs = [base, base + R] + [base + rng.randint(0, R) for _ in range(w - 2)]
        if aligned:
            d = R // 2 if R > 1 else 1
            xs = [x * 1 for x in xs]
        rng.shuffle(xs)
        cols.append(xs)
    return [list(t) for t in zip(*cols)]


def scenarios(rng, tier):
    out = []
    for i in range(180 if tier == "quick" else 1500):
        mode = rng.choice(["b1", "b1", "b2", "k2", "al"])
        w = rng.choice([1, 2, 3, 4, 6, 9, 25 if mode == "b1" else 5])
        K = 2 if mode == "k2" else 1
        depth = rng.choice([1, 2, 3]) if mode == "k2" else rng.choice([1, 2, 3, 4, 6])
        aligned = mode == "al"
        chains = 2 if mode == "b2" else 1
        real = rng.choice([3, 10]) if aligned else chains
        nw = rng.choice([1, 2, 3, 4] + ([20, 45] if w <= 6 else []))
        ys = []
        if aligned:
            # all widths are 1/2 (range 1) or 1 (range 0): integer positions are multiples of a cell
            for _ in range(nw):
                base = rng.randint(-3, 3)
                ws = [base + rng.randint(0, 1) for _ in range(w)] if w > 1 and rng.random() < .7 else [base] * w
                if len(set(ws)) == 1 and False:
                    pass
                ys += [[v] for v in ws]
        else:
            for _ in range(nw):
                ys += window(rng, w, K, False)
        ys += ys[:rng.randint(0, w - 1)] if w > 1 else []
        ops = []
        for y in ys:
            ops.append(dict(op="fit", y=y))
            while rng.random() < (.4 if nw < 9 else .1):
                ops.append(dict(op="score", y=rng.choice(ys) if rng.random() < .7 else [rng.randint(-9, 9) for _ in range(K)]))
        ops.append(dict(op="score", y=rng.choice(ys)))
        # a trailing incomplete window may have any range: only completed windows set widths
        out.append(dict(cfg=dict(w=w, depth=depth, K=K, chains=chains, aligned=aligned, act=[True] * K, far=False), chains=real, ops=ops, seed=rng.randrange(10 ** 6)))
    out += longs(rng, tier) + fars(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for w, n in [(5, 1300), (25, 1300), (100, 1300), (400, 1300), (25, 5000), (2100, 4400)] * (1 if tier == "quick" else 3):
        ys = []
        while len(ys) < n:
            base = rng.randint(-3, 3)
            # the extremes of a window once only, anywhere in it
            odd = rng.randrange(w)
            ys += rng.choice([[[base + (j == odd)] for j in range(w)], [[base + (j != odd)] for j in range(w)],
                              [[base + rng.randint(0, 1)] for _ in range(w - 2)] + [[base], [base + 1]]])
        ops = []
        for y in ys[:n]:
            ops.append(dict(op="fit", y=y))
            if rng.random() < .03:
                ops.append(dict(op="score", y=rng.choice(ys[:n])))
        ops.append(dict(op="score", y=ys[0]))
        out.append(dict(cfg=dict(w=w, depth=rng.choice([2, 4]), K=1, chains=1, aligned=True, act=[True], far=False), chains=3, ops=ops, seed=rng.randrange(10 ** 6)))
    return out


def fars(rng, tier):
    """three components have exact coefficients -1, 0, 1: instances on one feature
    axis, shifted by a multiple of every cell width"""
    out = []
    for i in range(24 if tier == "quick" else 80):
        f = rng.randrange(3)
        w = rng.choice([2, 3, 5])
        ys = []
        for _ in range(rng.choice([1, 2, 3])):
            ys += [y[0] for y in window(rng, w, 1, False)]
        ys += ys[:rng.randint(0, w - 1)]
        at = lambda v: [v if g == f else 0 for g in range(3)]
        ops = []
        for y in ys:
            ops.append(dict(op="fit", y=at(y)))
            while rng.random() < .4:
                ops.append(dict(op="score", y=at(rng.choice(ys) if rng.random() < .7 else rng.randint(-9, 9))))
        ops.append(dict(op="score", y=at(rng.choice(ys))))
        off = rng.choice([0, 2 ** 20, -2 ** 33, 2 ** 34, 2 ** 36])
        out.append(dict(cfg=dict(w=w, depth=rng.choice([2, 3, 4]), K=3, chains=1, aligned=False, act=[g == f for g in range(3)], far=off != 0), chains=1, ops=ops,
                        axis=f, off=off, seed=rng.randrange(10 ** 6)))
    # one component (every level splits it): all within the first window, where
    # different values are in different cells however far from the origin they are
    for i in range(8 if tier == "quick" else 40):
        pool = [rng.randint(-50, 50) for _ in range(5)]
        ops = []
        for _ in range(rng.choice([4, 10, 24])):
            ops.append(dict(op="fit", y=[rng.choice(pool)]))
            while rng.random() < .4:
                ops.append(dict(op="score", y=[rng.choice(pool) if rng.random() < .7 else rng.randint(-90, 90)]))
        off = rng.choice([2 ** 20, 2 ** 31, -2 ** 33, 2 ** 36, 2 ** 39])
        out.append(dict(cfg=dict(w=25, depth=rng.choice([1, 2, 4]), K=1, chains=1, aligned=False, act=[True], far=True), chains=1, ops=ops,
                        axis=0, off=off, seed=rng.randrange(10 ** 6)))
    return out


def execute(scn):
    from pysad.models import xStream
    from pysad.transform.projection import StreamhashProjector
    from pysad.utils import fix_seed
    c = scn["cfg"]
    K = c["K"]
    D = 6
    p = StreamhashProjector(num_components=K)
    R = np.array([np.asarray(p.transform_partial(np.eye(D)[i]), dtype=float).reshape(K) for i in range(D)]).T
    if np.linalg.matrix_rank(R) < K:
        return []
    pinv = np.linalg.pinv(R)
    X = lambda y: pinv @ np.array(y, dtype=float)
    if "axis" in scn:
        # a feature whose only non-zero coefficient is that of the component
        P = [np.asarray(p.transform_partial(np.eye(40)[i]), dtype=float).reshape(K) for i in range(40)]
        hit = [i for i in range(40) if P[i][scn["axis"]] != 0 and np.count_nonzero(P[i]) == 1]
        if not hit:
            return []
        j, sg = hit[scn["seed"] % len(hit)], np.sign(P[hit[scn["seed"] % len(hit)]][scn["axis"]])
        X = lambda y: np.eye(40)[j] * sg * (y[scn["axis"]] + scn["off"])
    fix_seed(scn["seed"])
    box = []
    ev = [dict(op="new", r=do(lambda: box.append(xStream(num_components=K, n_chains=scn["chains"], depth=c["depth"], window_size=c["w"]))))]
    pw = 1 if c["aligned"] else scn["chains"]

    def enc(v):
        f = scalar(v)
        if f is None or f != f or abs(f) > 60:
            return num(v)
        return fuzzy(2.0 ** (-f * pw))
    if box:
        m = box[0]
        for o in scn["ops"]:
            if o["op"] == "fit":
                ev.append(dict(op="fit", y=o["y"], r=do(m.fit_partial, X(o["y"]))))
            else:
                ev.append(dict(op="score", y=o["y"], r=call(m.score_partial, X(o["y"]), enc=enc)))
    return [dict(cfg=c, ev=ev)]


def fuzzy(v):
    if v > 1e9:
        return rec("big", 1)
    i = round(v)
    return rec("num", i) if abs(v - i) < 1e-6 * max(1, v) else rec("other", 0, "not-integer %r" % v)
