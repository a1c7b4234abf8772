from common import *
SPEC = "KNNCAD"
D, K = 19, 27
ASSUMPTIONS = ["the non-conformity values themselves (27-nearest-neighbour distances under the inverse scatter matrix) come from an independent numpy oracle as ranks; streams whose values are numerically ambiguous are checked for phases and multiples only"]


def emit(s):
    return [dict(P=48 + len(s["ops"]) % 5, ops=[o["op"] for o in s["ops"]], kind="noise", seed=i, prefix=46, tail=1) for i in (1,)]


def mc(tier):
    c = dict(MaxLen=6 if tier == "quick" else 8, EmitScn="TRUE", Ps="{3, 5}", Dim="1")
    out = [dict(module="MC_KNNCAD", emit=emit, limit=20 if tier == "quick" else 80, cfg=mccfg(["CodeInv", "SizeInv", "Emit"], c))]
    c = dict(MaxLen=7 if tier == "quick" else 9, EmitScn="FALSE", Ps="{4, 10}", Dim="2")
    out.append(dict(module="MC_KNNCAD", cfg=mccfg(["CodeInv", "SizeInv"], c), timeout=800))
    return out


def scenarios(rng, tier):
    out = []
    for i in range(28 if tier == "quick" else 200):
        P = rng.choice([48, 49, 50, 51, 53, 55, 57, 60, 64, 75, 100] if i % 14 else [310, 330])
        kind = "spikes" if i % 14 == 0 else rng.choice(["noise", "spikes", "spikes", "spikes", "mix", "const", "period", "step", "big"])
        L = rng.choice([P + 5, 2 * P + 10, 2 * P + P // 2 + 5, 3 * P + 7, 4 * P + 3]) if P < 300 else P + 150
        p = rng.choice([1.0, 1.0, .7, .2])
        ops = []
        for j in range(L):
            ops.append("fit")
            while rng.random() < p:
                ops.append("score")
                if rng.random() < .85:
                    break
        out.append(dict(P=P, ops=ops, kind=kind, seed=rng.randrange(10 ** 6), prefix=0, tail=0))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for P, L in [(48, 1200), (53, 900), (150, 700)] * (1 if tier == "quick" else 3):
        ops = []
        for j in range(L):
            ops.append("fit")
            if rng.random() < .3 or j % 7 == 0:
                ops.append("score")
        out.append(dict(P=P, ops=ops, kind=rng.choice(["noise", "spikes", "mix"]), seed=rng.randrange(10 ** 6), prefix=0, tail=0))
    n0 = 260
    for p in (dict(probationary_period=48), dict(probationary_period=57)):
        for how in ("fitread", "fs"):
            out.append(dict(zoo="KNNCAD", p=p, how=how, n0=n0, step=29, cap=3000, seed=rng.randrange(10 ** 6), bin=False, memory=True))
    return out


def stream(kind, n, P, seed):
    r = np.random.RandomState(seed)
    x = r.normal(size=n)
    if kind == "spikes":
        for j in range(P - 2, n, r.randint(11, P)):
            x[j] += r.choice([-1, 1]) * r.uniform(3, 15)
    elif kind == "mix":
        x = x + np.sin(np.arange(n) / 3.0) * 2
    elif kind == "const":
        x = np.full(n, 3.0)
    elif kind == "period":
        x = np.arange(n) % 4 + 0.0
    elif kind == "step":
        x = (np.arange(n) > P + 20) + 0.0
    elif kind == "big":
        x = x * 1e4 + 50
    return x


def oracle(x, P):
    """non-conformity values: init list, S[n], Q[n] (n = 1-based fit count)"""
    n = len(x)
    sh = lambda j: x[j - D:j]                       # shingle ending at fit j
    sigma = np.eye(D)
    train = [sh(j) for j in range(D, P)]
    cal = []
    init, S, Qr, ok = None, {}, {}, True

    def ncm(item, k):
        d = np.array(train) - item
        v = np.einsum("ij,jk,ik->i", d, sigma, d)
        return float(np.sum(np.sort(v)[:k]))
    for j in range(P, n + 1):
        o = j % P
        if o == 0 or o == P // 2:
            T = np.array(train)
            M = T.T @ T
            if np.linalg.cond(M) > 1e10:
                return None, {}, {}, False
            sigma = np.linalg.inv(M)
        if init is None:
            init = [ncm(t, K + 1) for t in train]
        S[j] = ncm(sh(j), K)
        if j >= 2 * P:
            train.pop(0)
            train.append(cal.pop(0))
        cal.append(sh(j))
        Qr[j] = ncm(sh(j), K)
    return init, S, Qr, ok


def execute(scn):
    if scn.get("memory"):
        from drivers import c28
        return c28.memory(scn)
    from pysad.models import KNNCAD
    P = scn["P"]
    ops = ["fit"] * scn["prefix"] + scn["ops"] + (["fit", "score"] * 15 if scn["tail"] else [])
    nf = ops.count("fit")
    x = stream(scn["kind"], nf, P, scn["seed"])
    numeric = scn["kind"] not in ("const", "period", "step") and nf >= P
    init, S, Qr = [], {}, {}
    if numeric:
        init, S, Qr, numeric = oracle(x, P)
    if numeric:
        vals = sorted(set(init) | set(S.values()) | set(Qr.values()))
        rank, r, prev = {}, 0, None
        for v in vals:
            if prev is not None:
                rel = (v - prev) / max(abs(v), 1e-300)
                if rel > 1e-6:
                    r += 1
                elif rel > 1e-10:
                    numeric = False
            rank[v] = r
            prev = v
    if not numeric:
        init, S, Qr, rank = [0.0] * (P - D), {}, {}, {0.0: 0}
    Q = 1000000
    cfg = dict(P=P, dim=D, numeric=bool(numeric), Q=Q)
    box = []
    ev = [dict(op="new", r=do(lambda: box.append(KNNCAD(probationary_period=P))))]
    if box:
        m = box[0]
        n = 0
        for o in ops:
            if o == "fit":
                n += 1
                ev.append(dict(op="fit", s=rank[S.get(n, vals[0] if numeric else 0.0)], init=[rank[v] for v in init] if n == P else [], r=do(m.fit_partial, np.array([x[n - 1]]))))
            elif n:
                ev.append(dict(op="score", q=rank[Qr.get(n, vals[0] if numeric else 0.0)], r=call(m.score_partial, np.array([x[n - 1]]), Q=Q)))
    return [dict(cfg=cfg, ev=ev)]
