from common import *
SPEC = "RefWindow"
ASSUMPTIONS = ["the wrapped detector is a recording stub with PyOD's interface (fit / decision_function)",
               "IForestASD is decided with PyOD's IForest at a fixed random_state: the score must be reproduced by a detector trained on exactly the specified range"]


def emit(s):
    c = s["cfg"]
    out = []
    for d in (1, 3):
        out.append(dict(cfg=c, ops=s["ops"], dim=d, scores="all", arr=d == 3, seed=len(s["ops"])))
    return out


def mc(tier):
    if tier == "quick":
        c = dict(MaxLen=9, EmitScn="TRUE", Ws="{1, 2, 3, 4}", Ss="{1, 2, 3, 5}", InitLens="{0, 1, 3, 5}")
    else:
        c = dict(MaxLen=16, EmitScn="TRUE", Ws="{1, 2, 3, 4, 5, 7}", Ss="{1, 2, 3, 4, 5, 6, 8}", InitLens="{0, 1, 2, 3, 5, 8}")
    return [dict(module="MC_RefWindow", emit=emit, cfg=mccfg(["TrainedInv", "CountInv", "SizeInv", "Emit"], c))]


def scenarios(rng, tier):
    out = []
    for i in range(120 if tier == "quick" else 1000):
        w, s = rng.choice([1, 2, 3, 5, 6, 8, 10, 13, 20]), rng.choice([1, 2, 3, 4, 5, 7, 8, 11, 16, 25])
        k = rng.choice([0, 0, 1, w - 1, w, w + 1, 2 * w])
        lab = rng.random() < .5
        L = min(90, rng.choice([w + s, 2 * w + 2 * s + 1, 3 * w]))
        y = lambda: rng.choice([1, 2]) if lab else 0
        cfg = dict(w=w, s=s, hasInit=k > 0, init=[[500 + j, y()] for j in range(k)], lab=lab, onefit=False)
        ops = [dict(op="fit", x=1 + j if rng.random() < .8 else rng.randint(1, j + 1), y=y()) for j in range(L)]
        out.append(dict(cfg=cfg, ops=ops, dim=rng.choice([1, 2, 4]), scores=rng.choice(["all", "some"]), arr=rng.random() < .5, seed=rng.randrange(10 ** 6)))
    # hardly any distinct values
    for i in range(60 if tier == "quick" else 500):
        w, s = rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 3, 4, 5, 8])
        k = rng.choice([0, 1, w, w + 1])
        lab, m = i % 2 == 0, rng.choice([1, 2, 2, 3])
        e = lambda: [rng.randint(1, m), rng.choice([1, 2]) if lab else 0]
        L = rng.choice([2 * w + 3 * s, 40])
        cfg = dict(w=w, s=s, hasInit=k > 0, init=[e() for j in range(k)], lab=lab, onefit=False)
        ops = [dict(op="fit", x=a, y=b) for a, b in [e() for j in range(L)]]
        out.append(dict(cfg=cfg, ops=ops, dim=rng.choice([1, 2]), scores="some", arr=rng.random() < .5, seed=rng.randrange(10 ** 6)))
    # the real thing
    for i in range(10 if tier == "quick" else 60):
        w = rng.choice([2, 3, 4, 5])
        k = rng.choice([0, 0, 2, w, w + 2])
        L = rng.choice([2 * w + 1, 3 * w])
        cfg = dict(w=w, s=w, hasInit=k > 0, init=[[1 + j, 0] for j in range(k)], lab=False, onefit=False)
        out.append(dict(iforest=True, cfg=cfg, k=k, L=min(L, 13), seed=rng.randrange(10 ** 6)))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for i in range(5 if tier == "quick" else 20):
        w, s = rng.choice([(4, 3), (100, 30), (256, 64), (130, 200), (30, 7)])
        lab = i % 2 == 0
        y = lambda: rng.choice([1, 2]) if lab else 0
        k = rng.choice([0, w, 2 * w]) if w < 150 else w
        cfg = dict(w=w, s=s, hasInit=k > 0, init=[[500 + j, y()] for j in range(k)], lab=lab, onefit=False)
        out.append(dict(cfg=cfg, ops=[dict(op="fit", x=1 + j, y=y()) for j in range(1200 if i else 3500)], dim=1, scores="rare", arr=rng.random() < .5, seed=rng.randrange(10 ** 6)))
    return out


SPACING = [(0.0, 1.0), (0.0, 1.0), (1024.0, 2.0 ** -20), (0.0, 2.0 ** -40), (2.0 ** 40, 1.0), (-3.0, 2.0 ** 20)]


def inst(tok, dim, sp=(0.0, 1.0)):
    """tok as an instance: exact for every spacing sp = (origin, unit)"""
    return np.array([sp[0] + sp[1] * (tok + 0.25 * i * tok) for i in range(dim)], dtype=np.float64)


def tokens(X, dim, sp=(0.0, 1.0)):
    out = []
    for row in list(X):
        row = np.asarray(row, dtype=float)
        t = int(round((float(row.ravel()[0]) - sp[0]) / sp[1])) if row.size and np.isfinite(row).all() else -1
        out.append(t if row.shape == (dim,) and np.array_equal(row, inst(t, dim, sp)) else -1)
    return out


class Rec:
    """recording detector factory"""
    def __init__(self, dim, sp=(0.0, 1.0)):
        rec = self
        self.fits, self.ver, self.dim, self.last_held = [], 0, dim, []

        class Stub:
            def __init__(self, *a, **kw):
                self.kwok = (not a) and kw == dict(alpha_=3, beta_="b")
                self.n = 0
                self.ver = 0

            def fit(self, X, *yy, **k):
                self.n += 1
                y = yy[0] if yy else k.get("y")
                rec.ver += 1
                self.ver = rec.ver
                self.X = X
                rec.fits.append(dict(X=tokens(X, rec.dim, sp), y=[] if y is None else [int(v) for v in list(y)], hasY=y is not None,
                                     fresh=self.n == 1, kw=self.kwok))
                return self

            def decision_function(self, X):
                rec.last_held = tokens(self.X, rec.dim, sp)
                # a detector may score relative to the batch it is given
                alone = len(X) == 1
                return np.array([1000.0 * self.ver + t if alone else -1.0 - i for i, t in enumerate(tokens(X, rec.dim, sp))])

        self.cls = Stub

    def take(self):
        f, self.fits = self.fits, []
        return f


def execute(scn):
    if scn.get("iforest"):
        return ifor(scn)
    import random
    from pysad.models.integrations import ReferenceWindowModel
    rng = random.Random(scn["seed"])
    c, dim = scn["cfg"], scn["dim"]
    sp = SPACING[scn["seed"] % len(SPACING)]
    rec_ = Rec(dim, sp)
    box = []

    def mk():
        kw = {}
        if c["hasInit"]:
            X = [inst(e[0], dim, sp) for e in c["init"]]
            kw["initial_window_X"] = np.array(X) if scn["arr"] else X
            if c["lab"]:
                y = [e[1] for e in c["init"]]
                kw["initial_window_y"] = np.array(y) if scn["arr"] else y
        box.append(ReferenceWindowModel(rec_.cls, c["w"], c["s"], alpha_=3, beta_="b", **kw))
    ev = [dict(op="new", r=do(mk), fits=rec_.take(), blind=False)]
    if box:
        m = box[0]
        n = 0
        for o in scn["ops"]:
            n += 1
            a = (inst(o["x"], dim, sp), o["y"]) if c["lab"] else (inst(o["x"], dim, sp),)
            ev.append(dict(op="fit", x=o["x"], y=o["y"], r=do(m.fit_partial, *a), fits=rec_.take(), blind=False))
            if scn["scores"] == "all" or rng.random() < (.02 if scn["scores"] == "rare" else .3):
                q = rng.choice([o["x"], 333, rng.randint(1, 90)])
                r = call(m.score_partial, inst(q, dim, sp))
                ev.append(dict(op="score", x=q, r=r, fits=rec_.take(), held=rec_.last_held))
    return [dict(cfg=c, ev=ev)]


def ifor(scn):
    from pyod.models.iforest import IForest
    from pysad.models import IForestASD
    c, k, L = scn["cfg"], scn["k"], scn["L"]
    r = np.random.RandomState(scn["seed"])
    data = r.randn(k + L, 2)
    kw = dict(n_estimators=3, random_state=7)
    box = []
    ev = [dict(op="new", blind=True, fits=[], r=do(lambda: box.append(
        IForestASD(initial_window_X=data[:k], window_size=c["w"], **kw) if k else IForestASD(window_size=c["w"], **kw))))]
    cache = {}

    def pred(a, b, x):
        if (a, b) not in cache:
            try:
                cache[a, b] = IForest(**kw).fit(data[a:b])
            except Exception:
                cache[a, b] = None
        d = cache[a, b]
        return None if d is None else float(d.decision_function([x])[0])
    if box:
        m = box[0]
        for i in range(L):
            ev.append(dict(op="fit", x=k + i + 1, y=0, blind=True, fits=[], r=do(m.fit_partial, data[k + i])))
            q = r.randn(2) * 2
            raw = []
            res = call(m.score_partial, q, enc=lambda v: (raw.append(scalar(v)), num(v, 1000))[1])
            match = []
            if raw:
                hi = k + i + 1
                for a in range(0, hi):
                    for b in range(a + 1, hi + 1):
                        p = pred(a, b, q)
                        if p is not None and abs(p - raw[0]) < 1e-9:
                            match.append([a + 1, b])
            ev.append(dict(op="rscore", x=0, r=res, match=match))
    return [dict(cfg=c, ev=ev)]
