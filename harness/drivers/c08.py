from common import *
import zoo
SPEC = "Batch"
ASSUMPTIONS = ["user-defined components are represented by a deterministic integer machine; the public components are compared with themselves (batch against one-at-a-time)"]
M = 1009


def emit(s):
    c = s["cfg"]
    out = []
    for batch in (True, None):
        ops = []
        for i, o in enumerate(s["ops"]):
            if batch or i % 2 == 0:
                ops.append(dict(m=o["m"], X=o["X"], y=o["y"], batch=True))
            else:
                ops += [dict(m=o["m"], X=[x], y=o["y"][j:j + 1], batch=False) for j, x in enumerate(o["X"])]
        out.append(dict(cfg=c, ops=ops, ret="float", xt="f8", yt="np", nd=2))
    return out[:1] if len(s["ops"]) < 2 else out


def mc(tier):
    q = tier == "quick"
    return [dict(module="MC_Batch", emit=emit, limit=400 if q else 4000,
                 cfg=mccfg(["BatchIsFold", "ReadsPure", "Combined", "Emit"],
                           dict(MaxLen=2, EmitScn="TRUE", MaxN=1 if q else 2, Kinds='{"model", "post", "trans"}'))),
            dict(module="MC_Batch", timeout=800,
                 cfg=mccfg(["BatchIsFold", "ReadsPure", "Combined"],
                           dict(MaxLen=1 if q else 2, EmitScn="FALSE", MaxN=3, Kinds='{"model", "post", "trans"}')))]


def scenarios(rng, tier):
    out = []
    for i in range(400 if tier == "quick" else 3000):
        kind = rng.choice(["model", "model", "post", "trans"])
        d = 1 if kind == "post" else rng.choice([1, 1, 2, 3, 5])
        cfg = dict(kind=kind, ovr=rng.random() < .4, boom=rng.choice([-10 ** 6] * 3 + [rng.randint(-9, 9)]),
                   dims=rng.choice([-1, 1, 2, 4]) if kind == "trans" else -1)
        ops = []
        for j in range(rng.randint(1, 8)):
            n = rng.choice([0, 1, 1, 2, 3, 5, 9, 20])
            batch = rng.random() < .7
            if not batch:
                n = 1
            m = rng.choice(["fit", "read", "fs"])
            X = [[rng.choice([0, rng.randint(-9, 9), rng.randint(-99, 99)]) for _ in range(d)] for _ in range(n)]
            y = [rng.choice([0, 0, 1, 7]) for _ in range(n)] if kind == "model" and m != "read" and rng.random() < .6 else []
            ops.append(dict(m=m, X=X, y=y, batch=batch))
        out.append(dict(cfg=cfg, ops=ops, ret=rng.choice(["float", "np64", "0d", "1e", "int", "npint"]),
                        xt=rng.choice(["f8", "f8", "f4", "i8"]), yt=rng.choice(["np", "np", "list"]), nd=2))
    # the public components: batch calls against one-at-a-time calls
    for e in zoo.entries():
        if e.stat or not e.batch:
            continue
        for r in range(2 if tier == "quick" else 12):
            out.append(zoo.batch_scenario(e, rng, r))
    return out


def execute(scn):
    if "zoo" in scn:
        return zoo.run_batch(scn)
    from pysad.core import BaseModel, BasePostprocessor, BaseTransformer
    c = scn["cfg"]
    calls = []
    kind = c["kind"]

    class Boom(Exception):
        pass

    def ints(X):
        a = np.asarray(X)
        if kind == "post":
            if a.ndim != 0:
                return [-777777]
            a = a.reshape(1)
        if a.ndim != 1:
            return [-888888]
        return [int(v) if float(v) == int(v) else -999999 for v in a.astype(float)]

    def code(v):
        return sum(a * (2 * j + 1) for j, a in enumerate(v))

    def ret(vals):
        if kind == "trans":
            if len(vals) == 1 and scn["ret"] in ("float", "int", "np64"):
                return float(vals[0])
            return np.array(vals, dtype=np.int64 if scn["ret"] in ("int", "npint") else float)
        v = vals[0]
        return {"float": float, "np64": np.float64, "0d": lambda z: np.array(float(z)), "1e": lambda z: np.array([float(z)]),
                "int": int, "npint": np.int64}[scn["ret"]](v)

    def lab(y):
        if y is None:
            return -1
        s = scalar(y)
        return int(s) if s is not None and s == int(s) else -99

    class Mix:
        h = 0

        def fit_partial(self, X, y=None):
            v = ints(X)
            calls.append(dict(m="fit", x=v, y=lab(y)))
            if code(v) == c["boom"]:
                raise Boom()
            self.h = (self.h * 7 + code(v) * 3 + lab(y) * 31 + 1) % M
            return self

        def _read(self, X):
            v = ints(X)
            calls.append(dict(m="read", x=v, y=-1))
            if code(v) == c["boom"]:
                raise Boom()
            d = 1 if kind != "trans" else c["dims"] if c["dims"] > 0 else len(v)
            return ret([(self.h + 5 * code(v) + 101 * j) % M for j in range(d)])

        score_partial = transform_partial = _read

    def fs(self, X, y=None):
        v = ints(X)
        calls.append(dict(m="fs", x=v, y=lab(y)))
        if code(v) == c["boom"]:
            raise Boom()
        self.h = (self.h * 11 + code(v) * 5 + lab(y) * 17 + 2) % M
        d = 1 if kind != "trans" else c["dims"] if c["dims"] > 0 else len(v)
        return ret([(self.h + 2 * code(v) + 1 + 103 * j) % M for j in range(d)])

    base = {"model": BaseModel, "post": BasePostprocessor, "trans": BaseTransformer}[kind]
    body = {}
    if c["ovr"]:
        body["fit_score_partial" if kind == "model" else "fit_transform_partial"] = fs
    if kind == "post":
        body["fit_partial"] = lambda self, score: Mix.fit_partial(self, score)
    if kind == "trans":
        body["fit_partial"] = lambda self, X: Mix.fit_partial(self, X)
    body["h"] = 0
    cls = type("Stub", (Mix, base), body)
    box = []

    def new():
        box.append(cls(c["dims"]) if kind == "trans" else cls())
    r = do(new)
    ev = [dict(m="new", k=r["k"])]
    for o in scn["ops"] if box else []:
        m = box[0]
        del calls[:]
        d = len(o["X"][0]) if o["X"] else (1 if kind == "post" else 2)
        X = np.array(o["X"], dtype=scn["xt"]).reshape(len(o["X"]), d)
        if kind == "post":
            X = X[:, 0]
        X0 = X.copy()
        y = None if not o["y"] else (np.array(o["y"]) if scn["yt"] == "np" else list(o["y"]))
        rn = "score" if kind == "model" else "transform"
        name = {"fit": "fit", "read": rn, "fs": "fit_" + rn}[o["m"]] + ("" if o["batch"] else "_partial")
        args = (X,) if o["batch"] else (X[0],)
        if kind == "model" and o["m"] != "read" and y is not None:
            args += (y if o["batch"] else y[0],)
        elif kind == "model" and o["m"] != "read" and len(ev) % 2:
            args += (None,)
        e = dict(m=o["m"], X=[list(map(int, x)) for x in o["X"]], y=list(o["y"]), batch=o["batch"], k="ok", self=False, f64=False, outs=[])
        try:
            R = getattr(m, name)(*[reuse(a) for a in args])
            if o["m"] == "fit":
                e["self"] = R is m
            else:
                if o["batch"]:
                    want = (len(X),) if kind != "trans" else (len(X), c["dims"] if c["dims"] > 0 else d)
                    e["f64"] = isinstance(R, np.ndarray) and R.dtype == np.float64 and R.shape == want
                    rows = [np.asarray(R[i], dtype=float).ravel() for i in range(len(X))]
                else:
                    rows = [np.asarray(R, dtype=float).ravel()]
                e["outs"] = [[int(round(float(v))) if abs(v) < 1e6 else -1 for v in row] for row in rows]
        except Boom:
            e["k"] = "boom"
        except Exception as x:
            e["k"] = "exc:" + type(x).__name__
        e["calls"] = [dict(z) for z in calls]
        e["kept"] = bool(X.shape == X0.shape and (X == X0).all())
        ev.append(e)
    return [dict(cfg=c, ev=ev)]
