from common import *
SPEC = "Scaler"
ASSUMPTIONS = ["instances are integer vectors (|m| <= 15) times a scale; norm orders 1, 2, 3, 4 and infinity; instances with zero spread (norm) are not judged"]


def emit(s):
    return [dict(cfg=s["cfg"], ops=[dict(op=o["op"], xs=[o["x"]], how="partial") for o in s["ops"]], scale=1.0, dtype="float")]


def mc(tier):
    q = tier == "quick"
    c = dict(MaxLen=2 if q else 3, EmitScn="TRUE", Vecs="{<<1>>, <<3, -1>>, <<0, 4, 0>>, <<2, 2, 5, -3>>}" if q else "{<<1>>, <<3, -1>>, <<0, 4, 0>>, <<2, 2, 5, -3>>, <<-7, -7>>}")
    return [dict(module="MC_Scaler", emit=emit, limit=200 if q else 2000, cfg=mccfg(["StdInv", "NormInv", "Emit"], c))]


def scenarios(rng, tier):
    out = []
    for i in range(260 if tier == "quick" else 2500):
        kind = rng.choice(["id", "std", "std", "norm", "norm"])
        p = rng.choice([2, 2, 1, 3, 4, 0]) if kind == "norm" else 2
        lim = 9 if p == 4 else 15
        ops = []
        for j in range(rng.randint(1, 8)):
            d = rng.choice([1, 2, 3, 4, 6, 10])
            k = rng.choice([1, 1, 2, 4])
            how = rng.choice(["partial", "partial", "batch"]) if k > 1 else "partial"
            xs = [values(rng, d, lim) for _ in range(k)]
            ops.append(dict(op=rng.choice(["fit", "transform", "transform", "fit_transform"]), xs=xs, how=how))
        sc = rng.choice([1.0, 1.0, .5, .1, 1e-4, 1e6, 3.7, 1e-9])
        out.append(dict(cfg=dict(kind=kind, p=p, Q=10000), ops=ops, scale=sc, dtype="int" if sc == 1.0 and rng.random() < .3 else "float"))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    out = []
    for kind, p in [("id", 2), ("std", 2), ("norm", 2), ("norm", 1), ("norm", 0)]:
        ops = [dict(op=rng.choice(["fit", "transform", "fit_transform"]), xs=[values(rng, rng.choice([1, 3, 5]) if kind == "id" else 5, 15)], how="partial") for _ in range(700)]
        out.append(dict(cfg=dict(kind=kind, p=p, Q=10000), ops=ops, scale=1.0, dtype="float"))
    # many features
    for kind, p in [("id", 2), ("std", 2), ("norm", 2), ("norm", 1), ("norm", 0), ("norm", 3)] * (1 if tier == "quick" else 4):
        ops = [dict(op=rng.choice(["transform", "fit_transform"]), xs=[values(rng, n, 15)], how="partial") for n in (40, 130, 300, rng.choice([600, 1100]))]
        out.append(dict(cfg=dict(kind=kind, p=p, Q=10000), ops=ops, scale=rng.choice([1.0, .1]), dtype="float"))
    return out


def execute(scn):
    from pysad.transform.preprocessing import IdentityScaler, InstanceStandardScaler, InstanceUnitNormScaler
    c, sc = scn["cfg"], scn["scale"]
    box = []

    def new():
        if c["kind"] == "id":
            box.append(IdentityScaler())
        elif c["kind"] == "std":
            box.append(InstanceStandardScaler())
        elif c["p"] == 2 and len(scn["ops"]) % 2:
            box.append(InstanceUnitNormScaler())
        else:
            box.append(InstanceUnitNormScaler(pow=np.inf if c["p"] == 0 else c["p"]))
    ev = [dict(op="new", kept=True, r=do(new))]
    rs = sc if c["kind"] == "id" else 1.0
    for o in scn["ops"] if box else []:
        A = np.array(o["xs"]) if scn["dtype"] == "int" else np.array(o["xs"], dtype=float) * sc
        A0 = A.copy()
        m = box[0]
        fn = {"fit": m.fit_partial, "transform": m.transform_partial, "fit_transform": m.fit_transform_partial}[o["op"]]
        if o["how"] == "batch":
            fb = {"fit": m.fit, "transform": m.transform, "fit_transform": m.fit_transform}[o["op"]]
            try:
                R = fb(A)
                err = None
            except Exception as e:
                err = exc(e)
            kept = bool((A == A0).all() and A.dtype == A0.dtype)
            for i, x in enumerate(o["xs"]):
                if o["op"] == "fit":
                    ev.append(dict(op="fit", x=x, kept=kept, r=err or dict(OK)))
                else:
                    try:
                        r = [] if err else [num(v, c["Q"], rs) for v in np.asarray(R[i]).ravel()]
                    except Exception:
                        r = []
                    ev.append(dict(op="transform", x=x, kept=kept, r=r))
        else:
            for i, x in enumerate(o["xs"]):
                a = A[i]
                if o["op"] == "fit":
                    r = do(fn, a)
                    ev.append(dict(op="fit", x=x, kept=bool((a == A0[i]).all()), r=r))
                else:
                    r = call(fn, a, enc=lambda v: [num(w, c["Q"], rs) for w in np.asarray(v).ravel()])
                    ev.append(dict(op="transform", x=x, kept=bool((a == A0[i]).all()), r=r if isinstance(r, list) else []))
    return [dict(cfg=c, ev=ev)]
