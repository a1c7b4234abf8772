from common import *
SPEC = "Bounds"
ASSUMPTIONS = ["values are an offset plus integers times a power of two, so that comparison is exact"]


def emit(s):
    return [dict(rows=s["cfg"], ops=[o["op"] for o in s["ops"]], scale=1.0, form="f8")]


def mc(tier):
    q = tier == "quick"
    return [dict(module="MC_Bounds", emit=emit, limit=800 if q else 8000, cfg=mccfg(["Encloses", "Attained", "Prefix", "Emit"], dict(
        MaxLen="1", EmitScn="TRUE", Vals="{-1, 0, 2}", Ns="1..3" if q else "1..4", Ds="1..2")), timeout=1500)]


FORMS = ["f8", "f8", "f4", "i8", "F", "T", "rev", "stride", "list", "ro", "1d", "3d", "big", "u8", "i1", "bool"]
OFF = dict(big=2 ** 62 + 3, u8=2 ** 64 - 2 ** 21, i1=0, bool=0)


def scenarios(rng, tier):
    out = []
    for i in range(250 if tier == "quick" else 3000):
        n, d = rng.choice([1, 2, 3, 5, 10, 64, 130, 1500]), rng.choice([1, 1, 2, 3, 7, 20])
        if n > 100:
            d = min(d, 3)
        lim = rng.choice([1, 9, 1000, 10 ** 6])
        cols = [values(rng, n, lim) for _ in range(d)]
        rows = [[c[j] for c in cols] for j in range(n)]
        out.append(finish(rng, rows))
    # long arrays with one least and one greatest value, anywhere
    for i in range(12 if tier == "quick" else 80):
        n, d = rng.choice([(3000, 2), (4097, 1), (8193, 1), (9000, 1), (20000, 1)])
        rows = [[rng.randint(-3, 3) for _ in range(d)] for _ in range(n)]
        for j in range(d):
            for v in (-5, 5):
                rows[rng.choice([0, 1, n - 1, n - 1, n - 2, rng.randrange(n), rng.randrange(n)])][j] = v
        out.append(finish(rng, rows))
    return out


def finish(rng, rows):
    f = rng.choice(FORMS)
    if f == "i1":
        rows = [[max(-128, min(127, v)) for v in r] for r in rows]
    elif f == "bool":
        rows = [[int(v > 0) for v in r] for r in rows]
    return dict(rows=rows, ops=rng.choice([["array"], ["scalar"], ["array", "scalar", "array"]]), scale=1.0 if f == "i8" or f in OFF else rng.choice(DYADIC[:4]), form=f)


def execute(scn):
    from pysad.utils import get_minmax_array, get_minmax_scalar
    sc, f = scn["scale"], scn["form"]
    rows = scn["rows"]
    off = OFF.get(f, 0)
    B = np.array(rows, dtype=np.float64) * sc
    if f in OFF:
        B = np.array([[v + off for v in r] for r in rows], dtype=dict(big=np.int64, u8=np.uint64, i1=np.int8, bool=np.bool_)[f])
    elif f == "f4":
        B = B.astype(np.float32)
    elif f == "i8":
        B = B.astype(np.int64)
    elif f == "F":
        B = np.asfortranarray(B)
    elif f == "T":
        B = np.ascontiguousarray(B.T).T
    elif f == "rev":
        B = np.ascontiguousarray(B[::-1])[::-1]
    elif f == "stride":
        C = np.full((2 * len(rows), B.shape[1]), 1e12)
        C[::2] = B
        B = C[::2]
    elif f == "ro":
        B = B.copy()
        B.setflags(write=False)
    ev = []
    for op in scn["ops"]:
        X = B
        if f == "list":
            X = B.tolist()
        if op == "scalar" and f == "1d":
            X = B.ravel()
        if op == "scalar" and f == "3d":
            X = B.reshape(1, B.shape[0], B.shape[1])
        keep = np.array(X).copy()
        box = []
        r = do(lambda: box.append((get_minmax_array if op == "array" else get_minmax_scalar)(X)))
        lo, hi = [], []
        if box:
            try:
                a, b = box[0]
                if off:
                    a, b = ([int(v) - off for v in np.atleast_1d(z).tolist()] if np.ndim(z) else int(z) - off for z in (a, b))
                g = lambda z: [int(v) if v == int(v) and abs(v) < 2 ** 31 else 2 ** 31 - 1 for v in (np.atleast_1d(np.asarray(z, dtype=np.float64)) / sc).tolist()]
                lo, hi = g(a), g(b)
                if op == "array" and (np.ndim(a) != 1 or np.ndim(b) != 1) or op == "scalar" and (np.ndim(a) or np.ndim(b)):
                    r = rec("other")
            except Exception as e:
                r = exc(e)
        ev.append(dict(op=op, rows=rows, lo=lo, hi=hi, kept=bool((np.array(X) == keep).all()), r=r))
    return [dict(cfg=dict(n=len(rows)), ev=ev)]
