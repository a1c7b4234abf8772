from common import *
SPEC = "Window"
ASSUMPTIONS = ["items are compared by value and shape"]


def emit(s):
    return [dict(cfg=s["cfg"], ops=s["ops"], kind=k) for k in ("int", "array")]


def mc(tier):
    L = 6 if tier == "quick" else 7
    out = [dict(module="MC_Window", emit=emit,
                cfg=mccfg(["ContentsInv", "NewestInv", "Emit"], dict(MaxLen=L, EmitScn="TRUE", Sizes="{0, 1, 2, 3}", Items="{1, 2}")))]
    if tier == "thorough":
        out.append(dict(module="MC_Window", cfg=mccfg(["ContentsInv", "NewestInv"], dict(MaxLen=9, EmitScn="FALSE", Sizes="{0, 1, 2, 3, 4, 5}", Items="{1, 2}"))))
    return out


def scenarios(rng, tier):
    out = []
    n = 150 if tier == "quick" else 800
    for i in range(n):
        size = 0 if rng.random() < .2 else wsize(rng, True)
        L = rng.choice([3, 10, 40, 2 * size + 5, 3 * size + 1])
        L = min(L, 700)
        k = rng.choice([1, 2, 3, 50, 10 ** 6])
        kind = rng.choice(["int", "array", "mixed", "float", "str"])
        if kind == "mixed":
            k = min(k, 12)
        pg = rng.choice([.05, .3, .6]) if L < 100 else .05
        ops = []
        for _ in range(L):
            if rng.random() < pg:
                ops.append(dict(op="get"))
            else:
                ops.append(dict(op="update", x=rng.randint(1, k)))
        ops.append(dict(op="get"))
        out.append(dict(cfg=dict(size=size), ops=ops, kind=kind))
    out += longs(rng, tier)
    return out


def longs(rng, tier):
    """streams far longer than any window"""
    out = []
    for size in [0, 1, 3, 100, 300, 1000, 1500] + ([0, 2, 1024, 2048, 5000] if tier == "thorough" else []):
        for kind in ("int", "array"):
            n = rng.choice([2100, 4300]) if kind == "int" else 1300
            if size == 100 and kind == "int":
                n = 10500
            k = rng.choice([2, 7, 10 ** 6])
            ops = []
            for i in range(n):
                ops.append(dict(op="update", x=rng.randint(1, k)))
                if rng.random() < .004:
                    ops.append(dict(op="get"))
            ops += [dict(op="get"), dict(op="get")]
            out.append(dict(cfg=dict(size=size), ops=ops, kind=kind))
    for size, kind in [(0, "int"), (0, "array"), (5000, "int")] * (1 if tier == "quick" else 3):
        ops = [dict(op="update", x=rng.randint(1, rng.choice([3, 10 ** 6]))) for _ in range(12000 if kind == "int" else 5200)]
        for at in (11500, 10001, 8200, 4097):
            ops[at:at] = [dict(op="get")]
        out.append(dict(cfg=dict(size=size), ops=ops + [dict(op="get")], kind=kind))
    return out


def item(kind, i):
    if kind == "int":
        return i
    if kind == "float":
        return i * 0.1
    if kind == "str":
        return "s%d" % i
    if kind == "array":
        return np.array([i, i + .5, -i])
    return [None, 0, "x", (1, 2), np.zeros(3), np.array([[1.]]), float("inf"), [], False and 0 or 3, {}, -1.5, np.float32(2)][i - 1]


def token(kind, v, k):
    if kind == "int" and type(v) is int:
        return v
    if kind == "array" and isinstance(v, np.ndarray) and v.shape == (3,) and v[0] >= 1:
        i = int(v[0])
        return i if np.array_equal(item(kind, i), v) else -1
    for i in k:
        w = item(kind, i)
        if isinstance(w, np.ndarray) or isinstance(v, np.ndarray):
            if isinstance(w, np.ndarray) and isinstance(v, np.ndarray) and w.shape == v.shape and np.array_equal(w, v):
                return i
        else:
            try:
                if type(w) is type(v) and w == v or (kind in ("int", "float") and w == v):
                    return i
            except Exception:
                pass
    return -1


def execute(scn):
    from pysad.utils.window import Window, UnlimitedWindow
    size, kind = scn["cfg"]["size"], scn["kind"]
    toks = sorted({o["x"] for o in scn["ops"] if o["op"] == "update"})
    box = []
    ev = [dict(op="new", r=do(lambda: box.append(Window(size) if size else UnlimitedWindow())))]
    if not box:
        return [dict(cfg=scn["cfg"], ev=ev)]
    w = box[0]
    for o in scn["ops"]:
        if o["op"] == "update":
            ev.append(dict(op="update", x=o["x"], r=do(w.update, item(kind, o["x"]))))
        else:
            got = []
            r = do(lambda: got.extend(list(w.get())))
            ev.append(dict(op="get", r=r, items=[token(kind, v, toks) for v in got]))
    return [dict(cfg=scn["cfg"], ev=ev)]
