from common import *
import itertools, os, random as pyrandom, shutil, tempfile
SPEC = "Streamer"
ASSUMPTIONS = ["data files are written by the harness into a scratch directory (.txt with the label in the last column, .mat with X and y)"]


def emit(s):
    c = s["cfg"]
    ops = [dict(op="open", it=o["it"], src=0, shuffle=c["shuffle"], seed=3 if c["shuffle"] else -1) if o["op"] == "open" else dict(op="next", it=o["it"]) for o in s["ops"]]
    return [dict(kind=k, srcs=[dict(n=c["n"], d=2, y="int", ny=c["n"], seed=1, rows=c["rows"], pairs=c["pairs"])], ops=ops + [dict(op="next", it=1)] * 4 + [dict(op="next", it=2)] * 4, its=2, drain=True)
            for k in (["txt"] if c["shuffle"] else ["array", "pandas", "mat"])]


def mc(tier):
    q = tier == "quick"
    c = dict(MaxLen=6 if q else 8, EmitScn="TRUE", Ns="{1, 2, 3}")
    return [dict(module="MC_Streamer", emit=emit, limit=120 if q else 1000, cfg=mccfg(["Perm", "Agree", "Progress", "Emit"], c))]


def scenarios(rng, tier):
    out = []
    for i in range(300 if tier == "quick" else 2500):
        kind = rng.choice(["array", "array", "pandas", "txt", "txt", "mat"])
        srcs = []
        for _ in range(rng.choice([1, 1, 2])):
            n = rng.choice([0, 1, 2, 3, 5, 8, 20, 50]) if kind in ("array", "pandas") else rng.choice([1, 2, 3, 5, 8, 20])
            if rng.random() < .04:
                n = rng.choice([101, 257, 300] + ([1025, 2500] if tier != "quick" or rng.random() < .2 else []))
            y = rng.choice(["none", "int", "float", "str", "bool", "frame", "list"]) if kind in ("array", "pandas") else "int"
            if kind == "pandas" and y == "list":
                y = "int"
            if kind == "array" and y == "frame":
                y = "col"
            ny = n
            if kind in ("array", "pandas") and y != "none" and rng.random() < .1:
                ny = max(0, n + rng.choice([-1, 1, 2, -n]))
            srcs.append(dict(n=n, d=rng.choice([1, 2, 3, 5, 12]), y=y, dup=rng.choice([0, 0, 0, 1, 2]), vals=rng.choice(["half", "half", "tenth", "nan", "huge"]), ix=rng.choice(["perm", "perm", "dup", "range"]), ny=ny, seed=rng.randrange(1000), xkind=rng.choice(["2d", "2d", "1d", "list", "int"]) if kind == "array" else "2d"))
        its = rng.choice([1, 2, 3])
        ops = []
        for it in range(1, its + 1):
            ops.append(dict(op="open", it=it, src=rng.randrange(len(srcs)), shuffle=rng.random() < .6, seed=rng.choice([-1, 0, 1, 7]) if kind in ("txt", "mat") else -1))
            for _ in range(rng.choice([0, 0, 1, 3])):
                ops.append(rng.choice([dict(op="noise"), dict(op="reseed"), dict(op="next", it=rng.randint(1, it))]))
        for _ in range(rng.choice([0, 5, 20])):
            ops.append(rng.choice([dict(op="noise"), dict(op="next", it=rng.randint(1, its)), dict(op="next", it=rng.randint(1, its)), dict(op="reseed")]))
        out.append(dict(kind=kind, srcs=srcs, ops=ops, its=its, drain=rng.random() < .9, share=rng.random() < .4))
    for i, n in enumerate([2100, 4200, 5100] if tier == "quick" else [2100, 4200, 5100, 9000, 12000, 12000]):
        kind = ["array", "pandas", "txt", "array"][i % 4]
        srcs = [dict(n=n, d=2, y="int", dup=0, vals="half", ix="perm", ny=n, seed=rng.randrange(1000), xkind="2d")]
        ops = [dict(op="open", it=1, src=0, shuffle=True, seed=5 if kind == "txt" else -1)]
        out.append(dict(kind=kind, srcs=srcs, ops=ops, its=1, drain=True, share=False))
    return out


def make(src, kind):
    r = np.random.RandomState(src["seed"])
    n, d = src["n"], src["d"]
    m, k = src["ny"], src["y"]
    vals = src.get("vals", "half")
    X = np.arange(n * d, dtype=float).reshape(n, d) * (.1 if vals == "tenth" else .5) + r.randint(0, 9)
    X = X[r.permutation(n)]
    if vals == "huge" and n:
        X = X * 1e9
    if k == "none":
        y = None
    elif k in ("int", "list"):
        y = r.permutation(m) + 100
    elif k == "float":
        y = r.permutation(m) + .5
    elif k == "str":
        y = np.array(["L%d" % v for v in r.permutation(m)], dtype=object)
    elif k == "bool":
        y = r.rand(m) < .5
    else:
        y = (r.permutation(m) + 7.0).reshape(-1, 1)
    if "rows" in src:                       # a class structure taken from the model
        X = X[np.array(src["rows"], dtype=int)]
        y = y[np.array(src["pairs"], dtype=int)]
    elif src.get("dup") and n > 1:
        # repeated instances, with their own labels (1) or with equal ones (2)
        w = r.randint(0, max(1, n // 2), n)
        X = X[w]
        if src["dup"] == 2 and y is not None and m == n:
            y = y[w]
    if vals == "nan" and n and kind != "txt":
        X[r.randint(n), r.randint(d)] = np.nan
        X[r.randint(n), 0] = -0.0
    if k == "list":
        y = [int(v) for v in y]
    xk = src.get("xkind", "2d")
    if xk == "1d":
        X = X[:, 0].copy() if n else np.zeros(0)
    elif xk == "list":
        X = [row.copy() for row in X]
    elif xk == "int":
        X = np.where(np.isnan(X), 0, X * 2).astype(int)
    return X, y


def rkey(x):
    a = np.asarray(x, dtype=float)
    return (a.shape, tuple("nan" if v != v else v for v in a.ravel().tolist()))


def lkey(y):
    a = np.asarray(y)
    return (a.shape, tuple(v if isinstance(v, str) else float(v) for v in a.ravel().tolist()))


def classes(keys):
    first = {}
    for i, k in enumerate(keys):
        first.setdefault(k, i)
    return first


def execute(scn):
    from pysad.utils import ArrayStreamer, PandasStreamer, Data, fix_seed
    import pandas as pd
    fix_seed(5)
    kind = scn["kind"]
    tmp = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    try:
        ev, data, its, info = [], [], {}, {}
        keys = {}
        for j, s in enumerate(scn["srcs"]):
            X, y = make(s, kind)
            dx, dy = X, y
            if kind == "pandas":
                ix = np.random.RandomState(s["seed"] + 1).permutation(s["n"]) * 3 + 1
                ix = ix // 5 if s.get("ix") == "dup" else np.arange(s["n"]) if s.get("ix") == "range" else ix
                dx = pd.DataFrame(X, index=ix)
                iy = np.random.RandomState(s["seed"] + 2).permutation(s["ny"])
                dy = None if y is None else pd.DataFrame(y, index=iy) if s["y"] == "frame" else pd.Series(y, index=iy)
            elif kind == "txt":
                name = "f%d.txt" % j
                np.savetxt(os.path.join(tmp, name), np.column_stack([X, y]), delimiter=",", fmt="%.17g")
                dx = name
            elif kind == "mat":
                from scipy.io import savemat
                name = "f%d.mat" % j
                savemat(os.path.join(tmp, name), dict(X=X, y=np.asarray(y).reshape(-1, 1)))
                dx = name
            data.append((X, y, dx, dy))
            if kind in ("txt", "mat"):
                def load():
                    A, b = Data(data_base_path=tmp).get_data(dx)
                    assert np.array_equal(np.asarray(A, dtype=float), X, equal_nan=True) and np.shape(A) == X.shape
                    assert np.shape(b) == (len(X),) and np.array_equal(np.asarray(b, dtype=float), np.asarray(y, dtype=float))
                ev.append(dict(op="load", r=do(load)))
        frozen = [(np.array(X, dtype=object).copy() if not isinstance(X, np.ndarray) else X.copy(), None if y is None else np.array(y).copy()) for X, y, _, _ in data]

        table = []
        for X, y, _, _ in data:
            rk = [rkey(X[i]) for i in range(len(X))]
            rc = classes(rk)
            pk = [(rk[i], lkey(y[i]) if y is not None and i < len(y) else None) for i in range(len(X))]
            pc = classes(pk)
            table.append((rc, pc, [rc[k] for k in rk], [pc[k] for k in pk]))

        def step(it):
            j, lab = info[it]
            rc, pc, _, _ = table[j]
            try:
                item = next(its[it])
            except StopIteration:
                ev.append(dict(op="next", it=it, row=-1, pair=-1, r=rec("stop")))
                return False
            except Exception as e:
                ev.append(dict(op="next", it=it, row=-1, pair=-1, r=exc(e)))
                return False
            row = pair = -1
            try:
                xi = item
                if lab:
                    xi, yi = item
                row = rc.get(rkey(xi), -1)
                if lab:
                    pair = pc.get((rkey(xi), lkey(yi)), -1)
            except Exception:
                pass
            ev.append(dict(op="next", it=it, row=row, pair=pair, r=rec("item")))
            return True
        made = {}

        def maker(kind_, shuffle):
            """one object for every iterator, or a new one each time"""
            if kind_ == "data":
                f = lambda: Data(data_base_path=tmp)
            else:
                f = lambda: (PandasStreamer if kind_ == "pandas" else ArrayStreamer)(shuffle=shuffle)
            if not scn.get("share"):
                return f()
            if (kind_, shuffle) not in made:
                made[(kind_, shuffle)] = f()
            return made[(kind_, shuffle)]
        for o in scn["ops"]:
            if o["op"] == "noise":
                np.random.rand(3)
                pyrandom.random()
            elif o["op"] == "reseed":
                fix_seed(99)
            elif o["op"] == "open":
                X, y, dx, dy = data[o["src"]]
                lab = y is not None
                key = 0
                if kind in ("txt", "mat"):
                    if o["seed"] >= 0:
                        key = keys.setdefault((o["src"], o["seed"], o["shuffle"]), len(keys) + 1)
                    op = lambda: its.__setitem__(o["it"], iter(maker("data", False).get_iterator(dx, shuffle=o["shuffle"], seed=None if o["seed"] < 0 else o["seed"])))
                elif kind == "pandas":
                    op = lambda: its.__setitem__(o["it"], iter(maker("pandas", o["shuffle"]).iter(dx, dy) if lab else maker("pandas", o["shuffle"]).iter(dx)))
                else:
                    op = lambda: its.__setitem__(o["it"], iter(maker("array", o["shuffle"]).iter(dx, dy) if lab else maker("array", o["shuffle"]).iter(dx)))
                r = do(op)
                info[o["it"]] = (o["src"], lab)
                ev.append(dict(op="open", it=o["it"], n=len(X), y=len(y) if lab else -1, shuffle=o["shuffle"], key=key,
                               rows=table[o["src"]][2], pairs=table[o["src"]][3], r=r))
            elif o["it"] in its:
                step(o["it"])
        if scn["drain"]:
            live = [i for i in its]
            while live:
                for i in list(live):
                    if not step(i):
                        live.remove(i)
            for i in its:
                if not (info[i][1] and len(data[info[i][0]][0]) != len(data[info[i][0]][1])):
                    step(i)
        for (X, y, dx, dy), (X0, y0) in zip(data, frozen):
            ok = True
            try:
                A = dx.to_numpy() if kind == "pandas" else np.array(X, dtype=object) if not isinstance(X, np.ndarray) else X
                ok = bool(A.shape == X0.shape and ((A == X0) | ((A != A) & (X0 != X0))).all())
                if y is not None:
                    B = dy.to_numpy() if kind == "pandas" else np.array(y)
                    ok = ok and bool(B.shape == y0.shape and (B == y0).all())
            except Exception:
                ok = False
            ev.append(dict(op="kept", ok=ok))
        return [dict(cfg=dict(its=scn["its"], keys=max(1, len(keys))), ev=ev)]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
