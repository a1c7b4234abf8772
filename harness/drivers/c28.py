from common import *
import collections, random, sys, types
import zoo
SPEC = "Fun"
ASSUMPTIONS = ["memory is the number of slots reachable from the object, its classes and the pysad modules (lists, dictionaries, arrays, attributes, default arguments, caches)",
               "components that by definition accumulate all values or cells (median statistics, unlimited windows, unwindowed calibrators and metrics, deviation models) are not judged; RS-Hash is judged on a finite pool of instances, where the number of distinct cells is bounded",
               "purely windowed components are compared on integer-valued streams or with the tolerance of their arithmetic"]
ROOTS = ("pysad", "pyod", "sklearn", "rrcf", "PyNomaly", "statsmodels", "drivers")


def mc(tier):
    q = tier == "quick"
    return [dict(module="MC_Memory", cfg=mccfg(["NoFalseAlarm", "Detects"],
                 dict(MaxLen=200 if q else 400, EmitScn="FALSE", Ks="{0, 10, 300}", Cs="{1, 2, 7}", Ws="{1, 4, 16}", Step=4))),
            dict(module="MC_Fun", emit=emit, limit=100 if q else 2000, timeout=800,
                 cfg=mccfg(["Accepts", "Independent", "Pure", "Sensitive", "Emit"],
                           dict(MaxLen=4 if q else 5, EmitScn="TRUE", Toks="{1, 2}", Wins="{<<2, 1>>, <<2, 2>>, <<-1, 1>>}", OpNames='{"fit"}')))]


def emit(s):
    if not s["cfg"]["same"]:
        return []
    return [dict(model=[[o["op"], o["o"], o["x"]] for o in s["ops"]])]


# -- memory ------------------------------------------------------------------
def size(root):
    seen = set()
    todo = [root]
    total = 0
    for name, m in list(sys.modules.items()):
        if m is not None and (name == "pysad" or name.startswith("pysad.")):
            todo.extend(v for k, v in list(vars(m).items()) if not k.startswith("__"))
    while todo:
        v = todo.pop()
        if v is None or isinstance(v, (bool, int, float, complex, str, bytes, types.ModuleType, np.generic)):
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, dict):
            total += len(v)
            todo.extend(v.keys())
            todo.extend(v.values())
        elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
            total += len(v)
            todo.extend(v)
        elif isinstance(v, np.ndarray):
            total += v.size
            if v.base is not None and isinstance(v.base, np.ndarray):
                todo.append(v.base)
            if v.dtype == object:
                todo.extend(v.ravel().tolist())
        elif isinstance(v, (types.FunctionType, types.MethodType, types.BuiltinFunctionType)) or hasattr(v, "cache_info"):
            mod = getattr(v, "__module__", "") or ""
            if not mod.startswith("pysad"):
                continue
            if hasattr(v, "cache_info"):
                try:
                    total += v.cache_info().currsize
                except Exception:
                    pass
            f = getattr(v, "__func__", v)
            for a in ("__defaults__", "__kwdefaults__", "__dict__"):
                todo.append(getattr(f, a, None))
            for c in getattr(f, "__closure__", None) or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
        elif isinstance(v, type):
            if (v.__module__ or "").startswith("pysad"):
                todo.extend(x for k, x in list(vars(v).items()) if not k.startswith("__") or k in ("__init__",))
        elif isinstance(v, (staticmethod, classmethod)):
            todo.append(v.__func__)
        elif isinstance(v, property):
            todo.extend([v.fget, v.fset])
        else:
            total += 1
            t = type(v)
            if (t.__module__ or "").split(".")[0] in ROOTS:
                todo.append(t)
                d = getattr(v, "__dict__", None)
                if d:
                    total += len(d)
                    todo.extend(list(d.values()))
                for c in t.__mro__:
                    for s in getattr(c, "__slots__", ()) if isinstance(getattr(c, "__slots__", ()), (tuple, list)) else ():
                        if hasattr(v, s):
                            total += 1
                            todo.append(getattr(v, s))
    return total


def memory(scn):
    e = zoo.by_name(scn["zoo"])
    p = scn["p"]
    rng = random.Random(scn["seed"])
    zoo.World.seed(None, scn["seed"])
    o = e.build(p, zoo.given(e, p))
    n0, n, ev = scn["n0"], 0, []
    end = None
    step = scn["step"]
    styles = [lambda: rng.gauss(0, 1), lambda: rng.gauss(0, 1), lambda: float(rng.randint(-2, 2)), lambda: rng.gauss(0, 1) * 10.0 ** rng.randint(-6, 4)]
    draw = styles[scn["seed"] % 4]
    kinds = {"post": draw, "stat": draw, "window": draw}
    early, pool = 0, []
    while end is None or n < end:
        n += 1
        if e.kind == "metric":
            x = [n % 2, float(rng.randint(0, 1)) if scn["bin"] else rng.random()]
        elif e.kind in kinds:
            x = kinds[e.kind]()
        elif e.gen in (zoo.one,):
            x = [draw()]
        else:
            x = [rng.random() for _ in range(p.get("d", 2))]
        if scn.get("pool"):
            if len(pool) < scn["pool"]:
                pool.append(x)
            x = rng.choice(pool)
        x = zoo.arr(e, x)
        reading = False
        try:
            how = scn["how"]
            if how == "fs" and not e.stat:
                reading = n < 10
                e.fs(o, x, n % 2 if e.y == "need" else None)
            else:
                e.fit(o, x, n % 2 if e.y == "need" else None)
                reading = True
                for _ in range(2 if how != "fit" else n % 97 == 0):
                    e.read(o, e.calls()[0], x)
        except zoo.Timeout:
            raise
        except Exception as ex:
            if not reading:
                ev.append(dict(op="failed", n=n, size=0, t=type(ex).__name__))
                break
        if n % step == 0 or n <= n0:
            s = size(o) if n % step == 0 or n % 3 == 0 or n > n0 - 3 else None
            if s is not None:
                ev.append(dict(op="sample", n=n, size=s))
                early = max(early, s) if n <= n0 else early
        if n == n0:
            # the specification's Horizon, with a margin
            # (nine times as far where only some instances leave something behind)
            end = min(scn["cap"], n0 + (early // 5 + 100) * (9 if how == "fit" else 1) + 2 * step + 150)
    ev.append(dict(op="sample", n=n, size=size(o)))
    return [dict(spec="Memory", cfg=dict(n0=n0), ev=ev)]


# -- forgetting ---------------------------------------------------------------
def suffix(e, rng):
    p = e.args(rng)
    w, ph = e.win(p)
    a = rng.choice([0, 1, 2, 5, w, 2 * w + 3] + ([60, 260, 1030] if e.cost < 2 else []))
    b = a + ph * rng.randint(1, 6)
    extra = rng.choice([0, 1, ph, w // 2 + 1])
    n = a + b + w + extra + 2
    T = e.gen(rng, n, p)
    if e.kind in ("post", "stat", "window"):
        T = [float(rng.randint(-9, 9)) for _ in range(n)]
    spec = dict(zoo=e.key, p=p, table=T, labels=[rng.randint(0, 1) for _ in range(n)])
    ops = [["new", 1, 0], ["new", 2, 0]]
    rd = lambda o: [["read", o, t] for t in ([n - 1, n - 2, a + b, 0] if not e.stat else [0])]
    ops += [["fit", 1, t] for t in range(a)] + [["fit", 2, t] for t in range(a, a + b)]
    for o in (1, 2):
        for i, t in enumerate(range(a + b, a + b + w + extra)):
            ops.append([rng.choice(["fit", "fr"]) if e.cost < 4 or i > w - 3 else "fit", o, t])
            if i >= w - 1:
                ops += rd(o)
        ops += rd(o)
    return dict(specs=[spec], ops=ops, win=[w, ph])


def scenarios(rng, tier):
    out = []
    q = tier == "quick"
    for e in zoo.entries():
        ps = []
        if e.mem is not None:
            ps += [(e.mem, 0)] + [(e.args(rng), 0) for _ in range((1 if e.cost <= 2 else 0) if q else 4)]
        if e.pool is not None:
            ps += [(e.pool, 6), (e.args(rng), 4)]
        for p, pool in ps:
            for how in (["fitread"] if e.cost > 10 else ["fitread", "fit"] if e.stat else e.memhow + ["fit"] * ("fitread" in e.memhow)):
                heavy = e.cost > 2
                if how == "fit" and (pool or (q and p is not e.mem)):
                    continue
                out.append(dict(zoo=e.key, p=p, how=how, n0=130 if heavy else 260, step=29,
                                cap=(6000 if how == "fit" else 700 if heavy else 3000) if q else 20000, seed=rng.randrange(10 ** 6),
                                bin=e.mem.get("bin", False) if e.mem else False, memory=True, pool=pool))
        if e.win is not None:
            for r in range((4 if e.cost < 3 else 2) if q else (60 if e.cost < 3 else 20)):
                out.append(suffix(e, rng))
    return out


def prepare_scns(scns, tier, seed):
    es = [e for e in zoo.entries() if e.win is not None]
    for i, s in enumerate(scns):
        if "model" not in s:
            continue
        r = random.Random("bind28-%d" % i)
        e = es[i % len(es)]
        p = e.args(r)
        w, ph = e.win(p)
        if w > 30:
            continue
        n = w + 4
        T = e.gen(r, n, p) if e.kind not in ("post", "stat", "window") else [float(r.randint(-5, 5)) for _ in range(n)]
        # the model's history, then a common window: the histories must be forgotten up to the phase
        ops = [["new", 1, 0], ["new", 2, 0]]
        cnt = {1: 0, 2: 0}
        for a, o, x in s["model"]:
            ops.append([a, o, n - x])
            cnt[o] += 1
        for o in (1, 2):
            while cnt[o] % ph or cnt[o] < max(cnt.values()) - ph:
                ops.append(["fit", o, n - 3])
                cnt[o] += 1
            ops += [["fit", o, t] for t in range(w)] + [["read", o, t] for t in range(min(3, n))]
        s.update(specs=[dict(zoo=e.key, p=p, table=T, labels=[r.randint(0, 1) for _ in range(n)])], ops=ops, win=[w, ph])


def execute(scn):
    if scn.get("memory"):
        return memory(scn)
    if "ops" not in scn:
        return []
    e = zoo.by_name(scn["specs"][0]["zoo"])
    w = zoo.World(scn["specs"], rng="const", tol=e.wtol)
    w.do(scn["ops"])
    win = tuple(scn["win"]) if scn["win"][0] > 0 else (-1, 1)
    return [dict(cfg=w.cfg(2, win=win), ev=w.ev)]
