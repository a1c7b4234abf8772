from common import *
import random
import zoo
SPEC = "Alias"
ASSUMPTIONS = ["random generator state is controlled: every object continues from the state its own last fit left",
               "the arrays handed over are float64 rows of two-dimensional arrays; scalars, labels and configuration arrays (weights, feature bounds) are not overwritten",
               "results are compared with relative tolerance 1e-9 (1e-5 for the single-precision Inqmad model)"]
INV = ["Accepts", "ByValue", "WritesAreHarmless", "References"]


def mc(tier):
    q = tier == "quick"
    return [dict(module="MC_Alias", emit=emit, limit=240 if q else 3000, timeout=800,
                 cfg=mccfg(INV + ["Emit"], dict(MaxLen=3 if q else 4, EmitScn="TRUE", Toks="{1, 2}", NB=2))),
            dict(module="MC_Alias", timeout=800, cfg=mccfg(INV, dict(MaxLen=4 if q else 5, EmitScn="FALSE", Toks="{1, 2}", NB=2)))]


def emit(s):
    ops = [[o["op"], o["o"], o["b"], o["n"], o["x"]] for o in s["ops"]]
    if not any(o[0] == "write" for o in ops) or not any(o[0] == "fit" for o in ops):
        return []
    return [dict(model=ops, same=s["cfg"]["same"])]


def pool():
    return [e for e in zoo.entries() if e.kind in ("model", "trans") and e.batch]


def private(ops, o, steps, row):
    """object o: every array is a fresh row that nobody touches again"""
    out = []
    for a, ts in steps:
        for t in ts:
            row[0] += 1
            out += [["write", 1, row[0], 0, t], [a, o, row[0], 1, 0]]
    return out


def scenarios(rng, tier):
    out = []
    q = tier == "quick"
    for e in pool():
        for r in range((5 if e.cost < 10 else 1) if q else (60 if e.cost < 10 else 5)):
            out.append(reuse_history(e, rng))
    return out


def reuse_history(e, rng):
    p0 = e.args(rng)
    n = e.pre(p0) + rng.choice([4, 8, 16, 30]) if e.cost < 10 else 5
    sp = zoo.spec_of(e, rng, n)
    pre = e.pre(sp["p"])
    steps = []
    i = 0
    fits = "fit"
    while i < n:
        k = min(n - i, rng.choice([1, 1, 2, 4, 9])) if i >= pre else min(n - i, pre - i)
        steps.append((fits, list(range(i, i + k))))
        i += k
        if i >= pre - 1:
            steps.append(("read", [rng.randrange(n) for _ in range(rng.choice([1, 2]))]))
    K = rng.choice([1, 2, 5, max(len(s[1]) for s in steps)])
    G = 4
    row = [0]
    p1 = private([], 1, steps, row)
    R0 = row[0]
    # objects 2 and 3 share K rows that are overwritten all the time
    shared = []
    objs = [2] if rng.random() < .6 else [2, 3]
    bulk = rng.random() < .6
    garb = rng.random() < .8
    own = {o: list(steps) for o in objs}
    news = []
    while any(own.values()):
        o = rng.choice([x for x in objs if own[x]])
        a, ts = own[o].pop(0)
        ts = list(ts)
        while ts:
            m = min(len(ts), K) if a == "fit" and bulk else 1
            b = rng.randint(1, K - m + 1)
            shared += [["write", 1, R0 + b + j, 0, ts[j]] for j in range(m)]
            shared.append([a, o, R0 + b, m, 0])
            if garb:
                shared += [["write", 1, R0 + b + j, 0, n + rng.randrange(G)] for j in range(m)]
            ts = ts[m:]
    ops = [["new", o, 0, 0, 0] for o in [1] + objs]
    A, B = p1, shared
    if rng.random() < .5:
        ops += A + B
    else:
        while A or B:
            x = rng.choice([l for l in (A, B) if l])
            k = rng.randint(1, 12)
            ops += x[:k]
            del x[:k]
    return dict(specs=[sp], ops=ops, rows=R0, shared=K, scrub=rng.random() < .7)


def prepare_scns(scns, tier, seed):
    """give every history from the specification a component: objects 1 and 2
    work on the overwritten rows, 3 and 4 get the same values in rows of their own"""
    es = [e for e in pool() if e.cost < 10]
    for i, s in enumerate(scns):
        if "model" not in s:
            continue
        r = random.Random("bind35-%d" % i)
        e = es[i % len(es)]
        specs = [zoo.spec_of(e, r, e.pre(e.args(r)) + 8)]
        if not s["same"]:
            specs.append(zoo.spec_of(e, r, len(specs[0]["table"])))
            if r.random() < .5:
                specs[1]["p"] = specs[0]["p"]
            specs[1]["p"] = dict(specs[1]["p"], **({"d": specs[0]["p"]["d"]} if "d" in specs[0]["p"] else {}))
            specs[1]["table"] = specs[0]["table"]
        n = len(specs[0]["table"])
        row = [0]
        ops, mirror = [], {}
        for o in (1, 2):
            k = min(e.pre(specs[-1 if o == 2 else 0]["p"]) + r.choice([0, 0, 3]), n - 4)
            j = 0 if s["same"] or o == 1 else 1
            ops += [["new", o, j, 0, 0], ["new", o + 2, j, 0, 0]]
            for t in range(k):
                for oo in (o, o + 2):
                    row[0] += 1
                    ops += [["write", 1, row[0], 0, t], ["fit", oo, row[0], 1, 0]]
        N = 40 + row[0]
        cur = {1: n - 4, 2: n - 4}
        ops += [["write", 1, N + b, 0, n - 4] for b in (1, 2)]
        mops, val = [], {}
        # the values x = 1, 2, ... become the last instances of the table; RRCF wants distinct ones per fit
        for a, o, b, m, x in s["model"]:
            if a == "write":
                cur[b] = n - 4 + x - 1
                ops.append(["write", 1, N + b, 0, cur[b]])
            elif a == "fit":
                ops.append(["fit", o, N + b, m, 0])
                for q in range(m):
                    row[0] += 1
                    mops += [["write", 1, row[0], 0, cur[b + q]], ["fit", o + 2, row[0], 1, 0]]
            else:
                ops.append(["read", o, N + b, 1, 0])
                row[0] += 1
                mops += [["write", 1, row[0], 0, cur[b]], ["read", o + 2, row[0], 1, 0]]
        ops += [["write", 1, N + 1, 0, n + 1], ["write", 1, N + 2, 0, n + 2]]
        for t in (n - 1, n - 2, 0):
            for o in (1, 2, 3, 4):
                row[0] += 1
                mops += [["write", 1, row[0], 0, t], ["read", o, row[0], 1, 0]]
        assert row[0] <= N
        s.update(specs=specs, ops=ops + mops, rows=N, shared=2, scrub=r.random() < .5)


GARBAGE = [0.0, 7.0, -3.0, float("nan")]


class Buffers(zoo.World):
    def __init__(self, specs, rows, shared, scrub):
        super().__init__(specs, rng="cont", shared=False)
        d = len(specs[0]["table"][0])
        self.M = np.zeros((rows, d))
        self.B = np.zeros((shared, d))
        self.rows, self.scrub = rows, scrub
        self.tok = {}
        self.views = {}

    def at(self, b, n=1):
        if n == 1:          # the caller presents one and the same array object
            return self.views.setdefault(b, self._at(b, 1)[0])
        return self._at(b, n)

    def _at(self, b, n):
        return self.M[b - 1:b - 1 + n] if b <= self.rows else self.B[b - self.rows - 1:b - self.rows - 1 + n]

    def ev35(self, op, o=1, b=1, n=1, x=0, id=0, call="", out=0, k="ok", rm=False):
        self.ev.append(dict(op=op, o=o, b=b, n=n, x=x, id=id, call=call, out=out, k=k, rm=rm))

    def event(self, *a, **k):
        pass

    def run(self, ops):
        T = len(self.specs[0]["table"])
        for a, o, b, n, x in ops:
            if a == "new":
                ok = self.new(o, b)
                self.ev35("new", o, id=b, k="ok" if ok else "exc")
                if not ok:
                    return
                if self.scrub and o != 1:
                    g = self.given[b][0]
                    if any(spoil(v) for k, v in sorted(g.items()) if k.startswith("initial")):
                        self.ev35("scrub")
                    self.given.pop(b)
                continue
            if a == "write":
                self.at(b)[:] = self.specs[0]["table"][x] if x < T else GARBAGE[x - T]
                self.tok[b] = x
                self.ev35("write", b=b, x=x + 1)
                continue
            e = self.specs[self.ids[o]]["e"]
            obj = self.o[o]
            X = self.at(b, n)
            ts = [self.tok[b + j] for j in range(n)]
            lab = self.specs[self.ids[o]]["labels"]
            y = [lab[t] if t < T else 0 for t in ts] if e.kind == "model" and e.y != "none" else None
            self.load(self.state[o])
            if a == "fit":
                k = "ok"
                try:
                    if n == 1:
                        e.fit(obj, X, y[0] if y else None)
                    elif e.kind == "model":
                        ya = np.array(y) if y else None
                        obj.fit(X, ya) if y else obj.fit(X)
                        if y and self.scrub:
                            ya[:] = 1 - ya
                    else:
                        obj.fit(X)
                except Timeout:
                    raise
                except Exception as ex:
                    k = "exc:" + type(ex).__name__
                self.state[o] = self.save()
                self.ev35("fit", o, b, n, k=k)
                if k != "ok":
                    return
            else:
                res = []
                call = e.calls()[0] if e.split else "fs"

                def q():
                    if e.split:
                        res.append(e.read(obj, call, X))
                    else:
                        res.append(e.fs(obj, X, y[0] if y else None))
                    return res[0]
                out = self._val(q)
                if not e.split or e.readmut:
                    self.state[o] = self.save()
                self.ev35("read", o, b, call=call, out=out, rm=e.readmut or not e.split)
                if self.scrub and o != 1 and res and isinstance(res[0], np.ndarray) and not np.shares_memory(res[0], self.M) and not np.shares_memory(res[0], self.B):
                    if spoil(res[0]):
                        self.ev35("scrub")


def spoil(v):
    if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype == np.float64:
        v[...] = 5.5
        return True
    return False


from enc import Timeout


def execute(scn):
    w = Buffers(scn["specs"], scn["rows"], scn["shared"], scn["scrub"])
    w.run(scn["ops"])
    nobj = max([1] + [o[1] for o in scn["ops"]])
    return [dict(cfg=dict(nobj=nobj, nbuf=scn["rows"] + scn["shared"]), ev=w.ev)]
