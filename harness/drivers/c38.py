from common import *
import random
import zoo
from enc import Timeout
SPEC = "Layout"
ASSUMPTIONS = ["random generator state is controlled: every object continues from the state its own last step left",
               "float64 arrays in native byte order with aligned elements: contiguous, strided, reversed, Fortran ordered, transposed, overlapping and read-only views",
               "results are compared with relative tolerance 1e-9 (1e-5 for the single-precision Inqmad model)",
               "instances in general position where possible, so that rounding that depends on the order of a summation cannot move a value across a threshold"]
INV = ["Accepts", "ByValue", "Ignores", "Rejects"]


def mc(tier):
    q = tier == "quick"
    out = []
    for w in (1, 2):
        out.append(dict(module="MC_Layout", emit=emit, limit=120 if q else 1200, timeout=800,
                        cfg=mccfg(INV + ["Emit"], dict(MaxLen=2, EmitScn="TRUE", Wd=w, MaxRows=2, Strides="{-2, -1, 1}" if w == 2 and not q else "{-1, 1}" if w == 2 else "{-1, 1, 2}"))))
    out.append(dict(module="MC_Layout", timeout=800, cfg=mccfg(INV, dict(MaxLen=2 if q else 3, EmitScn="FALSE", Wd=2, MaxRows=1, Strides="{-2, -1, 0, 1, 2, 3}" if q else "{-1, 2}"))))
    return out


def emit(s):
    ops = [[o["op"], o["o"], [o["v"][k] for k in ("off", "r", "w", "rs", "cs")]] for o in s["ops"]]
    return [dict(model=ops, mem=list(s["cfg"]["mem"][0]))]


def pool():
    return [e for e in zoo.entries() if e.kind in ("model", "trans") and e.y != "need"]     # the perfect model looks at labels only


def generic(e, rng, n, p=None):
    for _ in range(40):
        sp = zoo.spec_of(e, rng, n(e.args(rng)))
        if p:
            sp["p"] = p
            sp["table"] = e.gen(rng, n(p), p)
            sp["labels"] = [rng.randint(0, 1) for _ in sp["table"]]
        v = [x for r in sp["table"] for x in r]
        if len(set(v)) == len(v):
            break
    return sp


# detectors from other libraries: a decomposition of column-major data may round differently, which for
# symmetric data (PCA of two standardised features) decides the sign of a component
DETECTOR = ("OneFitModel", "ReferenceWindowModel", "IForestASD", "LocalOutlierProbability")
HOW = ["rows", "fortran", "step", "reverse", "wide", "swap", "readonly", "offset"]


def scenarios(rng, tier):
    out = []
    q = tier == "quick"
    for e in pool():
        for r in range((6 if e.cost < 10 else 1) if q else (60 if e.cost < 10 else 5)):
            sp = generic(e, rng, lambda p: e.pre(p) + rng.choice([4, 8, 14]) if e.cost < 10 else 5)
            n, pre = len(sp["table"]), e.pre(sp["p"])
            steps, i = [], 0
            while i < n:
                k = min(n - i, rng.choice([1, 1, 2, 4]) if i >= pre else pre - i)
                steps.append(["fit", i, i + k])
                i += k
                if i >= pre - 1:
                    a = rng.randrange(n)
                    steps.append(["read", a, min(n, a + rng.choice([1, 1, 3]))])
            out.append(dict(specs=[sp], steps=steps, how=["plain"] + rng.sample(HOW, 2), batch=e.batch and not e.const and not e.rread and rng.random() < .6, seed=rng.randrange(10 ** 6)))
    return out


def prepare_scns(scns, tier, seed):
    """the specification's histories: the tokens of the memory become two values; both objects take the same
    first steps, and a third takes those of the first from fresh contiguous rows"""
    multi = [e for e in pool() if e.cost < 10]
    for i, s in enumerate(scns):
        if "model" not in s:
            continue
        r = random.Random("bind38-%d" % i)
        w = s["model"][0][2][2]
        for _ in range(60):
            e = multi[r.randrange(len(multi))]
            p = e.args(r)
            if "d" in p:
                p["d"] = w
            try:
                sp = generic(e, r, lambda p: e.pre(p) + 6, p)
            except Exception:
                continue
            if len(sp["table"][0]) == w and e.batch and not e.const and not e.rread:
                break
        else:
            s["skip"] = True
            continue
        s.update(specs=[sp], seed=i)


class Views(zoo.World):
    def __init__(self, specs):
        super().__init__(specs, rng="cont", shared=False)
        self.mem, self.tok = [], {}
        self.kept = None

    def event(self, *a, **k):
        pass

    def block(self, cells):
        """a new block of memory; (its number, the array)"""
        self.mem.append([self.tok.setdefault(float(v), len(self.tok) + 1) for v in cells])
        return len(self.mem), np.array(cells, dtype=np.float64)

    def view(self, blk, a, off, r, w, rs, cs, one):
        """rows as an array (a vector if one), and the view for the specification"""
        V = np.ndarray((w,) if one else (r, w), np.float64, a, 8 * off, (8 * cs,) if one else (8 * rs, 8 * cs))
        return V, dict(blk=blk, off=off + 1, r=r, w=w, rs=rs, cs=cs)

    def store(self, rows, how, rng, one):
        """rows stored in a block of their own"""
        r, w = len(rows), len(rows[0])
        if how in ("plain", "rows", "readonly"):
            off, rs, cs, size = 0, w, 1, r * w
        elif how == "offset":
            off, rs, cs, size = 3, w + 2, 1, 3 + r * (w + 2)
        elif how == "fortran":
            off, rs, cs, size = 0, 1, r, r * w
        elif how == "step":
            k = rng.choice([2, 3])
            off, rs, cs, size = 1, k * w, k, 1 + k * r * w
        elif how == "reverse":
            off, rs, cs, size = r * w - 1, -w, -1, r * w
        elif how == "swap":
            off, rs, cs, size = (r - 1) * w, -w, 1, r * w
        else:      # one column block of a Fortran ordered matrix with more rows
            off, rs, cs, size = 2, 2, 2 * r + 3, 4 + (2 * r + 3) * w
        cells = [rng.choice([0.0, 1.0, -1.0, 0.5, 1e6]) for _ in range(size)]
        for i in range(r):
            for j in range(w):
                cells[off + i * rs + j * cs] = float(rows[i][j])
        blk, a = self.block(cells)
        V, v = self.view(blk, a, off, r, w, rs, cs, one)
        if how == "readonly" or rng.random() < .3 and how != "plain":
            V.flags.writeable = False
        return V, v, a

    def ev38(self, op, o, v, call="", out=(), k="ok", rm=False, kept=True):
        self.ev.append(dict(op=op, o=o, id=1, v=v, call=call, out=list(out), k=k, rm=rm, kept=kept))

    def make(self, o, how, rng):
        """every array a constructor is given is stored in another way as well"""
        sp = self.specs[0]
        if sp["e"].name in DETECTOR:      # what numpy.array makes of these is C-contiguous in any case
            how = {"fortran": "step", "wide": "reverse"}.get(how, how)
        g = zoo.given(sp["e"], sp["p"])
        g2, v, held = {}, dict(blk=1, off=1, r=0, w=1, rs=1, cs=1), []
        for k in sorted(g):
            x = g[k]
            if how != "plain" and isinstance(x, np.ndarray) and x.dtype == np.float64 and x.ndim in (1, 2) and x.size:
                V, vv, a = self.store(x if x.ndim == 2 else [x], how, rng, x.ndim == 1)
                held.append((a, a.copy()))
                g2[k] = V
                if vv["r"] > 1:
                    v = vv
            elif how == "plain" and isinstance(x, np.ndarray) and x.dtype == np.float64 and x.ndim == 2 and len(x) > 1:
                g2[k], v, a = self.store(x, "plain", rng, False)
            else:
                g2[k] = x
        self.seed("new", 0)
        k = "ok"
        try:
            self.o[o] = sp["e"].build(sp["p"], g2)
        except Timeout:
            raise
        except Exception as x:
            k = "exc:" + type(x).__name__
        self.state[o] = self.save()
        self.ids[o] = 0
        self.ev38("new", o, v, k=k, kept=all(zoo.same_value(b, a) for a, b in held))
        return k == "ok"

    def call(self, a, o, X, v, base, ts, one):
        e, lab = self.specs[0]["e"], self.specs[0]["labels"]
        obj = self.o[o]
        y = [lab[t] for t in ts] if e.kind == "model" and e.y != "none" and (e.y == "need" or lab[0] is not None) else None
        self.load(self.state[o])
        b0 = base.copy()
        if a == "fit":
            k = "ok"
            try:
                if one:
                    e.fit(obj, X, y[0] if y else None)
                elif y:
                    obj.fit(X, np.array(y))
                else:
                    obj.fit(X)
            except Timeout:
                raise
            except Exception as ex:
                k = "exc:" + type(ex).__name__
            self.state[o] = self.save()
            self.ev38("fit", o, v, k=k, kept=zoo.same_value(b0, base))
            return k == "ok"
        mut = e.readmut or not e.split or e.rread
        name = e.calls()[0] if e.split else "fs"
        if one:
            out = [self._val(lambda: e.read(obj, name, X) if e.split else e.fs(obj, X, y[0] if y else None))]
        else:
            got = []

            def q():
                if not e.split:
                    got.append((obj.fit_score(X, np.array(y)) if y else obj.fit_score(X)) if e.kind == "model" else obj.fit_transform(X))
                else:
                    got.append(obj.score(X) if e.kind == "model" else obj.transform(X))
                return 0
            mark = self.nexc
            t = self._val(q)
            out = [t] * len(ts) if self.nexc > mark else [self.intern(z) for z in got[0]]
        if mut:
            self.state[o] = self.save()
        self.ev38("read", o, v, call=name, out=out, rm=mut, kept=zoo.same_value(b0, base))
        return True


def execute(scn):
    if scn.get("skip"):
        return []
    w = Views(scn["specs"])
    sp = w.specs[0]
    rng = random.Random("views-%d" % scn["seed"])
    if "model" in scn:
        n = modelled(w, scn, rng)
    else:
        n = len(scn["how"])
        steps = [list(s) for s in scn["steps"]]
        for o, how in enumerate(scn["how"], 1):
            if not w.make(o, how, rng):
                break
            ok = True
            for a, i, j in steps:
                ts = list(range(i, j))
                while ts and ok:
                    m = len(ts) if scn["batch"] and o > 1 and rng.random() < .7 else 1
                    one = m == 1 and (not scn["batch"] or rng.random() < .7)
                    X, v, base = w.store([sp["table"][t] for t in ts[:m]], how, rng, one)
                    ok = w.call(a, o, X, v, base, ts[:m], one)
                    ts = ts[m:]
                if not ok:
                    break
    return [dict(cfg=dict(nobj=n, mem=w.mem or [[0]]), ev=w.ev)]


def modelled(w, scn, rng):
    sp = w.specs[0]
    T, pre = sp["table"], sp["e"].pre(sp["p"])
    k = min(len(T) - 4, pre + rng.choice([0, 2]))
    # two numbers for the two tokens
    vals = [float(T[-1][0]), float(T[-2][0])]
    for o in (1, 2, 3, 4):
        if not w.make(o, "plain", rng):
            return 4
        for t in range(k):
            X, v, base = w.store([T[t]], "plain", rng, True)
            if not w.call("fit", o, X, v, base, [t], True):
                return 4
    blk, a = w.block([vals[t - 1] for t in scn["mem"]])
    last = len(T) - 1
    for op, o, (off, r, wd, rs, cs) in scn["model"]:
        X, v = w.view(blk, a, off - 1, r, wd, rs, cs, r == 1)
        rows = np.array(X).reshape(r, wd).tolist()
        if not w.call(op, o, X, v, a, [last] * r, r == 1):
            return 4
        for row in rows:
            X, v, base = w.store([row], "plain", rng, True)
            if not w.call(op, o + 2, X, v, base, [last], True):
                return 4
    for t in (0, len(T) - 3):
        for o in (1, 2, 3, 4):
            X, v, base = w.store([T[t]], rng.choice(HOW) if o < 3 else "plain", rng, True)
            w.call("read", o, X, v, base, [t], True)
    return 4
