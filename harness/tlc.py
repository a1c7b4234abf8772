"""Running TLC (model checking and trace validation) in scratch directories."""
import json, os, re, shutil, subprocess, tempfile, zlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def _env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ("JAVA_TOOL_OPTIONS", "_JAVA_OPTIONS")}
    e.update(kw)
    return e


def _java(scratch, mem, args, env, timeout, cwd):
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss64m",
           "-Djava.io.tmpdir=" + scratch, "-cp", CP, "tlc2.TLC", "-metadir", os.path.join(scratch, "meta"),
           "-noGenerateSpecTE", "-deadlock"] + args
    out = os.path.join(scratch, "tlc.out")
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout %ss: %s" % (timeout, args))
    with open(out, errors="replace") as f:
        return p.returncode, f.read()


def _link(d):
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))


STATS = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", re.M)


def _stats(out):
    m = STATS.findall(out)
    if not m:
        return None
    return tuple(int(x.replace(",", "")) for x in m[-1])


def model_check(module, cfgtext, scratch_root, workers=8, mem="6g", timeout=600, consts=None):
    """Exhaustive check of spec/<module>.tla.  Returns stats and emitted scenarios."""
    cache = os.environ.get("VERIF_MCCACHE")         # only for mutation sweeps: the specification does not change
    if cache:
        key = "%s-%08x.json" % (module, zlib.crc32(json.dumps(cfgtext).encode()))
        if os.path.exists(os.path.join(cache, key)):
            with open(os.path.join(cache, key)) as f:
                return json.load(f)
    d = tempfile.mkdtemp(dir=scratch_root)
    try:
        _link(d)
        text, defs = cfgtext
        with open(os.path.join(d, "R.cfg"), "w") as f:
            f.write(text)
        with open(os.path.join(d, "R.tla"), "w") as f:
            f.write("---- MODULE R ----\nEXTENDS %s\n%s====\n" % (module, defs))
        rc, out = _java(d, mem, ["-workers", str(workers), "-config", os.path.join(d, "R.cfg"), os.path.join(d, "R.tla")],
                        _env(), timeout, d)
        st = _stats(out)
        if rc != 0 or st is None or st[2] != 0:
            raise MachineryError("specification %s failed (rc=%s):\n%s" % (module, rc, out[-3000:]))
        scns = []
        for line in out.splitlines():
            if line.startswith('"SCN '):
                scns.append(json.loads(json.loads(line)[4:]))
        scns.sort(key=lambda s: json.dumps(s, sort_keys=True))
        res = {"module": module, "states": st[1], "transitions": st[0], "scenarios": scns,
               "complete": "Model checking completed" in out}
        if cache:
            with open(os.path.join(cache, key + ".%d" % os.getpid()), "w") as f:
                json.dump(res, f)
            os.rename(os.path.join(cache, key + ".%d" % os.getpid()), os.path.join(cache, key))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


TMPL = """---- MODULE T_{m} ----
EXTENDS Integers, Json, IOUtils
VARIABLES tid, l, st, bad
C == INSTANCE {m}
TraceData == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceBase WITH Traces <- TraceData, SInit <- C!Init, SApply <- C!Apply, SVerdict <- C!Verdict
====
"""
TCFG = "INIT TInit\nNEXT TNext\nINVARIANT TraceOK\nCHECK_DEADLOCK FALSE\n"


def undefined(out):
    """(trace, event) at which the specification could not even be evaluated on
    the recorded value (a missing field, an index outside the state, a number
    where a sequence belongs): the implementation answered with something the
    specification has no place for."""
    if "The error occurred when TLC was evaluating the nested" not in out or "The behavior up to this point is" not in out:
        return None
    if "StackOverflow" in out or "OutOfMemory" in out or "Java heap" in out or "Parsing or semantic analysis failed" in out:
        return None
    i = out.rfind("State ")
    t, l = re.search(r"/\\ tid = (\d+)", out[i:]), re.search(r"/\\ l = (\d+)", out[i:])
    return (int(t.group(1)), int(l.group(1))) if i >= 0 and t and l else None


def _validate_chunk(module, traces, scratch_root, mem, timeout):
    d = tempfile.mkdtemp(dir=scratch_root)
    try:
        _link(d)
        t = os.path.join(d, "T_%s.tla" % module)
        with open(t, "w") as f:
            f.write(TMPL.format(m=module))
        with open(os.path.join(d, "T.cfg"), "w") as f:
            f.write(TCFG)
        tf = os.path.join(d, "traces.json")
        with open(tf, "w") as f:
            json.dump(traces, f)
        rc, out = _java(d, mem, ["-workers", "1", "-config", os.path.join(d, "T.cfg"), t],
                        _env(TRACE_FILE=tf), timeout, d)
        m = re.search(r'<<\s*"VIOLATED",\s*(\d+),\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', out)
        if m and rc in (12, 0):
            by = next(x for x in traces if x["id"] == int(m.group(1)))
            before = by["ev"][:int(m.group(2)) - 1]
            at = sum(len(e["evs"]) if "evs" in e else 1 for e in before) + int(m.group(3))
            return {"violation": (int(m.group(1)), at, m.group(4))}
        und = undefined(out)
        if und:
            by = traces[und[0] - 1]
            return {"violation": (by["id"], max(1, min(und[1], len(by["ev"]))), "answer-outside-the-values-of-the-specification")}
        st = _stats(out)
        want = sum(len(x["ev"]) + 1 for x in traces)
        if rc != 0 or st is None:
            raise MachineryError("trace validation %s failed (rc=%s):\n%s" % (module, rc, out[-3000:]))
        if st[1] != want:
            raise MachineryError("trace validation %s consumed %d states, expected %d\n%s" % (module, st[1], want, out[-800:]))
        return {"states": st[1], "transitions": st[0]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bulked(ev, limit=200):
    """long traces in at most `limit` blocks of consecutive events"""
    if len(ev) <= limit:
        return ev
    k = -(-len(ev) // limit)
    return [dict(op="bulk", evs=ev[i:i + k]) for i in range(0, len(ev), k)]


def validate(module, traces, scratch_root, jobs=6, mem="3g", timeout=700, chunk_events=25000):
    """Validate recorded traces.  Returns (violation or None, stats)."""
    lens = [len(t["ev"]) for t in traces]
    traces = [dict(t, id=i, ev=bulked(t["ev"])) for i, t in enumerate(traces)]
    order = sorted(range(len(traces)), key=lambda i: -lens[i])
    jobs = int(os.environ.get("VERIF_TLCJOBS", jobs))
    total = sum(lens) + len(lens)
    n = max(1, min(len(traces), max(min(jobs, total // 1500), (total + chunk_events - 1) // chunk_events)))
    chunks = [[] for _ in range(n)]
    loads = [0] * n
    for i in order:
        j = loads.index(min(loads))
        chunks[j].append(traces[i])
        loads[j] += lens[i] + 1
    res = []
    with ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(_validate_chunk, module, c, scratch_root, mem, timeout) for c in chunks if c]
        err = None
        for f in futs:
            try:
                res.append(f.result())
            except MachineryError as e:
                err = e
    viol = [r["violation"] for r in res if "violation" in r]
    if viol:
        return min(viol), {"states": 0, "transitions": 0}
    if err:
        raise err
    return None, {"states": sum(r["states"] for r in res), "transitions": sum(r["transitions"] for r in res)}
