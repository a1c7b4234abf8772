"""Entry point of every check:  run.py <property id>."""
import faulthandler, importlib, json, os, random, shutil, signal, sys, tempfile, time, traceback, zlib
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")
import tlc
import enc
from enc import Timeout

SCN_TIMEOUT = 60            # seconds of processor time for one scenario
SCN_WALL = 200              # and of time


def _alarm(sig, frame):
    raise Timeout()


def run_one(args):
    drv, scn = args
    enc.POOL[0] = {} if zlib.crc32(json.dumps(scn, sort_keys=True, default=str).encode()) % 2 else None
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_REAL, SCN_WALL)
    signal.setitimer(signal.ITIMER_PROF, SCN_TIMEOUT)
    c0 = time.process_time()
    try:
        return ("ok", drv.execute(scn))
    except Timeout:
        return ("timeout", None)
    except Exception as e:
        # an exception that came out of the code under test through a call the
        # driver makes unconditionally is an observation; anything else is ours
        tb = traceback.extract_tb(e.__traceback__)
        mine = any(f.filename.startswith(os.path.join(REPO, "pysad") + os.sep) for f in tb)
        return ("raised" if mine else "err", traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        if os.environ.get("VERIF_SLOW") and time.process_time() - c0 > float(os.environ["VERIF_SLOW"]):
            print("SLOW %.1f %s" % (time.process_time() - c0, json.dumps(scn, default=str)[:200]), file=sys.stderr, flush=True)


_DRV = None
_SCNS = None


def _work(i):
    devnull = open(os.devnull, "w")
    old = sys.stdout
    sys.stdout = devnull
    try:
        return i, run_one((_DRV, _SCNS[i]))
    finally:
        sys.stdout = old
        devnull.close()


def _workmany(ix):
    return [_work(i) for i in ix]


def execute_all(drv, scns, jobs):
    global _DRV, _SCNS
    _DRV, _SCNS = drv, scns
    res = [None] * len(scns)
    if getattr(drv, "SERIAL", False) or jobs <= 1:
        for i in range(len(scns)):
            res[i] = _work(i)[1]
        return res
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs) as pool:
        c = max(1, min(8, len(scns) // (jobs * 4) or 1))
        it = pool.imap_unordered(_workmany, [list(range(i, min(i + c, len(scns)))) for i in range(0, len(scns), c)])
        done = 0
        while done < len(scns):
            try:
                part = it.next(timeout=SCN_TIMEOUT * 4)
            except mp.TimeoutError:
                break
            for i, r in part:
                res[i] = r
                done += 1
        pool.terminate()
    return [r if r is not None else ("timeout", None) for r in res]


def known_findings(pid):
    """known: property=<id> <finding> <what fails>"""
    out = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith("known: property=%s " % pid):
                _, _, k, text = line.strip().split(" ", 3)
                out[k] = text
    return out


def write_replay(pid, obj):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%08x.json" % (pid, zlib.crc32(json.dumps(obj, sort_keys=True, default=str).encode())))
    with open(p, "w") as f:
        json.dump(obj, f, indent=1, default=str)
    return p


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    drv = importlib.import_module("drivers." + pid.lower())
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.environ["VERIF_SCRATCH"] = scratch
    verbose = os.environ.get("VERIF_VERBOSE")

    def log(*a):
        if verbose:
            print("[%6.1f]" % (time.time() - t0), *a, file=sys.stderr, flush=True)
    try:
        # 1. the specification itself
        mcs = []
        scns = []
        for mc in drv.mc(tier):
            r = tlc.model_check(mc["module"], mc["cfg"], scratch, timeout=mc.get("timeout", 600), workers=mc.get("workers", 8))
            log("MC", mc["module"], r["states"], "states", len(r["scenarios"]), "scenarios")
            ms = r.pop("scenarios")
            if "emit" in mc:
                lim = mc.get("limit")
                if lim and len(ms) > lim:
                    random.Random(seed).shuffle(ms)
                    ms = ms[:lim]
                for s in ms:
                    scns.extend(mc["emit"](s))
            r["emitted"] = len(ms)
            mcs.append(r)
        n_model = len(scns)
        # 2. the real code
        rng = random.Random("%s-%d-%s" % (pid, seed, tier))
        scns.extend(drv.scenarios(rng, tier))
        log("scenarios: %d from TLC, %d random" % (n_model, len(scns) - n_model))
        importlib.import_module("pysad")
        if hasattr(drv, "prepare"):
            drv.prepare()
        if hasattr(drv, "prepare_scns"):
            drv.prepare_scns(scns, tier, seed)
        log("imported")
        results = execute_all(drv, scns, int(os.environ.get("VERIF_JOBS", "7")))
        log("executed")
        bad = None
        traces, suspects = {}, []
        events = 0
        for scn, (st, val) in zip(scns, results):
            if st == "err":
                # a failure outside a recorded call: an error of the harness
                # unless the driver says that set-up failures are violations.
                raise tlc.MachineryError("driver failed on %s\n%s" % (json.dumps(scn, default=str)[:2000], val))
            if st == "raised":
                bad = bad or (scn, 0, "unexpected-exception", {"traceback": val})
                continue
            if st == "timeout":
                bad = bad or (scn, 0, "no-answer-within-%ds" % SCN_TIMEOUT, None)
                continue
            for t in val:
                t["scn"] = scn
                if "finding" in t:
                    suspects.append(t)
                    continue
                traces.setdefault(t.pop("spec", drv.SPEC), []).append(t)
                events += len(t["ev"])
        # 3. trace validation
        tstates = ttrans = 0
        for spec, ts in traces.items():
            bare = [{"cfg": t["cfg"], "ev": t["ev"]} for t in ts]
            v, s = tlc.validate(spec, bare, scratch)
            tstates += s["states"]
            ttrans += s["transitions"]
            log("validated", spec, len(ts), "traces", v)
            if v and bad is None:
                bad = (ts[v[0]]["scn"], v[1], v[2], {"spec": spec, "cfg": ts[v[0]]["cfg"], "event": ts[v[0]]["ev"][v[1] - 1],
                                                     "trace": ts[v[0]]["ev"][:v[1]]})
        # 4. traces of exactly the configuration of a listed finding
        known, seen = known_findings(pid), set()
        for t in suspects:
            spec = t.get("spec", drv.SPEC)
            v, s = tlc.validate(spec, [{"cfg": t["cfg"], "ev": t["ev"]}], scratch)
            if v and t["finding"] in known and v[2] == t["clause"]:
                seen.add(t["finding"])
            elif v and bad is None:
                bad = (t["scn"], v[1], v[2], {"spec": spec, "cfg": t["cfg"], "event": t["ev"][v[1] - 1], "trace": t["ev"][:v[1]]})
        ntr = sum(len(x) for x in traces.values())
        rng2 = random.Random(seed)
        allt = [(sp, t) for sp, x in traces.items() for t in x]
        samples = [{"spec": sp, "cfg": t["cfg"], "events": len(t["ev"]), "first_events": t["ev"][:4]}
                   for sp, t in rng2.sample(allt, min(3, len(allt)))]
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": sum(m["states"] for m in mcs) + tstates,
                           "transitions": sum(m["transitions"] for m in mcs) + ttrans,
                           "traces_validated_against_impl": ntr if not bad else 0,
                           "samples": samples,
                           "model_checking_runs": mcs,
                           "trace_states": tstates,
                           "events_recorded_from_impl": events,
                           "scenarios_from_specification": n_model,
                           "scenarios_randomised": len(scns) - n_model,
                           "detail": drv.describe(tier) if hasattr(drv, "describe") else ""},
              "assumptions": getattr(drv, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - t0, 2), "violations": 1 if bad else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s %s" % (pid, k, known[k]))
        if bad:
            scn, at, clause, info = bad
            path = write_replay(pid, {"property": pid, "clause": clause, "at_event": at, "scenario": scn, "detail": info,
                                      "seed": seed, "tier": tier})
            print("violated clause %s at event %s" % (clause, at))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("OK property=%s model_states=%d traces=%d events=%d wall=%.1fs" % (
            pid, sum(m["states"] for m in mcs), ntr, events, time.time() - t0))
        return 0
    except Exception as e:
        print("CHECK-ERROR", e if isinstance(e, tlc.MachineryError) else traceback.format_exc())
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
