"""Every planted change still applies to /repo's HEAD, and its demo still tells it apart (scratch copies only)."""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(s):
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        shutil.copytree(V + "/seeded/" + s, w + "/d")
        r = [subprocess.run(["bash", w + "/d/demo.sh"], cwd=w + "/repo", capture_output=True, timeout=300).returncode]
        if subprocess.run(["git", "apply", V + "/seeded/%s/patch.diff" % s], cwd=w + "/repo").returncode:
            return s, "DOES NOT APPLY"
        r.append(subprocess.run(["bash", w + "/d/demo.sh"], cwd=w + "/repo", capture_output=True, timeout=300).returncode)
        return s, "ok" if r[0] == 0 and r[1] != 0 else "DEMO %s" % r
    finally:
        shutil.rmtree(w, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/meta.json"))
with ThreadPoolExecutor(5) as ex:
    for s, r in ex.map(one, ids):
        if r != "ok":
            print(s, r, flush=True)
print("checked", len(ids))
