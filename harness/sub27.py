"""Runs C27 scenarios in a process of its own (another string hash seed, another
history of the interpreter) and writes the raw results."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")
import signal
import numpy as np


def main():
    src, dst = sys.argv[1:3]
    with open(src) as f:
        scns = json.load(f)
    real = sys.stdout
    sys.stdout = open(os.devnull, "w")
    from drivers import c27
    out = []
    for i, scn in scns:
        raw = c27.run(scn, None)[1]
        out.append([i, [v if isinstance(v, str) else np.array(v, dtype=float).ravel().tolist() for v in raw]])
    with open(dst, "w") as f:
        json.dump(out, f)


main()
os._exit(0)
