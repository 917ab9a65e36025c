"""The same seeds in processes that differ in what must not matter; the traces must be equal.

    tools/determinism.py [runs per profile]
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONE = """
import sys, json, os, shutil, tempfile
sys.path.insert(0, %r)
from sim import target
target.load()
from sim import engine, workload
n = int(sys.argv[1])
order = sys.argv[2]
base = tempfile.mkdtemp(dir="/dev/shm")
out = {}
todo = [(p, 31000000 + k) for p in sorted(workload.PROFILES) for k in range(n)]
if order == "back":
    todo.reverse()
for p, s in todo:
    d = os.path.join(base, "r")
    e = engine.Engine(workload.generate(p, s), d).run()
    out["%%s %%d" %% (p, s)] = e.sim.digest.hexdigest()
    shutil.rmtree(d, True)
shutil.rmtree(base, True)
print("DIGESTS " + json.dumps(out))
""" % HERE


def main():
    n = sys.argv[1] if len(sys.argv) > 1 else "10"
    ways = [("0", "on", "1"), ("77", "on", "1"), ("0", "back", "1")]
    ps = [subprocess.Popen(["/opt/venv/bin/python", "-c", ONE, n, o], stdout=subprocess.PIPE, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=h, OPENBLAS_NUM_THREADS=t, PYTHONDONTWRITEBYTECODE="1"))
          for h, o, t in ways]
    outs = [json.loads(next(l for l in p.communicate()[0].splitlines() if l.startswith("DIGESTS "))[8:]) for p in ps]
    bad = 0
    for w, o in zip(ways[1:], outs[1:]):
        diff = [k for k in outs[0] if outs[0][k] != o[k]]
        bad += len(diff)
        print("hash seed %s, order %s: %d of %d traces differ %s" % (w[0], w[1], len(diff), len(outs[0]), diff[:5]))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
