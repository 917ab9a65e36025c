"""Runs a check: seeded scenarios on all cores, judged, minimised, reported.

  python -m sim.run check  <property> [quick|thorough] [--runs N]
  python -m sim.run replay <file>
  python -m sim.run values <profile> <seed0> <n>      (used for the hash-seed comparison)

Exit 0: held on everything explored. 1: VIOLATION. 2: the harness itself failed.
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHM = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
RUN_LIMIT = 150.0            # wall seconds one simulated run may take before it counts as stuck


class Stuck(Exception):
    pass


# ---------------------------------------------------------------------------
# one run
# ---------------------------------------------------------------------------
class Runner:
    """Executes and judges scenarios in this process."""

    def __init__(self, phys):
        from . import checker, engine, target, workload
        target.load()
        self.engine, self.checker, self.workload = engine, checker, workload
        self.phys = phys
        self.base = tempfile.mkdtemp(prefix="vs", dir=SHM)
        self.cache = checker.TwinCache()
        self.n = 0

    def run(self, sc, tracing=False):
        self.n += 1
        root = os.path.join(self.base, "r%d" % self.n)
        try:
            e = self.engine.Engine(sc, root, tracing).run()
            c = self.checker.Checker(e, self.cache, phys=self.phys)
            v = c.run()
        finally:
            shutil.rmtree(root, ignore_errors=True)
        return e, c, v

    def close(self):
        self.cache.close()
        shutil.rmtree(self.base, ignore_errors=True)


def relevant(prop, vs):
    only, also = prop.get("only"), prop.get("also", {})
    return [v for v in vs if v.kind in prop["kinds"] and (not only or v.q in only)
            or v.q in also.get(v.kind, ())]


def schedule(prop, n, seed):
    """The (profile, seed) of every run, in order."""
    wheel = []
    prof = prop["profiles"]
    left = {p: 0.0 for p in prof}
    tot = float(sum(prof.values()))
    cnt = collections.Counter()
    for _ in range(n):
        for p in prof:
            left[p] += prof[p] / tot
        p = max(prof, key=lambda k: left[k])
        left[p] -= 1
        wheel.append((p, seed * 1000003 + cnt[p]))
        cnt[p] += 1
    return wheel


# ---------------------------------------------------------------------------
# workers
# ---------------------------------------------------------------------------
def worker(conn, prop, todo, deadline):
    try:
        r = Runner(prop["phys"])
        st = {"runs": 0, "stats": collections.Counter(), "fired": collections.Counter(), "steps": 0, "skipped": 0,
              "simtime": 0.0, "points": 0, "digests": [], "states": set(), "switches": 0, "other": collections.Counter(),
              "calls": collections.Counter(), "profiles": collections.Counter(), "nontrivial": 0}
        hist, wrong = [], 0
        for p, s in todo:
            if time.time() > deadline:
                break
            conn.send(("at", p, s))
            sc = r.workload.generate(p, s)
            try:
                e, c, v = r.run(sc)
            except Exception:       # no answer from this run; another may have one
                conn.send(("error", "%s %s: %s" % (p, s, traceback.format_exc())))
                wrong += 1
                if wrong > 3:
                    break
                continue
            hist.append((p, s))
            st["runs"] += 1
            st["profiles"][p] += 1
            st["stats"].update(c.stats)
            st["fired"].update(e.sim.fired)
            st["steps"] += len(e.hist)
            st["skipped"] += e.skipped
            st["simtime"] += e.sim.simtime
            st["points"] += e.sim.points
            st["switches"] += getattr(e, "switches", 0)
            st["digests"].append(e.sim.digest.hexdigest()[:24])
            acked = sum(1 for x in e.hist if x.get("out") == "ret" and x.get("val"))
            if acked > 5:
                st["nontrivial"] += 1
            for x in e.hist:
                st["calls"][x["op"]] += 1
                # situation: call, outcome, faults that fired in it
                st["states"].add((x["op"], str(x.get("out")), bool(x.get("val")), tuple(map(tuple, x.get("fired") or ())),
                                  x.get("io", 0)))
            for x in v:
                if x not in relevant(prop, [x]):
                    st["other"][x.kind] += 1
            rv = relevant(prop, v)
            if rv:
                conn.send(("bad", p, s, rv[0].kind, repr(rv[0]), hist[-40:]))
                break
        r.close()
        conn.send(("done", st))
    except BaseException:
        conn.send(("dead", traceback.format_exc()))
    finally:
        conn.close()


def explore(prop, n, seed, wall):
    from . import target
    target.load()
    jobs = schedule(prop, n, seed)
    W = max(1, min(int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4, len(jobs)))
    ctx = mp.get_context("fork")
    deadline = time.time() + wall
    ws = []
    for w in range(W):
        a, b = ctx.Pipe(False)
        pr = ctx.Process(target=worker, args=(b, prop, jobs[w::W], deadline))
        pr.start()
        b.close()
        ws.append({"p": pr, "c": a, "t": time.time(), "at": None, "open": True})
    tot, bad, errors = [], [], []
    stop_at = None
    while any(w["open"] for w in ws):
        now = time.time()
        for w in ws:
            if w["open"] and now - w["t"] > RUN_LIMIT:
                w["p"].kill()
                w["open"] = False
                bad.append({"profile": w["at"][0], "seed": w["at"][1], "kind": "hang", "stuck": True,
                            "what": "the run does not finish", "before": []})
        if stop_at and now > stop_at:
            for w in ws:
                if w["open"]:
                    w["p"].kill()
                    w["open"] = False
            break
        rd, _, _ = select.select([w["c"] for w in ws if w["open"]], [], [], 0.5)
        for c in rd:
            w = next(x for x in ws if x["c"] is c)
            try:
                m = c.recv()
            except EOFError:
                if w["open"]:
                    w["open"] = False
                    w["p"].join(5)
                    errors.append("worker ended with %s at %s" % (w["p"].exitcode, w["at"]))
                continue
            w["t"] = time.time()
            if m[0] == "at":
                w["at"] = m[1:]
            elif m[0] == "bad":
                bad.append({"profile": m[1], "seed": m[2], "kind": m[3], "what": m[4], "before": m[5]})
                stop_at = stop_at or time.time() + 3
            elif m[0] == "done":
                tot.append(m[1])
                w["open"] = False
            elif m[0] == "error":
                errors.append(m[1])
            elif m[0] == "dead":
                errors.append(m[1])
                w["open"] = False
    for w in ws:
        w["p"].join(2)
        if w["p"].is_alive():
            w["p"].kill()
    order = {j: i for i, j in enumerate(jobs)}
    bad.sort(key=lambda b: order[(b["profile"], b["seed"])])
    return merge(tot), bad, errors, W


def merge(sts):
    out = {}
    for s in sts:
        for k, v in s.items():
            if k not in out:
                out[k] = v
            elif isinstance(v, collections.Counter):
                out[k].update(v)
            elif isinstance(v, set):
                out[k] |= v
            elif isinstance(v, list):
                out[k] = out[k] + v
            else:
                out[k] += v
    return out


# ---------------------------------------------------------------------------
# minimising
# ---------------------------------------------------------------------------
def minimise(prop, sc, kind, budget):
    """Fewer steps, faults and switches, the same kind of finding."""
    r = Runner(prop["phys"])
    end = time.time() + budget
    tries = [0]

    def fails(s):
        if time.time() > end:
            return False
        tries[0] += 1
        try:
            e, c, v = r.run(s)
        except Exception:
            return False
        return any(x.kind == kind for x in relevant(prop, v))

    def shrink(seq, rebuild):
        """ddmin over one list."""
        nonlocal sc
        size = max(1, len(seq) // 2)
        while size >= 1:
            i = 0
            while i < len(seq) and time.time() < end:
                cand = seq[:i] + seq[i + size:]
                s = rebuild(cand)
                if fails(s):
                    seq, sc = cand, s
                else:
                    i += size
            if size == 1:
                break
            size //= 2
        return seq

    def at(path, val):
        """sc with the item at path replaced."""
        out = json.loads(json.dumps(sc))
        x = out
        for k in path[:-1]:
            x = x[k]
        if val is None:
            x.pop(path[-1], None)
        else:
            x[path[-1]] = val
        return out

    before = None
    while before != json.dumps(sc) and time.time() < end:
        before = json.dumps(sc)
        shrink(sc["steps"], lambda c: dict(sc, steps=c))
        for i, st in enumerate(list(sc["steps"])):
            if i >= len(sc["steps"]):
                break
            if st["op"] == "par":
                for t in range(len(st["threads"])):
                    shrink(sc["steps"][i]["threads"][t], lambda c, t=t: at(["steps", i, "threads", t], c))
                shrink(sc["steps"][i]["sw"], lambda c: at(["steps", i, "sw"], c))
                for k, off in (("hot", 0), ("wr", 0), ("fn", False)):      # without the other kinds of switch point
                    if sc["steps"][i].get(k):
                        s = at(["steps", i, k], off)
                        if fails(s):
                            sc = s
            elif st.get("f"):
                s = at(["steps", i, "f"], None)
                if fails(s):
                    sc = s
                elif len(st["f"]) > 1:
                    shrink(sc["steps"][i]["f"], lambda c: at(["steps", i, "f"], c))
        if sc.get("files"):
            s = dict(sc, files={})
            if fails(s):
                sc = s
    r.close()
    return sc, tries[0]


# ---------------------------------------------------------------------------
# replay
# ---------------------------------------------------------------------------
def replay(path, quiet=False):
    from .props import PROPS
    with open(path) as f:
        doc = json.load(f)
    prop = PROPS[doc["property"]]
    if doc.get("hash"):
        d = hash_compare(doc["profile"], doc["seed"], 1, doc["hash"])
        if d:
            print("reproduced: %s" % d[0][2])
        return 1 if d else 0
    r = Runner(prop["phys"])
    try:
        for p, s in doc.get("before", []):        # runs that came first in the same process
            r.run(r.workload.generate(p, s))
        e, c, v = r.run(doc["scenario"], True)
    finally:
        r.close()
    rv = [x for x in relevant(prop, v) if x.kind == doc["kind"]]
    dig = e.sim.digest.hexdigest()[:24]
    if not quiet:
        print("digest %s (recorded %s)" % (dig, doc.get("digest")))
        for k, ev in enumerate(e.hist):
            st = {k: v for k, v in ev.get("st", {}).items() if k != "op"}
            print("%4d %-9s %s -> %s %s %s" % (k, ev["op"], json.dumps(st, ensure_ascii=False)[:160], ev.get("out"),
                                              str(ev.get("val"))[:100], ev.get("fired") or ""))
        for x in rv:
            print("reproduced: %r" % x)
    if doc.get("digest") and doc["digest"] != dig:
        print("the execution differs from the recorded one")
    return 1 if rv else 0


def fresh(path, limit=300):
    """Replay in a new process. -> exit code, or None on time-out"""
    env = dict(os.environ)
    try:
        p = subprocess.run([sys.executable, "-m", "sim.run", "replay", path], cwd=VERIF, env=env, timeout=limit,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode
    except subprocess.TimeoutExpired:
        return None


# ---------------------------------------------------------------------------
# hash seeds
# ---------------------------------------------------------------------------
def values(profile, seed0, n):
    r = Runner(False)
    out = []
    for i in range(n):
        sc = r.workload.generate(profile, seed0 + i)
        root = os.path.join(r.base, "v%d" % i)
        e = r.engine.Engine(sc, root).run()
        shutil.rmtree(root, ignore_errors=True)
        out.append([[x["op"], x.get("out"), x.get("val")] for x in e.hist])
    r.close()
    json.dump(out, sys.stdout)


def hash_compare(profile, seed0, n, pair):
    """The same scenarios in two processes whose hash randomisation differs."""
    import numpy as np
    procs = []
    for h in pair:
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        procs.append(subprocess.Popen([sys.executable, "-m", "sim.run", "values", profile, str(seed0), str(n)], cwd=VERIF,
                                      env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    outs = []
    for p in procs:
        o, e = p.communicate(timeout=400)
        if p.returncode != 0:
            raise RuntimeError("values: %s" % e.decode()[-800:])
        outs.append(json.loads(o))

    def flat(v):
        if isinstance(v, (list, tuple)):
            return [y for x in v for y in flat(x)]
        if isinstance(v, dict):
            return [y for k in sorted(v) for y in flat(v[k])]
        return [v]
    bad = []
    for i, (a, b) in enumerate(zip(*outs)):
        for k, (x, y) in enumerate(zip(a, b)):
            fx, fy = flat(x), flat(y)
            same = len(fx) == len(fy)
            if same:
                num = [(p, q) for p, q in zip(fx, fy) if isinstance(p, float) and isinstance(q, float)]
                same = all(p == q for p, q in zip(fx, fy) if not (isinstance(p, float) and isinstance(q, float)))
                if same and num:
                    u, w = np.array(num).T
                    same = bool(np.all(np.abs(u - w) <= 1e-6 * max(1e-12, float(np.max(np.abs(u))))))
            if not same:
                bad.append((profile, seed0 + i, "event %d (%s) depends on the hash seed: %s or %s" % (
                    k, x[0], str(x[2])[:120], str(y[2])[:120])))
                break
    return bad


# ---------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------
def known(pid):
    """The listed findings of a property and whether each still shows."""
    out = []
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return out
    with open(path) as f:
        doc = json.load(f)
    for k in doc["known"]:
        if k["property"] == pid:
            out.append((k, probe(k)))
    return out


def probe(k):
    from . import probes
    try:
        return bool(getattr(probes, k["probe"])())
    except Exception:               # something else is broken: the exploration will tell
        return False


# ---------------------------------------------------------------------------
# main
# ---------------------------------------------------------------------------
def check(pid, tier, runs=None):
    from .props import BUDGET, PROPS
    from . import ext, target
    ext.path(target.REPO)               # before there are several processes
    t0 = time.time()
    prop = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    n, wall = BUDGET[tier]
    n = runs or prop.get("runs", {}).get(tier, n)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tot, bad, errors, W = explore(prop, n, seed, wall)
    explored = time.time() - t0
    hashes = 0
    hbad = []
    if prop.get("hash") and not bad:
        hashes = 12 if tier == "quick" else 100
        for p in prop["profiles"]:
            hbad += hash_compare(p, seed * 1000003 + 500000, hashes, [3, 8])
    violation = None
    unrepro = []
    rdir = os.path.join(VERIF, "replays")
    for h in hbad[:1]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-hash-%s-%d.json" % (pid, h[0], h[1]))
        with open(path, "w") as f:
            json.dump({"property": pid, "kind": "hash", "profile": h[0], "seed": h[1], "hash": [3, 8], "what": h[2]}, f)
        violation = (path, h[2])
    for b in bad[:8]:
        if violation:
            break
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, b["profile"], b["seed"]))
        from . import workload
        sc = workload.generate(b["profile"], b["seed"])
        doc = {"property": pid, "kind": b["kind"], "profile": b["profile"], "seed": b["seed"], "what": b["what"],
               "scenario": sc}

        def put(d):
            with open(path, "w") as f:
                json.dump(d, f, ensure_ascii=False, indent=1)
        put(doc)
        if b.get("stuck"):
            if prop["kinds"] & {"hang"} and fresh(path, RUN_LIMIT * 1.5) is None:
                violation = (path, b["what"])
            continue
        if fresh(path) != 1:
            # it needs what ran before in the same process
            put(dict(doc, before=b["before"][:-1]))
            if fresh(path) == 1:
                violation = (path, b["what"])
            else:
                unrepro.append(b["what"])
            continue
        small, tries = minimise(prop, sc, b["kind"], 40 if tier == "quick" else 240)
        r = Runner(prop["phys"])
        e, c, v = r.run(small)
        rv = [x for x in relevant(prop, v) if x.kind == b["kind"]]
        r.close()
        if rv:
            put(dict(doc, scenario=small, digest=e.sim.digest.hexdigest()[:24], what=repr(rv[0]), minimised=True, tries=tries,
                     steps_before=len(sc["steps"]), steps=len(small["steps"])))
            if fresh(path) != 1:
                put(doc)
        else:
            put(doc)
        with open(path) as f:
            violation = (path, json.load(f)["what"])
    kn = known(pid)
    ev = evidence(pid, tier, seed, prop, tot, W, time.time() - t0, explored, violation, unrepro, errors, hashes, kn)
    for k, shows in kn:
        if shows:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violation:
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        print("  " + violation[1][:600])
        return 1
    if errors or not tot or tot["runs"] == 0:
        print("HARNESS ERROR: %s" % (errors[:2] or "nothing ran"), file=sys.stderr)
        return 2
    if unrepro:
        print("HARNESS ERROR: not reproducible: %s" % unrepro[:2], file=sys.stderr)
        return 2
    print("%s held: %d runs, %d calls, %d faults, %.0f s" % (pid, tot["runs"], tot["steps"],
                                                            sum(tot["fired"].values()), ev["wall_s"]))
    return 0


def evidence(pid, tier, seed, prop, tot, W, wall, explored, violation, unrepro, errors, hashes, kn):
    from . import workload
    tot = tot or {"runs": 0, "steps": 0, "digests": [], "states": set(), "stats": {}, "fired": {}, "calls": {},
                  "profiles": {}, "simtime": 0, "points": 0, "switches": 0, "other": {}, "skipped": 0, "nontrivial": 0}
    samples = []
    for p in prop["profiles"]:
        sc = workload.generate(p, seed * 1000003)
        samples.append({"profile": p, "seed": seed * 1000003,
                        "steps": [s["op"] + ("!" + s["f"][0]["kind"] if s.get("f") else "") for s in sc["steps"]][-40:]})
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": min(len(set(tot["digests"])), tot["nontrivial"]),
            "rule": "one evaluation is one simulated run of a generated scenario (profile, seed); distinct by the digest of "
                    "its full trace (every file operation, fault, switch and answer), non-trivial when more than five calls "
                    "were acknowledged",
            "samples": samples,
            "runs_by_profile": dict(tot["profiles"]),
            "distinct_traces": len(set(tot["digests"])),
            "distinct_situations": len(tot["states"]),
            "situation_measure": "(call, outcome, acknowledged, faults fired in it with the file operation they hit, number "
                                 "of file operations)",
            "runs_per_hour": int(tot["runs"] / max(explored, 1e-3) * 3600),
            "seeds": "every run has a seed of its own: seeds per hour are the runs per hour",
            "simulated_seconds": round(tot["simtime"], 1),
            "api_calls": dict(tot["calls"]),
            "file_operations": tot["points"],
            "preemptive_switches": tot["switches"],
            "faults_fired": dict(tot["fired"]),
            "checked": dict(tot["stats"]),
            "steps_skipped_without_session": tot["skipped"],
            "findings_of_other_properties": dict(tot["other"]),
            "hash_seed_comparisons": hashes,
            "workers": W,
            "real_components": ["hyperstatic.core (Api, model, loads, sections, elements, assembly, solvers, result "
                                "readers)", "hyperstatic.common", "numpy", "scipy", "pickle",
                                "the compiled shell element"],
            "stub_components": ["quadpy (not installed: Gauss rules in /verif/stubs)",
                                "file system below the calls of the code: durability, errors, crashes are simulated over a "
                                "scratch directory", "clock, os entropy, thread scheduling"],
            "unreproduced": unrepro, "harness_errors": errors,
            "known_findings": [{"what": k["what"], "shows": s} for k, s in kn],
        },
        "assumptions": ["the simulated disk loses what was not synced, in any combination the order of syncs allows",
                        "an operation of the file system is atomic between two points of the simulation"],
    }
    if violation:
        doc["coverage"]["violation"] = {"replay": violation[0], "what": violation[1][:1000]}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
    return doc


def main(a):
    if a[0] == "check":
        tier = a[2] if len(a) > 2 and not a[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
        runs = int(a[a.index("--runs") + 1]) if "--runs" in a else None
        return check(a[1], tier, runs)
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "values":
        values(a[1], int(a[2]), int(a[3]))
        return 0
    raise SystemExit(__doc__)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
