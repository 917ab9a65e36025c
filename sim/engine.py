"""Executes one scenario (pure data) against the real code under the simulator and
records its history. A scenario plus the code decide every byte of the history."""
import decimal
import gc
import hashlib
import json
import locale
import logging
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from . import seams, target
from .refmodel import UNDEF, RefModel, Rejected

VPAT, VNODE = "__v", "__m"      # version marker: a load pattern no case uses


LEAVES = {"assemble", "static", "modal", "save", "load", "q", "dump"}     # calls whose leftovers are looked at


def jv(v):
    """A result as plain data."""
    if isinstance(v, np.ndarray):
        return [jv(x) for x in v.tolist()]
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [jv(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jv(x) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return "<%s>" % type(v).__name__


def tree(root):
    """Digest of a directory tree: path -> content hash."""
    out = {}
    with seams.bypass():
        for dp, dns, fns in os.walk(root):
            for d in dns:
                out[os.path.relpath(os.path.join(dp, d), root)] = "D"
            for f in fns:
                p = os.path.join(dp, f)
                if os.path.islink(p):
                    out[os.path.relpath(p, root)] = "L" + os.readlink(p)
                    continue
                with seams.REAL["open"](p, "rb") as fh:
                    out[os.path.relpath(p, root)] = hashlib.sha256(fh.read()).hexdigest()[:16]
    return out


def interned(x):
    """The same string is the same object, whether the scenario was generated or read from a file (pickles depend on it)."""
    if isinstance(x, str):
        return sys.intern(x)
    if isinstance(x, list):
        return [interned(v) for v in x]
    if isinstance(x, dict):
        return {sys.intern(k): interned(v) for k, v in x.items()}
    return x


class Session:
    __slots__ = ("api", "wp", "model", "known", "loaded")

    def __init__(self, api, wp, model):
        self.api, self.wp, self.model = api, wp, model
        self.known = True        # the model is what the session holds, as far as acknowledged
        self.loaded = False


tempfile.gettempdir()          # it is found out once
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ambient():
    """What all sessions of a process share and no call has a reason to change for good."""
    with seams.bypass():
        u = os.umask(0o022)
        os.umask(u)
        return {"umask": u, "folder": os.getcwd(), "environment": dict(os.environ), "errors": np.geterr(),
                "digits": np.get_printoptions(), "locale": locale.setlocale(locale.LC_ALL),
                "recursion": sys.getrecursionlimit(), "gc": gc.isenabled(),
                "decimal": decimal.getcontext().prec, "warnings": list(warnings.filters), "path": list(sys.path),
                "logging": (logging.root.level, logging.root.manager.disable, logging.raiseExceptions),
                "handlers": [signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
                "records": (list(logging.root.filters), logging.getLogRecordFactory(), logging.getLoggerClass()),
                "hooks": (sys.excepthook, threading.excepthook, warnings.showwarning, np.geterrcall(), sys.stdout, sys.stderr),
                "temp": tempfile.tempdir, "turns": sys.getswitchinterval(),
                "limits": [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE,
                                                           resource.RLIMIT_STACK, resource.RLIMIT_CORE)]}


def restore(k, v):
    with seams.bypass():
        if k == "umask":
            os.umask(v)
        elif k == "folder":
            os.chdir(v)
        elif k == "environment":
            os.environ.clear()
            os.environ.update(v)
        elif k == "errors":
            np.seterr(**v)
        elif k == "digits":
            np.set_printoptions(**v)
        elif k == "locale":
            locale.setlocale(locale.LC_ALL, v)
        elif k == "recursion":
            sys.setrecursionlimit(v)
        elif k == "gc":
            gc.enable() if v else gc.disable()
        elif k == "decimal":
            decimal.getcontext().prec = v
        elif k == "warnings":
            warnings.filters[:] = v
        elif k == "path":
            sys.path[:] = v
        elif k == "logging":
            logging.root.level, logging.root.manager.disable, logging.raiseExceptions = v
            logging.root.manager._clear_cache()
        elif k == "records":
            logging.root.filters[:] = v[0]
            logging.setLogRecordFactory(v[1])
            logging.setLoggerClass(v[2])
        elif k == "hooks":
            sys.excepthook, threading.excepthook, warnings.showwarning = v[:3]
            np.seterrcall(v[3])
            sys.stdout, sys.stderr = v[4:]
        elif k == "temp":
            tempfile.tempdir = v
        elif k == "turns":
            sys.setswitchinterval(v)
        elif k == "limits":
            for n, h in zip((resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_STACK, resource.RLIMIT_CORE), v):
                try:
                    resource.setrlimit(n, h)
                except (OSError, ValueError):
                    pass
        elif k == "handlers" and threading.current_thread() is threading.main_thread():
            for n, h in zip((signal.SIGINT, signal.SIGTERM, signal.SIGALRM), v):
                signal.signal(n, h)


class Engine:
    rel = False

    def __init__(self, scenario, root, tracing=False):
        self.sc = scenario = interned(scenario)
        self.root = root
        self.rel = bool(scenario.get("rel"))
        self.tracing = tracing
        self.ns = target.load()
        self.hist = []
        self.t = 0
        self.sessions = {}
        self.wreck = {}          # session id -> model at the time it was lost
        self.saved = {}          # (wp, name, version) -> model key
        self.power = 0
        self.version = 0
        self.parno = 0
        self.skipped = 0
        self.recovering = {}

    # -- plumbing -----------------------------------------------------------
    def wpath(self, wp):
        return os.path.join(self.root, wp)

    def apath(self, wp):
        """The path of a work folder as the user gives it."""
        return wp if self.rel else self.wpath(wp)

    def tick(self):
        self.t += 1
        return self.t

    def run(self):
        R = seams.REAL
        os.makedirs(self.root, exist_ok=True)
        for rel, c in self.sc.get("files", {}).items():
            p = os.path.join(self.root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with R["open"](p, "w") as fh:
                fh.write(c)
        self.ns.state.reset()
        cwd = HERE
        os.chdir(self.root if self.rel else cwd)
        np.random.seed(int(self.sc["seed"]) % (2 ** 32))
        random.seed(self.sc["seed"])
        with seams.bypass():
            self.sim = seams.Sim(self.root, self.sc["seed"], self.tracing)
        if "io" in self.sc:
            self.sim.buf, self.sim.chunk = self.sc["io"]
        if seams.TWIN is not None:
            seams.twin(True)
        seams.begin(self.sim)
        seams._tls.tid = 0
        try:
            self.before = tree(self.root)
            for st in self.sc["steps"]:
                self.step(st)
            self.after = tree(self.root)
        finally:
            self.sim.kill_tasks()
            seams.end()
            os.chdir(cwd)
            self.sessions.clear()
            gc.collect(0)
        return self

    # -- steps ----------------------------------------------------------------
    def step(self, st):
        state = ambient()
        self.step_(st)
        now = ambient()
        for k in state:
            if state[k] != now[k]:
                ev = {"op": "AMBIENT", "what": k, "was": str(state[k])[:80], "is": str(now[k])[:80], "wp": None}
                ev["t0"] = ev["t1"] = self.tick()
                self.sim.log("AMBIENT", k, ev["is"])
                self.hist.append(ev)
                restore(k, state[k])

    def step_(self, st):
        op = st["op"]
        if op == "par":
            self.par(st)
        elif op in ("crash", "power"):
            self.crash(op)
        elif op == "clock":
            self.sim.now += st["d"]
            self.sim.simtime += max(0.0, st["d"])
            self.sim.count("clock_jump")
            self.sim.log("CLOCK", st["d"])
        elif op == "entropy":
            self.sim.ent.seed("e%s" % st["v"])
            np.random.seed(st["v"] % (2 ** 32))
            random.seed(st["v"])
            self.sim.count("entropy")
        elif op == "debris":
            self.debris(st)
        elif op in ("move", "copy"):
            self.move(st)
        else:
            self.do(st)
            if self.sim.dead:
                self.crash(self.pending_crash)

    pending_crash = "crash"

    def crash(self, kind):
        """Everything volatile is gone; with power loss, everything not durable too."""
        self.sim.log("RESTART", kind)
        self.sim.count("restart_" + kind)
        for s, ses in self.sessions.items():
            self.wreck[s] = (ses.wp, ses.model)
        self.sessions.clear()
        self.sim.kill_tasks()
        self.sim.fd_path.clear()
        lost = (0, 0)
        if kind == "power":
            with seams.bypass():
                lost = self.sim.power_loss(random.Random("power:%s:%d" % (self.sc["seed"], self.power)))
            self.power += 1
        self.ns.state.reset()
        t = self.tick()
        self.hist.append({"t0": t, "t1": t, "op": "RESTART", "kind": kind, "lost": lost, "faulted": True})
        self.sim.dead = False

    def debris(self, st):
        """Files something else left in a work folder."""
        d = self.wpath(st["wp"])
        if not os.path.isdir(d):
            return
        p = os.path.join(d, st["name"])
        with seams.bypass():
            if os.path.lexists(p):
                return
            if st["kind"] == "file":
                with seams.REAL["open"](p, "wb") as fh:
                    fh.write(bytes.fromhex(st.get("hex", "")))
            elif st["kind"] == "dir":
                os.makedirs(os.path.join(p, "deep"))
                with seams.REAL["open"](os.path.join(p, "deep", "x"), "wb") as fh:
                    fh.write(b"x")
            elif st["kind"] == "link":
                os.symlink(os.path.join(self.root, st["to"]), p)
            elif st["kind"] == "npy":
                with seams.REAL["open"](p, "wb") as fh:
                    np.save(fh, np.array(st["v"], dtype=float))
            # the debris was there before and is durable
            for dp, dns, fns in os.walk(d):
                for x in dns + fns:
                    q = os.path.join(dp, x)
                    if q == p or q.startswith(p + os.sep):
                        if os.path.islink(q):
                            self.sim.base[q] = ("L", os.readlink(q))
                        elif os.path.isdir(q):
                            self.sim.base[q] = "D"
                        else:
                            s = os.stat(q)
                            k = (s.st_dev, s.st_ino)
                            with seams.REAL["open"](q, "rb") as fh:
                                self.sim.files[k] = seams.FileShadow(fh.read(), True)
                            self.sim.base[q] = k
        self.sim.log("DEBRIS", st["wp"], st["name"], st["kind"])
        t = self.tick()
        self.hist.append({"t0": t, "t1": t, "op": "DEBRIS", "wp": st["wp"], "name": st["name"]})

    def move(self, st):
        """The user moves or copies a whole work folder while no session is open on it."""
        a, b = st["wp"], st["to"]
        pa, pb = self.wpath(a), self.wpath(b)
        with seams.bypass():
            if not os.path.isdir(pa) or os.path.lexists(pb):
                self.skipped += 1
                return
            if st["op"] == "move":
                os.rename(pa, pb)
            else:
                shutil.copytree(pa, pb, symlinks=True)
            self.sim.rescan()
        if st["op"] == "move":
            for s in [s for s, ses in self.sessions.items() if ses.wp == a]:
                self.wreck[s] = (b, self.sessions.pop(s).model)
        for (w, n, v), key in list(self.saved.items()):
            if w == a:
                self.saved[b, n, v] = key
        self.sim.log("MOVE", st["op"], a, b)
        self.sim.count("folder_" + st["op"])
        t = self.tick()
        self.hist.append({"t0": t, "t1": t, "op": "MOVE", "wp": b, "from": a, "gone": st["op"] == "move"})

    def par(self, st):
        """Threads, one per list of steps, interleaved as the scenario says."""
        fns = []
        self.parno += 1
        for k, steps in enumerate(st["threads"]):
            def body(steps=steps, k=k):
                for s in steps:
                    if self.sim.dead:
                        return
                    self.sim.sched.turn()
                    if self.sim.dead:
                        return
                    self.do(s, thread=k + 1, trace_fn=st.get("fn", False))
            fns.append(body)
        sch = seams.Scheduler(self.sim, fns, st["sw"], st.get("hot", 0), st.get("wr", 0))
        sch.run()
        self.sim.log("PAR", sch.n, sch.taken)
        self.sim.count("preemption") if sch.taken else None
        self.switch_points = sch.n
        self.switches = getattr(self, "switches", 0) + sch.taken
        if self.sim.dead:
            self.crash(self.pending_crash)

    # -- one call ---------------------------------------------------------------
    def call(self, ev, fn, st, trace_fn=False):
        ev["t0"] = self.tick()
        faults = st.get("f", [])
        quiet = self.sim.sched is None and ev.get("wp") is not None and ev["op"] in LEAVES
        before = self.names(ev["wp"]) if quiet else None
        esc = len(self.sim.escapes)
        out, val, ctx = seams.run_op(fn, faults, trace_fn)
        ev["t1"] = self.tick()
        ev["out"] = out
        if out in ("raise", "hang"):
            ev["err"], val = val, None
        ev["io"] = ctx.io
        ev["fired"] = list(ctx.fired)
        if quiet:
            ev["added"] = sorted(self.names(ev["wp"]) - before)
        ev["mut"] = ctx.mut
        if len(self.sim.escapes) > esc:
            ev["escapes"] = self.sim.escapes[esc:]
        elif ev["t0"] == 1 and self.ns.wrote:
            ev["escapes"] = list(self.ns.wrote)
        hard = [k for k, _ in ctx.fired if k not in ("delay", "short")]
        ev["faulted"] = bool(hard)
        if any(k == "power" for k, _ in ctx.fired):
            self.pending_crash = "power"
        elif any(k == "crash" for k, _ in ctx.fired):
            self.pending_crash = "crash"
        return out, val

    def names(self, wp):
        out = set()
        with seams.bypass():
            for dp, dns, fns in os.walk(self.wpath(wp)):
                r = os.path.relpath(dp, self.root)
                out.update(os.path.join(r, f) for f in fns + dns)
        return out

    def finish(self, ev, val):
        ev["val"] = jv(val)
        self.sim.log("EV", ev["op"], ev.get("out"), json.dumps(ev["val"]), ev.get("fired"))
        self.hist.append(ev)

    def do(self, st, thread=0, trace_fn=False):
        op = st["op"]
        ev = {"op": op, "st": st, "th": thread, "par": self.parno if thread else 0}
        api_cls = self.ns.Api
        s = st.get("s")
        if op == "new":
            wp = st["wp"]
            ev["wp"] = wp
            ev["wpdir"] = os.path.isdir(self.wpath(wp))
            ev["parent"] = os.path.isdir(os.path.dirname(self.wpath(wp)))
            out, api = self.call(ev, lambda: api_cls(self.apath(wp)), st, trace_fn)
            if out == "ret":
                self.sessions[s] = Session(api, wp, RefModel())
            ev["nowdir"] = os.path.isdir(self.wpath(wp))
            self.finish(ev, out == "ret")
            return
        if op in ("load", "recover"):
            if op == "recover" and s in self.sessions:
                self.skipped += 1
                return
            wp = st["wp"]
            ev["op"] = "load"
            ev["wp"], ev["name"] = wp, st["name"]
            out, api = self.call(ev, lambda: api_cls.load(self.apath(wp), st["name"]), st, trace_fn)
            ver = None
            if out == "ret" and api is not None:
                o2, row, _ = seams.run_op(lambda: api.get_nodal_load(VPAT, VNODE), [], False)
                try:
                    ver = int(jv(row)[0])
                except Exception:
                    ver = "garbage"
                key = self.saved.get((wp, st["name"], ver))
                if key is None:
                    ver = "garbage:%s" % (ver,)
                else:
                    ses = Session(api, wp, RefModel.from_key(key))
                    ses.loaded = True
                    self.sessions[s] = ses
                    ev["model"] = key
            ev["ver"] = ver
            self.finish(ev, ver)
            if op == "recover" and s not in self.sessions and not self.sim.dead:
                # nothing to load: start over from the last definitions the user had
                wpw, model = self.wreck.get(s, (wp, RefModel()))
                self.do({"op": "new", "s": s, "wp": wp}, thread)
                if s in self.sessions:
                    for m, a in model.build_ops():
                        self.do({"op": "edit", "s": s, "m": m, "a": a}, thread)
            return
        ses = self.sessions.get(s)
        if ses is None:
            self.skipped += 1
            return
        api, wp = ses.api, ses.wp
        ev["wp"] = wp
        ev["s"] = s
        ev["loaded"] = ses.loaded
        if op == "macro":
            for m, a in ses.model.expand(st["m"], st["a"]):
                self.do({"op": "edit", "s": s, "m": m, "a": a}, thread, trace_fn)
            return
        if op == "edit":
            m, a = st["m"], st["a"]
            new = ses.model.copy()
            acc = new.apply(m, a)
            ev["accept"] = acc
            out, val = self.call(ev, lambda: getattr(api, m)(*a), st, trace_fn)
            if out == "ret" and val is True:
                ses.model = new if acc else ses.model
            if out != "ret" or bool(val) != acc:
                ses.known = False
            ev["known"] = ses.known
            self.finish(ev, val)
            return
        if op == "bump" or op == "save" and not st.get("same"):
            # the version marker moves, so that the save is distinguishable
            self.version += 1
            if VPAT not in ses.model.pats:
                self.do({"op": "edit", "s": s, "m": "add_loadpattern", "a": [VPAT]}, thread, trace_fn)
            self.do({"op": "edit", "s": s, "m": "set_nodal_load",
                     "a": [VPAT, VNODE, float(self.version), 0.0, 0.0, 0.0, 0.0, 0.0]}, thread, trace_fn)
            if op == "bump":
                return
        ev["model"] = ses.model.key()
        ev["known"] = ses.known
        if op == "dump":
            out, val = self.call(ev, lambda: self.dump(api, ses.model), st, trace_fn)
            self.finish(ev, val)
        elif op == "assemble":
            ev["wpdir"] = os.path.isdir(self.wpath(wp))
            out, val = self.call(ev, api.assemble, st, trace_fn)
            self.finish(ev, val)
        elif op == "static":
            out, val = self.call(ev, lambda: api.solve_static(st["c"]), st, trace_fn)
            self.finish(ev, val)
        elif op == "modal":
            out, val = self.call(ev, lambda: api.solve_modal(st["c"], st["n"]), st, trace_fn)
            self.finish(ev, val)
        elif op == "save":
            row = ses.model.pats.get(VPAT, {}).get("nodal", {}).get(VNODE)
            ver = int(row[0]) if row else None
            ev["ver"], ev["name"] = ver, st["name"]
            self.saved[(wp, st["name"], ver)] = ev["model"]
            ev["wpdir"] = os.path.isdir(self.wpath(wp))
            out, val = self.call(ev, lambda: api.save(st["name"]), st, trace_fn)
            self.finish(ev, val)
        elif op == "clear":
            ev["wpdir"] = os.path.isdir(self.wpath(wp))
            out, val = self.call(ev, api.clear_workspace, st, trace_fn)
            d = self.wpath(wp)
            ev["isdir"] = os.path.isdir(d)
            with seams.bypass():
                ev["left"] = sorted(os.listdir(d)) if ev["isdir"] else None
            self.finish(ev, val)
        elif op == "q":
            out, val = self.call(ev, lambda: self.query(api, wp, st), st, trace_fn)
            self.finish(ev, val)
        elif op == "pure":
            before = tree(self.root)
            out, v1 = self.call(ev, lambda: [self.query(api, wp, q) for q in st["qs"]] + [self.dump(api, ses.model)],
                                st, trace_fn)
            mut1 = ev["mut"]
            mid = tree(self.root)
            ev2 = {}
            out2, v2 = self.call(ev2, lambda: [self.query(api, wp, q) for q in st["qs"]] + [self.dump(api, ses.model)],
                                 {}, trace_fn)
            ev["same_tree"] = before == mid == tree(self.root)
            ev["same_val"] = out == out2 and jv(v1) == jv(v2)
            ev["t1"] = ev2["t1"]
            ev["mut"] = mut1 + ev2["mut"]
            self.finish(ev, v1)
        elif op == "alias":
            # the caller scribbles over everything the queries return
            out, val = self.call(ev, lambda: self.scribble(api, wp, ses.model, st.get("qs", [])), st, trace_fn)
            self.finish(ev, val)
        elif op == "repeat":
            inner = st["inner"]
            self.do(inner, thread, trace_fn)
            one = set(tree(self.wpath(wp)))
            self.do(dict(inner, same=1), thread, trace_fn)
            two = set(tree(self.wpath(wp)))
            t = self.tick()
            self.hist.append({"t0": t, "t1": t, "op": "REPEAT", "st": st, "wp": wp, "extra": sorted(two - one),
                              "faulted": False})
        elif op == "state":
            # engine-level check of what the folder holds; used for litter
            t = self.tick()
            self.hist.append({"t0": t, "t1": t, "op": "LISTING", "wp": wp, "files": sorted(tree(self.wpath(wp)))})
        else:
            raise ValueError("unknown step %r" % (op,))

    # -- queries -------------------------------------------------------------
    def query(self, api, wp, st):
        w, a = st["what"], st["a"]
        if w == "disp":
            return api.result_get_nodal_displacement(*a)
        if w == "all":
            return api.result_get_all_nodal_displacement(*a)
        if w == "react":
            return api.result_get_nodal_reaction(*a)
        if w == "force":
            return api.result_get_beam_end_force(*a)
        if w == "def":
            return api.result_get_beam_deformation(*a)
        path = self.apath(wp)
        if w == "mode":          # node, case, step
            try:
                return self.ns.Node(path, ".asb").resolve_nodal_displacement(*a)
            except Exception:
                return None
        if w == "freq":
            try:
                return self.ns.Structure(path, ".asb").resolve_modal_frequency(a[0])[a[1] if len(a) > 1 else "omega"]
            except Exception:
                return None
        raise ValueError(w)

    def dump(self, api, model):
        d = {"nodes": _sorted(api.get_node_names()), "beams": _sorted(api.get_beam_names()),
             "shells": _sorted(api.get_shell_names())}
        for n in model.nodes:
            d["loc:" + n] = api.get_node_location(n)
        for b in model.beams:
            d["conn:" + b] = api.get_beam_node_names(b)
            d["bloc:" + b] = api.get_beam_location(b)
        for s in model.shells:
            d["sconn:" + s] = api.get_shell_node_names(s)
            d["sloc:" + s] = api.get_shell_location(s)
        d["rest"] = api.get_node_restraints()
        for c in model.cases:
            d["rest:" + c] = api.get_node_restraints(c)
        for p, v in model.pats.items():
            d["loads:" + p] = api.get_all_nodal_load(p)
            for n in v["nodal"]:
                d["load:%s:%s" % (p, n)] = api.get_nodal_load(p, n)
            d["none:load:" + p] = api.get_nodal_load(p, UNDEF)
        for k, f in (("loc", api.get_node_location), ("conn", api.get_beam_node_names), ("bloc", api.get_beam_location),
                     ("sconn", api.get_shell_node_names), ("sloc", api.get_shell_location),
                     ("rest", api.get_node_restraints), ("loads", api.get_all_nodal_load)):
            d["none:" + k] = f(UNDEF)
        d["none:load"] = api.get_nodal_load(UNDEF, UNDEF)
        return d

    def scribble(self, api, wp, model, qs):
        res = [self.query(api, wp, q) for q in qs]
        first = jv(res)
        for g in res:
            _scribble(g)
        again = jv([self.query(api, wp, q) for q in qs])
        got = [api.get_node_names(), api.get_beam_names(), api.get_shell_names(), api.get_node_restraints()]
        got += [api.get_node_location(n) for n in model.nodes]
        got += [api.get_beam_location(b) for b in model.beams]
        got += [api.get_beam_node_names(b) for b in model.beams]
        got += [api.get_shell_location(b) for b in model.shells]
        got += [api.get_shell_node_names(b) for b in model.shells]
        got += [api.get_node_restraints(c) for c in model.cases]
        for p, v in model.pats.items():
            got.append(api.get_all_nodal_load(p))
            got += [api.get_nodal_load(p, n) for n in v["nodal"]]
        n = 0
        for g in got:
            n += _scribble(g)
        return [n, first == again]


def _sorted(v):
    return sorted(v) if isinstance(v, (list, tuple)) else v


def _scribble(g):
    if isinstance(g, np.ndarray):
        if g.flags.writeable:
            g[...] = ~g if g.dtype == bool else g + 1e3
            return 1
        return 0
    if isinstance(g, dict):
        n = sum(_scribble(v) for v in g.values())
        g["scribbled"] = 1
        return n + 1
    if isinstance(g, list):
        n = sum(_scribble(v) for v in g)
        g.append("scribbled")
        return n + 1
    if isinstance(g, tuple):
        return sum(_scribble(v) for v in g)
    return 0
