"""Decides a recorded history.

Per work folder the files are regular registers: the assembled model, the results
of every case, every saved session. A call that returned True wrote definitely, a
call that failed or was cut short may have. A query must return what one of the
values its register could hold at that time yields. Yields come from a *twin*: the
same code run on the same definitions, undisturbed, in an empty folder. Physics is
compared against RefFE.
"""
import collections
import os
import random
import re
import shutil
import tempfile
import zlib

import numpy as np

from . import seams, target
from .refmodel import RefFE, RefModel, Rejected

MISSING = "<none>"           # register value: file absent
ANY = object()               # a query whose answer is not specified here
NONE = "<None>"              # a query answer
OWED = "<an answer>"         # there must be one, the undisturbed run does not give it either

COND_MAX = 1e9
TEMP = re.compile(r"te?mp|\.bak|\.part|\.swp|\.lock|~|\.new$|\.old$")


class Twin:
    """Undisturbed analysis of one model in its own empty folder."""

    def __init__(self, key, base):
        self.ns = target.load()
        seams.twin(True)
        self.ns.state.reset()
        self.model = RefModel.from_key(key)
        self.dir = tempfile.mkdtemp(prefix="twin", dir=base)
        self.api = self.ns.Api(os.path.join(self.dir, "w"))
        self.bad = None
        if any(c["type"] == "modal" for c in self.model.cases.values()):
            ops = self.model.build_ops()         # the sign of a mode may follow the numbering
        else:
            ops = self.model.shuffled_ops(random.Random(zlib.crc32(key.encode())))
        for m, a in ops:
            if getattr(self.api, m)(*a) is not True:
                self.bad = "%s%r rejected" % (m, tuple(a))
        self.asm = self.api.assemble()
        seams.twin()
        self.solved = {}
        self.memo = {}

    def solve(self, case, num=None):
        k = (case, num)
        if k not in self.solved:
            seams.twin(True)
            self.ns.state.reset()
            if self.model.cases.get(case, {}).get("type") == "modal":
                # one folder per request: the number of modes differs
                self.ns.state.reset()
                self.solved[k] = self.api.solve_modal(case, num)
                for s in [s for s in self.solved if s[0] == case and s != k]:
                    del self.solved[s]
                for q in [q for q in self.memo if q[2] == case]:
                    del self.memo[q]
            else:
                self.solved[k] = self.api.solve_static(case)
            seams.twin()
        return self.solved[k]

    def query(self, what, args, num=None):
        from .engine import Engine, jv
        case = args[1] if what in ("disp", "react", "force", "mode") else (args[0] if what in ("all", "freq") else args[2])
        if self.model.cases.get(case, {}).get("type") != "modal":
            num = None
        self.solve(case, num)
        k = (what, tuple(args), case, num)
        if k not in self.memo:
            seams.twin(True)
            self.ns.state.reset()
            eng = Engine.__new__(Engine)
            eng.root, eng.ns = self.dir, self.ns
            self.memo[k] = jv(eng.query(self.api, "w", {"what": what, "a": args}))
        return self.memo[k]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class TwinCache:
    def __init__(self, size=24):
        self.d = collections.OrderedDict()
        self.size = size
        self.base = tempfile.mkdtemp(prefix="vt", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        self.built = 0
        self.fe = collections.OrderedDict()

    def get(self, key):
        if key in self.d:
            self.d.move_to_end(key)
            return self.d[key]
        while len(self.d) >= self.size:
            self.d.popitem(last=False)[1].close()
        t = self.d[key] = Twin(key, self.base)
        self.built += 1
        return t

    def ref(self, key):
        if key in self.fe:
            self.fe.move_to_end(key)
            return self.fe[key]
        while len(self.fe) >= 64:
            self.fe.popitem(last=False)
        m = RefModel.from_key(key)
        f = [RefFE(m)] + ([RefFE(m, known=True)] if m.shells else [])
        self.fe[key] = f
        return f

    def close(self):
        for t in self.d.values():
            t.close()
        self.d.clear()
        shutil.rmtree(self.base, ignore_errors=True)


class Register:
    """Regular register with ambiguous writes."""

    def __init__(self, initial):
        self.w = [(-1, -1, frozenset([initial]), True, False)]

    def write(self, t0, t1, values, definite, narrow=False):
        """narrow: not a write, a read that told which of the possible values is there."""
        self.w.append((t0, t1, frozenset(values), definite, narrow))

    def read(self, t0, t1):
        """Possible values at some moment of [t0,t1]."""
        out = set()
        for a0, a1, v, d, _ in self.w:
            if a0 > t1:
                continue
            over = any(b_d and b0 > a1 and b1 < t0 for b0, b1, _, b_d, _ in self.w)
            if not over:
                out |= v
        return out

    def definite(self, t0, t1):
        """The value when only one is possible."""
        v = self.read(t0, t1)
        return next(iter(v)) if len(v) == 1 else None


class Violation:
    def __init__(self, kind, what, ev, i):
        self.kind, self.what, self.i = kind, what, i
        self.op = ev.get("op")
        self.q = ev["st"]["what"] if self.op == "q" else self.op

    def __repr__(self):
        return "%s at event %d (%s): %s" % (self.kind, self.i, self.op, self.what)


def close(a, b, scale, tol):
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a)):
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.all(np.abs(a - b) <= tol * max(scale, 1e-22) + 1e-300))


class Checker:
    TOL = 1e-6

    def __init__(self, eng, cache, phys=False):
        self.e = eng
        self.c = cache
        self.phys = phys
        self.v = []
        self.reg = {}
        self.clears = {}
        self.stats = collections.Counter()
        self.conds = {}

    # -- registers --------------------------------------------------------------
    def r(self, wp, kind, name=None):
        k = (wp, kind, name)
        if k not in self.reg:
            self.reg[k] = Register(MISSING)
            for c in self.clears.get(wp, ()):
                self.reg[k].write(*c)
        return self.reg[k]

    def bad(self, kind, what, ev, i):
        self.v.append(Violation(kind, what, ev, i))

    def ok_case(self, key, case):
        """None: no such case; "free": evidently unstable; False: out of scope; True."""
        k = (key, case)
        if k not in self.conds:
            m = RefModel.from_key(key)
            if case not in m.cases:
                self.conds[k] = None
            else:
                try:
                    self.conds[k] = all(f.condition(case) < COND_MAX for f in self.c.ref(key)) and (
                        not m.shells or m.shell_scope(case))
                    if not self.conds[k] and not m.shells and not any(any(r) for r in m.rel.values()):
                        if self.c.ref(key)[0].unstable(case):
                            self.conds[k] = "free"
                except Rejected:
                    self.conds[k] = False
                except Exception:
                    self.conds[k] = False
        return self.conds[k]

    # -- main -------------------------------------------------------------------
    def run(self):
        seams.end()
        order = {"assemble": 0, "save": 0, "clear": 0, "static": 1, "modal": 1}
        hist = list(enumerate(self.e.hist))
        k = 0
        while k < len(hist):        # of calls that overlap, writes are judged before reads
            g = hist[k][1].get("par", 0)
            n = k + 1
            if g:
                while n < len(hist) and hist[n][1].get("par", 0) == g:
                    n += 1
                hist[k:n] = sorted(hist[k:n], key=lambda x: (order.get(x[1]["op"], 2), x[0]))
            k = n
        for i, ev in hist:
            n = len(self.v)
            op = ev["op"]
            h = getattr(self, "ev_" + op, None)
            oom = any(k == "nomem" for k, _ in ev.get("fired", ())) and str(ev.get("err")).startswith("MemoryError")
            if ev.get("out") == "raise" and not oom:      # out of memory at the entry of the call itself
                self.bad("raise", "the call raised %s" % ev.get("err"), ev, i)
            if ev.get("out") == "hang":
                self.bad("hang", "the call does not finish", ev, i)
            if ev.get("out") == "intr" and not ev.get("faulted"):
                self.bad("raise", "KeyboardInterrupt escaped", ev, i)
            self.confined(ev, i)
            if h is not None:
                h(ev, i)
            if any(x.kind in ("status-edit",) for x in self.v[n:]):
                break            # the session's definitions are no longer known
        self.leftovers(hist)
        self.bystanders()
        return self.v

    # -- confinement ----------------------------------------------------------------
    def confined(self, ev, i):
        if ev.get("escapes"):
            self.bad("escape", "outside the scratch disk: %s" % ev["escapes"][:3], ev, i)
        wp = ev.get("wp")
        for kind, p in ev.get("mut", ()):
            if wp is None or not (p == wp or p.startswith(wp + os.sep)):
                self.bad("escape", "%s of %s by a call of the session in %s" % (kind, p, wp), ev, i)
                break
        if ev["op"] in ("q", "dump", "load", "alias") and ev.get("mut"):
            self.bad("impure", "%s %s by a query" % tuple(ev["mut"][0]), ev, i)

    def bystanders(self):
        wps = {e.get("wp") for e in self.e.hist}
        inside = lambda p: any(w and (p == w or p.startswith(w + os.sep)) for w in wps)
        a = {p: h for p, h in self.e.before.items() if not inside(p)}
        b = {p: h for p, h in self.e.after.items() if not inside(p)}
        if a != b:
            diff = sorted(set(a.items()) ^ set(b.items()))[:3]
            ev = {"op": "END"}
            self.bad("escape", "files outside every work folder changed: %r" % (diff,), ev, len(self.e.hist))

    # -- events ---------------------------------------------------------------------
    def ev_RESTART(self, ev, i):
        if ev["kind"] == "power":
            # a removal is nowhere promised to be durable, and what a read found need not be
            for r in self.reg.values():
                r.w = [(a, 10 ** 9, v, False, n) if MISSING in v and d and a >= 0 and not n else (a, b, v, d, n)
                       for a, b, v, d, n in r.w if not n]
            for c in self.clears.values():
                c[:] = [(a, 10 ** 9, v, False) for a, b, v, d in c]

    def ev_new(self, ev, i):
        if ev["out"] == "ret" and not ev["faulted"] and ev["parent"] and not ev["nowdir"]:
            self.bad("status-op", "a new session has no work folder", ev, i)

    def ev_edit(self, ev, i):
        if ev["out"] in ("crash", "intr"):
            return
        if ev["out"] == "ret" and bool(ev["val"]) != ev["accept"]:
            st = ev["st"]
            self.bad("status-edit", "%s%r returned %r, expected %r" % (st["m"], tuple(st["a"]), ev["val"], ev["accept"]),
                     ev, i)
        elif ev["out"] == "ret" and not isinstance(ev["val"], bool):
            self.bad("status-type", "%s returned %r" % (ev["st"]["m"], ev["val"]), ev, i)

    def dumps_equal(self, want, got):
        if not isinstance(got, dict):
            return "no answer"
        for k in want:
            g = got.get(k)
            w = want[k]
            if k.startswith("rest"):
                g = {n: [bool(x) for x in r] for n, r in g.items()} if isinstance(g, dict) else g
            if isinstance(w, list) and g is not None and not isinstance(w[0] if w else "", str):
                try:
                    if np.asarray(g, float).shape != np.asarray(w, float).shape or not np.array_equal(
                            np.asarray(g, float), np.asarray(w, float)):
                        return "%s is %r, expected %r" % (k, g, w)
                    continue
                except (TypeError, ValueError):
                    return "%s is %r, expected %r" % (k, g, w)
            if g != w:
                return "%s is %r, expected %r" % (k, g, w)
        return None

    def ev_dump(self, ev, i):
        if ev["out"] != "ret" or not ev["known"]:
            return
        self.stats["dumps"] += 1
        m = RefModel.from_key(ev["model"])
        d = self.dumps_equal(m.dump(), ev["val"])
        if d:
            self.bad("dump-loaded" if ev["loaded"] else "dump", d, ev, i)

    def ev_alias(self, ev, i):
        if ev["out"] == "ret" and not ev["faulted"] and isinstance(ev["val"], list) and not ev["val"][1]:
            self.bad("impure", "answers changed after what the queries returned was written over", ev, i)

    def ev_MOVE(self, ev, i):
        a, b = ev["from"], ev["wp"]
        for k in list(self.reg):
            if k[0] == b:
                del self.reg[k]
        for k in list(self.reg):
            if k[0] == a:
                self.reg[b, k[1], k[2]] = r = Register(MISSING)
                r.w = list(self.reg[k].w)
        self.clears[b] = list(self.clears.get(a, ()))
        if ev["gone"]:
            c = (ev["t0"], ev["t1"], [MISSING], True)
            self.clears.setdefault(a, []).append(c)
            for k in list(self.reg):
                if k[0] == a:
                    self.reg[k].write(*c)

    def leftovers(self, hist):
        """What calls that returned left behind besides results."""
        done = []                       # (index, call, paths written) of acknowledged calls
        fail = []
        for i, ev in hist:
            if ev.get("out") != "ret" or "added" not in ev or ev.get("par"):
                continue
            fired = ev.get("fired") or ()
            if any(k in ("crash", "power", "intr") or p in ("unlink", "rmdir") for k, p in fired):
                continue
            call = (ev["op"], ev["wp"], ev["st"].get("c"), ev["st"].get("name"))
            if ev["val"] is True and not ev["faulted"]:
                done.append((i, call, {p for _, p in ev["mut"]}, ev.get("model")))
            for p in ev["added"]:
                if TEMP.search(os.path.basename(p)):
                    self.bad("litter", "the call left %s behind" % p, ev, i)
                elif ev["faulted"] and ev["val"] is False:
                    fail.append((i, call, p, ev))
        for i, call, p, ev in fail:
            later = [d for d in done if d[0] > i and d[1] == call]
            if not later or p not in self.e.after or any(p in d[2] for d in later):
                continue
            names = set()
            for d in later[:1]:
                if d[3]:
                    t = self.c.get(d[3])
                    if call[0] == "static":
                        t.solve(call[2])
                    names = set(os.listdir(os.path.join(t.dir, "w")))
            if os.path.basename(p) not in names:
                self.bad("litter", "the failed call left %s behind" % p, ev, i)

    def ev_assemble(self, ev, i):
        if not ev["known"]:
            return
        val = ev["val"]
        reg = self.r(ev["wp"], "asm")
        if ev["out"] == "ret" and val is True:
            reg.write(ev["t0"], ev["t1"], [ev["model"]], True)
        else:
            reg.write(ev["t0"], 10 ** 9, [ev["model"]], False)
        if ev["out"] == "ret":
            if not isinstance(val, bool):
                self.bad("status-type", "assemble returned %r" % (val,), ev, i)
            if not val and not ev["faulted"]:
                self.bad("status-op", "assemble failed without cause", ev, i)
        self.stats["assemble"] += 1

    def _solve(self, ev, i, typ):
        case = ev["st"]["c"]
        num = ev["st"].get("n")
        asm = self.r(ev["wp"], "asm").read(ev["t0"], ev["t1"])
        val = ev["val"]
        exp = set()
        writes = set()
        why = "there is nothing to solve"
        for a in asm:
            if a == MISSING:
                exp.add(False)
                continue
            ok = self.ok_case(a, case)
            if ok is None:
                exp.add(False)
                continue
            m = RefModel.from_key(a)
            if ok == "free" and typ == "static":
                exp.add(False)
                why = "the structure is unstable"
                continue
            if ok is not True or m.cases[case]["type"] != typ:
                exp |= {True, False}
                writes.add((a, typ, num, "any"))
                continue
            if typ == "modal" and num < 1:
                exp.add(False)
                why = "no mode was asked for"
                continue
            exp.add(True)
            writes.add((a, typ, num, "ok"))
        done = ev["out"] == "ret" and val is True
        if writes:
            for f in ("d", "o") if typ == "modal" else ("d",):
                self.r(ev["wp"], f, case).write(ev["t0"], ev["t1"] if done else 10 ** 9, writes, done)
        if ev["out"] == "ret":
            self.stats["solve_" + typ] += 1
            if not isinstance(val, bool):
                self.bad("status-type", "solving returned %r" % (val,), ev, i)
            if done and True not in exp:
                self.bad("status-false-ok", "solving %s reported success, %s" % (case, why), ev, i)
            if not done and False not in exp and not ev["faulted"]:
                self.bad("status-op", "solving %s failed without cause" % case, ev, i)

    def ev_static(self, ev, i):
        self._solve(ev, i, "static")

    def ev_modal(self, ev, i):
        self._solve(ev, i, "modal")

    def ev_save(self, ev, i):
        if not ev["known"]:
            return
        reg = self.r(ev["wp"], "sep", ev["name"])
        val = ev["val"]
        done = ev["out"] == "ret" and val is True
        reg.write(ev["t0"], ev["t1"] if done else 10 ** 9, [ev["ver"]], done)
        if ev["out"] == "ret":
            self.stats["save"] += 1
            if not isinstance(val, bool):
                self.bad("status-type", "save returned %r" % (val,), ev, i)
            if not done and not ev["faulted"] and ev["wpdir"]:
                self.bad("status-op", "saving failed without cause", ev, i)

    def ev_load(self, ev, i):
        reg = self.r(ev["wp"], "sep", ev["name"])
        can = reg.read(ev["t0"], ev["t1"])
        if ev["out"] != "ret":
            return
        self.stats["load"] += 1
        ver = ev["ver"]
        if isinstance(ver, str):
            self.bad("load-garbage", "loading %s gave a session that was never saved there (%s)" % (ev["name"], ver), ev, i)
        elif ver is None:
            if MISSING not in can and not ev["faulted"]:
                self.bad("load-lost", "loading %s gave nothing, saved: %s" % (ev["name"], sorted(map(str, can))), ev, i)
            elif not ev["faulted"]:
                reg.write(ev["t0"], ev["t1"], [MISSING], True, True)
        else:
            if ver not in can:
                self.bad("load-wrong", "loading %s gave version %s, expected one of %s" % (
                    ev["name"], ver, sorted(map(str, can))), ev, i)
            else:
                reg.write(ev["t0"], ev["t1"], [ver], True, True)

    def ev_clear(self, ev, i):
        done = ev["out"] == "ret" and ev["val"] is True
        c = (ev["t0"], ev["t1"] if done else 10 ** 9, [MISSING], done)
        self.clears.setdefault(ev["wp"], []).append(c)
        for k in list(self.reg):
            if k[0] == ev["wp"]:
                self.reg[k].write(*c)
        if ev["out"] == "ret":
            self.stats["clear"] += 1
            if not isinstance(ev["val"], bool):
                self.bad("status-type", "clear returned %r" % (ev["val"],), ev, i)
            if done and (not ev["isdir"] or ev["left"]):
                self.bad("clear", "after clearing the folder holds %r" % (ev["left"],), ev, i)
            if done and not ev["wpdir"]:
                self.bad("clear", "clearing a folder that does not exist reported success", ev, i)
            if not done and ev["wpdir"] and not ev["faulted"]:
                self.bad("clear", "clearing failed without cause", ev, i)

    def ev_AMBIENT(self, ev, i):
        """Between calls, what the whole process shares is as it was."""
        self.bad("ambient", "the call before left the %s of the process changed: %s, was %s" % (
            ev["what"], ev["is"], ev["was"]), ev, i)

    def ev_REPEAT(self, ev, i):
        if ev["extra"]:
            self.bad("litter", "repeating the call left %r behind" % (ev["extra"][:3],), ev, i)

    def ev_pure(self, ev, i):
        self.stats["pure"] += 1
        if ev["out"] == "ret" and not ev["faulted"]:
            if not ev["same_tree"] or ev["mut"]:
                self.bad("impure", "queries changed files", ev, i)
            if not ev["same_val"]:
                self.bad("impure", "the same queries gave different answers", ev, i)

    # -- results ------------------------------------------------------------------
    def ev_q(self, ev, i):
        if ev["out"] != "ret":
            return
        st = ev["st"]
        what, args = st["what"], st["a"]
        case = args[1] if what in ("disp", "react", "force", "mode") else (args[0] if what in ("all", "freq") else args[2])
        asmr = self.r(ev["wp"], "asm")
        resr = self.r(ev["wp"], "o" if what == "freq" else "d", case)
        asm = asmr.read(ev["t0"], ev["t1"])
        res = resr.read(ev["t0"], ev["t1"])
        got = ev["val"]
        self.stats["query"] += 1
        answers = []               # (answer, source result)
        for a in asm:
            for r in res:
                x = self.answer(a, r, what, args, case, ev)
                if x is ANY:
                    self.stats["query_unspecified"] += 1
                    return
                answers.append((x, a, r))
        if got is None:
            if any(x == NONE for x, _, _ in answers) or ev["faulted"]:
                if len(answers) > 1 and not ev["faulted"] and all(x != NONE for x, _, r in answers if r != MISSING):
                    if MISSING in res and MISSING not in asm:
                        resr.write(ev["t0"], ev["t1"], [MISSING], True, True)
                return
            self.bad("none", "%s%r gave nothing, results exist" % (what, tuple(args)), ev, i)
            return
        self.stats["query_answered"] += 1
        hit = [(x, a, r) for x, a, r in answers if x not in (NONE, OWED) and self.same(x, got, r, what, case)]
        if not hit:
            exp = [x for x, _, _ in answers]
            kind = "value"
            if all(x == NONE for x in exp):
                kind = "phantom"
            self.bad(kind, "%s%r gave %s, expected %s" % (what, tuple(args), short(got), " or ".join(short(x) for x in exp[:3])),
                     ev, i)
            return
        if len(res) > 1 and len({x[2] for x in hit}) == 1:
            resr.write(ev["t0"], ev["t1"], [hit[0][2]], True, True)
            self.stats["narrowed"] += 1
        if self.phys and len({(a, r) for _, a, r in hit}) == 1:
            self.physics(hit[0][1], hit[0][2], what, args, case, got, ev, i)

    def answer(self, a, r, what, args, case, ev):
        if a == MISSING:
            return NONE
        if r == MISSING:
            if a != MISSING and what == "freq":
                return NONE
            return NONE
        key, typ, num, ok = r
        if ok == "any":
            return ANY
        ma = RefModel.from_key(a)
        if what == "freq":
            if typ != "modal":
                return NONE
            return self.norm(self.c.get(key).query(what, args, num), r, case)
        if case not in ma.cases:
            return NONE
        if ma.cases[case]["type"] != typ:
            return ANY
        mr = ma if key == a else RefModel.from_key(key)
        if what in ("react", "force", "def") or typ == "modal" or what == "mode":
            if key != a:
                return ANY      # see known findings: mixes two assemblies
            if what in ("react", "disp", "mode") and args[0] not in ma.hid:
                return NONE
            if what in ("force", "def") and args[0] not in ma.beams:
                return NONE
            if what == "def" and not 0 <= args[1] <= 1:
                return ANY
            if what == "mode" and typ == "modal" and ok == "ok" and args[2] > 1 and (
                    self.c.ref(key)[0].mass_modes(case) <= args[2] <= self.modes(key, case, num)):
                return ANY          # a mode without mass: any
            owed = typ == "static" and what != "mode" or what == "disp" or (
                what == "mode" and typ == "modal" and 1 <= args[2] <= self.modes(key, case, num))
            return self.norm(self.c.get(key).query(what, args, num), r if owed else None, case)
        nodes = [args[0]] if what == "disp" else list(ma.nodes)
        out = {}
        for n in nodes:
            if n not in ma.hid:
                return NONE
            h = ma.hid[n]
            if h >= len(mr.nodes):
                if what == "all":       # a node that was not analysed
                    continue
                return NONE
            if mr.hid.get(n) != h:
                return ANY      # two unrelated models shared the folder
            out[n] = self.norm(self.c.get(key).query("disp", [n, case], num), r, case)
            if out[n] in (NONE, OWED):
                return out[n]
        return out[args[0]] if what == "disp" else out

    def norm(self, v, r, case):
        """The answer v of the undisturbed run; r: the result that has one to give."""
        if v is not None:
            return v
        if r is None or r[3] != "ok":
            return NONE
        num = r[2] if r[1] == "modal" else None
        return OWED if self.c.get(r[0]).solve(case, num) is True else NONE

    def modes(self, key, case, num):
        f = self.c.get(key).query("freq", [case], num)
        return len(f) if isinstance(f, list) else 0

    def scale(self, key, case, num, what):
        """Largest magnitude in the result, per kind of quantity."""
        t = self.c.get(key)
        k = ("scale", (what,), case, num)
        if k in t.memo:
            return t.memo[k]
        if what in ("disp", "all"):
            v = [t.query("disp", [n, case], num) for n in t.model.nodes]
        elif what == "def":
            v = [t.query("disp", [n, case], num) for n in t.model.nodes]
        elif what in ("react", "force"):
            v = [t.query("react", [n, case], num) for n in t.model.nodes]
            v += [t.query("force", [b, case], num) for b in t.model.beams]
        else:
            v = []
        v = [x for x in v if x is not None and len(x)]
        s = float(np.max(np.abs(np.array([list(x) for x in v])))) if v and all(len(x) == len(v[0]) for x in v) else (
            max([float(np.max(np.abs(x))) for x in v]) if v else 1.0)
        t.memo[k] = s
        return s

    def same(self, want, got, r, what, case):
        key, typ, num, _ = r
        if what == "freq":
            return close(want, got, max(np.abs(want), default=1.0), self.TOL)
        if what == "mode":
            return close(want, got, max(1e-3, float(np.max(np.abs(want), initial=0.0))), 1e-5)
        if what == "all":
            if not isinstance(got, dict) or set(got) != set(want):
                return False
            s = max([1e-25] + [float(np.max(np.abs(v), initial=0.0)) for v in want.values()])
            return all(close(want[n], got[n], s, self.TOL) for n in want)
        s = self.scale(key, case, num, what)
        return close(want, got, s, self.TOL)

    # -- physics -------------------------------------------------------------------
    def physics(self, a, r, what, args, case, got, ev, i):
        key, typ, num, ok = r
        if ok != "ok" or key != a and what != "disp":
            return
        refs = self.c.ref(key)
        if len(refs) > 1:                # shells: right, or as the known finding has it
            n = len(self.v)
            for f in refs:
                del self.v[n:]
                self.physics1(f, a, r, what, args, case, got, ev, i)
                if len(self.v) == n:
                    break
            return
        self.physics1(refs[0], a, r, what, args, case, got, ev, i)

    def physics1(self, f, a, r, what, args, case, got, ev, i):
        key, typ, num, ok = r
        m = f.m
        if typ == "static":
            s = f.static(case)
            dsc = float(np.max(np.abs(s["d"]))) if s["d"].size else 0
            fsc = max([float(np.max(np.abs(s["f"])))] + [float(np.max(np.abs(s["r"])))]
                      + [float(np.max(np.abs(v))) for v in s["end"].values()])
            tol = f.tol
            if what == "all":
                for n, v in got.items():
                    self.physics1(f, a, r, "disp", [n, case], case, v, ev, i)
                return
            if what == "disp":
                h = m.hid[args[0]]
                want = s["d"][6 * h:6 * h + 6]
                self.stats["phys_disp"] += 1
                if not close(want, got, dsc, tol):
                    self.bad("phys-disp", "displacement of %s in %s is %s, the structure's response is %s" % (
                        args[0], case, short(got), short(want.tolist())), ev, i)
                rest = (m.cases[case]["rest"] or m.rest).get(args[0])
                if rest and any(g != 0 for g, b in zip(got, rest) if b):
                    self.bad("phys-support", "restrained node %s moves: %s" % (args[0], short(got)), ev, i)
            elif what == "react":
                h = m.hid[args[0]]
                want = s["r"][6 * h:6 * h + 6]
                self.stats["phys_react"] += 1
                if not close(want, got, fsc, tol):
                    self.bad("phys-force", "reaction of %s in %s is %s, equilibrium needs %s" % (
                        args[0], case, short(got), short(want.tolist())), ev, i)
            elif what == "force":
                want = s["end"][args[0]]
                self.stats["phys_force"] += 1
                if not close(want, got, fsc, tol):
                    self.bad("phys-force", "end forces of %s in %s are %s, equilibrium needs %s" % (
                        args[0], case, short(got), short(want.tolist())), ev, i)
            elif what == "def" and not any(m.rel[args[0]]):
                want = f.deformation(args[0], args[1], s["d"])
                self.stats["phys_def"] += 1
                want[5] = -want[5]           # turned about axis 2, as the nodes do
                ix = [0, 1, 3, 4, 5]
                g = [got[k] for k in ix]
                w = [want[k] for k in ix]
                if not close(w, g, dsc, tol) or not close(abs(want[2]), abs(got[2]), dsc, tol):
                    self.bad("phys-def", "deformation of %s at %s is %s, its ends give %s" % (
                        args[0], args[1], short(got), short(want)), ev, i)
        elif typ == "modal" and num is not None:
            self.modal(f, key, num, what, args, case, got, ev, i)

    def modal(self, f, key, num, what, args, case, got, ev, i):
        w2 = f.modal(case)["w2"]
        # (the iterative solver of the code gives at most one mode fewer than there are free DOFs)
        k = min(num, f.mass_modes(case), len(w2) - 1)
        if what == "freq":
            self.stats["phys_freq"] += 1
            unit = args[1] if len(args) > 1 else "omega"
            with np.errstate(divide="ignore"):
                got = {"omega": lambda x: x, "f": lambda x: 2 * np.pi * x, "T": lambda x: 2 * np.pi / x}[unit](
                    np.array(got, float)).tolist()
            if not k <= len(got) <= num:
                self.bad("modal", "%d modes requested of %s, %d returned" % (num, case, len(got)), ev, i)
                return
            want = np.sqrt(w2[:len(got)])
            n = min(len(want), k)
            if not np.allclose(np.array(got[:n]), want[:n], rtol=f.tol / 2):
                self.bad("modal", "angular frequencies of %s are %s, the structure's are %s" % (
                    case, short(got), short(want.tolist())), ev, i)
            return
        if what not in ("mode", "disp"):
            return
        t = self.c.get(key)
        mk = ("modecheck", ("m",), case, num)
        if mk in t.memo:
            return
        t.memo[mk] = 1
        # the twin's modes equal the observed ones (already checked); judge them as a set
        free = f.modal(case)["free"]
        P = []
        for s in range(1, k + 1):
            row = []
            for n in sorted(t.model.nodes, key=lambda n: t.model.hid[n]):
                v = t.query("mode", [n, case, s], num)
                if v is None:
                    return
                row += list(v)
            P.append(row)
        P = np.array(P)[:, free]
        fr = t.query("freq", [case], num)
        if fr is None:
            self.bad("modal", "%s has modes, its frequencies are not answered" % case, ev, i)
            return
        w = np.array(fr[:k]) ** 2
        K, M = f.K[np.ix_(free, free)], f.M[free]
        G = P @ (M[:, None] * P.T)
        self.stats["phys_modes"] += k
        if not np.allclose(G, np.eye(k), atol=1e-4):
            self.bad("modal", "modes of %s are not orthonormal in the mass: %s" % (case, short(G.tolist())), ev, i)
        R = K @ P.T - (M[:, None] * P.T) * w
        den = np.max(np.abs(K)) * np.max(np.abs(P)) + 1e-30
        if np.max(np.abs(R)) > f.tol / 2 * den:
            self.bad("modal", "modes of %s do not satisfy the eigenproblem" % case, ev, i)


def short(v):
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(short(x) for x in v[:6]) + (", .." if len(v) > 6 else "") + "]"
    if isinstance(v, float):
        return "%.6g" % v
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (k, short(x)) for k, x in list(v.items())[:3]) + "}"
    return str(v)
