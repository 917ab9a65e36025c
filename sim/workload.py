"""Seeded scenario generators. A scenario is plain data; generation never looks at
the code under test, only at the reference model."""
import random
import unicodedata

from .refmodel import RefFE, RefModel, Rejected
from .engine import VPAT, VNODE

COND_GEN = 2e7

LONG = "combination of permanent and variable loads with partial factors, ultimate limit state, "
NAMES = {
    "node": ["A", "B", "a", "N1", "n 2", "节点3", "N.4", "0", "10", "1", "X'y", "p-q", "N_9", "é", "100%", "{0}", "n*"],
    "beam": ["b1", "B1", "梁", "b 2", "0", "beam.3", "b-4", "b5", "b6", "b7", "b8", "b%d", "[b]"],
    "case": ["case1", "Case1", "工况", "c 2", "0", "x.d", "x", "lc-3", ".c", "lc[1]", "x*", "50%", "caf\u00e9",
             LONG + "1"],
    "pat": ["pat1", "Pat1", "荷载", "p 2", "0", "dead", "live", "p%s", "na\u00efve", LONG + "p"],
    "save": ["model", "Model", "模型", "m.sep", "m", "backup 1", ".hid", "m[1]", "r\u00e9v 1", "re\u0301v 1", LONG + "a", LONG + "b"],
    "mode": ["eigen", "振型", "case1m", "m.o", "m", ".m"],
}


def rn(rng, lo, hi, nd=3):
    return round(rng.uniform(lo, hi), nd)


# calls with defaults -> number of arguments that have none
TRIM = {"set_nodal_mass": 1, "set_nodal_restraint": 1, "set_loadcase_nodal_restraint": 2, "set_nodal_load": 2,
        "set_beam_load_distributed": 2, "set_beam_release": 1}


class Gen:
    """Grows a scenario together with the reference model it leads to."""

    def __init__(self, rng, seed, profile):
        self.rng = rng
        self.sc = {"seed": seed, "profile": profile, "files": {}, "steps": []}
        self.steps = self.sc["steps"]
        self.m = {}           # session -> RefModel expected after the edits so far
        self.names = {}
        self.fe = {}
        self.loose = set()    # cases that are unstable on purpose
        k = rng.random()
        self.unit = 1.0 if k < .8 else rng.choice([1e-6, 1e-3, 1e4])      # of forces
        self.full = rng.random() < .3                                    # numbers with all their digits
        self.pool = {}
        self.weight = 1.0 if rng.random() < .88 else rng.choice([1e-8, 1e-5, 1e5])        # of case factors
        self.far = [0.0] * 3 if rng.random() < .85 else [rng.choice([0, 250, -1200, 40000.5]) for _ in range(3)]
        self.size = 1.0 if rng.random() < .85 else rng.choice([.15, 8.0])
        self.asked = {}       # (session, modal case) -> number of modes last asked for
        self.kin = .12 if rng.random() < .85 else .7
        self.alike = rng.choice([0, .1, .4])                             # how often a value was given before

    def again(self, kind, v):
        """v, or a value of that kind that was used before."""
        old = self.pool.setdefault(kind, [])
        if old and self.rng.random() < self.alike:
            return list(self.rng.choice(old))
        old.append(list(v))
        return v

    def val(self, lo, hi, nd=1):
        """A load."""
        v = self.rng.uniform(lo, hi)
        return (v if self.full else round(v, nd)) * self.unit

    def fac(self, lo=-2, hi=2):
        v = self.rng.uniform(lo, hi)
        return self.again("fac", [((v if self.full else round(v, 2)) or 1.0) * self.weight])[0]

    def digits(self, ops):
        """Another place and size, and coordinates with all their digits."""
        if self.size != 1 or any(self.far):
            for m, a in ops:
                if m == "add_node":
                    a[1:4] = [float(round(x * self.size, 6) + o) for x, o in zip(a[1:4], self.far)]
        if self.full and self.rng.random() < .7:
            for m, a in ops:
                if m == "add_node":
                    a[1:4] = [x + self.rng.uniform(-1e-4, 1e-4) if x != round(x, 1) else x for x in a[1:4]]
        return ops

    def add(self, **st):
        self.steps.append(st)
        return st

    # -- edits -----------------------------------------------------------------
    def edit(self, s, m, *a):
        if m[0] == "*":
            for m_, a_ in self.m[s].expand(m, list(a)):
                self.m[s].apply(m_, a_)
            self.add(op="macro", s=s, m=m, a=list(a))
            return True
        ok = self.m[s].apply(m, list(a))
        a = list(a)
        if m in TRIM and self.rng.random() < .3:         # leave arguments to their defaults
            while len(a) > TRIM[m] and not a[-1]:
                a.pop()
        if m in ("add_node", "set_nodal_load", "set_beam_load_distributed", "add_case_pattern") and self.rng.random() < .2:
            a = [int(v) if isinstance(v, float) and v == int(v) else v for v in a]
        self.steps.append({"op": "edit", "s": s, "m": m, "a": a})
        return ok

    def name(self, s, kind):
        used = self.names.setdefault((s, kind), [])
        r = self.rng
        if used and r.random() < self.kin:       # close relatives of a name in use
            b = r.choice(used)
            k = r.choice([b + " ", " " + b, b.upper(), b.lower(), b.swapcase(), b + "2", b + "_", b + ".d", b + "'",
                          b + "\t", b * 2, b[:-1] or b, b.replace(" ", "_"), b.replace("-", "_")])
            other = unicodedata.normalize("NFD", b)
            if other == b:
                other = unicodedata.normalize("NFC", b)
            if other != b and r.random() < .5:
                k = other
            elif len(b) > 40 and r.random() < .7:
                k = b[:-1] + r.choice("XYZ")
            if k not in used and len(k) < (40 if len(b) < 40 else 120):
                used.append(k)
                return k
        pool = [n for n in NAMES[kind] if n not in used]
        n = self.rng.choice(pool) if pool and self.rng.random() < 0.8 else "%s%d" % (kind[0], len(used))
        while n in used:
            n += "_"
        used.append(n)
        return n

    def stable(self, m, cases=None):
        """Every case is well conditioned."""
        try:
            cases = [c for c in (cases or m.cases) if c not in self.loose]
            if m.shells:
                return all(m.shell_scope(c) and RefFE(m).condition(c) < COND_GEN
                           and RefFE(m, known=True).condition(c) < COND_GEN for c in cases)
            f = RefFE(m)
            for c in cases:
                if not f.condition(c) < COND_GEN:
                    return False
                if m.cases[c]["type"] == "modal":
                    if f.mass_modes(c) < 2 or len(f.modal(c)["free"]) < 3:
                        return False
                    if any(any(r[k] for k in (0, 1, 2, 6, 7, 8)) for r in m.rel.values()):
                        return False
            return True
        except (Rejected, KeyError):
            return False

    def try_edits(self, s, edits):
        """Emit the edits if every case stays stable."""
        t = self.m[s].copy()
        for m, a in edits:
            for m_, a_ in (t.expand(m, a) if m[0] == "*" else [(m, a)]):
                t.apply(m_, a_)
        if not self.stable(t):
            return False
        for m, a in edits:
            self.edit(s, m, *a)
        return True

    # -- models ----------------------------------------------------------------
    def new_session(self, s, wp):
        self.add(op="new", s=s, wp=wp)
        self.m[s] = RefModel()
        for k in NAMES:
            self.names[(s, k)] = []

    def frame(self, s, modal=None):
        """A small stable space frame with loads and cases."""
        rng = self.rng
        k = rng.random()
        count = (2, 5) if k < .96 else (10, 24) if k < .99 else (28, 45)
        for _ in range(200):
            t = RefModel()
            ops = self.digits(self._frame_ops(s, modal, count))
            for m, a in ops:
                t.apply(m, a)
            if t.cases and t.beams and self.stable(t):
                break
            for k in NAMES:
                self.names[(s, k)] = []
        else:
            raise RuntimeError("no stable frame")
        for m, a in ops:
            self.edit(s, m, *a)

    def _section(self, s, sec, mat):
        r = self.rng
        k = r.choice(["general", "rectangle", "circle", "pipe", "box", "I"])
        if k == "general":
            return ["add_beam_section_general", [sec, mat, rn(r, .01, .05), .01, .01, rn(r, 1e-4, 6e-4, 6),
                                                 rn(r, 1e-4, 6e-4, 6), rn(r, 1e-4, 6e-4, 6), 1e-3, 1e-3]]
        if k == "rectangle":
            return ["add_beam_section_rectangle", [sec, mat, rn(r, .2, .6, 2), rn(r, .2, .5, 2)]]
        if k == "circle":
            return ["add_beam_section_circle", [sec, mat, rn(r, .2, .5, 2)]]
        if k == "pipe":
            return ["add_beam_section_pipe", [sec, mat, rn(r, .2, .5, 2), rn(r, .01, .03)]]
        if k == "I":
            return ["add_beam_section_I", [sec, mat, rn(r, .3, .5, 2), rn(r, .2, .3, 2), rn(r, .05, .08), rn(r, .04, .08)]]
        return ["add_beam_section_box", [sec, mat, rn(r, .3, .6, 2), rn(r, .2, .4, 2), rn(r, .01, .02), rn(r, .01, .03)]]

    def _beam(self, s, b, i, j, secs):
        r = self.rng
        if r.random() < 0.3:
            return ["add_simple_beam", [b, i, j, r.choice([2e11, 2.06e11, 3e10]), 0.3, rn(r, .01, .05),
                                        rn(r, 1e-4, 6e-4, 6), rn(r, 1e-4, 6e-4, 6), rn(r, 1e-4, 6e-4, 6), 7850.0]]
        return ["add_beam", [b, i, j, r.choice(secs)]]

    def _rest(self, kind=None):
        r = self.rng
        k = kind or r.choice(["fix", "fix", "fix", "pin", "pin", "roll", "any", "any", "free"])
        if k == "free":              # given, and restrains nothing
            return [False] * 6
        if k == "fix":
            return [True] * 6
        if k == "pin":
            return [True] * 3 + [False] * 3
        if k == "roll":
            v = [False, False, True] + [False] * 3
            return v
        return [r.random() < 0.5 for _ in range(6)]

    def _mass(self):
        r = self.rng
        # a few masses are orders of magnitude lighter than the others
        sc = 10 ** r.uniform(-4.5, -1) if r.random() < .12 else 1.0
        mv = lambda lo=10, hi=900: (r.uniform(lo, hi) * sc if self.full
                                    else float("%.3g" % (rn(r, lo, hi, 1) * sc)))
        k = r.random()
        if k < .5:
            return [mv()] * 3 + [0.0] * 3
        if k < .75:
            return [mv() for _ in range(3)] + [0.0] * 3
        if k < .9:
            return [mv() for _ in range(3)] + [mv(5, 90) for _ in range(3)]
        return [0.0] * 6

    def _nload(self, axis=None):
        r = self.rng
        v = [0.0] * 6
        for k in r.sample(range(6), r.randint(1, 3)):
            v[k] = self.val(-5e3, 5e3)
        return self.again("nload", v)

    def _dist(self):
        r = self.rng
        v = [0.0] * 8
        for k in r.sample(range(8), r.randint(1, 4)):
            v[k] = self.val(-2e3, 2e3)
        return self.again("dist", v)

    def _conc(self):
        r = self.rng
        v = [0.0] * 6
        for k in r.sample(range(6), r.randint(1, 2)):
            v[k] = self.val(-3e3, 3e3)
        return self.again("conc", v + [r.choice([0.5, 0.25, 0.1, 0.8, 0.0, 1.0, r.uniform(.02, .98) if self.full else rn(r, 0.05, 0.95, 2)])])

    def _release(self):
        r = self.rng
        v = [False] * 12
        for k in r.sample([3, 4, 5, 9, 10, 11, 5, 4, 11, 10, 0, 7], r.randint(1, 3)):
            v[k] = True
        return self.again("release", v)

    def _frame_ops(self, s, modal, count=(2, 5)):
        r = self.rng
        ops = []
        n = r.randint(*count)
        shape = r.choice(["chain", "portal", "tree", "ring", "axes"])
        flat = r.random() < .5
        pts = []
        for k in range(n):
            if shape == "chain":
                p = [k * 2.5 + rn(r, 0, 1, 2), rn(r, 0, .5, 2) if r.random() < .5 else 0.0, 0.0]
            elif shape == "portal":
                p = [(k // 2) * 4.0, 0.0 if flat else rn(r, 0, 1, 2), 3.0 * ((k + 1) // 2 % 2)]
            elif shape == "axes":           # every beam along a global axis, up or down
                p = list(pts[-1]) if pts else [0.0, 0.0, 0.0]
                p[r.choice([0, 1, 2, 2])] += r.choice([-1, 1]) * rn(r, 1.5, 4, 1)
            else:
                p = [rn(r, 0, 6, 2), rn(r, 0, 6, 2), rn(r, 0, 6, 2)]
            pts.append(p)
        for a in range(n):
            for b in range(a):
                if sum((x - y) ** 2 for x, y in zip(pts[a], pts[b])) < 1.0:
                    pts[a][2] += 3.0 + a
        if self.size == 1 and not any(self.far) and r.random() < .12:     # hardly off the axes, hardly parallel
            e = r.choice([1e-4, 1e-3, 1e-2])
            pts = [[x + e * r.choice([0, 0, 1, -1, r.uniform(-1, 1)]) for x in p] for p in pts]
        nodes = [self.name(s, "node") for _ in range(n)]
        for nm, p in zip(nodes, pts):
            ops.append(["add_node", [nm] + [float(x) for x in p]])
        mats = ["steel", "con"][:r.randint(1, 2)]
        for k, mt in enumerate(mats):
            ops.append(["add_isotropic_material", [mt, 7849.0 if k == 0 else 2500.0, 2e11 if k == 0 else 3.25e10,
                                                   0.3 if k == 0 else 0.2, 1.17e-5]])
        secs = ["s%d" % k for k in range(r.randint(1, 3))]
        for sc in secs:
            ops.append(self._section(s, sc, r.choice(mats)))
        edges = []
        if shape in ("chain", "portal", "axes"):
            edges = [(k, k + 1) for k in range(n - 1)]
        else:
            edges = [(r.randrange(k), k) for k in range(1, n)]
            if shape == "ring" and n > 2:
                edges.append((n - 1, 0)) if (0, n - 1) not in edges else None
        if r.random() < .1:                 # two nodes at the same place, not connected to each other
            i, j = r.choice(edges)
            nodes.append(self.name(s, "node"))
            at = r.randint(0, n - 1)
            ops.insert(at, ["add_node", [nodes[-1]] + [float(x) for x in pts[j]]])
            edges.append((i, n))
        beams = []
        for i, j in edges:
            if r.random() < .5:
                i, j = j, i
            b = self.name(s, "beam")
            beams.append(b)
            ops.append(self._beam(s, b, nodes[i], nodes[j], secs))
        if r.random() < 0.35:
            for b in r.sample(beams, r.randint(1, len(beams))):
                ops.append(["set_beam_release", [b] + self._release()])
        ops.append(["set_nodal_restraint", [r.choice([nodes[0], nodes[-1]])] + self._rest("fix")])
        for nm in r.sample(nodes, r.randint(0, len(nodes) - 1)):
            if r.random() < .5 and nm != ops[-1][1][0]:
                ops.append(["set_nodal_restraint", [nm] + self._rest()])
        if r.random() < .5:
            ops.append(["set_nodal_mass", [r.choice(nodes)] + self._mass()])
        pats = [self.name(s, "pat") for _ in range(r.randint(1, 3))]
        for p in pats:
            ops.append(["add_loadpattern", [p]])
            for nm in r.sample(nodes, r.randint(1, len(nodes))):
                ops.append(["set_nodal_load", [p, nm] + self._nload()])
            if r.random() < .5:
                ops.append(["set_beam_load_distributed", [p, r.choice(beams)] + self._dist()])
            if r.random() < .4:
                ops.append(["set_beam_load_concentrated", [p, r.choice(beams)] + self._conc()])
        if r.random() < self.alike:         # two patterns that say the same
            old, new = r.choice(pats), self.name(s, "pat")
            ops += [["add_loadpattern", [new]]] + [[o, [new] + list(a[1:])] for o, a in ops if o in PATOPS and a[0] == old]
            pats.append(new)
        cases = [self.name(s, "case") for _ in range(r.randint(1, 3))]
        for c in cases:
            ops.append(["add_static_case", [c]])
            for p in r.sample(pats, r.randint(1, len(pats))):
                ops.append(["add_case_pattern", [c, p, self.fac()]])
            if r.random() < .3:
                ops.append(["set_loadcase_nodal_restraint", [c, r.choice(nodes)] + self._rest("fix")])
                if r.random() < .4:
                    ops.append(["set_loadcase_nodal_restraint", [c, r.choice(nodes)] + self._rest()])
                if r.random() < .2:
                    free = [n for n in nodes if not any(o == "set_loadcase_nodal_restraint" and a[:2] == [c, n]
                                                        for o, a in ops)]
                    if free:
                        ops.append(["set_loadcase_nodal_restraint", [c, r.choice(free)] + self._rest("free")])
        want = modal if modal is not None else r.random() < .4
        if want:
            c = self.name(s, "mode")
            ops.append(["add_modal_case", [c]])
            if r.random() < .3:
                ops.append(["set_loadcase_nodal_restraint", [c, r.choice(nodes)] + self._rest("fix")])
        return ops

    def plate(self, s):
        """A plate or wall of quadrilateral shells."""
        for _ in range(100):
            t = RefModel()
            ops = self._plate_ops(s)
            for m, a in ops:
                t.apply(m, a)
            if self.stable(t):
                break
            for k in NAMES:
                self.names[(s, k)] = []
        else:
            raise RuntimeError("no stable plate")
        for m, a in ops:
            self.edit(s, m, *a)

    def _plate_ops(self, s):
        r = self.rng
        nx, ny = r.choice([(1, 1), (2, 1), (1, 2), (2, 2)])
        ops = []
        nm = {}
        how = r.choice(["flat", "flat", "tilt", "wall", "wall2", "turned"])
        dx, dy = r.choice([(1.5, 1.0), (1.0, 1.0), (1.0, 2.0), (2.0, 2.0)])
        skew = r.choice([0.0, 0.0, 0.3])
        for i in range(nx + 1):
            for j in range(ny + 1):
                nm[i, j] = self.name(s, "node")
                x, y = i * dx + skew * j * dy, j * dy
                if r.random() < .2:
                    x, y = x + rn(r, -.2, .2, 2), y + rn(r, -.2, .2, 2)
                p = {"flat": [x, y, 0.0], "tilt": [x, y, .5 * x], "wall": [x, 0.0, y], "wall2": [0.0, x, y],
                     "turned": [x * .6 - y * .8, x * .8 + y * .6, 1.0]}[how]
                ops.append(["add_node", [nm[i, j]] + [round(v, 6) for v in p]])
        ops.append(["add_isotropic_material", ["steel", 7849.0, 2e11, 0.3, 1.17e-5]])
        typ = r.choice(["shell"] * 4 + ["membrane", "plate"])
        ops.append(["add_shell_section", ["sh", "steel", rn(r, .05, .3, 2), typ]])
        k = 0
        for i in range(nx):
            for j in range(ny):
                c = [nm[i, j], nm[i + 1, j], nm[i + 1, j + 1], nm[i, j + 1]]
                if r.random() < .25:          # the other way round
                    c = c[::-1]
                t = r.randrange(4)
                ops.append(["add_shell", ["q%d" % k] + c[t:] + c[:t] + ["sh"]])
                k += 1
        for j in range(ny + 1):
            ops.append(["set_nodal_restraint", [nm[0, j]] + [True] * 6])
        out = {"flat": [2, 3, 4], "turned": [2, 3, 4], "wall": [1, 3, 5], "wall2": [0, 4, 5]}.get(how)
        if typ != "shell" and out:
            fix = [(k in out) == (typ == "membrane") for k in range(6)]
            for i in range(1, nx + 1):
                for j in range(ny + 1):
                    ops.append(["set_nodal_restraint", [nm[i, j]] + fix])
        if r.random() < .4:
            ops.append(["add_simple_beam", ["edge", nm[0, 0], nm[nx, 0], 2e11, .3, .02, 2e-4, 3e-4, 1e-4, 7850.0]])
        pats = [self.name(s, "pat") for _ in range(2)]
        for p in pats:
            ops.append(["add_loadpattern", [p]])
            for j in range(ny + 1):
                if r.random() < .7 or j == 0:
                    ops.append(["set_nodal_load", [p, nm[nx, j]] + [self.val(-1e3, 1e3) for _ in range(3)]
                                + ([self.val(-1e2, 1e2) for _ in range(3)] if r.random() < .3 else [0.0] * 3)])
        c = self.name(s, "case")
        ops.append(["add_static_case", [c]])
        for p in pats:
            ops.append(["add_case_pattern", [c, p, self.fac()]])
        return ops

    # -- changes -----------------------------------------------------------------
    def change(self, s, kinds=None):
        """One random valid change of definitions (kept only if stable)."""
        r = self.rng
        m = self.m[s]
        for _ in range(12):
            k = r.choice(kinds or ["nload", "nload", "dist", "conc", "factor", "rest", "crest", "mass", "grow", "release", "rebeam",
                          "case", "pat", "recase", "unload", "resec", "remat", "repat", "renode"])
            cases = [c for c in m.cases]
            stat = [c for c in m.cases if m.cases[c]["type"] == "static"]
            nodes, beams = list(m.nodes), list(m.beams)
            pats = [p for p in m.pats if p != VPAT]
            e = None
            if k == "nload" and pats:
                e = [["set_nodal_load", [r.choice(pats), r.choice(nodes)] + self._nload()]]
            elif k == "unload" and pats:
                p = r.choice(pats)
                ns = list(m.pats[p]["nodal"])
                if ns:
                    e = [["set_nodal_load", [p, r.choice(ns)] + [0.0] * 6]]
            elif k == "dist" and beams and pats:
                e = [["set_beam_load_distributed", [r.choice(pats), r.choice(beams)] + self._dist()]]
            elif k == "conc" and beams and pats:
                e = [["set_beam_load_concentrated", [r.choice(pats), r.choice(beams)] + self._conc()]]
            elif k == "factor" and stat and pats:
                e = [["add_case_pattern", [r.choice(stat), r.choice(pats), self.fac(-3, 3) if r.random() < .9 else 0.0]]]
            elif k == "rest":
                e = [["set_nodal_restraint", [r.choice(nodes)] + self._rest()]]
            elif k == "crest" and cases:
                e = [["set_loadcase_nodal_restraint", [r.choice(cases), r.choice(nodes)] + self._rest()]]
            elif k == "mass":
                e = [["set_nodal_mass", [r.choice(nodes)] + self._mass()]]
            elif k == "grow" and beams and len(nodes) < 9:
                nn, b = self.name(s, "node"), self.name(s, "beam")
                base = r.choice(nodes)
                x, y, z = m.nodes[base]
                p = [round(x + r.choice([-3, 3, 2.5]), 3), round(y + r.choice([0, 1, 2]), 3), round(z + r.choice([0, 2, 3]), 3)]
                if any(sum((a - b_) ** 2 for a, b_ in zip(p, q)) < .5 for q in m.nodes.values()):
                    continue
                e = [["add_node", [nn] + [float(v) for v in p]]]
                e.append(["add_simple_beam", [b] + r.sample([base, nn], 2)
                          + [2e11, .3, .02, 3e-4, 2e-4, 2e-4, 7850.0]])
                if r.random() < .5 and pats:
                    e.append(["set_nodal_load", [r.choice(pats), nn] + self._nload()])
            elif k == "release" and beams:
                rel = self._release() if r.random() < .7 else [False] * 12
                e = [["set_beam_release", [r.choice(beams)] + rel]]
            elif k == "rebeam" and beams and m.secs:
                b = r.choice(beams)
                e = [["add_beam", [b, m.beams[b]["i"], m.beams[b]["j"], r.choice(list(m.secs))]]]
            elif k == "resec" and m.secs:        # what was defined with it keeps the old one
                e = [self._section(s, r.choice(list(m.secs)), r.choice(list(m.mats)))]
                if r.random() < .5 and beams:
                    b = r.choice(beams)
                    e.append(["add_beam", [b, m.beams[b]["i"], m.beams[b]["j"], e[0][1][0]]])
            elif k == "remat" and m.mats:
                e = [["add_isotropic_material", [r.choice(list(m.mats)), 7000.0, r.choice([1e11, 1.5e11, 7e10]), .25, 1e-5]]]
            elif k == "case" and pats and len(cases) < 6:
                c = self.name(s, "case")
                e = [["add_static_case", [c]], ["add_case_pattern", [c, r.choice(pats), self.fac()]]]
            elif k == "recase" and stat and pats:
                e = [["add_static_case", [r.choice(stat)]]]
                if r.random() < .7:
                    e.append(["add_case_pattern", [e[0][1][0], r.choice(pats), self.fac()]])
            elif k == "pat" and len(pats) < 5 and stat:
                p = self.name(s, "pat")
                e = [["add_loadpattern", [p]], ["set_nodal_load", [p, r.choice(nodes)] + self._nload()],
                     ["add_case_pattern", [r.choice(stat), p, self.fac()]]]
            elif k == "repat" and pats:          # and given again to the cases that had it
                p = r.choice(pats) if r.random() < .7 else self.name(s, "pat")
                e = []
                if p not in m.pats:
                    e += [["add_loadpattern", [p]], ["set_nodal_load", [p, r.choice(nodes)] + self._nload()]]
                e.append(["*repattern", [p]])
                for _ in range(r.randint(0, 2)):
                    e.append(["set_nodal_load", [p, r.choice(nodes)] + self._nload()])
                if beams and r.random() < .4:
                    e.append(["set_beam_load_distributed", [p, r.choice(beams)] + self._dist()])
            elif k == "renode" and beams and not m.shells:       # moved, and what is attached to it defined again
                n = r.choice(nodes)
                x = [round(v + r.choice([-.5, 0, .25, 1]), 3) for v in m.nodes[n]]
                if any(sum((a - b_) ** 2 for a, b_ in zip(x, q)) < .5 for o, q in m.nodes.items() if o != n):
                    continue
                e = [["*move_node", [n] + x + self._mass()]]
            if e and self.try_edits(s, e):
                return True
        return False

    def unstable(self, s, wp):
        """A structure that cannot carry its loads: refused, and nothing else suffers."""
        r = self.rng
        m = self.m[s]
        pats = [p for p in m.pats if p != VPAT and m.pats[p]["nodal"]]
        if not pats or m.shells:
            return
        weak = lambda: [k == one for k in range(6)]
        one = r.choice([0, 1, 2, 9])
        if r.random() < .6:          # a case with too few restraints of its own
            c = self.name(s, "case")
            self.loose.add(c)
            self.edit(s, "add_static_case", c)
            self.edit(s, "add_case_pattern", c, r.choice(pats), rn(r, .5, 2, 2))
            for n in r.sample(list(m.nodes), r.choice([1, 1, 2])):
                self.edit(s, "set_loadcase_nodal_restraint", c, n, *weak())
            if one == 9:             # restraints that restrain nothing
                pass
            if r.random() < .3:
                self.save(s, "m")
            self.add(op="assemble", s=s)
            cs = [x for x in self.cases(s) if x not in self.loose]
            for x in r.sample(cs, r.randint(0, len(cs))) + [c]:
                self.solve(s, x)
            self.ask(s, 2, [c])
            if cs:
                self.ask(s, 2, cs)
            if r.random() < .5:      # put right
                n = r.choice(list(m.nodes))
                t = m.copy()
                t.apply("set_loadcase_nodal_restraint", [c, n] + [True] * 6)
                self.loose.discard(c)
                if self.stable(t):
                    self.edit(s, "set_loadcase_nodal_restraint", c, n, *[True] * 6)
                    self.add(op="assemble", s=s)
                    self.solve(s, c)
                    self.ask(s, 2, [c])
                else:
                    self.loose.add(c)
            return
        # the supports of the whole model go, and come back
        back = {n: list(v) for n, v in m.rest.items() if any(v)}
        keep = r.choice(list(back)) if back and r.random() < .4 else None
        for n in back:
            self.edit(s, "set_nodal_restraint", n, *(weak() if n == keep else [False] * 6))
        self.add(op="assemble", s=s)
        cs = self.cases(s, "static")
        r.shuffle(cs)
        for c in cs[:2]:
            self.solve(s, c)
        self.ask(s, 3, cs[:2], kinds=["disp", "all"])
        for n, v in back.items():
            self.edit(s, "set_nodal_restraint", n, *v)
        self.add(op="assemble", s=s)
        for c in cs[:2]:
            self.solve(s, c)
        self.ask(s, 2, cs[:2])

    def invalid(self, s):
        """A call that must be refused and change nothing."""
        r = self.rng
        m = self.m[s]
        no = "nope%d" % r.randrange(9)
        n = r.choice(list(m.nodes)) if m.nodes else no
        b = r.choice(list(m.beams)) if m.beams else no
        sec = r.choice(list(m.secs)) if m.secs else no
        pat = r.choice([p for p in m.pats] or [no])
        case = r.choice(list(m.cases) or [no])
        pool = [
            ["set_nodal_restraint", [no] + [True] * 6],
            ["set_nodal_mass", [no] + [1.0] * 6],
            ["add_beam", [self_name(b, no, r), n, no, sec]],
            ["add_beam", [self_name(b, no, r), no, n, sec]],
            ["add_beam", [self_name(b, no, r), n, n, sec]],
            ["add_simple_beam", [self_name(b, no, r), n, no, 2e11, .3, .1, .1, .1, .1, 1.0]],
            ["add_simple_beam", [self_name(b, no, r), n, n, 2e11, .3, .1, .1, .1, .1, 1.0]],
            ["add_beam_section_rectangle", [no, no, .3, .2]],
            ["add_beam_section_general", [no, no, .1, .1, .1, .1, .1, .1, .1, .1]],
            ["add_beam_section_circle", [no, no, .3]],
            ["add_beam_section_I", [no, no, .4, .2, .05, .05]],
            ["add_beam_section_pipe", [no, no, .3, .01]],
            ["add_beam_section_box", [no, no, .3, .2, .01, .01]],
            ["add_shell_section", [no, no, .1]],
            ["add_shell", [no, n, n, n, no, no]],
            ["add_shell", [r.choice(list(m.shells) or [no]), n, n, n, no, r.choice(list(m.shsecs) or [no])]],
            ["add_shell", [r.choice(list(m.shells) or [no])] + r.sample(list(m.nodes) * 4, 4) + [no]] if m.nodes else
            ["add_shell", [no, no, no, no, no, no]],
            ["set_beam_release", [no] + [True] * 12],
            ["set_nodal_load", [no, n] + [1.0] * 6],
            ["set_beam_load_distributed", [no, b] + [1.0] * 8],
            ["set_beam_load_concentrated", [no, b] + [1.0] * 6 + [.5]],
            ["add_case_pattern", [no, pat, 1.0]],
            ["add_case_pattern", [case, no, 1.0]],
            ["set_loadcase_nodal_restraint", [no, n] + [True] * 6],
            ["add_node", [r.choice([n, no]), None, 0.0, 0.0]],
            ["add_node", [r.choice([n, no]), "x", 0.0, 0.0]],
        ]
        if not m.secs:
            pool = [p for p in pool if p[0] != "add_beam"]
        mm, a = r.choice(pool)
        if m.copy().apply(mm, a):
            return                   # not invalid in this model
        self.edit(s, mm, *a)

    # -- analysis ----------------------------------------------------------------
    def cases(self, s, typ=None):
        return [c for c, v in self.m[s].cases.items() if typ is None or v["type"] == typ]

    def solve(self, s, c, **kw):
        if self.m[s].cases[c]["type"] == "modal":
            if self.rng.random() < .05:
                self.add(op="modal", s=s, c=c, n=self.rng.choice([0, 0, -1]))
            self.asked[s, c] = n = self.nmodes(s, c)
            return self.add(op="modal", s=s, c=c, n=n, **kw)
        return self.add(op="static", s=s, c=c, **kw)

    def nmodes(self, s, c):
        f = RefFE(self.m[s])
        mm = f.mass_modes(c)
        if self.rng.random() < .12:              # as many as there are, and more
            n = self.rng.choice([mm, mm + 1, len(f.modal(c)["free"]), len(f.modal(c)["free"]) + self.rng.randint(1, 9)])
            self.lim = max(1, min(n, mm - 1))
            return n
        self.lim = n = self.rng.randint(1, max(1, min(self.rng.choice([3, 3, 6]), mm - 1)))
        return n

    def queries(self, s, n=3, cases=None, kinds=None):
        """Query steps (not emitted)."""
        r = self.rng
        m = self.m[s]
        out = []
        cs = cases or self.cases(s)
        if not cs:
            return out
        for _ in range(n):
            c = r.choice(cs)
            nd = r.choice(list(m.nodes))
            if m.cases[c]["type"] == "modal":
                w = r.choice(["disp", "mode", "freq", "freq"])
                a = {"disp": [nd, c], "mode": [nd, c, r.choice([1, 1, 2, self.asked.get((s, c), 1) + r.randint(1, 2)])],
                     "freq": [c, r.choice(["omega", "omega", "f", "T"])]}[w]
            else:
                w = r.choice(kinds or ["disp", "disp", "disp", "all", "react", "force", "def"])
                if w in ("force", "def") and not m.beams:
                    w = "disp"
                b = r.choice(list(m.beams)) if m.beams else None
                a = {"disp": [nd, c], "react": [nd, c], "all": [c], "force": [b, c],
                     "def": [b, r.choice([0, 1, .5, .25, rn(r, 0, 1, 2)]), c]}[w]
            out.append({"op": "q", "s": s, "what": w, "a": a})
        return out

    def ask(self, s, n=3, cases=None, kinds=None):
        self.steps.extend(self.queries(s, n, cases, kinds))

    def bump(self, s):
        """Move the version marker: the next save is distinguishable."""
        self.add(op="bump", s=s)

    def save(self, s, name, **kw):
        return self.add(op="save", s=s, name=name, **kw)

    # -- disturbances --------------------------------------------------------------
    def noise(self, wps):
        r = self.rng
        k = r.choice(["clock", "entropy", "debris", "clock"])
        if k == "clock":
            self.add(op="clock", d=r.choice([-3600.0, -1.0, 0.5, 86400.0, -86400.0 * 30, 3.2e7]))
        elif k == "entropy":
            self.add(op="entropy", v=r.randrange(1 << 30))
        else:
            wp = r.choice(wps)
            nm, kind = r.choice([("note.txt", "file"), ("sub", "dir"), ("old.d.npy", "npy"), ("0.k.npy", "npy"),
                                 ("0.m.npy", "npy"), (".asb.tmp", "file"), ("model.sep.tmp", "file"),
                                 ("case1.d.npy.tmp", "file"), ("x.bak", "file"), ("~lock", "file")])
            st = dict(op="debris", wp=wp, name=nm, kind=kind)
            if kind == "file":
                st["hex"] = "8004" + "%02x" % r.randrange(256)
            if kind == "npy":
                st["v"] = [[float(r.randrange(9)) for _ in range(12)]]
            self.add(**st)


def self_name(b, no, r):
    return b if r.random() < .5 else no


# number of seam points to aim at, per call (a fault beyond the end does not fire)
AIM = {"assemble": 40, "static": 60, "modal": 70, "save": 40, "load": 6, "q": 8, "clear": 14, "new": 3, "dump": 4}
KINDS_W = ["stat", "open-w", "write", "write", "write", "fsync", "rename", "rename", "open-r", "read", "unlink", "mkdir"]


def faults(rng, op, crash=0.5, power=0.5, fn=True, intr=True):
    """A fault plan for one call."""
    out = []
    kinds = []
    if rng.random() < crash:
        kinds = ["power" if rng.random() < power else "crash"]
    else:
        kinds = [rng.choice(["EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "EDQUOT", "short", "delay"]
                            + (["intr"] if intr else []))]
    k = kinds[0]
    if fn and rng.random() < 0.25:
        k = rng.choice(["nomem", "nomem", "crash" if crash else "nomem", "power" if crash and power else "nomem",
                        "intr" if intr else "nomem"])
        n = {"assemble": 400, "static": 4000, "modal": 2500, "q": 2500, "save": 20, "load": 5}.get(op, 10)
        at = int(n ** rng.random()) - 1
        return [{"cls": "fn", "at": at, "kind": k}]
    if rng.random() < 0.6:
        on = rng.choice(KINDS_W if op not in ("load", "q") else ["stat", "open-r", "read", "read"])
        if op == "clear":
            on = rng.choice(["unlink", "unlink", "rmdir", "mkdir", "list", "stat"])
        at = rng.choice([0, 0, 0, 1, 1, 2, 3, rng.randrange(30)])
        f = {"cls": "io", "on": on, "at": at, "kind": k}
    else:
        f = {"cls": "io", "at": int(AIM.get(op, 10) * rng.random() ** 1.5), "kind": k}
    if k in ("crash", "power", "short", "ENOSPC", "EIO"):
        f["arg"] = rng.choice([0, 0.3, 0.9])
    if k == "delay":
        f["arg"] = rng.choice([0.1, 30.0, 7200.0])
    out.append(f)
    if k in ("ENOSPC", "EROFS", "EIO", "EDQUOT") and rng.random() < 0.4:     # it stays that way
        if "on" in f:
            out += [dict(f, at=f["at"] + j) for j in range(1, 12)]
        else:
            out += [dict(f, at=f["at"] + j) for j in range(1, 25)]
    return out


# ---------------------------------------------------------------------------
# profiles
# ---------------------------------------------------------------------------

def model(g, s, shells=0.12, modal=None):
    if g.rng.random() < shells:
        g.plate(s)
    else:
        g.frame(s, modal)


def p_edit(rng, seed):
    """One session, fault-free: edits, refused calls, analyses in any order."""
    g = Gen(rng, seed, "edit")
    wp = rng.choice(["w", "工作", "w p"])
    g.new_session(0, wp)
    if rng.random() < .4:
        g.ask_early = True
        g.add(op="assemble", s=0) if rng.random() < .3 else None
        g.invalid(0)
    model(g, 0)
    for _ in range(rng.randint(2, 5)):
        for _ in range(rng.randint(0, 3)):
            g.change(0)
        if rng.random() < .5:
            g.invalid(0)
        if rng.random() < .4:
            g.noise([wp])
        if rng.random() < .3:
            g.add(op="dump", s=0)
        if rng.random() < .85:
            g.add(op="assemble", s=0)
        cs = g.cases(0)
        rng.shuffle(cs)
        if rng.random() < .4:
            g.change(0)              # edits after assembling are not part of it
        for c in cs[:rng.randint(1, len(cs))]:
            g.solve(0, c)
            if rng.random() < .6:
                g.ask(0, 2, [c])
        if rng.random() < .12:
            g.unstable(0, wp)
        if rng.random() < .3:
            g.add(op="static", s=0, c="nope")
            g.add(op="q", s=0, what="disp", a=[rng.choice(list(g.m[0].nodes)), "nope"])
            g.add(op="q", s=0, what="disp", a=["nope", rng.choice(g.cases(0))])
        g.ask(0, 3)
    g.add(op="dump", s=0)
    return g.sc


PATOPS = ("set_nodal_load", "set_beam_load_distributed", "set_beam_load_concentrated")
LOADS = ["nload", "nload", "dist", "dist", "conc", "conc", "factor", "unload", "recase", "pat", "release", "rebeam",
         "case"]
SAME = ["nload", "dist", "conc", "factor", "rest", "crest", "mass", "release", "rebeam"]      # no node, no case more
SUPPORTS = ["rest", "rest", "crest", "crest", "crest", "nload", "case", "grow", "dist"]


def p_loads(rng, seed):
    """Load patterns, factors and end releases change; every case is solved and asked for everything."""
    g = Gen(rng, seed, "loads")
    g.new_session(0, "w")
    model(g, 0, shells=.08, modal=False)
    for _ in range(rng.randint(2, 4)):
        for _ in range(rng.randint(1, 3)):
            g.change(0, LOADS)
        if rng.random() < .2:
            g.save(0, "m")
            if rng.random() < .5:
                g.add(op="crash")
            g.add(op="load", s=0, wp="w", name="m")
        g.add(op="assemble", s=0)
        cs = g.cases(0, "static")
        rng.shuffle(cs)
        for c in cs:
            g.solve(0, c)
        m = g.m[0]
        for c in cs[:3]:
            g.steps.append({"op": "q", "s": 0, "what": "all", "a": [c]})
            for n in rng.sample(list(m.nodes), min(3, len(m.nodes))):
                g.steps.append({"op": "q", "s": 0, "what": "react", "a": [n, c]})
            for b in rng.sample(list(m.beams), min(3, len(m.beams))):
                g.steps.append({"op": "q", "s": 0, "what": "force", "a": [b, c]})
                g.steps.append({"op": "q", "s": 0, "what": "def", "a": [b, rng.choice([0, 1, .5, rn(rng, 0, 1, 2)]), c]})
    return g.sc


def p_support(rng, seed):
    """Restraints of the model and of single cases come and go; cases are solved in any order."""
    g = Gen(rng, seed, "support")
    g.new_session(0, "w")
    model(g, 0, shells=.08)
    for _ in range(rng.randint(2, 4)):
        for _ in range(rng.randint(1, 4)):
            g.change(0, SUPPORTS)
        if rng.random() < .15:
            g.unstable(0, "w")
        if rng.random() < .2:
            g.save(0, "m")
            if rng.random() < .5:
                g.add(op="crash")
            g.add(op="load", s=0, wp="w", name="m")
        g.add(op="assemble", s=0)
        cs = g.cases(0) + [rng.choice(g.cases(0))]
        rng.shuffle(cs)
        for c in cs:
            g.solve(0, c)
            if rng.random() < .3:
                g.ask(0, 1, [rng.choice(cs)])
        m = g.m[0]
        for c in g.cases(0, "static"):
            g.steps.append({"op": "q", "s": 0, "what": "all", "a": [c]})
            for n in rng.sample(list(m.nodes), min(2, len(m.nodes))):
                g.steps.append({"op": "q", "s": 0, "what": "react", "a": [n, c]})
        g.ask(0, 2)
    return g.sc


def p_rerun(rng, seed):
    """The same definitions analysed again and again among unrelated work."""
    g = Gen(rng, seed, "rerun")
    wp = "w"
    g.new_session(0, wp)
    model(g, 0, modal=rng.random() < .7)
    for _ in range(rng.randint(2, 4)):
        if rng.random() < .7:
            g.noise([wp])
        if rng.random() < .5:
            g.change(0)
        g.add(op="assemble", s=0)
        cs = g.cases(0) * 2
        rng.shuffle(cs)
        for c in cs[:rng.randint(1, len(cs))]:
            if rng.random() < .3:
                g.noise([wp])
            g.solve(0, c)
            g.ask(0, 2, [c])
        if rng.random() < .3:         # another session object over the same folder
            g.save(0, "m")
            g.add(op="load", s=0, wp=wp, name="m")
    g.ask(0, 4)
    return g.sc


def p_modal(rng, seed):
    """Modal analyses under entropy and clock disturbances, with faults now and then."""
    g = Gen(rng, seed, "modal")
    g.new_session(0, "w")
    g.frame(0, modal=True)
    for _ in range(rng.randint(2, 4)):
        for _ in range(rng.randint(0, 2)):
            g.change(0)
        g.add(op="assemble", s=0)
        for c in g.cases(0, "modal"):
            for _ in range(rng.randint(1, 3)):
                if rng.random() < .7:
                    g.add(op="entropy", v=rng.randrange(1 << 30))
                st = g.solve(0, c)
                if rng.random() < .2:
                    st["f"] = faults(rng, "modal", crash=.3)
                    g.add(op="recover", s=0, wp="w", name="m")
                    g.add(op="assemble", s=0)
                    g.solve(0, c)
                    st = g.steps[-1]
                nd = rng.choice(list(g.m[0].nodes))
                g.add(op="q", s=0, what="freq", a=[c, rng.choice(["omega", "omega", "f", "T"])])
                g.add(op="q", s=0, what="mode", a=[nd, c, rng.randint(1, g.lim)])
                g.add(op="q", s=0, what="disp", a=[nd, c])
        for c in g.cases(0, "static"):
            if rng.random() < .5:
                g.solve(0, c)
                g.ask(0, 1, [c])
    return g.sc


def p_persist(rng, seed):
    """Saves and loads with crashes, power loss and failing disks inside them."""
    g = Gen(rng, seed, "persist")
    wps = rng.sample(["w", "w2", "模型夹", "p/w"], rng.randint(1, 2))
    g.sc["files"]["p/keep.txt"] = "not yours"
    names = rng.sample(NAMES["save"], rng.randint(1, 2))
    wp = wps[0]
    g.new_session(0, wp)
    model(g, 0)
    last = None
    for _ in range(rng.randint(2, 5)):
        for _ in range(rng.randint(0, 2)):
            g.change(0)
        nm = rng.choice(names)
        st = g.save(0, nm)
        if rng.random() < .55:
            st["f"] = faults(rng, "save", crash=.6)
        last = nm
        if rng.random() < .25:
            g.noise([wp])
        if rng.random() < .3:
            g.add(op=rng.choice(["crash", "power"]))
        g.add(op="recover", s=0, wp=wp, name=nm)
        if rng.random() < .5:
            st = g.add(op="load", s=rng.choice([0, 1]), wp=wp, name=rng.choice(names))
            if rng.random() < .2:
                st["f"] = faults(rng, "load", crash=0)
                g.add(op="load", s=st["s"], wp=wp, name=st["name"])
        s = 0
        g.add(op="dump", s=0)
        if rng.random() < .6:
            g.add(op="assemble", s=0)
            c = rng.choice(g.cases(0))
            g.solve(0, c)
            g.ask(0, 2, [c])
        if rng.random() < .3:        # the folder moves, or a copy of it is used from now on
            to = next(w for w in ("moved", "p/m 2", "搬", "m3", "m4", "m5") if w not in wps)
            wps.append(to)
            g.add(op=rng.choice(["move", "move", "copy"]), wp=wp, to=to)
            old, wp = wp, to
            g.add(op="load", s=0, wp=wp, name=rng.choice(names))
            g.add(op="recover", s=0, wp=wp, name=nm)
            if g.steps[-3]["op"] == "copy" and rng.random() < .6:
                g.add(op="load", s=7, wp=old, name=rng.choice(names))
                g.add(op="assemble", s=7)
                c = rng.choice(g.cases(0))
                g.add(op="static", s=7, c=c)
                g.add(op="q", s=7, what="disp", a=[rng.choice(list(g.m[0].nodes)), c])
                g.add(op="save", s=7, name=rng.choice(names))
            if rng.random() < .5:
                g.add(op="static", s=0, c=rng.choice(g.cases(0)))
            g.ask(0, 2)
        # definitions may have fallen back to an older version: go on from there
    for nm in names:
        g.add(op="load", s=2, wp=wp, name=nm)
        g.add(op="dump", s=2)
        g.m[2] = g.m[0]
        g.names.update({(2, k): list(v) for (s_, k), v in list(g.names.items()) if s_ == 0})
        g.change(2)
        g.add(op="assemble", s=2)
        for c in g.cases(2)[:2]:
            g.solve(2, c)
            g.ask(2, 2, [c])
    return g.sc


def p_torn(rng, seed):
    """Overwriting saves, nearly all of them cut short or failing somewhere inside."""
    g = Gen(rng, seed, "torn")
    wp = "w"
    names = rng.sample(NAMES["save"], rng.randint(1, 2))
    g.new_session(0, wp)
    model(g, 0)
    for _ in range(rng.randint(3, 6)):
        if rng.random() < .4:
            g.change(0, ["nload", "grow", "case"])
        nm = rng.choice(names)
        st = g.save(0, nm)
        if rng.random() < .8:
            st["f"] = faults(rng, "save", crash=.6)
        for _ in range(rng.randint(1, 2)):
            g.add(op="load", s=rng.choice([1, 2]), wp=wp, name=rng.choice(names))
        if rng.random() < .25:
            g.add(op=rng.choice(["crash", "power"]))
        g.add(op="recover", s=0, wp=wp, name=nm)
    for nm in names:
        g.add(op="load", s=2, wp=wp, name=nm)
        g.add(op="dump", s=2)
    return g.sc


def p_analysis(rng, seed):
    """Faults and crashes inside assembling, solving and querying."""
    g = Gen(rng, seed, "analysis")
    wp = "w"
    g.new_session(0, wp)
    model(g, 0, shells=.06)
    safe = rng.random() < .7
    if safe:
        g.save(0, "m")
    for _ in range(rng.randint(2, 5)):
        for _ in range(rng.randint(0, 2)):
            g.change(0)
        if safe:
            g.save(0, "m")
        plan = ["assemble"] + [("solve", c) for c in rng.sample(g.cases(0), rng.randint(1, len(g.cases(0))))]
        for p in plan:
            if p == "assemble":
                st = g.add(op="assemble", s=0)
                opn = "assemble"
            else:
                st = g.solve(0, p[1])
                opn = st["op"]
            if rng.random() < .4:
                st["f"] = faults(rng, opn)
                g.add(op="recover", s=0, wp=wp, name="m")
                g.ask(0, rng.randint(1, 3), kinds=["disp", "disp", "all", "react", "force"])
            if rng.random() < .12:
                g.add(op=rng.choice(["crash", "power"]))
                g.add(op="recover", s=0, wp=wp, name="m")
        qs = g.queries(0, 3)
        for q in qs:
            if rng.random() < .25:
                q["f"] = faults(rng, "q", crash=.15)
            g.steps.append(q)
        g.add(op="recover", s=0, wp=wp, name="m")
        g.ask(0, 2)
    # faults have stopped: everything works again within one round
    g.add(op="assemble", s=0)
    for c in g.cases(0):
        g.solve(0, c)
        g.ask(0, 2, [c])
    return g.sc


def p_recover(rng, seed):
    """One heavy burst of faults, then a bounded fault-free round that must succeed."""
    g = Gen(rng, seed, "recover")
    wp = "w"
    st = g.add(op="new", s=0, wp=wp)
    if rng.random() < .3:
        st["f"] = faults(rng, "new", crash=.3)
        g.add(op="recover", s=0, wp=wp, name="m")
    g.m[0] = RefModel()
    for k in NAMES:
        g.names[(0, k)] = []
    model(g, 0, shells=.08)
    g.save(0, "m")
    for _ in range(rng.randint(2, 6)):
        k = rng.choice(["assemble", "solve", "save", "load", "q", "clear"])
        if k == "assemble":
            st = g.add(op="assemble", s=0)
        elif k == "solve":
            st = g.solve(0, rng.choice(g.cases(0)))
        elif k == "save":
            st = g.save(0, "m")
        elif k == "load":
            st = g.add(op="load", s=1, wp=wp, name="m")
        elif k == "clear":
            if rng.random() < .5:
                continue
            st = g.add(op="clear", s=0)
        else:
            st = g.queries(0, 1)[0]
            g.steps.append(st)
        st["f"] = faults(rng, st["op"], crash=.5)
        g.add(op="recover", s=0, wp=wp, name="m")
        if rng.random() < .3:
            g.change(0)
    if rng.random() < .3:
        g.add(op=rng.choice(["crash", "power"]))
        g.add(op="recover", s=0, wp=wp, name="m")
    # quiet from here
    g.save(0, "m")
    g.add(op="load", s=3, wp=wp, name="m")
    g.add(op="dump", s=3)
    s = rng.choice([0, 3])
    g.m[3] = g.m[0]
    g.add(op="assemble", s=s)
    for c in g.cases(0):
        g.solve(s, c)
        g.ask(s, 2, [c])
    return g.sc


def p_snapshot(rng, seed):
    """Edits between assembling, solving and asking; failed re-assembly; restarts."""
    g = Gen(rng, seed, "snapshot")
    wp = "w"
    g.new_session(0, wp)
    model(g, 0, shells=.06)
    g.add(op="assemble", s=0)
    old = g.cases(0)
    for _ in range(rng.randint(2, 5)):
        for _ in range(rng.randint(1, 3)):
            g.change(0)
        k = rng.random()
        if k < .3:
            st = g.add(op="assemble", s=0, f=faults(rng, "assemble", crash=0, intr=rng.random() < .3))
        elif k < .5:
            g.add(op="assemble", s=0)
        elif k < .6:
            g.save(0, "m")
            g.add(op="crash")
            g.add(op="recover", s=0, wp=wp, name="m")
        cs = rng.sample(g.cases(0), rng.randint(1, len(g.cases(0))))
        for c in cs:
            g.solve(0, c)
            if rng.random() < .5:
                g.ask(0, 1)
        g.ask(0, 3, [c], kinds=["disp", "disp", "all", "react", "force"])
        g.ask(0, 3, kinds=["disp", "disp", "all", "react", "force"])
    g.add(op="assemble", s=0)
    cs = g.cases(0)
    rng.shuffle(cs)
    g.change(0)
    for c in cs:
        g.solve(0, c)
    g.ask(0, 3, [cs[0]])
    g.ask(0, 3)
    return g.sc


def p_multi(rng, seed):
    """Sessions in different folders, interleaved call by call and inside calls."""
    g = Gen(rng, seed, "multi")
    n = rng.randint(2, 3)
    wps = rng.sample(["w", "w2", "W", "w.bak", "工作", "p/w", "q/w", "p/q/w"], n)
    for wp in wps:
        if "/" in wp:
            g.sc["files"][wp[:-1] + "keep.txt"] = "not yours"
    same_names = rng.random() < .7
    shared = random.Random(rng.random())
    for s in range(n):
        g.new_session(s, wps[s])
    par = rng.random() < .6
    if not par:
        # call-level interleaving
        lanes = []
        for s in range(n):
            base = len(g.steps)
            lane(g, s, wps[s], rng)
            lanes.append(g.steps[base:])
            del g.steps[base:]
        while any(lanes):
            k = rng.choice([i for i, l in enumerate(lanes) if l])
            for _ in range(rng.choice([1, 1, 2, 5])):
                if lanes[k]:
                    g.steps.append(lanes[k].pop(0))
        if rng.random() < .3:
            g.add(op="crash")
    else:
        lanes = []
        for s in range(n):
            base = len(g.steps)
            lane(g, s, wps[s], rng, short=True)
            lanes.append(g.steps[base:])
            del g.steps[base:]
        # where threads may be switched: at file operations, at function calls, at lines (of some functions)
        fn = rng.choice([False, False, True, "line", "line"])
        # everything after the definitions runs in parallel; sometimes the definitions too
        cut = [0] * n
        if rng.random() < .6:
            for i, l in enumerate(lanes):
                cut[i] = next((k for k, st in enumerate(l) if st["op"] != "edit"), 0)
        for i, l in enumerate(lanes):
            g.steps.extend(l[:cut[i]])
        if fn == "line":
            k = rng.choice([1, 8, 32, 32])
            fn = [k, rng.randrange(k)]
            if k == 1:
                sw = switches(rng, rng.choice([6000, 25000]))
            else:                       # short turns of one, while another goes on for long
                at, sw = int(20000 / k * rng.random() ** 3), []
                gaps = rng.choice([[1, 2, 3], [1, 2, 3, 5, 20, 60, 200], [20, 60, 200]])
                for _ in range(400):
                    sw.append([at, rng.randrange(4)])
                    at += rng.choice(gaps)
        else:
            sw = switches(rng, rng.choice([1500, 4000, 9000] if fn else [300, 600, 1200]))
        g.add(op="par", threads=[l[c:] for l, c in zip(lanes, cut)], sw=sw, fn=fn, hot=hotbits(rng),
              wr=lendbits(rng, .2))
    for s in range(n):
        g.add(op="dump", s=s)
        if g.cases(s):
            g.ask(s, 2)
    return g.sc


def lane(g, s, wp, rng, short=False):
    model(g, s, shells=.05)
    for _ in range(1 if short else rng.randint(1, 3)):
        g.change(s)
        if rng.random() < .4:
            g.save(s, rng.choice(["m", "model"]))
        g.add(op="assemble", s=s)
        for c in g.cases(s)[:2]:
            g.solve(s, c)
            g.ask(s, 2, [c])
        if rng.random() < .3:
            g.save(s, "m")
            g.add(op="load", s=s, wp=wp, name="m")
            g.add(op="dump", s=s)
        elif rng.random() < .15:
            g.add(op="clear", s=s)
            g.add(op="assemble", s=s)
            c = rng.choice(g.cases(s))
            g.solve(s, c)
            g.ask(s, 1, [c])


def hotbits(rng):
    """When to switch inside functions that use shared state: always, often, now and then."""
    k = rng.random()
    if k < .25:
        return 2 ** 61 - 1
    a, b, c = (rng.getrandbits(61) for _ in range(3))
    return a | b if k < .45 else a if k < .75 else a & b & c


def lendbits(rng, share):
    """When a call of another session comes in between just after a file was changed."""
    if rng.random() > share:
        return 0
    x = rng.getrandbits(61)
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        x &= rng.getrandbits(61)
    return x


def switches(rng, total):
    """When another thread goes on: here and there, steadily, or at every step of some stretches."""
    k = rng.random()
    if k < .5:
        ps = [int(total * rng.random() ** 1.5) for _ in range(rng.choice([2, 4, 10, 40, 120]))]
    elif k < .75:
        n = rng.choice([3, 7, 17, 61])
        ps = list(range(int(total * rng.random() ** 3), total, n))[:250]
    else:
        ps = [a + j for a in (rng.randrange(total) for _ in range(rng.randint(1, 4))) for j in range(rng.randint(10, 60))]
    return sorted([p, rng.randrange(4)] for p in set(ps))


def p_shared(rng, seed):
    """Several sessions over one folder at the same time: one or two write, others read."""
    g = Gen(rng, seed, "shared")
    if rng.random() < .7:                # small models, written in as many pieces as large ones
        g.sc["io"] = rng.choice([[64, 64], [64, 64], [128, 64], [512, 64], [64, 1 << 20], [4096, 256]])
    wp = "w"
    g.new_session(0, wp)
    model(g, 0, shells=.05)
    g.save(0, "m")
    g.add(op="assemble", s=0)
    cs = g.cases(0)
    for c in cs:
        g.solve(0, c)
    # readers and writers are loaded copies
    readers = rng.randint(1, 2)
    writers = rng.randint(1, 2)
    ids = list(range(1, 1 + readers + writers))
    for s in ids:
        g.add(op="load", s=s, wp=wp, name="m")
        g.m[s] = g.m[0].copy()
        for k in NAMES:
            g.names[(s, k)] = list(g.names[(0, k)])
    threads = []
    for s in ids[:readers]:
        qs = g.queries(s, rng.choice([3, 5, 7, 14]), cs, kinds=["disp", "disp", "all"])
        for q in qs:
            if q["what"] == "disp" and rng.random() < .15:
                q.clear()
                q.update({"op": "load", "s": s + 20, "wp": wp, "name": "m"})
        threads.append(qs)
    for s in ids[readers:]:
        base = len(g.steps)
        for _ in range(rng.randint(1, 3)):
            # same nodes and cases: what a reader asks for always exists
            m = g.m[s]
            pats = [p for p in m.pats if p != VPAT]
            for _ in range(rng.randint(1, 2)):
                if rng.random() < .5 or not g.change(s, SAME):
                    g.edit(s, "set_nodal_load", rng.choice(pats), rng.choice(list(m.nodes)), *g._nload())
            if rng.random() < .6:
                g.add(op="assemble", s=s)
            for c in rng.sample(cs, rng.randint(1, len(cs))):
                g.solve(s, c)
            if rng.random() < .4:
                g.save(s, "m")
        threads.append(g.steps[base:])
        del g.steps[base:]
    rng.shuffle(threads)
    fn = rng.random() < .3
    g.add(op="par", threads=threads, sw=switches(rng, rng.choice([300, 600, 1200]) if not fn else 5000), fn=fn,
          hot=hotbits(rng), wr=lendbits(rng, .8))
    g.add(op="load", s=40, wp=wp, name="m")
    g.ask(0, 3, cs, kinds=["disp", "all"])
    return g.sc


def p_clear(rng, seed):
    """Emptying the work folder among neighbours, links and leftovers."""
    g = Gen(rng, seed, "clear")
    wps = rng.sample(["w", "w2", "deep", "w.d"], 2)
    for k, wp in enumerate(wps):
        for nm in ("keep.txt", "x/y.txt"):
            g.sc["files"]["%s_side/%s" % (wp, nm)] = "neighbour %d" % k
    g.sc["files"]["outside/data.npy"] = "precious"
    g.sc["files"]["outside/sub/file"] = "precious"
    for s, wp in enumerate(wps):
        g.new_session(s, wp)
        model(g, s, shells=.05, modal=False)
    for _ in range(rng.randint(1, 3)):
        s = rng.randrange(2)
        wp = wps[s]
        if rng.random() < .5:
            g.save(s, rng.choice(["m", "model"]))
        g.change(s)
        g.add(op="assemble", s=s)
        for c in g.cases(s)[:2]:
            g.solve(s, c)
        o = 1 - s
        g.add(op="assemble", s=o)
        c2 = rng.choice(g.cases(o))
        g.solve(o, c2)
        if rng.random() < .6:
            g.add(op="debris", wp=wp, name=rng.choice(["sub", "sub2"]), kind="dir")
        if rng.random() < .5:
            g.add(op="debris", wp=wp, name="link", kind="link", to=rng.choice(["outside", "outside/data.npy", wps[o]]))
        if rng.random() < .4:
            g.noise([wp])
        st = g.add(op="clear", s=s)
        if rng.random() < .45:
            st["f"] = faults(rng, "clear", crash=.4)
            g.add(op="recover", s=s, wp=wp, name="m")
        g.ask(s, 1)
        g.ask(o, 2, [c2])
        g.add(op="load", s=5, wp=wp, name="m")
        if rng.random() < .3:
            g.add(op="clear", s=s)
        g.add(op="recover", s=s, wp=wp, name="m")
        g.add(op="assemble", s=s)
        c = rng.choice(g.cases(s))
        g.solve(s, c)
        g.ask(s, 2, [c])
    return g.sc


def p_tidy(rng, seed):
    """Repeated calls, listings, pure queries."""
    g = Gen(rng, seed, "tidy")
    wp = rng.choice(["w", "w x"])
    g.sc["files"]["%s2/other.sep" % wp] = "not yours"
    g.sc["files"]["model.sep"] = "not yours"
    g.new_session(0, wp)
    model(g, 0, modal=rng.random() < .5)
    g.add(op="pure", s=0, qs=g.queries(0, 3))
    g.bump(0)
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .5:
            g.change(0)
        k = rng.choice(["assemble", "solve", "save"])
        g.add(op="assemble", s=0)
        if k == "assemble":
            inner = {"op": "assemble", "s": 0}
        elif k == "save":
            inner = {"op": "save", "s": 0, "name": "m"}
        else:
            c = rng.choice(g.cases(0))
            inner = g.solve(0, c)
            g.steps.pop()
        g.add(op="repeat", s=0, inner=inner)
        cs = g.cases(0)
        c = rng.choice(cs)
        g.solve(0, c)
        if rng.random() < .4:
            g.noise([wp])
        g.add(op="pure", s=0, qs=g.queries(0, 5))
        if rng.random() < .4:
            g.add(op="alias", s=0, qs=g.queries(0, 4))
            g.add(op="dump", s=0)
            g.add(op="assemble", s=0)
            g.solve(0, c)
        g.ask(0, 2, [c])
    g.add(op="dump", s=0)
    return g.sc


def p_define(rng, seed):
    """Definitions only: many edits, refused calls and read-backs, through save, load and restarts."""
    g = Gen(rng, seed, "define")
    wp = "w"
    g.new_session(0, wp)
    model(g, 0, shells=.3)
    for _ in range(rng.randint(4, 10)):
        k = rng.random()
        if k < .5:
            g.change(0)
        elif k < .75:
            g.invalid(0)
        elif k < .85:
            n = g.name(0, "node")
            g.edit(0, "add_node", n, rn(rng, -9, 9), rn(rng, -9, 9), rn(rng, -9, 9))
            if rng.random() < .6:      # moved before anything uses it
                g.edit(0, "add_node", n, rn(rng, -9, 9), rn(rng, -9, 9), rn(rng, -9, 9))
            g.floating = True
        elif k < .95:
            g.save(0, "m")
            st = g.add(op="load", s=0, wp=wp, name="m")
        else:
            g.save(0, "m")
            g.add(op=rng.choice(["crash", "power"]))
            g.add(op="recover", s=0, wp=wp, name="m")
        if rng.random() < .5:
            g.add(op="dump", s=0)
        if rng.random() < .15:
            g.add(op="alias", s=0, qs=[])
            g.add(op="dump", s=0)
        if rng.random() < .3:
            g.add(op="assemble", s=0)
            if g.stable(g.m[0]):
                c = rng.choice(g.cases(0))
                g.solve(0, c)
                g.ask(0, 2, [c])
    g.add(op="dump", s=0)
    if g.stable(g.m[0]):
        g.add(op="assemble", s=0)
        for c in g.cases(0)[:3]:
            g.solve(0, c)
            g.ask(0, 2, [c])
    return g.sc


PROFILES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("p_")}


def generate(profile, seed):
    rng = random.Random("scenario:%s:%s" % (profile, seed))
    sc = PROFILES[profile](rng, seed)
    if random.Random("paths:%s:%s" % (profile, seed)).random() < .3:
        sc["rel"] = True             # work folders given by paths relative to the current folder
    return sc
