"""Executable reference model.

RefModel is a pure-data state machine of one session's definitions (what a user
has entered), RefFE a small dense linear frame solver used as the physics oracle.
Neither imports anything of the repository.
"""
import copy
import functools
import json
import math

import numpy as np

PI = math.pi


UNDEF = "not defined"         # a name no scenario defines
NONES = ("loc", "conn", "bloc", "sconn", "sloc", "rest", "loads", "load")


class Rejected(Exception):
    pass


def _num(*vals):
    for v in vals:
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise Rejected("not a number")
    return [float(v) for v in vals]


def _pad(v, n, default, typ):
    """Arguments a call left to their defaults."""
    return [typ(x) for x in v] + [default] * (n - len(v))


@functools.lru_cache(None)
def _st_venant_rect(h, b):
    s = sum(math.tanh(m * PI * h / 2 / b) / m ** 5 for m in range(1, 1000, 2))
    return h * b ** 3 * (1 / 3 - 64 * b / (PI ** 5 * h) * s)


def section_props(kind, a):
    """A, I22, I33, J from the geometry."""
    if kind == "general":
        A, As2, As3, I22, I33, J, W22, W33 = a
        return A, I22, I33, J
    if kind == "rectangle":
        h, b = a
        return h * b, h * b ** 3 / 12, b * h ** 3 / 12, _st_venant_rect(h, b)
    if kind == "circle":
        d, = a
        return PI * d ** 2 / 4, PI * d ** 4 / 64, PI * d ** 4 / 64, PI * d ** 4 / 32
    if kind == "pipe":
        d, t = a
        e = d - 2 * t
        i = PI * (d ** 4 - e ** 4) / 64
        return PI * (d ** 2 - e ** 2) / 4, i, i, 2 * i
    if kind == "box":
        h, b, tw, tf = a
        A = h * b - (h - 2 * tf) * (b - 2 * tw)
        Om = 2 * (h - tf) * (b - tw)
        J = Om ** 2 / (2 * ((b - tw) / tf + (h - tf) / tw))
        return (A, h * b ** 3 / 12 - (h - 2 * tf) * (b - 2 * tw) ** 3 / 12,
                b * h ** 3 / 12 - (b - 2 * tw) * (h - 2 * tf) ** 3 / 12, J)
    if kind == "I":
        h, b, tw, tf = a
        return (b * h - (b - tw) * (h - 2 * tf), 2 * tf * b ** 3 / 12 + (h - 2 * tf) * tw ** 3 / 12,
                (b * h ** 3 - (b - tw) * (h - 2 * tf) ** 3) / 12,
                2 * _st_venant_rect(tf, b) + _st_venant_rect(tw, h - 2 * tf))
    raise Rejected("unknown section kind")


class RefModel:
    """Definitions of one session. Every mutator returns True (accepted) or raises
    Rejected (and then nothing has changed)."""

    def __init__(self):
        self.nodes = {}      # name -> [x,y,z]
        self.hid = {}        # name -> index, never reused
        self.mass = {}       # name -> [6]
        self.rest = {}       # name -> [6 bools]
        self.mats = {}       # name -> [rho,E,mu,a]
        self.secs = {}       # name -> {kind,args,mat}
        self.shsecs = {}     # name -> {mat,t,type}
        self.beams = {}      # name -> {i,j,sec|simple}
        self.rel = {}        # beam -> [12 bools]
        self.shells = {}     # name -> {nodes,sec}
        self.pats = {}       # name -> {nodal,dist,conc}
        self.cases = {}      # name -> {type,pats:{name:factor},rest}

    def copy(self):
        return copy.deepcopy(self)

    def key(self):
        return json.dumps(self.__dict__)

    @staticmethod
    def from_key(key):
        m = RefModel()
        m.__dict__.update(json.loads(key))
        return m

    # -- dispatch ---------------------------------------------------------
    def apply(self, method, args):
        """-> True when accepted, False when rejected (state unchanged)."""
        try:
            getattr(self, "op_" + method)(*args)
            return True
        except (Rejected, KeyError):
            return False

    def expand(self, macro, a):
        """The calls that redefine something together with what refers to it, so that
        it makes no difference whether references follow a redefinition."""
        if macro == "*repattern":
            return [("add_loadpattern", [a[0]])] + [("add_case_pattern", [c, a[0], v["pats"][a[0]]])
                                                    for c, v in self.cases.items() if a[0] in v["pats"]]
        n = a[0]
        if any(n in v["nodes"] for v in self.shells.values()):
            return []
        out = [("add_node", a[:4]), ("set_nodal_mass", [n] + a[4:])]
        for b, v in self.beams.items():
            if n in (v["i"], v["j"]):
                out.append(("add_simple_beam", [b, v["i"], v["j"]] + list(v["simple"])) if "simple" in v else
                           ("add_beam", [b, v["i"], v["j"], v["sec"]]))
                out.append(("set_beam_release", [b] + list(self.rel[b])))
        return out

    # -- definitions ------------------------------------------------------
    def op_add_node(self, name, x, y, z):
        c = _num(x, y, z)
        self.hid.setdefault(name, len(self.nodes))
        self.nodes[name] = c
        self.mass.pop(name, None)

    def op_set_nodal_mass(self, name, *m):
        self.nodes[name]
        self.mass[name] = _pad(m, 6, 0.0, float)

    def op_set_nodal_restraint(self, name, *r):
        self.nodes[name]
        self.rest[name] = _pad(r, 6, False, bool)

    def op_add_isotropic_material(self, name, rho, E, mu, a):
        self.mats[name] = _num(rho, E, mu, a)

    def _sec(self, kind, name, mat, args):
        self.mats[mat]
        self.secs[name] = {"kind": kind, "args": _num(*args), "mat": list(self.mats[mat]), "matname": mat}

    def op_add_beam_section_general(self, name, mat, *a):
        self._sec("general", name, mat, a)

    def op_add_beam_section_rectangle(self, name, mat, *a):
        self._sec("rectangle", name, mat, a)

    def op_add_beam_section_circle(self, name, mat, *a):
        self._sec("circle", name, mat, a)

    def op_add_beam_section_pipe(self, name, mat, *a):
        self._sec("pipe", name, mat, a)

    def op_add_beam_section_box(self, name, mat, *a):
        self._sec("box", name, mat, a)

    def op_add_beam_section_I(self, name, mat, *a):
        self._sec("I", name, mat, a)

    def op_add_shell_section(self, name, mat, t, ele_type="shell"):
        self.mats[mat]
        self.shsecs[name] = {"mat": list(self.mats[mat]), "matname": mat, "t": t, "type": ele_type}

    def _ends(self, i, j):
        a, b = np.array(self.nodes[i]), np.array(self.nodes[j])
        if np.linalg.norm(a - b) < 1e-6:
            raise Rejected("zero length")
        return a, b

    def op_add_beam(self, name, i, j, sec):
        self._ends(i, j)
        s = self.secs[sec]
        self.beams[name] = {"i": i, "j": j, "sec": sec, "props": dict(s)}
        self.rel[name] = [False] * 12

    def op_add_simple_beam(self, name, i, j, E, mu, A, I2, I3, J, rho):
        self._ends(i, j)
        self.beams[name] = {"i": i, "j": j, "simple": _num(E, mu, A, I2, I3, J, rho)}
        self.rel[name] = [False] * 12

    def op_set_beam_release(self, name, *r):
        self.beams[name]
        self.rel[name] = _pad(r, 12, False, bool)

    def op_add_shell(self, name, n1, n2, n3, n4, sec):
        for n in (n1, n2, n3, n4):
            self.nodes[n]
        s = self.shsecs[sec]
        self.shells[name] = {"nodes": [n1, n2, n3, n4], "sec": sec, "props": dict(s)}

    # -- loads ------------------------------------------------------------
    def op_add_loadpattern(self, name):
        self.pats[name] = {"nodal": {}, "dist": {}, "conc": {}}

    def op_set_nodal_load(self, pat, node, *f):
        self.pats[pat]["nodal"][node] = _pad(f, 6, 0.0, float)

    def op_set_beam_load_distributed(self, pat, beam, *f):
        self.pats[pat]["dist"][beam] = _pad(f, 8, 0.0, float)

    def op_set_beam_load_concentrated(self, pat, beam, *f):
        self.pats[pat]["conc"][beam] = _pad(f[:6], 6, 0.0, float) + [float(f[6]) if len(f) > 6 else .5]

    def op_add_static_case(self, name):
        self.cases[name] = {"type": "static", "pats": {}, "rest": {}}

    def op_add_modal_case(self, name):
        self.cases[name] = {"type": "modal", "pats": {}, "rest": {}}

    def op_add_case_pattern(self, case, pat, factor):
        self.pats[pat]
        self.cases[case]["pats"][pat] = float(factor)

    def op_set_loadcase_nodal_restraint(self, case, node, *r):
        self.cases[case]["rest"][node] = _pad(r, 6, False, bool)

    # -- read back --------------------------------------------------------
    def dump(self):
        """What the definition queries must return."""
        d = {"nodes": sorted(self.nodes), "beams": sorted(self.beams), "shells": sorted(self.shells)}
        for n, c in self.nodes.items():
            d["loc:" + n] = c
        for b, v in self.beams.items():
            d["conn:" + b] = [v["i"], v["j"]]
            d["bloc:" + b] = [self.nodes[v["i"]], self.nodes[v["j"]]]
        for s, v in self.shells.items():
            d["sconn:" + s] = list(v["nodes"])
            d["sloc:" + s] = [self.nodes[n] for n in v["nodes"]]
        d["rest"] = {n: list(r) for n, r in self.rest.items()}
        for c, v in self.cases.items():
            d["rest:" + c] = {n: list(r) for n, r in v["rest"].items()}
        for p, v in self.pats.items():
            d["loads:" + p] = {n: list(f) for n, f in v["nodal"].items()}
            for n in v["nodal"]:
                d["load:%s:%s" % (p, n)] = list(v["nodal"][n])
            d["none:load:" + p] = None
        for k in NONES:
            d["none:" + k] = None
        return d

    # -- helpers ----------------------------------------------------------
    def fixed_dofs(self, case):
        rest = self.cases[case]["rest"] or self.rest
        out = []
        for n, r in rest.items():
            if n not in self.hid:
                raise Rejected("restraint on an undefined node")
            out += [self.hid[n] * 6 + k for k in range(6) if r[k]]
        return sorted(out)

    def shell_scope(self, case):
        """A model with shells whose stability is evident: connected, held at two nodes."""
        rest = self.cases[case]["rest"] or self.rest
        if any(any(r) for r in self.rel.values()) or self.cases[case]["type"] == "modal":
            return False
        if any(n not in self.hid for n in rest) or sum(1 for r in rest.values() if all(r)) < 2:
            return False
        groups = [set(s["nodes"]) for s in self.shells.values()] + [{b["i"], b["j"]} for b in self.beams.values()]
        one = groups.pop(0)
        while True:
            add = [g for g in groups if g & one]
            if not add:
                break
            for g in add:
                one |= g
                groups.remove(g)
        held = [n for n, r in rest.items() if all(r)]
        return not groups and one == set(self.nodes) and all(n in one for n in held)

    def build_ops(self):
        """The shortest edit sequence that defines this model in an empty session."""
        ops = []
        for n in sorted(self.nodes, key=lambda n: self.hid[n]):
            ops.append(["add_node", [n] + self.nodes[n]])
        for n, m in self.mass.items():
            ops.append(["set_nodal_mass", [n] + m])
        for n, r in self.rest.items():
            ops.append(["set_nodal_restraint", [n] + r])
        for m, v in self.mats.items():
            ops.append(["add_isotropic_material", [m] + v])
        # what was defined with a material or section that was defined anew since, keeps the old one
        old = {}
        taken = set(self.mats) | set(self.secs) | set(self.shsecs)

        def fresh(prefix):
            n = 0
            while "%s%d" % (prefix, n) in taken:
                n += 1
            taken.add("%s%d" % (prefix, n))
            return "%s%d" % (prefix, n)

        def mat(v):
            if self.mats.get(v["matname"]) == v["mat"]:
                return v["matname"]
            k = "m" + json.dumps(v["mat"])
            if k not in old:
                old[k] = fresh("__m")
                ops.append(["add_isotropic_material", [old[k]] + v["mat"]])
            return old[k]

        def sec(name, v, table, add):
            if table.get(name) == v:
                return name
            k = "s" + json.dumps(v)
            if k not in old:
                old[k] = fresh("__s")
                add(old[k], v)
            return old[k]

        def add_sec(s, v):
            m = mat(v)
            ops.append(["add_beam_section_" + v["kind"], [s, m] + v["args"]])

        def add_shsec(s, v):
            m = mat(v)
            ops.append(["add_shell_section", [s, m, v["t"], v["type"]]])

        for s, v in self.secs.items():
            add_sec(s, v)
        for s, v in self.shsecs.items():
            add_shsec(s, v)
        for b, v in self.beams.items():
            if "simple" in v:
                ops.append(["add_simple_beam", [b, v["i"], v["j"]] + v["simple"]])
            else:
                k = sec(v["sec"], v["props"], self.secs, add_sec)
                ops.append(["add_beam", [b, v["i"], v["j"], k]])
        for b, r in self.rel.items():
            if any(r):
                ops.append(["set_beam_release", [b] + r])
        for s, v in self.shells.items():
            k = sec(v["sec"], v["props"], self.shsecs, add_shsec)
            ops.append(["add_shell", [s] + v["nodes"] + [k]])
        for p, v in self.pats.items():
            ops.append(["add_loadpattern", [p]])
            for n, f in v["nodal"].items():
                ops.append(["set_nodal_load", [p, n] + f])
            for b, f in v["dist"].items():
                ops.append(["set_beam_load_distributed", [p, b] + f])
            for b, f in v["conc"].items():
                ops.append(["set_beam_load_concentrated", [p, b] + f])
        for c, v in self.cases.items():
            ops.append(["add_static_case" if v["type"] == "static" else "add_modal_case", [c]])
            for p, f in v["pats"].items():
                ops.append(["add_case_pattern", [c, p, f]])
            for n, r in v["rest"].items():
                ops.append(["set_loadcase_nodal_restraint", [c, n] + r])
        return ops

    def shuffled_ops(self, rng):
        """The same definitions in another order that respects what refers to what."""
        ops = self.build_ops()
        need, give = [], []
        for m, a in ops:
            n, g = [], None
            if m == "add_node":
                g = ("node", a[0])
            elif m in ("set_nodal_mass", "set_nodal_restraint"):
                n = [("node", a[0])]
            elif m == "add_isotropic_material":
                g = ("mat", a[0])
            elif m.startswith("add_beam_section_"):
                g, n = ("sec", a[0]), [("mat", a[1])]
            elif m == "add_shell_section":
                g, n = ("shsec", a[0]), [("mat", a[1])]
            elif m == "add_simple_beam":
                g, n = ("beam", a[0]), [("node", a[1]), ("node", a[2])]
            elif m == "add_beam":
                g, n = ("beam", a[0]), [("node", a[1]), ("node", a[2]), ("sec", a[3])]
            elif m == "set_beam_release":
                n = [("beam", a[0])]
            elif m == "add_shell":
                g, n = ("shell", a[0]), [("node", x) for x in a[1:5]] + [("shsec", a[5])]
            elif m == "add_loadpattern":
                g = ("pat", a[0])
            elif m == "set_nodal_load":
                n = [("pat", a[0]), ("node", a[1])]
            elif m.startswith("set_beam_load_"):
                n = [("pat", a[0]), ("beam", a[1])]
            elif m in ("add_static_case", "add_modal_case"):
                g = ("case", a[0])
            elif m == "add_case_pattern":
                n = [("case", a[0]), ("pat", a[1])]
            elif m == "set_loadcase_nodal_restraint":
                n = [("case", a[0]), ("node", a[1])]
            need.append(n)
            give.append(g)
        there = set(g for g in give if g)
        need = [[x for x in n if x in there] for n in need]      # loads may name what is not defined
        out, done, left = [], set(), list(range(len(ops)))
        while left:
            ready = [k for k in left if all(x in done for x in need[k])]
            k = rng.choice(ready)
            left.remove(k)
            out.append(ops[k])
            if give[k]:
                done.add(give[k])
        return out


# ---------------------------------------------------------------------------
# dense frame solver
# ---------------------------------------------------------------------------

def _axes(a, b):
    x = (b - a) / np.linalg.norm(b - a)
    up = np.array([1.0, 0, 0]) if np.max(np.abs((a - b)[:2])) < 1e-9 else np.array([0, 0, 1.0])
    z = np.cross(x, up)
    z /= np.linalg.norm(z)
    y = np.cross(z, x)
    return np.array([x, y, z])


_GP, _GW = np.polynomial.legendre.leggauss(5)


def _shape(xi, l):
    """Rows: u, v, w, theta_x, v', w' as 12-vectors of end displacements."""
    u = np.zeros(12); v = np.zeros(12); w = np.zeros(12); t = np.zeros(12)
    dv = np.zeros(12); dw = np.zeros(12)
    u[0], u[6] = 1 - xi, xi
    t[3], t[9] = 1 - xi, xi
    h = [1 - 3 * xi ** 2 + 2 * xi ** 3, (xi - 2 * xi ** 2 + xi ** 3) * l,
         3 * xi ** 2 - 2 * xi ** 3, (xi ** 3 - xi ** 2) * l]
    g = [(-6 * xi + 6 * xi ** 2) / l, 1 - 4 * xi + 3 * xi ** 2,
         (6 * xi - 6 * xi ** 2) / l, 3 * xi ** 2 - 2 * xi]
    v[[1, 5, 7, 11]] = h
    dv[[1, 5, 7, 11]] = g
    s = np.array([1, -1, 1, -1])
    w[[2, 4, 8, 10]] = s * h
    dw[[2, 4, 8, 10]] = s * g
    return u, v, w, t, dv, dw


# the rule the stand-in of quadpy uses for degree 2 (stubs/quadpy/c2.py)
_SP = [((2 / 3) ** .5, 0.0), (-(2 / 3) ** .5, 0.0), (0.0, (2 / 3) ** .5), (0.0, -(2 / 3) ** .5)]


def _membrane_B(s, t, X):
    """Strains of the four-node membrane with in-plane rotations (12 columns u, v, rz per node)."""
    si, ti = np.array([1, 1, -1, -1.]), np.array([-1, 1, 1, -1.])
    x, y = X[:, 0], X[:, 1]
    a = [(si * x).sum() / 4, (ti * x).sum() / 4, (si * ti * x).sum() / 4]
    b = [(si * y).sum() / 4, (ti * y).sum() / 4, (si * ti * y).sum() / 4]
    Ns, Nt = si * (1 + ti * t) / 4, ti * (1 + si * s) / 4
    J = np.array([[Ns @ x, Ns @ y], [Nt @ x, Nt @ y]])
    B = np.zeros((3, 12))
    for i in range(4):
        cx = [b[0] + b[2] * ti[i], b[1] + b[2] * si[i]]
        cy = [-(a[0] + a[2] * ti[i]), -(a[1] + a[2] * si[i])]
        g = []                       # d/ds, d/dt of the two bubbles
        g.append([(1 - 3 * s * s) * (1 + ti[i] * t), s * (1 - s * s) * ti[i]])
        g.append([ti[i] * (1 - t * t) * si[i], ti[i] * -2 * t * (1 + si[i] * s)])
        g = np.array(g)
        du = np.array(cx) @ g / 8
        dv = np.array(cy) @ g / 8
        n = np.linalg.solve(J, [Ns[i], Nt[i]])
        u, v = np.linalg.solve(J, du), np.linalg.solve(J, dv)
        B[:, 3 * i] = [n[0], 0, n[1]]
        B[:, 3 * i + 1] = [0, n[1], n[0]]
        B[:, 3 * i + 2] = [u[0], v[1], u[1] + v[0]]
    return B, np.linalg.det(J)


def _plate_B(s, t, X, known=False):
    """Curvatures of the discrete Kirchhoff quadrilateral (12 columns w, rx, ry per node)."""
    si, ti = np.array([-1, 1, 1, -1.]), np.array([-1, -1, 1, 1.])
    nxt = [1, 2, 3, 0]
    d = np.array([X[k] - X[nxt[k]] for k in range(4)])
    l2 = (d ** 2).sum(1)
    ak, bk = -d[:, 0] / l2, .75 * d[:, 0] * d[:, 1] / l2
    ck, dk = (.25 * d[:, 0] ** 2 - .5 * d[:, 1] ** 2) / l2, -d[:, 1] / l2
    ek = (-.5 * d[:, 0] ** 2 + .25 * d[:, 1] ** 2) / l2
    # serendipity corner and midside functions: derivatives
    cs = [si[i] / 4 * (1 + ti[i] * t) * (2 * si[i] * s + ti[i] * t) for i in range(4)]
    ct = [ti[i] / 4 * (1 + si[i] * s) * (si[i] * s + 2 * ti[i] * t) for i in range(4)]
    ms = [-s * (1 - t), (1 - t * t) / 2, -s * (1 + t), -(1 - t * t) / 2]
    mt = [-(1 - s * s) / 2, -t * (1 + s), (1 - s * s) / 2, -t * (1 - s)]
    Ns, Nt = si * (1 + ti * t) / 4, ti * (1 + si * s) / 4
    J = np.array([[Ns @ X[:, 0], Ns @ X[:, 1]], [Nt @ X[:, 0], Nt @ X[:, 1]]])
    D = []
    for c, m in ((cs, ms), (ct, mt)):
        hx, hy = np.zeros(12), np.zeros(12)
        for i in range(4):
            p = (i + 3) % 4              # side before, side after
            hx[3 * i:3 * i + 3] = [1.5 * (ak[i] * m[i] - ak[p] * m[p]), bk[i] * m[i] + bk[p] * m[p],
                                   c[i] - ck[i] * m[i] - ck[p] * m[p]]
            hy[3 * i:3 * i + 3] = [1.5 * (dk[i] * m[i] - dk[p] * m[p]), -c[i] + ek[i] * m[i] + ek[p] * m[p],
                                   -bk[i] * m[i] - bk[p] * m[p]]
        D.append((hx, hy))
    Ji = np.linalg.inv(J)
    if known:                        # known finding: the diagonal of the inverse is exchanged
        Ji = np.array([[J[0, 0], -J[0, 1]], [-J[1, 0], J[1, 1]]]) / np.linalg.det(J)
    X1 = Ji @ np.array([D[0][0], D[1][0]])
    Y1 = Ji @ np.array([D[0][1], D[1][1]])
    return np.array([X1[0], Y1[1], X1[1] + Y1[0]]), np.linalg.det(J)


def _shell(P, E, mu, t, typ, known=False):
    """Stiffness of a flat quadrilateral in global axes."""
    z = np.cross(P[0] - P[1], P[1] - P[2])
    z /= np.linalg.norm(z)
    x = np.cross([0, 1.0, 0] if abs(abs(z[2]) - 1) < 1e-9 else [0, 0, 1.0], z)
    x /= np.linalg.norm(x)
    lam = np.array([x, np.cross(z, x), z])
    X = ((P - P.mean(0)) @ lam.T)[:, :2]
    D = E / (1 - mu ** 2) * np.array([[1, mu, 0], [mu, 1, 0], [0, 0, (1 - mu) / 2]])
    K = np.zeros((24, 24))
    for cols, B_, fac, kinds in (([0, 1, 5], _membrane_B, t, ("membrane", "shell")),
                                 ([2, 3, 4], _plate_B, t ** 3 / 12, ("plate", "shell"))):
        if typ not in kinds:
            continue
        k = np.zeros((12, 12))
        for s, r in _SP:
            B, det = _plate_B(s, r, X, known) if B_ is _plate_B else B_(s, r, X)
            k += B.T @ D @ B * det * fac
        ix = [6 * i + c for i in range(4) for c in cols]
        K[np.ix_(ix, ix)] = k
    T = np.kron(np.eye(8), lam)
    return T.T @ K @ T


class RefFE:
    """Linear response of a RefModel."""

    def __init__(self, m, known=False):
        """known: with the shells as known_findings.json describes them."""
        self.m = m
        self.n = len(m.nodes)
        self.beams = {}
        K = np.zeros((6 * self.n, 6 * self.n))
        M = np.zeros(6 * self.n)
        for name, b in m.beams.items():
            e = self._beam(name, b)
            self.beams[name] = e
            ix = e["ix"]
            K[np.ix_(ix, ix)] += e["T"].T @ e["K"] @ e["T"]
            M[ix] += e["M"]
        for sh in m.shells.values():
            ix = [6 * m.hid[n] + k for n in sh["nodes"] for k in range(6)]
            K[np.ix_(ix, ix)] += _shell(np.array([m.nodes[n] for n in sh["nodes"]]), *sh["props"]["mat"][1:3],
                                        sh["props"]["t"], sh["props"]["type"], known)
        for n, v in m.mass.items():
            M[6 * m.hid[n]:6 * m.hid[n] + 6] += v
        self.K, self.M = K, M
        # the torsion constant of an I section is a series of which the code sums the first terms
        self.tol = 2e-4 if any(b.get("props", {}).get("kind") == "I" for b in m.beams.values()) else 2e-5
        self._cases = {}

    def _beam(self, name, b):
        m = self.m
        pa, pb = np.array(m.nodes[b["i"]]), np.array(m.nodes[b["j"]])
        l = np.linalg.norm(pb - pa)
        if "simple" in b:
            E, mu, A, I2, I3, J, rho = b["simple"]
        else:
            rho, E, mu, _ = b["props"]["mat"]
            A, I2, I3, J = section_props(b["props"]["kind"], b["props"]["args"])
        G = E / 2 / (1 + mu)
        K = np.zeros((12, 12))
        # strain energy by quadrature over the shape functions
        for gp, gw in zip(_GP, _GW):
            xi = (gp + 1) / 2
            wgt = gw * l / 2
            du = np.zeros(12); du[0], du[6] = -1 / l, 1 / l
            dt = np.zeros(12); dt[3], dt[9] = -1 / l, 1 / l
            c = np.array([(-6 + 12 * xi) / l ** 2, (-4 + 6 * xi) / l, (6 - 12 * xi) / l ** 2, (6 * xi - 2) / l])
            cv = np.zeros(12); cv[[1, 5, 7, 11]] = c
            cw = np.zeros(12); cw[[2, 4, 8, 10]] = c * [1, -1, 1, -1]
            K += wgt * (E * A * np.outer(du, du) + G * J * np.outer(dt, dt)
                        + E * I3 * np.outer(cv, cv) + E * I2 * np.outer(cw, cw))
        rel = [k for k in range(12) if m.rel[name][k]]
        slack = False
        R = np.eye(12)               # maps fixed-end loads to condensed loads
        if rel:
            keep = [k for k in range(12) if k not in rel]
            Kr = K[np.ix_(rel, rel)]
            P = np.linalg.pinv(Kr, rcond=1e-9)
            dg = np.sqrt(np.diag(Kr))
            slack = bool(np.linalg.eigvalsh(Kr / np.outer(dg, dg))[0] < 1e-6)
            X = K[np.ix_(keep, rel)] @ P
            Kc = np.zeros((12, 12))
            Kc[np.ix_(keep, keep)] = K[np.ix_(keep, keep)] - X @ K[np.ix_(rel, keep)]
            R = np.zeros((12, 12))
            R[np.ix_(keep, keep)] = np.eye(len(keep))
            R[np.ix_(keep, rel)] = -X
            K = Kc
        lam = _axes(pa, pb)
        T = np.kron(np.eye(4), lam)
        Md = np.zeros(12)
        Md[[0, 1, 2, 6, 7, 8]] = rho * A * l / 2
        Md[[3, 4, 5, 9, 10, 11]] = 1e-12
        for k in rel:
            Md[k] = 0
        hi, hj = m.hid[b["i"]], m.hid[b["j"]]
        ix = list(range(6 * hi, 6 * hi + 6)) + list(range(6 * hj, 6 * hj + 6))
        return {"K": K, "T": T, "R": R, "l": l, "ix": ix, "M": Md, "rel": rel, "slack": slack}

    def _beam_load(self, beam, pat):
        l = self.beams[beam]["l"]
        f = np.zeros(12)
        if beam in pat["dist"]:
            pi, pj, q2i, q2j, q3i, q3j, ti, tj = (list(pat["dist"][beam]) + [0.0] * 8)[:8]
            for gp, gw in zip(_GP, _GW):
                xi = (gp + 1) / 2
                u, v, w, t, _, _ = _shape(xi, l)
                wt = gw * l / 2
                lin = lambda a, b: a * (1 - xi) + b * xi
                f += wt * (lin(pi, pj) * u + lin(q2i, q2j) * v + lin(q3i, q3j) * w + lin(ti, tj) * t)
        if beam in pat["conc"]:
            c = list(pat["conc"][beam])
            F1, F2, F3, M1, M2, M3, r = c + [0.0] * (6 - len(c)) + [0.5] if len(c) < 7 else c
            u, v, w, t, dv, dw = _shape(r, l)
            f += F1 * u + F2 * v + F3 * w + M1 * t - M2 * dw + M3 * dv
        return f

    def beam_f(self, beam, case):
        f = np.zeros(12)
        for p, fac in self.m.cases[case]["pats"].items():
            f += fac * self._beam_load(beam, self.m.pats[p])
        return self.beams[beam]["R"] @ f

    def nodal_f(self, case):
        f = np.zeros(6 * self.n)
        for p, fac in self.m.cases[case]["pats"].items():
            for n, v in self.m.pats[p]["nodal"].items():
                if n in self.m.hid:
                    h = self.m.hid[n]
                    f[6 * h:6 * h + 6] += fac * np.array((v + [0.0] * 6)[:6])
        return f

    def load(self, case):
        f = self.nodal_f(case)
        for b, e in self.beams.items():
            f[e["ix"]] += e["T"].T @ self.beam_f(b, case)
        return f

    def condition(self, case):
        fixed = self.m.fixed_dofs(case)
        free = np.setdiff1d(np.arange(6 * self.n), fixed)
        if free.size == 0:
            return np.inf
        for b, e in self.beams.items():       # a load on a mechanism inside a beam has no answer
            if e["slack"] and any(np.any(self._beam_load(b, self.m.pats[p])) for p in self.m.cases[case]["pats"]):
                return np.inf
        A = self.K[np.ix_(free, free)]
        d = np.sqrt(np.abs(np.diag(A)))
        if np.any(d == 0):
            return np.inf
        w = np.linalg.eigvalsh(A / np.outer(d, d))
        raw = np.linalg.eigvalsh(A)
        if w[0] <= 0 or raw[0] <= 0:
            return np.inf
        return max(w[-1] / w[0], 1e-3 * raw[-1] / raw[0])

    def unstable(self, case):
        """The structure moves freely and the loads of the case set it in motion."""
        fixed = self.m.fixed_dofs(case)
        free = np.setdiff1d(np.arange(6 * self.n), fixed)
        if free.size == 0 or self.m.cases[case]["type"] != "static":
            return False
        A = self.K[np.ix_(free, free)]
        f = self.load(case)[free]
        d = np.sqrt(np.abs(np.diag(A)))
        big = np.max(d)
        if not big or not np.any(f):
            return False
        d[d < 1e-6 * big] = big
        w, V = np.linalg.eigh(A / np.outer(d, d))
        if np.any((np.abs(w) > 1e-12) & (np.abs(w) < 1e-6)):
            return False                 # not evident
        N = V[:, np.abs(w) <= 1e-12]
        g = f / d
        return bool(N.shape[1]) and bool(np.linalg.norm(N.T @ g) > 1e-2 * np.linalg.norm(g))

    def static(self, case):
        """-> dict with d, reactions, beam end forces"""
        if case in self._cases:
            return self._cases[case]
        fixed = self.m.fixed_dofs(case)
        free = np.setdiff1d(np.arange(6 * self.n), fixed)
        f = self.load(case)
        d = np.zeros(6 * self.n)
        d[free] = np.linalg.solve(self.K[np.ix_(free, free)], f[free])
        out = {"d": d, "r": self.K @ d - f, "f": f, "nf": self.nodal_f(case), "end": {}, "fixed": fixed, "free": free}
        for b, e in self.beams.items():
            out["end"][b] = e["K"] @ (e["T"] @ d[e["ix"]]) - self.beam_f(b, case)
        self._cases[case] = out
        return out

    def deformation(self, beam, loc, d):
        e = self.beams[beam]
        dd = e["T"] @ d[e["ix"]]
        u, v, w, t, dv, dw = _shape(loc, e["l"])
        return [float(u @ dd), float(v @ dd), float(w @ dd), float(t @ dd), float(dv @ dd), float(dw @ dd)]

    def modal(self, case):
        """-> ascending omega^2 of the modes with mass, and the free DOFs"""
        key = ("modal", case)
        if key in self._cases:
            return self._cases[key]
        fixed = self.m.fixed_dofs(case)
        free = np.setdiff1d(np.arange(6 * self.n), fixed)
        L = np.linalg.cholesky(self.K[np.ix_(free, free)])
        Li = np.linalg.inv(L)
        A = Li @ np.diag(self.M[free]) @ Li.T
        mu = np.linalg.eigvalsh((A + A.T) / 2)[::-1]
        out = {"w2": 1 / np.maximum(mu, 1e-300), "free": free}
        self._cases[key] = out
        return out

    def mass_modes(self, case):
        """How many modes carry real (not the 1e-12 artificial) mass."""
        free = self.modal(case)["free"]
        return int(np.sum(self.M[free] > 1e-6))
