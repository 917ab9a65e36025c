import numpy as np


class _Scheme:
    def __init__(self, n):
        m = int(n) // 2 + 2
        x, w = np.polynomial.legendre.leggauss(m)
        x = (x + 1) / 2
        w = w / 2
        pts, ws = [], []
        for a, wa in zip(x, w):                    # Duffy map of the unit square
            for b, wb in zip(x, w):
                pts.append((a, b * (1 - a)))
                ws.append(wa * wb * (1 - a))
        self.points = np.array(pts).T
        self.weights = np.array(ws)                # sums to 1/2

    def integrate(self, f, tri):
        p = np.asarray(tri, dtype=float)
        s, t = self.points
        x = p[0][:, None] + np.outer(p[1] - p[0], s) + np.outer(p[2] - p[0], t)
        e1, e2 = p[1] - p[0], p[2] - p[0]
        jac = abs(e1[0] * e2[1] - e1[1] * e2[0])
        v = np.asarray(f(x))
        return jac * np.tensordot(v, self.weights, axes=([-1], [0]))


def get_good_scheme(n):
    return _Scheme(n)
