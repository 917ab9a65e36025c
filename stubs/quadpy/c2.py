import numpy as np


class _Scheme:
    def __init__(self, n):
        if int(n) <= 3:
            # 4-point degree-3 rule on the axes; with it the repository's own
            # (uncollectable without quadpy) shell tests reproduce their numbers.
            r = (2 / 3) ** 0.5
            self.points = np.array([(r, 0), (-r, 0), (0, r), (0, -r)]).T
            self.weights = np.ones(4)
            return
        m = int(n) // 2 + 1
        x, w = np.polynomial.legendre.leggauss(m)
        self.points = np.array([(a, b) for a in x for b in x]).T
        self.weights = np.array([wa * wb for wa in w for wb in w])

    def integrate(self, f, quad):
        q = np.asarray(quad, dtype=float)          # (2, 2, 2): corner grid
        (xa, ya), (xb, yb) = q[0][0], q[1][1]
        xi, eta = self.points
        px = (xa + xb) / 2 + xi * (xb - xa) / 2
        py = (ya + yb) / 2 + eta * (yb - ya) / 2
        jac = abs((xb - xa) * (yb - ya)) / 4
        v = np.asarray(f(np.array([px, py])))
        return jac * np.tensordot(v, self.weights, axes=([-1], [0]))


def get_good_scheme(n):
    return _Scheme(n)


def rectangle_points(xr, yr):
    return np.array([[[xr[0], yr[0]], [xr[1], yr[0]]], [[xr[0], yr[1]], [xr[1], yr[1]]]], dtype=float)
