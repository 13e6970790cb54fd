"""Reference model: curves, surfaces, motions and clustering as plain numpy formulas.

Written from the documented meaning of each object, not from the package's code, and
sharing nothing with it.  Curves are functions t -> (3,), surfaces (r, s) -> (3,).
"""
import numpy as np


def V(*a):
    return np.array(a, dtype=float)


# -- curves ------------------------------------------------------------------
def line(p0, p1):
    p0, p1 = V(*p0), V(*p1)
    return lambda t: p0 + (p1 - p0) * t


def bezier(pts):
    """Bernstein form."""
    pts = np.array(pts, dtype=float)
    n = len(pts) - 1
    from math import comb

    def f(t):
        w = np.array([comb(n, k) * t**k * (1 - t) ** (n - k) for k in range(n + 1)])
        return w @ pts

    return f


def arc(a, b, c):
    """Shorter circular arc about c from a to b (spherical interpolation)."""
    a, b, c = V(*a), V(*b), V(*c)
    u, v = a - c, b - c
    r = np.linalg.norm(u)
    e1 = u / r
    w = v - e1 * (v @ e1)
    e2 = w / np.linalg.norm(w)
    th = np.arctan2(v @ e2, v @ e1)
    return (lambda t: c + r * (np.cos(th * t) * e1 + np.sin(th * t) * e2)), r * th


def polyline(parts):
    """parts: list of (f, weight); zero weights are skipped."""
    parts = [(f, w) for f, w in parts if w > 0]
    w = np.array([p[1] for p in parts], dtype=float)
    b = np.concatenate([[0.0], np.cumsum(w)]) / w.sum()
    b[-1] = 1.0

    def f(t):
        i = int(np.clip(np.searchsorted(b, t, side="left") - 1, 0, len(parts) - 1))
        return parts[i][0]((t - b[i]) / (b[i + 1] - b[i]))

    return f, b


def natural_spline(pts):
    """Control points of the cubic segments of the natural spline through pts."""
    p = np.array(pts, dtype=float)
    m = len(p) - 1
    d = p.copy()
    if m > 1:
        n = m - 1
        A = np.zeros((n, n))
        rhs = 6.0 * p[1:m]
        for i in range(n):
            A[i, i] = 4.0
            if i > 0:
                A[i, i - 1] = 1.0
            if i < n - 1:
                A[i, i + 1] = 1.0
        rhs[0] -= p[0]
        rhs[-1] -= p[m]
        d[1:m] = np.linalg.solve(A, rhs)
    return [(p[i], (2 * d[i] + d[i + 1]) / 3, (d[i] + 2 * d[i + 1]) / 3, p[i + 1]) for i in range(m)]


def ellipse(centre, thickness, width, side):
    """Quarter ellipse in the y-z plane, polar angle linear in the parameter."""
    c = V(*centre)
    a, b = float(width), abs(float(thickness))

    def f(t):
        th = t * np.pi / 2 - (np.pi / 2 if side == "top" else 0.0)
        k = a * b / np.sqrt((b * np.cos(th)) ** 2 + (a * np.sin(th)) ** 2)
        return c + V(0, k * np.cos(th), k * np.sin(th))

    return f


def curve_length(f, n=4000, breaks=()):
    """Length by fine chord sampling (Richardson-improved), splitting at breaks."""
    ts = [0.0] + [b for b in breaks if 0 < b < 1] + [1.0]
    total = 0.0
    for a, b in zip(ts[:-1], ts[1:]):
        ls = []
        for k in (n, 2 * n):
            p = np.array([f(a + (b - a) * i / k) for i in range(k + 1)])
            ls.append(np.linalg.norm(np.diff(p, axis=0), axis=1).sum())
        total += ls[1] + (ls[1] - ls[0]) / 3
    return total


# -- surfaces ----------------------------------------------------------------
def coons(n, e, s, w):
    p00, p10, p01, p11 = s(0.0), s(1.0), n(0.0), n(1.0)

    def f(r, q):
        return ((1 - q) * s(r) + q * n(r) + (1 - r) * w(q) + r * e(q)
                - (1 - r) * (1 - q) * p00 - r * (1 - q) * p10 - (1 - r) * q * p01 - r * q * p11)

    return f


def bilinear(p00, p10, p11, p01):
    p00, p10, p11, p01 = map(lambda p: V(*p), (p00, p10, p11, p01))
    return lambda r, s: (1 - r) * (1 - s) * p00 + r * (1 - s) * p10 + r * s * p11 + (1 - r) * s * p01


def rot(axis, angle):
    c, s = np.cos(angle), np.sin(angle)
    if axis == "x":
        return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
    if axis == "y":
        return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def rotated(f, axis, angle, point=(0, 0, 0)):
    R, p = rot(axis, angle), V(*point)
    return lambda *a: R @ (f(*a) - p) + p


def mirrored(f, axis):
    k = np.ones(3)
    k["xyz".index(axis)] = -1
    return lambda *a: k * f(*a)


def revolved(g, a0, a1):
    """Generator curve turned about x by minus the angle (y towards -z)."""

    def f(r, s):
        return rot("x", -(a0 + (a1 - a0) * s)) @ g(r)

    return f


def cone(x0, x1, r0, r1, a0, a1):
    def f(r, s):
        th = a0 + (a1 - a0) * s
        rad = r0 + (r1 - r0) * r
        return V(x0 + (x1 - x0) * r, rad * np.cos(th), rad * np.sin(th))

    return f


def swept_edges(edges):
    n = len(edges)

    def f(r, s):
        k = min(int(np.floor(r * (n - 1))), n - 2)
        a = r * (n - 1) - k
        return (1 - a) * edges[k](s) + a * edges[k + 1](s)

    return f


def curved(f, direction, fun, dash):
    def g(r, s):
        x, y, z = f(r, s)
        h, m = fun(x, y), dash(x, y)
        n = np.sqrt(1 + m * m)
        if direction == "x":
            return V(x - z * m / n, y, h + z / n)
        return V(x, y - z * m / n, h + z / n)

    return g


def offset(f, fun):
    def g(*a):
        p = f(*a)
        return p + fun(*p)

    return g


# -- clustering --------------------------------------------------------------
def roberts(eta, end0, end1, beta):
    eta = np.asarray(eta, dtype=float)
    if not (end0 or end1) or beta < 1.0:
        return eta
    if end0 and not end1:
        return 1 - roberts(1 - eta, False, True, beta)
    a = 0.5 if (end0 and end1) else 0.0
    q = ((beta + 1) / (beta - 1)) ** ((eta - a) / (1 - a))
    return ((beta + 2 * a) * q - beta + 2 * a) / ((2 * a + 1) * (1 + q))
