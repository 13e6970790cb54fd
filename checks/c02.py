"""C02: curves against their mathematical definition."""
import numpy as np

from hypervehicle.geometry.vector import Vector3
from hypervehicle.geometry.path import Path, Line, Bezier, Polyline, Spline, Arc
from hypervehicle.geometry import geometry as G
from rv import gen, ref
from rv.core import arr, Skip

SPEC = {
    "level": "exploration",
    "rule": "seeded random curves of every type and nestings of the combinators, evaluated at the ends, at every "
            "joint and at random parameters; a case is distinct by its control points and nesting",
    "required": {"points compared": 5000, "part evaluations watched": 2000, "returned points overwritten": 500,
                 "joints visited": 300},
    "assumptions": ["polyline joints where consecutive parts do not meet are judged only away from the joint"],
}


def usable(p, t):
    return all(abs(t - j) > 1e-7 for j in getattr(p, "jumps", []) if 1e-12 < j < 1 - 1e-12)


def compare(c, p, ts, what="point"):
    for t in ts:
        if not usable(p, t):
            continue
        c.close(arr(p.real(t)), p.f(float(t)), p.size + 1.0 * (p.size < 1e-1), 1e-9, f"{what} at t={t!r}", "points compared")


def trace(c):
    rng = c.rng
    s = gen.scale(rng)
    p = gen.path(rng, s)
    c.note(p.desc[:3000])
    joints = [b for b in p.breaks if 0 <= b <= 1]
    near = [j + (2 ** -53) * rng.randint(-6, 6) for j in joints for _ in range(4)]
    ts = gen.tvalues(rng, 6) + joints + [t for t in near if 0 <= t <= 1]
    c.seen("joints visited", len(joints))
    compare(c, p, ts)
    # evaluation has no memory: overwrite what was returned, evaluate again in another order
    first = {t: arr(p.real(t)) for t in ts}
    for t in rng.sample(ts, len(ts)):
        v = p.real(t)
        v *= 3.0
        c.seen("returned points overwritten")
    for t in ts:
        if not np.array_equal(arr(p.real(t)), first[t]):
            c.fail(f"point at t={t} changed after earlier evaluations: {arr(p.real(t))} was {first[t]}")
    compare(c, p, ts, "point after overwriting returned points")


def ends(c):
    """Defining points are met and left as they were."""
    rng = c.rng
    s = gen.scale(rng)
    kind = rng.choice(["line", "bezier", "spline", "cspline", "arc", "lineadd"])
    n = gen.few(rng, 2, 7, 24)
    pts = [gen.point(rng, s) for _ in range(n)]
    X = [gen.tup(p) for p in pts]
    sz = gen.size_of(*X) + 0.1
    c.note(kind, X)
    if kind == "line":
        f = Line(pts[0], pts[1])
        want = {0: X[0], 1: X[1], 0.5: np.add(X[0], X[1]) / 2}
    elif kind == "lineadd":
        d = gen.point(rng, s)
        base = Line(pts[0], pts[1])
        f = base + d
        want = {t: arr(base(t)) + arr(d) for t in (0, 0.3, 1)}
        for t in (0, 0.25, 1):
            c.close(arr(base(t)), (1 - t) * np.array(X[0]) + t * np.array(X[1]), sz, 1e-12, "original line moved", "points compared")
    elif kind == "bezier":
        f = Bezier(pts)
        want = {0: X[0], 1: X[-1]}
    elif kind == "spline":
        f = Spline(pts)
        L = np.concatenate([[0], np.cumsum([g.length() for g in f.segments])])
        if L[-1] <= 0:
            raise Skip()
        want = {b: x for b, x in zip(L / L[-1], X)}
        c.seen("joints visited", len(X))
    elif kind == "cspline":
        if n > 3 and rng.random() < 0.3:
            # given closed already: nothing is added
            pts[-1], X[-1] = Vector3(*X[0]), X[0]
        f = Spline(pts, closed=True)
        want = {0: X[0], 1: X[0]}
        if X[0] == X[-1]:
            g = Spline(pts)
            want.update({t: arr(g(t)) for t in (0.15, 0.5, 0.9)})
        elif np.linalg.norm(np.subtract(X[0], X[-1])) > 1e-9:
            L = np.concatenate([[0], np.cumsum([g.length() for g in f.segments])])
            want.update({b: x for b, x in zip(L / L[-1], X)})
        c.seen("joints visited", len(X))
    else:
        a = gen.arc(rng, s)
        f, want = a.real, {t: a.f(t) for t in (0, 0.25, 0.5, 1)}
        sz = a.size
    for t, w in want.items():
        c.close(arr(f(t)), np.array(w, dtype=float), sz, 1e-8, f"{kind} defining point at t={t}", "points compared")
    for p, x in zip(pts, X):
        c.close(arr(p), np.array(x), 1, 0, "control point changed", "points compared")
    # changing a control point afterwards does not move the curve
    before = {t: arr(f(t)) for t in (0, 0.4, 1)}
    for p in pts:
        p *= 5.0
    for t, b in before.items():
        c.close(arr(f(t)), b, 1, 0, "curve moved with the caller's point", "points compared")


class Probe(Path):
    """A curve that records where it is evaluated."""

    def __init__(self, a, b, k=0.0):
        self.a, self.b, self.k, self.ts = np.array(a), np.array(b), k, []

    def __repr__(self):
        return "Probe"

    def f(self, t):
        d = self.b - self.a
        return self.a + d * t + self.k * t * (1 - t) * np.array([d[1], d[2], d[0]])

    def __call__(self, t):
        self.ts.append(t)
        return Vector3(*self.f(t))


def ranges(c):
    """Composed curves evaluate each part only inside that part's range, by its share."""
    rng = c.rng
    n = gen.few(rng, 2, 5, 24)
    P = [np.array([rng.uniform(-2, 2) for _ in range(3)]) for _ in range(n + 1)]
    k = rng.choice([0.0, 0.6])
    probes = [Probe(a, b, k) for a, b in zip(P[:-1], P[1:])]
    zero = rng.random() < 0.3
    segs = list(probes)
    if zero:
        at = rng.randint(0, n)
        segs.insert(at, Line(Vector3(*P[at]), Vector3(*P[at])))
    closed = rng.random() < 0.4
    wrapk = rng.choice(["none", "rev", "sub", "off", "mean"])
    c.note([p.round(3).tolist() for p in P], k, zero, closed, wrapk)
    poly = Polyline(segs, closed=closed)
    L = [p.length() for p in probes]
    parts = [(p.f, w) for p, w in zip(probes, L)]
    if closed:
        parts.append((ref.line(P[-1], P[0]), float(np.linalg.norm(P[0] - P[-1]))))
    f, br = ref.polyline(parts)
    t0, t1 = rng.random(), rng.random()
    d = Vector3(0.3, -0.2, 0.7)
    real, want = {
        "none": lambda: (poly, f),
        "rev": lambda: (G.ReversedPath(poly), lambda t: f(1 - t)),
        "sub": lambda: (G.SubRangedPath(poly, t0, t1), lambda t: f(t0 + (t1 - t0) * t)),
        "off": lambda: (G.OffsetPathFunction(poly, lambda x, y: d), lambda t: f(t) + arr(d)),
        "mean": lambda: (G.GeometricMeanPathFunction(poly, Line(Vector3(*P[0]), Vector3(*P[1]))),
                         lambda t: 0.5 * (f(t) + P[0] + (P[1] - P[0]) * t)),
    }[wrapk]()
    for p in probes:
        p.ts.clear()
    c.seen("joints visited", len(br))
    for t in gen.tvalues(rng, 8) + ([float(b) for b in br] if wrapk == "none" else []):
        c.close(arr(real(t)), want(float(t)), 10, 1e-9, f"composed point at t={t}", "points compared")
    for i, p in enumerate(probes):
        for t in p.ts:
            c.true(-1e-9 <= t <= 1 + 1e-9, f"part {i} evaluated outside its range at {t}", "part evaluations watched")
    if closed:
        c.close(arr(poly(1.0)), P[0], 5, 1e-9, "closed curve returns to its start", "points compared")


KINDS = [("trace", trace, 1500, 15000), ("ends", ends, 900, 8000), ("ranges", ranges, 600, 6000)]
