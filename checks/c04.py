"""C04: clustering functions and point distributions."""
import numpy as np

from hypervehicle.geometry.path import (LinearFunction, RobertsFunction, clustered_roberts,
                                        distribute_points, roberts)
from rv import ref
from rv.core import Skip

SPEC = {
    "level": "exploration",
    "rule": "seeded random end flags, stretching factors from 1+1e-4 up and below 1, limits and counts; a case is "
            "distinct by these",
    "required": {"maps checked": 500, "distributions checked": 300, "scalar and array agree": 500},
    "assumptions": ["the limiting factor of exactly 1 is singular and excluded"],
}


def beta_of(rng):
    return rng.choice([1.0001, 1.001, 1.01, 1.05, 1.1, 1.2, 1.5, 2, 2.0, 3, 10.0, 100.0, rng.uniform(1.001, 1.5), rng.uniform(1.5, 5)])


def flag(rng, b):
    return rng.choice([bool(b), int(b)])


def maps(c):
    rng = c.rng
    e0, e1, b = rng.random() < 0.6, rng.random() < 0.6, beta_of(rng)
    below = rng.random() < 0.2
    if below:
        b = rng.choice([0.0, 0.5, 0.999, -1.0, 0])
    c.note(e0, e1, b)
    F = RobertsFunction(flag(rng, e0), flag(rng, e1), b)
    x = np.unique(np.concatenate([np.linspace(0, 1, 41), [rng.random() for _ in range(10)]]))
    y = np.asarray(F(x), dtype=float)
    c.seen("maps checked")
    c.close(y, ref.roberts(x, e0, e1, b), 1, 1e-10, "clustered value")
    c.close(y[[0, -1]], [0, 1], 1, 1e-12, "ends of the range")
    c.true(np.all(np.diff(y) > 0), "not strictly increasing")
    sc = np.array([float(F(float(t))) for t in x])
    c.close(sc, y, 1, 1e-14, "scalar evaluation differs from array", "scalar and array agree")
    c.close(np.asarray(clustered_roberts(x, e0, e1, b)), y, 1, 1e-14, "function and class differ")
    ident = not (e0 or e1) or below
    if ident:
        c.close(y, x, 1, 0, "no clustering requested but points moved")
        return
    sw = np.asarray(RobertsFunction(e1, e0, b)(1 - x))
    c.close(1 - sw, y, 1, 1e-10, "swapping the ends does not mirror")
    if e0 and e1:
        c.close(y + np.asarray(F(1 - x)), np.ones_like(x), 1, 1e-10, "not symmetric")
    # spacing at the requested ends is finer than even, more so for a smaller factor
    h = 0.02
    d0, d1 = float(F(h)), 1 - float(F(1 - h))
    if b < 3:
        c.true((d0 < h) == bool(e0) and (d1 < h) == bool(e1), f"end spacings {d0}, {d1} do not match flags {e0}, {e1}")
    b2 = 1 + (b - 1) * 0.5
    G = RobertsFunction(e0, e1, b2)
    if e0:
        c.true(float(G(h)) < d0, "smaller factor does not cluster more at end 0")
    if e1:
        c.true(1 - float(G(1 - h)) < d1, "smaller factor does not cluster more at end 1")
    # the input is not modified
    z = np.linspace(0, 1, 7)
    F(z)
    c.close(z, np.linspace(0, 1, 7), 1, 0, "argument modified")


def distributions(c):
    rng = c.rng
    e0, e1, b = rng.random() < 0.6, rng.random() < 0.6, beta_of(rng)
    n = rng.choice([1, 2, 3, 5, 10, 49, 100, 129, 500, 1000, rng.randint(1, 60)])
    t0, t1 = rng.choice([(0.0, 1.0), (1.0, 0.0), (-3.0, 2.0), (5, -5), (rng.uniform(-9, 9), rng.uniform(-9, 9))])
    c.note(e0, e1, b, n, t0, t1)
    d = np.asarray(distribute_points(t0, t1, n, e0, e1, b), dtype=float)
    eta = ref.roberts(np.linspace(0, 1, n + 1), e0, e1, b)
    s = abs(t0) + abs(t1) + 1
    c.seen("distributions checked")
    c.true(d.shape == (n + 1,), f"{d.shape} points, expected {n + 1}")
    c.close(d, t0 + (t1 - t0) * eta, s, 1e-10, "distribution")
    c.close(d[[0, -1]], [t0, t1], s, 1e-12, "limits")
    v = np.asarray(RobertsFunction(e0, e1, b).distribute_parameter_values(n + 1), dtype=float)
    c.true(v.shape == (n + 1,), f"{v.shape} parameter values, expected {n + 1}")
    c.close(v, eta, 1, 1e-10, "parameter values")
    u = np.asarray(LinearFunction().distribute_parameter_values(n + 1), dtype=float)
    c.close(u, np.arange(n + 1) / n, 1, 1e-13, "even parameter values")
    x = np.array([rng.random() for _ in range(5)])
    c.close(LinearFunction()(x), x, 1, 0, "linear function", "scalar and array agree")


def raw(c):
    """The underlying stretching formula: 0 and 1 fixed, monotone, for both placements."""
    rng = c.rng
    b, a = beta_of(rng), rng.choice([0.0, 0.5])
    c.note(b, a)
    x = np.linspace(0, 1, 33)
    y = np.asarray(roberts(x, a, b))
    c.close(y, ref.roberts(x, a == 0.5, True, b), 1, 1e-10, "stretched value", "maps checked")
    c.close([float(roberts(float(t), a, b)) for t in x], y, 1, 1e-14, "scalar differs", "scalar and array agree")


KINDS = [("maps", maps, 900, 9000), ("distributions", distributions, 900, 9000), ("raw", raw, 200, 2000)]
