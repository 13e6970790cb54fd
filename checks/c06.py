"""C06: analytic and swept surfaces lie on their solids."""
import numpy as np

from hypervehicle.geometry.vector import Vector3
from hypervehicle.geometry.path import Line, Bezier
from hypervehicle.geometry.surface import CoonsPatch
from hypervehicle.geometry import geometry as G
from hypervehicle.components.common import circle_patch
from rv import gen, ref
from rv.core import arr, Skip

SPEC = {
    "level": "exploration",
    "rule": "seeded random generators, radii, centres, angle ranges, faces, section placements and sweep axes, sampled "
            "at corners, borders and random parameters; a case is distinct by its defining data",
    "required": {"points on the solid": 5000, "orientation": 200, "bounding sections reached": 500, "swept points": 1000},
    "assumptions": ["sections are given in ascending order along the sweep axis, each in a plane normal to it"],
}

FACES = gen.FACES


def params(rng, n):
    return [(0, 0), (1, 0), (1, 1), (0, 1), (0.5, 0.5)] + [(gen.tvalue(rng), gen.tvalue(rng)) for _ in range(n)]


def revolved(c):
    rng = c.rng
    s = gen.scale(rng)
    g = gen.between(rng, gen.point(rng, s), gen.point(rng, s), s)
    full = rng.random() < 0.2
    a0, a1 = (0, 2 * np.pi) if full else (rng.uniform(-7, 7), rng.uniform(-7, 7))
    c.note(g.desc, a0, a1)
    p = G.RevolvedPatch(g.real) if full else G.RevolvedPatch(g.real, a0, a1)
    f = ref.revolved(g.f, a0, a1)
    sz = 2 * g.size + 0.01
    for r, t in params(rng, 8):
        x, base = arr(p(r, t)), g.f(float(r))
        c.close(x, f(float(r), float(t)), sz, 1e-9, f"revolved point ({r}, {t})", "points on the solid")
        c.close([x[0], np.hypot(x[1], x[2])], [base[0], np.hypot(base[1], base[2])], sz, 1e-9,
                "axial position and distance from the axis", "points on the solid")
    for t in (0, 1):
        for r in (0, 0.3, 1):
            c.close(arr(p(r, t)), ref.rot("x", -(a0, a1)[t]) @ g.f(float(r)), sz, 1e-9, f"bounding meridian s={t}", "bounding sections reached")


def cone(c):
    rng = c.rng
    s = gen.scale(rng)
    v = [gen.number(rng, s), gen.number(rng, s), rng.choice([0, 1, rng.random()]) * s, rng.choice([0, 2, rng.random()]) * s,
         rng.uniform(-7, 7), rng.uniform(-7, 7)]
    c.note(v)
    p, f = G.ConePatch(*v), ref.cone(*v)
    sz = gen.size_of(v[:4]) * 2
    for r, t in params(rng, 8):
        c.close(arr(p(r, t)), f(float(r), float(t)), sz, 1e-10, f"cone point ({r}, {t})", "points on the solid")
    for r, (x, rad) in {0: (v[0], v[2]), 1: (v[1], v[3])}.items():
        for t in (0, 0.4, 1):
            y = arr(p(r, t))
            c.close([y[0], np.hypot(y[1], y[2])], [float(x), float(rad)], sz, 1e-10, f"ring r={r}", "bounding sections reached")


def normal(p, r, s, h=1e-4):
    r0, r1, s0, s1 = max(0, r - h), min(1, r + h), max(0, s - h), min(1, s + h)
    return np.cross(arr(p(r1, s)) - arr(p(r0, s)), arr(p(r, s1)) - arr(p(r, s0)))


def faces(c):
    rng = c.rng
    s = gen.scale(rng)
    kind = rng.choice(["cube", "sphere"])
    a, cen = rng.choice([1, 0.5, 2.0, rng.uniform(0.05, 3)]) * s, gen.point(rng, s)
    C = arr(cen)
    face = rng.choice(list(FACES))
    ax, sg = FACES[face]
    c.note(kind, a, C.tolist(), face)
    p = (G.CubePatch if kind == "cube" else G.SpherePatch)(a, cen, face)
    repr(p)
    sz = gen.size_of(C, [a])
    others = [i for i in range(3) if i != ax]
    k = a if kind == "cube" else a / np.sqrt(3)
    got = set()
    for r, t in [(0, 0), (1, 0), (1, 1), (0, 1)]:
        x = (arr(p(r, t)) - C) / k
        c.close(np.abs(x), np.ones(3), sz / k, 1e-9, f"corner ({r}, {t})", "bounding sections reached")
        got.add(tuple(np.sign(x[others]).astype(int)))
    c.true(len(got) == 4, f"the square does not cover the face: corners {got}", "bounding sections reached")
    for r, t in params(rng, 8):
        x = arr(p(r, t)) - C
        if kind == "cube":
            c.close(x[ax], sg * a, sz, 1e-10, f"distance of the face at ({r}, {t})", "points on the solid")
            c.true(np.all(np.abs(x) <= a * (1 + 1e-9) + 1e-9 * sz), f"point {x} outside the face", "points on the solid")
        else:
            c.close(np.linalg.norm(x), a, sz, 1e-9, f"distance from the centre at ({r}, {t})", "points on the solid")
            c.true(x[ax] * sg >= np.max(np.abs(x[others])) - 1e-9 * sz, f"point {x} outside the {face} sector", "points on the solid")
    for t in (0.2, 0.5, 0.9):  # borders of the face are shared with its neighbours
        for r, q in ((0, t), (1, t), (t, 0), (t, 1)):
            x = np.abs(arr(p(r, q)) - C)
            c.close(np.max(x[others]), x[ax], sz, 1e-9, f"border point ({r}, {q})", "bounding sections reached")
    for _ in range(4):
        r, t = rng.uniform(0.05, 0.95), rng.uniform(0.05, 0.95)
        n, x = normal(p, r, t), arr(p(r, t)) - C
        c.true(n @ x > 0, f"{face} faces inwards at ({r}, {t})", "orientation")
    # both directions advance steadily, so the face is covered once
    i = np.linspace(0, 1, 9)
    grid = np.array([[arr(p(r, t)) - C for t in i] for r in i])
    J = np.cross(np.diff(grid, axis=0)[:, :-1], np.diff(grid, axis=1)[:-1])
    c.true(np.all(np.einsum("ijk,ijk->ij", J, grid[:-1, :-1]) > 0), "face folds over itself", "orientation")
    c.close(arr(cen), C, 1, 0, "centre changed", "points on the solid")


def circle(c):
    rng = c.rng
    s = gen.scale(rng)
    cen, r = gen.point(rng, s), rng.choice([1, 0.25, rng.uniform(0.05, 3)]) * s
    C = arr(cen)
    c.note(C.tolist(), r)
    p = circle_patch(cen, r)
    sz = gen.size_of(C, [r])
    for u, t in params(rng, 8):
        x = arr(p(u, t))
        c.close(x[2], C[2], sz, 1e-9, f"plane of the circle at ({u}, {t})", "points on the solid")
        c.true(np.linalg.norm(x - C) <= r + 1e-9 * sz, f"point {x} outside the circle", "points on the solid")
    for t in [0, 1, 0.5] + [gen.tvalue(rng) for _ in range(3)]:
        for u, q in ((0, t), (1, t), (t, 0), (t, 1)):
            c.close(np.linalg.norm(arr(p(u, q)) - C), r, sz, 1e-9, f"border at ({u}, {q})", "bounding sections reached")
    n = 24
    g = np.array([[arr(p(i / n, j / n)) for j in range(n + 1)] for i in range(n + 1)])
    A = 0.5 * np.cross(g[1:, 1:] - g[:-1, :-1], g[:-1, 1:] - g[1:, :-1])[..., 2].sum()
    c.close(abs(A), np.pi * r * r, r * r, 0.02, "area covered", "bounding sections reached")


def swept_axis(c):
    rng = c.rng
    s = rng.choice([1.0, 10.0, 0.1])
    ax = rng.choice("xyz")
    k = "xyz".index(ax)
    n = rng.choice([2, 3, 4, 5, rng.randint(6, 9)])
    z = sorted(rng.choice([round(rng.uniform(-3, 3), 1), rng.uniform(-3, 3)]) * s for _ in range(n))
    if min(np.diff(z)) < 1e-3 * s:
        raise Skip()
    secs = []
    for h in z:
        P = []
        for u, v in ((-1, -1), (1, -1), (1, 1), (-1, 1)):
            q = np.zeros(3)
            q[(k + 1) % 3], q[(k + 2) % 3] = s * (u + rng.uniform(-.4, .4)), s * (v + rng.uniform(-.4, .4))
            q[k] = h
            P.append(Vector3(*q))
        secs.append(CoonsPatch(p00=P[0], p10=P[1], p11=P[2], p01=P[3]))
    c.note(ax, z, [arr(x(0.3, 0.7)).round(4).tolist() for x in secs])
    p = G.SweptPatch(secs, ax) if ax != "z" or rng.random() < 0.5 else G.SweptPatch(secs)

    def per(i, t):
        m, u = divmod(4 * t, 1)
        m, u = (int(m), u) if t < 1 else (4, 0)
        return arr(secs[i](*[(u, 0.0), (1.0, u), (1 - u, 1.0), (0.0, 1 - u), (0.0, 0.0)][m]))

    sz = s * 6
    for r, t in [(0, 0), (1, 0), (1, 1), (0, 1), (1.0, 0.3)] + [(gen.tvalue(rng), gen.tvalue(rng)) for _ in range(10)]:
        d = z[0] + (z[-1] - z[0]) * r
        i = min(max(int(np.searchsorted(z, d, side="right")) - 1, 0), n - 2)
        al = (d - z[i]) / (z[i + 1] - z[i])
        w = (1 - al) * per(i, t) + al * per(i + 1, t)
        w[k] = d
        c.close(arr(p(r, t)), w, sz, 1e-7, f"swept point ({r}, {t})", "swept points")
    for i, h in enumerate(z):
        r = (h - z[0]) / (z[-1] - z[0])
        for t in (0, 0.25, 0.4, 0.5, 0.8, 1):
            c.close(arr(p(r, t)), per(i, t), sz, 1e-7, f"section {i} at {t}", "bounding sections reached")


def swept_edges(c):
    rng = c.rng
    s = gen.scale(rng)
    n = rng.choice([2, 3, 4, 5, 6, rng.randint(7, 14)])
    e = [gen.between(rng, gen.point(rng, s), gen.point(rng, s), s) for _ in range(n)]
    c.note([x.desc for x in e])
    p, f = G.SweptPatchfromEdges([x.real for x in e]), ref.swept_edges([x.f for x in e])
    sz = 2 * max(x.size for x in e) + 0.01
    for r, t in params(rng, 10):
        c.close(arr(p(r, t)), f(float(r), float(t)), sz, 1e-8, f"swept point ({r}, {t})", "swept points")
    for i in range(n):
        for t in (0, 0.3, 1):
            c.close(arr(p(i / (n - 1), t)), e[i].f(float(t)), sz, 1e-8, f"section {i} at {t}", "bounding sections reached")
    # parameters that miss the ends by rounding, as clustering functions produce
    for r, i in ((1 + 2e-16, -1), (-1e-16, 0), (1 - 1e-16, -1)):
        c.close(arr(p(r, 0.4)), e[i].f(0.4), sz, 1e-8, f"end section at r={r!r}", "bounding sections reached")


def blunt(c):
    rng = c.rng
    v = [rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(0.05, 0.2), rng.uniform(0.3, 1), rng.uniform(1, 3), 0.0, np.pi / 2]
    c.note(v)
    p = G.BluntConePatch(*v)
    try:
        p(0.5, 0.5)
    except AttributeError as e:
        c.known("blunt-cone-unusable", f"a blunt cone cannot be evaluated: {e}")


def other_faces(c):
    """An unknown face name is refused when evaluated."""
    rng = c.rng
    f = rng.choice(["up", "", "left", "East "])
    c.note(f)
    for k in (G.CubePatch, G.SpherePatch):
        c.raises(lambda: k(1.0, Vector3(0, 0, 0), f)(0.5, 0.5), f"face {f!r}")


KINDS = [("revolved", revolved, 500, 5000), ("cone", cone, 400, 4000), ("faces", faces, 300, 3000),
         ("circle", circle, 60, 400), ("swept_axis", swept_axis, 400, 4000), ("swept_edges", swept_edges, 400, 4000),
         ("blunt", blunt, 6, 12), ("other_faces", other_faces, 6, 12)]
