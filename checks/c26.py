"""C26: geometry does not depend on the unit of length."""
import random

import numpy as np

from hypervehicle.components.common import OgiveNose
from hypervehicle.components import SweptComponent
from hypervehicle.geometry import Arc, Line, Vector3
from rv import gen, meshlib, parts
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random curves, surfaces, components and vehicles built twice, the second time with every length multiplied by "
            "one factor; a case is distinct by the objects and the factor",
    "required": {"curve points": 3000, "surface points": 3000, "component points": 3000, "mesh vertices": 5000, "vehicle totals": 100, "closed totals": 150,
                 "arc lengths": 500, "closed sections": 100},
    "assumptions": ["factors from 0.001 to 1000, to 1e6 for components; every length is given by the user (the default leading-edge width is a length in itself)"],
}

FACTORS = [0.3048, 0.0254, 0.01, 0.001, 1000.0, 39.37, 3.28084, 0.5, 2.0, 0.125, 8.0]
COMPONENT_FACTORS = [0.3048, 0.0254, 0.01, 0.001, 0.5, 2.0, 0.125, 3.28084, 4.0, 39.37, 1000.0, 1e5]


def twice(rng, make, k):
    """The same random object at unit scale and at scale k."""
    seed = rng.getrandbits(64)
    return make(random.Random(seed), 1.0), make(random.Random(seed), k)


def curve(c):
    rng = c.rng
    k = rng.choice(FACTORS)
    depth = rng.choice([0, 1, 2])
    a, b = twice(rng, lambda r, s: gen.path(r, s, depth), k)
    c.note(k, a.desc)
    # what a spline solves for is only as good as its own stopping tolerance
    rel = 1e-6 if "spline" in a.desc.lower() else 1e-8
    for t in gen.tvalues(rng, 6):
        c.close(arr(b.real(t)) / k, arr(a.real(t)), a.size, rel, f"curve at {t}, lengths times {k}", "curve points")
    try:
        la = a.real.length()
    except AttributeError:
        return
    c.close(b.real.length() / k, la, a.size, max(rel, 1e-7), f"length, lengths times {k}", "arc lengths")


def surface(c):
    rng = c.rng
    k = rng.choice(FACTORS)
    depth = rng.choice([0, 1, 2])
    a, b = twice(rng, lambda r, s: gen.surface(r, s, depth), k)
    c.note(k, a.desc)
    rel = 1e-6 if "spline" in a.desc.lower() else 1e-8
    for _ in range(6):
        r, s = gen.tvalue(rng), gen.tvalue(rng)
        c.close(arr(b.real(r, s)) / k, arr(a.real(r, s)), a.size, rel, f"surface at ({r}, {s}), lengths times {k}", "surface points")


def own_width(p):
    """Parts whose every length is the user's."""
    return not (p.kind == "fin" and p.info["wf"] is None)


def component(c):
    rng = c.rng
    k = rng.choice(COMPONENT_FACTORS)
    kind = rng.choice(["swept", "swept", "revolved", "revolved", "wing", "fin", "cube", "sphere", "composite"])
    le = rng.choice(["flat", "custom", "flat"])

    def make(r, s):
        if kind == "wing":
            return parts.wing(r, s, le_type=le, res=1)
        if kind == "fin":
            return parts.fin(r, s, res=1)
        return parts.composite(r, s, n=2) if kind == "composite" else parts.KINDS[kind](r, s)

    for _ in range(8):
        a, b = twice(rng, make, k)
        if own_width(a):
            break
    else:
        return
    c.note(k, a.desc)
    A, B = a.build(), b.build()
    A.generate_patches()
    B.generate_patches()
    fa, fb = parts.fns(A), parts.fns(B)
    c.true(len(fa) == len(fb), f"{len(fa)} surfaces, {len(fb)} with lengths times {k}", "component points")
    for i, (f, g) in enumerate(zip(fa, fb)):
        for r, s in rng.sample(parts.POINTS, 2):
            c.close(g(r, s) / k, f(r, s), a.size, 1e-7, f"surface {i} at ({r}, {s}), lengths times {k}", "component points")
    if a.expensive:
        return
    x, y = np.array(A.mesh.vectors, dtype=float), np.array(B.mesh.vectors, dtype=float)
    c.true(x.shape == y.shape, f"meshes of {len(x)} and {len(y)} triangles", "mesh vertices")
    c.close(y / k, x, a.size, 1e-6, f"mesh, lengths times {k}", "mesh vertices")


def ogive(c):
    rng = c.rng
    k = rng.choice(COMPONENT_FACTORS)
    r_n = rng.uniform(0.05, 0.1)
    h = rng.uniform(0.4, 0.6)
    L = rng.uniform(1.0, 1.5)
    r_o = (L * L + h * h) / (2 * h) * rng.uniform(1.0, 1.2)
    c.note(k, "ogive", h, r_n, r_o, L)
    out = []
    for s in (1.0, k):
        try:
            o = parts.serial(OgiveNose(h * s, r_n * s, r_o * s, L * s, stl_resolution=2, verbosity=0))
            o.generate_patches()
            out.append([f(r, t) / s for f in parts.fns(o) for r, t in parts.POINTS])
        except Exception as e:
            out.append(type(e).__name__)
    if isinstance(out[0], str) or isinstance(out[1], str):
        c.true(isinstance(out[0], str) and isinstance(out[1], str), f"accepted at one scale only: {[type(o) for o in out]}, lengths times {k}", "component points")
    else:
        c.close(np.array(out[1]), np.array(out[0]), 4, 1e-7, f"ogive nose, lengths times {k}", "component points")


def loop(c):
    """Sections of arcs, which close only up to rounding, and sections that stay open."""
    rng = c.rng
    k = rng.choice(COMPONENT_FACTORS + [1e4, 1e6])
    R, H, turn = rng.uniform(0.5, 20), rng.uniform(0.5, 5), rng.uniform(0, 6)
    off = [rng.choice([0.0, rng.uniform(-3, 3)]) for _ in range(2)]
    kinds = [rng.choice(["arc", "arc", "line"]) for _ in range(4)]
    gap = rng.choice([0.0, 0.0, 0.0, rng.uniform(1e-3, 0.1) * R])
    at, way = rng.randrange(4), rng.randrange(3)
    c.note(k, "loop", R, H, turn, off, kinds, gap, at, way)
    out = []
    for s in (1.0, k):
        secs = []
        for z in (0.0, H):
            q = [Vector3(s * (off[0] + R * np.cos(turn + i * np.pi / 2)), s * (off[1] + R * np.sin(turn + i * np.pi / 2)), s * z) for i in range(4)]
            mid = Vector3(s * off[0], s * off[1], s * z)
            e = [Arc(q[i], q[(i + 1) % 4], mid) if n == "arc" else Line(q[i], q[(i + 1) % 4]) for i, n in enumerate(kinds)]
            if gap:
                d = [0.0] * 3
                d[way] = s * gap
                e[at] = Line(q[at] + Vector3(*d), q[(at + 1) % 4])
            secs.append(e)
        try:
            b = parts.serial(SweptComponent(secs, stl_resolution=2, verbosity=0))
            b.generate_patches()
            out.append([f(r, t) / s for f in parts.fns(b) for r, t in parts.POINTS])
        except Exception as e:
            out.append(type(e).__name__)
    for o, s in zip(out, (1.0, k)):
        c.true(isinstance(o, str) == bool(gap), f"{'open' if gap else 'closed'} sections {'refused' if isinstance(o, str) else 'accepted'} with lengths times {s}", "closed sections")
    if not gap:
        c.close(np.array(out[1]), np.array(out[0]), R + 5, 1e-7, f"body of arcs, lengths times {k}", "component points")


def area_of(t):
    return float(np.sum(np.linalg.norm(np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]), axis=1)) / 2)


def vehicle(c):
    rng = c.rng
    k = rng.choice(COMPONENT_FACTORS)
    n = rng.randint(1, 3)
    angle = rng.choice([0, rng.uniform(-40, 40)])
    solid = rng.random() < 0.4
    rho = [rng.uniform(0.5, 3) for _ in range(n)]

    def make(r, s):
        ps = [parts.composite(r, s, n=r.choice([1, 2]), allowed=("cube", "sphere"), options=False) if solid else
              parts.composite(r, s, n=2) if r.random() < 0.2 else parts.cheap(r, s) for _ in range(n)]
        os = [parts.Options(r, s) for _ in ps]
        vt = [parts.motion(r, s) for _ in range(r.randint(0, 2))]
        v = parts.vehicle()
        for p, o in zip(ps, os):
            v.add_component(p.build(), **o.kwargs())
        v.vehicle_angle_offset = angle
        if vt:
            v.add_vehicle_transformations([m[0]() for m in vt])
        v.generate()
        return v, [p.desc + " " + o.desc for p, o in zip(ps, os)] + [m[2] for m in vt]

    (v, d), (w, _) = twice(rng, make, k)
    c.note(k, d, angle)
    size = 1.0
    for i, (A, B) in enumerate(zip(v.components, w.components)):
        x, y = np.array(A.mesh.vectors, dtype=float), np.array(B.mesh.vectors, dtype=float)
        c.true(x.shape == y.shape, f"component {i}: meshes of {len(x)} and {len(y)} triangles", "mesh vertices")
        m = float(np.max(np.abs(x)))
        size = max(size, m)
        c.close(y / k, x, m + 1, 1e-6, f"mesh of component {i}, lengths times {k}", "mesh vertices")
    den = {q: r for q, r in zip(parts.names(v), rho)}
    a, b = v.analyse(den), w.analyse(den)
    # how far rounding of the vertices can move the totals
    area = sum(area_of(np.array(q.mesh.vectors, dtype=float)) for q in v.components)
    eps = 3e-6 * size * area
    c.close(w.area / k ** 2, v.area, 1, 1e-5 * (area + size ** 2), f"area, lengths times {k}", "vehicle totals")
    # an open mesh bounds nothing: the number reported for its volume depends on the origin used
    if all(meshlib.closed(np.array(q.mesh.vectors, dtype=float), 0.0) is None for u in (v, w) for q in u.components):
        c.close(b[0] / k ** 3, a[0], 1, eps, f"volume, lengths times {k}", "closed totals")
        c.close(b[1] / k ** 3, a[1], 1, 3 * eps, f"mass, lengths times {k}", "closed totals")
        vols = [v.component_properties["volume"][q] for q in parts.names(v)]
        if min(map(abs, vols)) > 3e-3 * size * area and abs(a[1]) > 3e-3 * size * area:
            c.close(np.array(b[2]) / k, np.array(a[2]), 1, 100 * eps * size / abs(a[1]), f"centre of gravity, lengths times {k}", "closed totals")
            c.close(np.array(b[3]) / k ** 5, np.array(a[3]), 1, 300 * eps * size ** 2, f"inertia, lengths times {k}", "closed totals")


KINDS = [("curve", curve, 600, 6000), ("surface", surface, 400, 4000), ("component", component, 160, 1600),
         ("ogive", ogive, 24, 100), ("loop", loop, 80, 800), ("vehicle", vehicle, 120, 1200)]
