"""C13: swept, revolved, cube, sphere and ogive bodies: closedness, volume, resolutions, rejections."""
import numpy as np

from hypervehicle.geometry import Vector3, Line, Bezier, Polyline
from hypervehicle.components import SweptComponent, RevolvedComponent, Cube, Sphere
from hypervehicle.components.common import OgiveNose
from rv import gen, meshlib, parts, ref
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random loops (three to six edges, two to twelve sections), profiles, sizes, centres and resolutions, "
            "and defective inputs of each rejected class; a case is distinct by geometry and resolution",
    "required": {"solids closed": 150, "volumes": 150, "surface points": 2000, "triangles expected": 2000,
                 "refusals observed": 40},
    "assumptions": ["section loops of up to about ten units in size (the loop test of the code is absolute)"],
}


def section(rng, s, n, z, tilt):
    """n corner points of a star-shaped loop near the plane at height z."""
    a = np.sort([2 * np.pi * (i + rng.uniform(-.25, .25)) / n for i in range(n)])
    P = []
    for x in a:
        r = s * rng.uniform(0.6, 1.0)
        p = np.array([r * np.cos(x), r * np.sin(x), 0.0])
        p[2] = z + tilt[0] * p[0] + tilt[1] * p[1]
        P.append(p)
    return P


class Body:
    def __init__(self, rng, n=None, planar=True):
        s = self.s = rng.choice([1.0, 1.0, 5.0, 0.2])
        self.n = n or rng.choice([4, 4, 4, 3, 5, 6])
        m = self.m = rng.choice([2, 2, 3, 4, 5, rng.randint(6, 12)])
        z = np.cumsum([rng.uniform(0.3, 1) * s for _ in range(m)])
        kinds = [rng.choice(["line", "line", "bezier", "poly"]) for _ in range(self.n)]
        self.axis = rng.choice([0, 1, 2])
        self.flip = rng.random() < 0.3
        self.closed = self.n == 4 and rng.random() < 0.85
        self.secs, self.refs = [], []
        for k in range(m):
            P = section(rng, s * rng.uniform(0.5, 1), self.n, z[k], (0, 0))
            P = [np.roll(p, self.axis) for p in P]
            if self.flip:
                P = P[::-1]
            b = [rng.uniform(-0.1, 0.3) for _ in range(self.n)]
            # bulges stay within the section plane: scale about the section's centre
            mid = np.mean(P, axis=0)
            real, f = loop(P, kinds, b, mid)
            self.secs.append(real)
            self.refs.append(f)
        self.desc = f"{self.n} edges {kinds} {m} sections axis={self.axis} flip={self.flip} closed={self.closed} s={s} z={np.round(z, 3).tolist()}"

    def build(self, res, **kw):
        return parts.serial(SweptComponent(cross_sections=self.secs, close_ends=self.closed, stl_resolution=res, verbosity=0, **kw))

    def surfaces(self):
        out = [ref.swept_edges([r[e] for r in self.refs]) for e in range(self.n)]
        if self.closed:
            for k, end in ((0, 0), (-1, 1)):
                a, b, d, e = self.refs[k]
                rv = lambda g: (lambda t: g(1 - t))
                if end == 0:
                    out.append(ref.coons(rv(d), b, a, rv(e)))
                else:
                    out.append(ref.coons(d, rv(e), rv(a), b))
        return out

    def volume(self):
        """Exact volume: the section area is quadratic between sections."""
        t = np.linspace(0, 1, 401)[:-1]
        loops = [np.array([f(x) for f in r for x in t]) for r in self.refs]
        i, j = (self.axis + 0) % 3, (self.axis + 1) % 3
        k = (self.axis + 2) % 3

        def area(P):
            x, y = P[:, i], P[:, j]
            return 0.5 * np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))

        V = 0
        for A, B in zip(loops[:-1], loops[1:]):
            h = B[:, k].mean() - A[:, k].mean()
            V += h / 6 * (area(A) + 4 * area((A + B) / 2) + area(B))
        return abs(V)


def loop(P, kinds, bulge, mid):
    """Real paths and reference curves of a closed loop; bulges stay in its plane."""
    real, f = [], []
    n = len(P)
    for i in range(n):
        a, b = P[i], P[(i + 1) % n]
        m = mid + ((a + b) / 2 - mid) * (1 + bulge[i])
        if kinds[i] == "line":
            real.append(Line(parts.V(a), parts.V(b)))
            f.append(ref.line(a, b))
        elif kinds[i] == "bezier":
            real.append(Bezier([parts.V(a), parts.V(m), parts.V(b)]))
            f.append(ref.bezier([a, m, b]))
        else:
            real.append(Polyline([Line(parts.V(a), parts.V(m)), Line(parts.V(m), parts.V(b))]))
            f.append(ref.polyline([(ref.line(a, m), np.linalg.norm(m - a)), (ref.line(m, b), np.linalg.norm(b - m))])[0])
    return real, f


def solid(c, t, dist, what, flat=False):
    bad = meshlib.closed(t, dist)
    if flat and bad and "twice" in bad:
        bad = None
    c.true(bad is None, f"{what}: {bad}", "solids closed")


def swept(c):
    rng = c.rng
    b = Body(rng)
    res = rng.choice([1, 2, 3, 4])
    c.note("swept", b.desc, res)
    comp = b.build(res)
    comp.generate_patches()
    want = b.surfaces()
    parts.compare(c, comp, want, "swept body", "surface points", rng, size=b.s)
    t = meshlib.tris(comp.mesh)
    e = parts.expected_mesh(want, res)
    c.close(t, e, 1, meshlib.tol(e, 1e-8 * b.s), "mesh", "triangles expected")
    if b.closed:
        solid(c, t, 1e-6 * b.s, "swept body")
        fine = 8 * (b.m - 1)
        comp.surface(resolution=fine)
        V = abs(meshlib.mass(meshlib.tris(comp.mesh))[0])
        c.close(V, b.volume(), b.volume(), 0.03, f"volume at resolution {fine}", "volumes")
    else:
        # open at the two end loops only
        border = meshlib.boundary(t, 1e-6 * b.s)
        k = (b.axis + 2) % 3
        ends = [b.refs[0][0](0.0)[k], b.refs[-1][0](0.0)[k]]
        d = np.min([np.abs(border[:, :, k] - x).max(axis=1) for x in ends], axis=0)
        c.true(len(border) > 0 and np.all(d < 1e-5 * b.s), "swept body is open away from its ends", "solids closed")


def per_edge(c):
    """Resolutions per edge, also on reflected copies."""
    rng = c.rng
    b = Body(rng)
    r = {f"e{i}": rng.randint(1, 5) for i in range(b.n)}
    r["sweep"] = rng.randint(1, 6)
    if b.closed:
        r["e2"], r["e3"] = r["e0"], r["e1"]
    if rng.random() < 0.3:
        r = dict(sorted(r.items(), reverse=True))
    refl = rng.choice([None, ("x", True), ("y", False), ("z", True), ("Y", True)])
    motion = [parts.motion(rng, b.s) for _ in range(rng.randint(0, 2))]
    c.note("per edge", b.desc, r, refl, [m[2] for m in motion])
    comp = b.build(dict(r))
    want = b.surfaces()
    shape = [(r["sweep"], r[f"e{i}"]) for i in range(b.n)] + ([(r["e0"], r["e1"])] * 2 if b.closed else [])
    o = {}
    if refl:
        o = {"reflection_axis": refl[0], "append_reflection": refl[1]}
        m = [ref.mirrored(f, refl[0].lower()) for f in want]
        want = want + m if refl[1] else m
        shape = shape * 2 if refl[1] else shape
    if motion:
        o["transformations"] = [m[0]() for m in motion]
        for m in motion:
            want = [m[1](f) for f in want]
    v = parts.vehicle()
    v.add_component(comp, **o)
    v.generate()
    t = meshlib.tris(comp.mesh)
    n = sum(4 * x * y for x, y in shape)
    c.true(len(t) == n, f"{len(t)} triangles, expected {n}", "triangles expected")
    e = parts.expected_mesh(want, shape)
    c.close(t, e, 1, meshlib.tol(e, 1e-8 * b.s), "mesh with resolutions per edge", "triangles expected")
    if b.closed and not refl:
        solid(c, t, 1e-6 * b.s + meshlib.tol(t), "swept body with resolutions per edge")


def revolved(c):
    rng = c.rng
    s = rng.choice([1.0, 5.0, 0.2])
    pts, kinds = parts.profile(rng, s)
    res = rng.choice([1, 2, 3, 5])
    c.note("revolved", np.round(pts, 4).tolist(), kinds, res)
    comp = parts.serial(RevolvedComponent(parts.prof_line(pts, kinds), stl_resolution=res, verbosity=0))
    comp.generate_patches()
    segs = []
    for a, b, k in zip(pts[:-1], pts[1:], kinds):
        g = ref.line(a, b) if k == "line" else ref.bezier([a, ((a[0] + b[0]) / 2, max(a[1], b[1]), 0.0), b])
        # the share of the parameter range follows the length the path itself reports
        L = np.linalg.norm(np.subtract(b, a)) if k == "line" else Bezier([parts.V(a), parts.V(((a[0] + b[0]) / 2, max(a[1], b[1]), 0)), parts.V(b)]).length()
        segs.append((g, L))
    f, br = ref.polyline(segs)
    want = [ref.revolved(f, i * np.pi / 2, (i + 1) * np.pi / 2) for i in range(4)]
    parts.compare(c, comp, want, "revolved body", "surface points", rng, size=s)
    t = meshlib.tris(comp.mesh)
    solid(c, t, 1e-5 * s, "revolved body", flat=res == 1)  # a profile cut once runs along the axis
    ts = np.unique(np.concatenate([np.linspace(a, b, 400) for a, b in zip(br[:-1], br[1:])]))
    P = np.array([f(x) for x in ts])
    V = abs(np.sum(np.pi / 3 * np.diff(P[:, 0]) * (P[1:, 1] ** 2 + P[1:, 1] * P[:-1, 1] + P[:-1, 1] ** 2)))
    comp.surface(resolution=16)
    got = abs(meshlib.mass(meshlib.tris(comp.mesh))[0])
    c.close(got, V, V, 0.06, "volume at resolution 16", "volumes")
    comp.surface(resolution=48)
    got = abs(meshlib.mass(meshlib.tris(comp.mesh))[0])
    c.close(got, V, V, 0.015, "volume at resolution 48", "volumes")


def polygon(c):
    rng = c.rng
    s = rng.choice([1.0, 5.0, 0.2])
    a = rng.choice([1, 0.5, rng.uniform(0.2, 2)]) * s
    ctr = [gen.number(rng, s) for _ in range(3)]
    k = rng.choice(["cube", "sphere"])
    res = rng.choice([1, 2, 3, 4, 7])
    default = rng.random() < 0.2
    c.note(k, a, ctr, res, default)
    cls = Cube if k == "cube" else Sphere
    comp = parts.serial(cls(a, stl_resolution=res, verbosity=0) if default else cls(a, Vector3(*ctr), stl_resolution=res, verbosity=0))
    if default:
        ctr = [0, 0, 0]
    comp.generate_patches()
    c.true(len(comp.patches) == 6, f"{len(comp.patches)} faces", "surface points")
    for g in parts.fns(comp):
        for _ in range(4):
            q = g(gen.tvalue(rng), gen.tvalue(rng)) - ctr
            size = np.max(np.abs(q)) if k == "cube" else np.linalg.norm(q)
            c.close(size, a, a + np.max(np.abs(ctr)), 1e-9, f"point {q} of the {k}", "surface points")
    t = meshlib.tris(comp.mesh)
    c.true(len(t) == 6 * 4 * res ** 2, f"{len(t)} triangles", "triangles expected")
    ext = a + float(np.max(np.abs(ctr)))
    solid(c, t, 1e-5 * a + 8 * meshlib.EPS32 * ext, k)
    V = meshlib.mass(t)[0]
    if k == "cube":
        c.close(V, 8 * a ** 3, a ** 3, 1e-5 + 400 * meshlib.EPS32 * ext / a, "volume of the cube", "volumes")
    else:
        exact = 4 / 3 * np.pi * a ** 3
        comp.surface(resolution=12)
        W = meshlib.mass(meshlib.tris(comp.mesh))[0]
        c.true(0 < W < exact * (1 + 1e-3) and W > 0.97 * exact, f"volume of the sphere {W}, exact {exact}", "volumes")
        c.true(0 < V <= exact * (1 + 1e-3), f"volume of the sphere {V}, exact {exact}", "volumes")


def ogive(c):
    rng = c.rng
    s = rng.choice([1.0, 0.2, 4.0])
    h = rng.uniform(0.5, 1) * s
    rn = h * rng.uniform(0.1, 0.7)
    ro = h * rng.uniform(1.5, 20)
    Lo = rng.uniform(0.2, 3) * s
    res = rng.choice([1, 2, 3])
    c.note("ogive", h, rn, ro, Lo, res)
    comp = parts.serial(OgiveNose(h=h, r_n=rn, r_o=ro, L_o=Lo, stl_resolution=res, name="nose"))
    comp.verbosity = 0
    comp.generate_patches()
    # sphere of radius rn touching from inside the arc of radius ro that ends, level, at (0, h)
    xc = np.sqrt((ro - rn) ** 2 - (ro - h) ** 2)
    u = np.array([xc, ro - h]) / (ro - rn)
    xt = xc + rn * u[0]

    def radius(x):
        if x <= 0:
            return h
        if x <= xt:
            return np.sqrt(max(ro ** 2 - x ** 2, 0)) - (ro - h)
        return np.sqrt(max(rn ** 2 - (x - xc) ** 2, 0))

    for g in parts.fns(comp):
        for _ in range(6):
            q = g(gen.tvalue(rng), gen.tvalue(rng))
            rad = np.hypot(q[1], q[2])
            c.true(-Lo - 1e-9 * s <= q[0] <= xc + rn + 1e-9 * s, f"point {q} outside the length of the nose", "surface points")
            if abs(q[0] + Lo) < 1e-9 * s:
                c.true(rad <= h * (1 + 1e-9), f"base point {q}", "surface points")
            elif q[0] > xt and xc + rn - q[0] < 1e-6 * s:
                c.true(rad < 0.01 * s, f"tip point {q}", "surface points")
            else:
                c.close(rad, radius(q[0]), s, 2e-6, f"radius at x={q[0]}", "surface points")
    t = meshlib.tris(comp.mesh)
    solid(c, t, 1e-5 * s, "ogive nose", flat=res == 1)
    x = np.linspace(0, xc + rn, 4001)
    y = np.array([radius(v) for v in x])
    V = np.pi * (h * h * Lo + np.sum((y[1:] ** 2 + y[:-1] ** 2) / 2 * np.diff(x)))
    comp.surface(resolution=40)
    got = abs(meshlib.mass(meshlib.tris(comp.mesh))[0])
    c.close(got, V, V, 0.05, "volume of the nose", "volumes")


def refused(c):
    rng = c.rng
    b = Body(rng, n=4)
    b.closed = True
    k = rng.choice(["gap", "gap", "reversed", "count", "ends", "res02", "res13"])
    c.note("refused", k, b.desc)
    if k == "gap":
        i, j = rng.randrange(b.m), rng.randrange(4)
        d = [0, 0, 0]
        ax = rng.randrange(3)
        d[ax] = rng.choice([1e-3, -1e-3, 1e-6, 0.1, -1e-8])
        a, e = arr(b.secs[i][j](0)), arr(b.secs[i][j](1))
        b.secs[i] = list(b.secs[i])
        b.secs[i][j] = Line(parts.V(a), parts.V(e + d)) if rng.random() < 0.5 else Line(parts.V(a + d), parts.V(e))
        b.closed = rng.random() < 0.7
        c.note(i, j, ax, d)
        c.raises(lambda: b.build(2), f"section {i} open at edge {j} by {d}")
    elif k == "reversed":
        i, j = rng.randrange(b.m), rng.randrange(4)
        a, e = arr(b.secs[i][j](0)), arr(b.secs[i][j](1))
        b.secs[i] = list(b.secs[i])
        b.secs[i][j] = Line(parts.V(e), parts.V(a))
        c.raises(lambda: b.build(1), f"section {i} with edge {j} reversed")
    elif k == "count":
        i = rng.randrange(b.m)
        o = Body(rng, n=rng.choice([3, 5, 6]))
        b.secs[i] = o.secs[0]
        b.closed = rng.random() < 0.5
        c.raises(lambda: b.build(2), f"section {i} with {o.n} edges")
    elif k == "ends":
        o = Body(rng, n=rng.choice([3, 5, 6]))
        o.closed = True
        c.raises(lambda: o.build(2), f"closed ends for {o.n} edges")
    else:
        r = {"e0": 2, "e1": 3, "e2": 2, "e3": 3, "sweep": 4}
        x = rng.randint(1, 5)
        key = rng.choice(["e0", "e2"] if k == "res02" else ["e1", "e3"])
        r[key] = x if x != r[key] else x + 1
        c.raises(lambda: b.build(r), f"edge resolutions {r}")
        b.closed = False
        b.build(r)  # without ends they are fine


KINDS = [("swept", swept, 150, 1500), ("per_edge", per_edge, 120, 1200), ("revolved", revolved, 60, 600),
         ("polygon", polygon, 90, 900), ("ogive", ogive, 36, 360), ("refused", refused, 72, 600)]
