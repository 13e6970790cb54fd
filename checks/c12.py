"""C12: fins against their planform, thickness, edges and placement, and as solids."""
import numpy as np

from hypervehicle.geometry import Vector3
from hypervehicle.components import Fin
from rv import gen, meshlib, parts, ref
from checks.c08 import on_ellipse

SPEC = {
    "level": "exploration",
    "rule": "seeded random planforms, thicknesses, width profiles (also the default), rudder types, lengths and angles, "
            "pivot and fin angles, pivot points, offset functions and resolutions; a case is distinct by all of these",
    "required": {"surface points": 1500, "nose points": 300, "solids closed": 30, "placed points": 1000},
    "assumptions": ["the planform lies in z=0 with p1, p2, p3 advancing in x; p0 and p3 on the inner side",
                    "the two thickness functions are minus and plus half the fin thickness at the root (and at the rear edge of a flat-ended fin)"],
}


def V(p):
    return Vector3(*[float(x) for x in p])


class F:
    def __init__(self, rng, rigid=False, solid=False):
        s = self.s = rng.choice([1.0, 5.0, 0.3])
        x0, y0 = [rng.choice([0.0, rng.uniform(-1, 1) * s]) for _ in range(2)]
        L, H = rng.uniform(1, 3) * s, rng.uniform(0.5, 1.5) * s
        p0 = np.array([x0, y0, 0])
        p1 = np.array([x0 + rng.choice([0, rng.uniform(-0.2, 0.2)]) * L, y0 + H, 0])
        p2 = np.array([p1[0] + L * rng.uniform(0.2, 0.5), y0 + H * rng.choice([1.0, rng.uniform(0.75, 1.1)]), 0])
        p3 = np.array([max(x0, p2[0]) + L * rng.uniform(0.2, 0.6), y0 + rng.choice([0, 0, rng.uniform(-.1, .1) * H]), 0])
        self.p = [p0, p1, p2, p3]
        self.th = rng.uniform(0.05, 0.3) * s
        self.rudder = rng.choice(["flat", "sharp"])
        self.rl = rng.choice([0.0, 0.1, rng.uniform(0.05, 0.4)]) * s
        self.ra = rng.choice([0, 0.1, -0.2, rng.uniform(-1, 1)])
        self.fa = rng.choice([0, np.pi / 2, -np.pi / 2, np.pi, 0.6, rng.uniform(-7, 7)])
        self.pa = rng.choice([0, 0, np.pi / 2, rng.uniform(-2, 2)])
        self.pp = None if rng.random() < 0.2 else np.array([rng.choice([0, rng.uniform(-1, 1)]) * s for _ in range(3)])
        k = [rng.uniform(-1, 1) for _ in range(3)]
        self.okind = rng.choice(["none", "const", "const" if rigid else "fn"])
        self.off = {"none": lambda x, y, z: np.zeros(3), "const": lambda x, y, z: np.array(k) * s,
                    "fn": lambda x, y, z: np.array([0.1 * k[0] * y + k[1] * s, 0.1 * k[2] * z, 0.1 * k[0] * x * x / s])}[self.okind]
        w = [rng.uniform(0.02, 0.1) * s for _ in range(2)]
        self.default_w = rng.random() < 0.2
        self.wf = (lambda t: 0.01 * (1 - t) ** 2 + 0.2 * t * (1 - t) + 0.01 * t * t) if self.default_w else (lambda t: w[0] + (w[1] - w[0]) * t)
        self.res = rng.choice([1, 2, 3])
        # thickness may taper outwards where the rear edge follows it
        self.taper = rng.choice([0, -0.5, 0.6, rng.uniform(-.8, .8)]) if self.rudder == "sharp" else 0
        # the sides may taper differently, except that then the nose does not meet the rudder's corner
        self.taper2 = rng.choice([0, self.taper, rng.uniform(-.8, .8)]) if self.taper and not solid else self.taper
        self.slope = rng.choice([0, 0, 0.25, -0.25])
        if self.taper:
            p3[1] = y0
        self.desc = (f"taper={self.taper:.3f},{self.taper2:.3f},{self.slope} {np.round(self.p, 4).tolist()} th={self.th:.4f} {self.rudder} {self.rl:.4f},{self.ra:.4f} angle={self.fa:.4f} "
                     f"pivot={self.pa:.4f}@{None if self.pp is None else np.round(self.pp, 3).tolist()} offset={self.okind},{np.round(k, 3).tolist()} "
                     f"widths={'default' if self.default_w else np.round(w, 4).tolist()}")

    def h(self, p, side="top"):
        """Half thickness at a planform point."""
        u = (p[1] - self.p[0][1]) / (1.2 * (self.p[1][1] - self.p[0][1]))
        return self.th / 2 * (1 + (self.taper if side == "top" else self.taper2) * u * (1 + self.slope * (p[0] - self.p[0][0]) / (3 * self.s)))

    def build(self):
        o = {}
        if not self.default_w:
            o["LE_wf"] = self.wf
        if self.okind != "none":
            o["offset_func"] = lambda x, y, z: Vector3(*self.off(x, y, z))
        if self.pp is not None:
            o["pivot_point"] = V(self.pp)
        if self.pa:
            o["pivot_angle"] = self.pa
        return parts.serial(Fin(p0=V(self.p[0]), p1=V(self.p[1]), p2=V(self.p[2]), p3=V(self.p[3]), fin_thickness=self.th, fin_angle=self.fa,
                                top_thickness_function=lambda x, y, z=0: Vector3(x=0, y=0, z=-self.h((x, y))),
                                bot_thickness_function=lambda x, y, z=0: Vector3(x=0, y=0, z=self.h((x, y), "bot")),
                                rudder_type=self.rudder, rudder_length=self.rl, rudder_angle=self.ra,
                                stl_resolution=self.res, verbosity=0, **o))

    def place(self, p):
        q = np.zeros(3) if self.pp is None else self.pp
        p = ref.rot("y", self.pa) @ (p - q) + q
        p = ref.rot("x", self.fa) @ p
        return p + self.off(*p)

    def unplace(self, p):
        q = np.zeros(3) if self.pp is None else self.pp
        p = p - self.off(0, 0, 0)  # only for constant offsets
        p = ref.rot("x", -self.fa) @ p
        return ref.rot("y", -self.pa) @ (p - q) + q

    def surfaces(self):
        l = ref.line
        p0, p1, p2, p3 = self.p
        up, lo = (lambda p: p - np.array([0, 0, self.h(p)])), (lambda p: p + np.array([0, 0, self.h(p, "bot")]))
        pl = ref.bilinear(p0, p3, p2, p1)  # r along p0-p3, s outwards
        q = lambda n0, n1, s0, s1: ref.coons(l(n0, n1), l(s1, n1), l(s0, s1), l(s0, n0))
        out = [("surface", lambda r, s: up(pl(s, r))), ("surface", lambda r, s: lo(pl(r, s))),
               ("nose", ("top", 0)), ("nose", ("top", 1)), ("nose", ("bot", 0)), ("nose", ("bot", 1)),
               ("root nose", None), ("surface", q(up(p3), up(p0), p3, p0)), ("surface", q(p3, p0, lo(p3), lo(p0)))]
        if self.rudder == "sharp":
            d = np.array([-self.rl, 0, self.rl * np.sin(self.ra)])
            t0, t1 = p0 + d, p1 + d
            # the rear edge follows the thickness
            e, te = l(p0, p1), l(t0, t1)
            out += [("surface", ref.coons(lambda t: up(e(t)), l(t1, up(p1)), te, l(t0, up(p0)))),
                    ("surface", ref.coons(te, l(lo(p1), t1), lambda t: lo(e(t)), l(lo(p0), t0))), ("tip", (up(p1), t1, lo(p1))),
                    ("surface", ref.coons(l(t0, lo(p0)), l(p0, lo(p0)), l(up(p0), p0), l(up(p0), t0)))]
        else:
            out += [("tip nose", None), ("surface", ref.coons(l(up(p0), up(p1)), l(p1, up(p1)), l(p0, p1), l(p0, up(p0)))),
                    ("surface", ref.coons(l(p0, p1), l(lo(p1), p1), l(lo(p0), lo(p1)), l(lo(p0), p0)))]
        return out

    def edge(self, part, tr):
        """Edge point, global parameter and outward direction for a leading-edge surface."""
        p0, p1, p2, p3 = self.p
        a, b = np.linalg.norm(p2 - p1), np.linalg.norm(p3 - p2)
        tb = a / (a + b)
        t = tb * (1 - tr) if part == 0 else 1 - tr * (1 - tb)
        p = p1 + (p2 - p1) * t / tb if part == 0 else p2 + (p3 - p2) * (t - tb) / (1 - tb)
        if t == 0:
            return p, t, np.array([0, 1.0, 0])
        if t == 1:
            return p, t, np.array([1.0, 0, 0])
        g = p2 - p1 if part == 0 else p3 - p2
        return p, t, np.array([-g[1], g[0], 0]) / np.hypot(*g[:2])


def shape(c):
    rng = c.rng
    f = F(rng)
    c.note(f.desc)
    comp = f.build()
    comp.generate_patches()
    got, want = parts.fns(comp), f.surfaces()
    c.true(len(got) == len(want), f"{len(got)} surfaces, expected {len(want)}")
    sc = 20 * f.s
    for i, (g, (what, w)) in enumerate(zip(got, want)):
        if what == "surface":
            for r, t in [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)] + [(gen.tvalue(rng), gen.tvalue(rng)) for _ in range(2)]:
                c.close(g(r, t), f.place(w(float(r), float(t))), sc, 1e-9, f"surface {i} at ({r}, {t})", "surface points")
        elif what == "nose":
            side, part = w
            for tr in (0.0, 1.0, rng.random()):
                p, t, d = f.edge(part, tr)
                h = (f.h(p) + f.h(p, "bot")) / 2
                corner = 0 < t < 1 and tr in (0.0, 1.0)
                sh, no = (0.0, 1.0) if side == "top" else (1.0, 0.0)
                e = p + np.array([0, 0, -f.h(p) if side == "top" else f.h(p, "bot")])
                p = p + np.array([0, 0, (f.h(p, "bot") - f.h(p)) / 2])  # the nose runs half way between the sides
                c.close(g(tr, sh), f.place(e), sc, 2e-6, f"shoulder of surface {i}", "nose points")
                if corner or f.okind == "fn":
                    continue
                c.close(np.linalg.norm(f.unplace(g(tr, no)) - p), f.wf(t), sc, 2e-6, f"nose width of surface {i}", "nose points")
                if min(tr, 1 - tr) > 0.01 or tr in (0.0, 1.0):
                    r = rng.random()
                    q = f.unplace(g(tr, r)) - p
                    u = q @ d
                    c.close((u / f.wf(t)) ** 2 + (q[2] / h) ** 2, 1.0, 1, 1e-3, f"surface {i} not on the nose ellipse", "nose points")
                    c.true(u > -1e-6 * f.s and q[2] * (1 if side == "bot" else -1) >= -1e-6 * f.s, f"surface {i}: wrong quarter", "nose points")
        elif what == "tip":
            a, b, d = w
            for t in (0.0, 1.0, rng.random()):
                c.close(g(t, 0.0), f.place(a + (b - a) * t), sc, 1e-9, "tip border", "surface points")
                c.close(g(1.0, t), f.place(b + (d - b) * t), sc, 1e-9, "tip border", "surface points")
        elif f.okind != "fn":
            # half ellipses closing the nose: flat, on the section plane through p3 or p1
            p, wd = (f.p[3], f.wf(1)) if what == "root nose" else (f.p[1], f.wf(0))
            h = f.h(p)
            ax, n = (0, 1) if what == "root nose" else (1, 0)
            for r, t in [(0.0, 0.0), (1.0, 1.0), (1.0, 0.0), (rng.random(), rng.random())]:
                q = f.unplace(g(r, t)) - p
                c.close(q[n], 0.0, sc, 1e-9, f"{what} leaves its plane", "nose points")
                e = (q[ax] / wd) ** 2 + (q[2] / h) ** 2
                c.true(e <= 1 + 1e-4 and q[ax] >= -1e-9 * sc, f"{what} outside its half ellipse: {q}", "nose points")


def placement(c):
    """Pivot, then fin angle, then offset, applied to every surface alike."""
    rng = c.rng
    f = F(rng)
    c.note("placement", f.desc)
    comp = f.build()
    comp.generate_patches()
    bare = F.__new__(F)
    bare.__dict__.update(f.__dict__)
    bare.pa, bare.fa, bare.okind = 0, 0, "none"
    k = bare.build()
    k.generate_patches()
    a, b = parts.fns(comp), parts.fns(k)
    c.true(len(a) == len(b), f"{len(a)} surfaces, {len(b)} when not placed")
    for i, (x, y) in enumerate(zip(a, b)):
        for r, t in [(0.0, 0.0), (1.0, 1.0), (rng.random(), rng.random())]:
            c.close(x(r, t), f.place(y(r, t)), 20 * f.s, 1e-9, f"surface {i} at ({r}, {t})", "placed points")


def solid(c):
    rng = c.rng
    f = F(rng, solid=True)
    f.res = rng.choice([1, 2, 3])
    c.note("solid", f.desc, f.res)
    comp = f.build()
    comp.generate_patches()
    t = meshlib.tris(comp.mesh)
    c.true(len(t) == 4 * f.res ** 2 * len(comp.patches) and np.all(np.isfinite(t)), f"{len(t)} triangles for {len(comp.patches)} surfaces")
    bad = meshlib.closed(t, 2e-5 * f.s)
    if f.rudder == "sharp" and f.rl == 0 and bad and "twice" in bad:
        bad = None  # a sharp rudder of no length folds onto itself
    c.true(bad is None, f"fin: {bad}", "solids closed")
    c.true(meshlib.mass(t)[0] > 0, "fin does not face outwards", "solids closed")


KINDS = [("shape", shape, 60, 600), ("placement", placement, 40, 400), ("solid", solid, 60, 600)]
