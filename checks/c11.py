"""C11: wings against their planform, thickness, leading edge and flap, and as solids."""
import numpy as np
from scipy.optimize import brentq

from hypervehicle.geometry import Vector3, Line, Bezier, Polyline
from hypervehicle.components import Wing
from rv import gen, meshlib, parts, ref
from rv.core import arr
from checks.c08 import on_ellipse

SPEC = {
    "level": "exploration",
    "rule": "seeded random planforms, thickness and width functions, split values, flap lengths and angles, leading-edge "
            "types, open and closed, several resolutions; a case is distinct by all of these",
    "required": {"planform points": 2000, "leading edge points": 600, "flap points": 800, "closing points": 400,
                 "solids closed": 20, "open sides": 20, "refusals observed": 10},
    "assumptions": ["the leading-edge line advances in x from B0 to TT, ending on the inner side",
                    "thickness acts in z and varies linearly along the inner side",
                    "straight seams of a flat leading edge may be divided unevenly on their two sides",
                    "the wing has thickness where it has an elliptical leading edge"],
}

Z = np.array([0, 0, 1.0])


def V(p):
    return Vector3(*[float(x) for x in p])


class W:
    """A random wing and its reference lines."""

    def __init__(self, rng, le_type, close=None):
        s = self.s = rng.choice([1.0, 5.0, 0.3])
        x0, y0, z0 = [rng.choice([0.0, rng.uniform(-1, 1) * s]) for _ in range(3)]
        L, span = rng.uniform(2, 4) * s, rng.uniform(0.5, 1.5) * s
        self.A0, self.TT = np.array([x0, y0, z0]), np.array([x0 + L, y0, z0])
        self.A1 = np.array([x0 + L * rng.uniform(0.25, 0.6), y0, z0])
        self.B0 = np.array([x0 + rng.choice([0, rng.uniform(-0.15, 0.15)]) * L, y0 + span, z0])
        a1 = self.A1[0] + rng.uniform(-0.05, 0.1) * L
        le = [self.B0, np.array([a1, y0 + span * rng.uniform(0.7, 1.0), z0]),
              np.array([x0 + rng.uniform(0.85, 0.95) * L, y0 + span * rng.uniform(0.15, 0.4), z0]), self.TT]
        self.kind = rng.choice(["bezier", "bezier", "poly"])
        if self.kind == "bezier":
            self.line, self.f = (lambda: Bezier([V(p) for p in le])), ref.bezier(le)
        else:
            self.line = lambda: Polyline([Line(V(a), V(b)) for a, b in zip(le[:-1], le[1:])])
            self.f = ref.polyline([(ref.line(a, b), np.linalg.norm(b - a)) for a, b in zip(le[:-1], le[1:])])[0]
        k = [rng.uniform(0.04, 0.15) * s, rng.uniform(0, 0.02), rng.uniform(-0.02, 0.02), rng.uniform(0, 0.03) / s]
        m = [rng.uniform(0.04, 0.15) * s, rng.uniform(0, 0.02), rng.uniform(-0.02, 0.02), rng.uniform(0, 0.03) / s]
        bias = rng.choice([0.0, 0.0, rng.uniform(-.2, .2) * s])

        def th(q, x, y):
            u, v = x - x0, y - y0
            return q[0] + q[1] * u + q[2] * v + q[3] * v * v

        self.top = lambda x, y, z=0: Vector3(x=0, y=0, z=bias - th(k, x, y))
        self.bot = lambda x, y, z=0: Vector3(x=0, y=0, z=bias + th(m, x, y))
        self.w = w = [rng.uniform(0.02, 0.1) * s for _ in range(3)]
        self.wf = lambda t: w[0] * (1 - t) ** 2 + 2 * w[1] * t * (1 - t) + w[2] * t * t
        self.le_type = le_type
        self.close = rng.random() < 0.5 if close is None else close
        self.fl, self.fa = rng.choice([0.1, 0.3, rng.uniform(0.02, 0.5)]) * s, rng.choice([0, 0.1, -0.1, rng.uniform(-1, 1)])
        self.given = {}
        t1 = brentq(lambda t: self.f(t)[0] - self.A1[0], 0, 1, xtol=1e-14)
        if rng.random() < 0.4:
            t1 = self.given["t_B1"] = rng.choice([0.2, 0.5, rng.uniform(0.15, 0.55)])
        t2 = 0.5 * (1 + t1)
        if rng.random() < 0.4:
            t2 = self.given["t_B2"] = rng.choice([0.7, 0.75, rng.uniform(t1 + 0.1, 0.95)]) if t1 < 0.6 else t1 + 0.1
        self.t1, self.t2 = t1, t2
        # an implied split value is only located to about 1e-6
        self.loose = 0 if "t_B1" in self.given else 1e-5
        self.res = rng.choice([1, 2, 3])
        self.desc = (f"{le_type} {self.kind} {np.round(le, 4).tolist()} A0={np.round(self.A0, 3).tolist()} A1={self.A1[0]:.4f} "
                     f"thickness {np.round(k + m, 4).tolist()} bias={bias:.3f} widths={np.round(w, 4).tolist()} flap={self.fl:.4f},{self.fa:.4f} "
                     f"close={self.close} given={self.given}")

    def build(self, **kw):
        o = dict(self.given)
        if self.le_type == "custom":
            o["LE_wf"] = self.wf
        return parts.serial(Wing(A0=V(self.A0), A1=V(self.A1), TT=V(self.TT), B0=V(self.B0), Line_B0TT=self.line(),
                                 top_tf=self.top, bot_tf=self.bot, LE_type=self.le_type, flap_length=self.fl,
                                 flap_angle=self.fa, close_wing=self.close, **{"stl_resolution": self.res, "verbosity": 0, **o, **kw}))

    # reference lines
    def up(self, p):
        return p + Z * self.top(*p[:2]).z

    def lo(self, p):
        return p + Z * self.bot(*p[:2]).z

    def mid(self, p):
        return 0.5 * (self.up(p) + self.lo(p))

    def tip(self, p):
        return self.mid(p) + np.array([-self.fl * np.cos(self.fa), 0, self.fl * np.sin(self.fa)])

    def sub(self, a, b):
        return lambda t: self.f(a + (b - a) * t)

    def planform(self):
        """Front and rear planform patches and their reversals in r, unflipped first."""
        l, A0, A1, TT, B0 = ref.line, self.A0, self.A1, self.TT, self.B0
        B1 = self.f(self.t1)
        p0 = ref.coons(self.sub(0, self.t1), l(A1, B1), l(A0, A1), l(A0, B0))
        p1 = ref.coons(self.sub(self.t1, self.t2), self.sub(1, self.t2), l(A1, TT), l(A1, B1))
        return p0, p1

    def flat(self, a, b):
        def g(tr, r):
            p = self.f(b - tr * (b - a))
            return (1 - r) * self.up(p) + r * self.lo(p)

        return g

    def surfaces(self):
        """[(what, reference or None)] in the order the wing lists its surfaces."""
        l = ref.line
        p0, p1 = self.planform()
        fr = lambda p, d: (lambda r, s: d(p(1 - r, s)))
        out = [("planform", fr(p0, self.up)), ("planform", fr(p1, self.up)),
               ("planform", lambda r, s: self.lo(p0(r, s))), ("planform", lambda r, s: self.lo(p1(r, s)))]
        if self.le_type != "custom":
            out += [("leading edge", self.flat(0, self.t1)), ("leading edge", self.flat(self.t1, self.t2)),
                    ("leading edge", self.flat(self.t2, 1))]
        else:
            out += [("nose", ("top", 0, self.t1)), ("nose", ("top", self.t1, self.t2)), ("nose", ("top", self.t2, 1)),
                    ("nose", ("bot", 0, self.t1)), ("nose", ("bot", self.t1, self.t2)), ("nose", ("bot", self.t2, 1))]
        te = l(self.A0, self.B0)
        eu, el = (lambda t: self.up(te(t))), (lambda t: self.lo(te(t)))
        tips = l(self.tip(self.A0), self.tip(self.B0))
        out.append(("flap", ref.coons(eu, l(tips(1), eu(1)), tips, l(tips(0), eu(0)))))
        out.append(("flap", ref.coons(tips, l(el(1), tips(1)), el, l(el(0), tips(0)))))
        B, T = self.B0, self.tip(self.B0)
        if self.le_type != "custom":
            out.append(("flap", ref.coons(l(self.mid(B), self.lo(B)), l(T, self.lo(B)), l(self.up(B), T), l(self.up(B), self.mid(B)))))
        else:
            out.append(("flap side", None))
        if self.close:
            A, M, E = self.A0, self.A1, self.TT
            u, m, d = self.up, self.mid, self.lo
            q = lambda n0, n1, s0, s1: ref.coons(l(n0, n1), l(s1, n1), l(s0, s1), l(s0, n0))
            out += [("closing", q(m(A), m(M), u(A), u(M))), ("closing", q(m(M), m(E), u(M), u(E))),
                    ("closing", q(d(A), d(M), m(A), m(M))), ("closing", q(d(M), d(E), m(M), m(E)))]
            if self.le_type == "custom":
                out.append(("closing nose", None))
            out.append(("closing", ref.coons(l(u(A), self.tip(A)), l(d(A), self.tip(A)), l(m(A), d(A)), l(m(A), u(A)))))
        return out

    def direction(self, t):
        if t == 0:
            return np.array([0, 1.0, 0])
        if t == 1:
            return np.array([1.0, 0, 0])
        h = 1e-5
        g = self.f(min(t + h, 1)) - self.f(max(t - h, 0))
        return np.array([-g[1], g[0], 0]) / np.hypot(g[0], g[1])


KNOWN = "flat-leading-edge-overlap"


def known_overlap(c, w, got, want, rng):
    """The listed finding: the last flat leading-edge surface starts at the first split value."""
    wrong = w.flat(w.t1, 1)
    pts = [(0, 0), (1, 0), (1, 1), (0.5, 0.3), (rng.random(), rng.random())]
    sc = 10 * w.s
    tol = (1e-9 + w.loose) * sc
    if all(np.max(np.abs(got(r, t) - want(r, t))) <= tol for r, t in pts):
        return False
    if all(np.max(np.abs(got(r, t) - wrong(r, t))) <= tol for r, t in pts):
        c.known(KNOWN, "the last flat leading-edge surface starts at the first split value")
        return True
    return False


def shape(c, le_type):
    rng = c.rng
    w = W(rng, le_type)
    c.note(w.desc)
    comp = w.build()
    comp.generate_patches()
    got = parts.fns(comp)
    want = w.surfaces()
    c.true(len(got) == len(want), f"{len(got)} surfaces, expected {len(want)}")
    sc = 10 * w.s
    for i, (g, (what, f)) in enumerate(zip(got, want)):
        if what == "nose":
            side, a, b = f
            for tr in [0.0, 1.0, rng.random()]:
                t = b - tr * (b - a)
                p, m = w.f(t), w.mid(w.f(t))
                half = abs(w.up(p)[2] - m[2])
                if tr in (0.0, 1.0) and 0 < t < 1 and w.loose:
                    # the split point itself is only located to about 1e-6: test the shoulder loosely
                    sh = 0.0 if side == "top" else 1.0
                    c.close(g(tr, sh), w.up(p) if side == "top" else w.lo(p), sc, w.loose, f"shoulder of surface {i}", "leading edge points")
                    continue
                if w.loose:
                    continue
                r = rng.choice([0.0, 1.0, rng.random()])
                if not joint(w, t):
                    on_ellipse(c, g(tr, r), m, w.wf(t), half, w.direction(t), r, side, w.s)
                sh, no = (0.0, 1.0) if side == "top" else (1.0, 0.0)
                c.close(g(tr, sh), w.up(p) if side == "top" else w.lo(p), sc, 1e-8, f"shoulder of surface {i}", "leading edge points")
                c.close(np.linalg.norm((g(tr, no) - m)[:2]), w.wf(t), sc, 1e-8, f"nose width of surface {i}", "leading edge points")
            continue
        if f is None:
            if what == "flap side":
                B, T = w.B0, w.tip(w.B0)
                a, b, d = w.up(B), T, w.lo(B)
                for t in (0.0, 1.0, rng.random()):
                    c.close(g(t, 0.0), a + (b - a) * t, sc, 1e-9, "flap side lower border", "flap points")
                    c.close(g(1.0, t), b + (d - b) * t, sc, 1e-9, "flap side upper border", "flap points")
                m = w.mid(B)
                on_ellipse(c, g(0.0, 0.5), m, w.wf(0), abs(a[2] - m[2]), np.array([0, 1.0, 0]), 0.5, "top", w.s)
                on_ellipse(c, g(0.5, 1.0), m, w.wf(0), abs(d[2] - m[2]), np.array([0, 1.0, 0]), 0.5, "bot", w.s)
            continue
        if what == "leading edge" and i == 6 and known_overlap(c, w, g, f, rng):
            continue
        for r, t in [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)] + [(gen.tvalue(rng), gen.tvalue(rng)) for _ in range(4)]:
            c.close(g(r, t), f(float(r), float(t)), sc, 1e-9 + w.loose, f"{what} surface {i} at ({r}, {t})", what + " points")


def joint(w, t):
    """Corners of a broken leading-edge line have no single direction."""
    if w.kind != "poly":
        return False
    h = 2e-3
    a, b, d = w.f(max(t - h, 0)), w.f(t), w.f(min(t + h, 1))
    return np.linalg.norm(a + d - 2 * b) > 1e-9 * w.s and 0 < t < 1


def flat(c):
    shape(c, c.rng.choice(["flat", "FLAT", "Flat"]))


def nose(c):
    shape(c, "custom")


def solid(c):
    """The mesh of a closed wing is watertight and faces outward; an open one is open only inside."""
    rng = c.rng
    le_type = rng.choice(["flat", "custom", "custom"])
    w = W(rng, le_type)
    if le_type == "custom":
        w.res = rng.choice([1, 2, 2])
    c.note("solid", w.desc, w.res)
    comp = w.build()
    comp.generate_patches()
    t = meshlib.tris(comp.mesh)
    n = 4 * w.res ** 2
    c.true(len(t) == n * len(comp.patches) and np.all(np.isfinite(t)), f"{len(t)} triangles for {len(comp.patches)} surfaces")
    if le_type == "flat":
        g, f = parts.fns(comp)[6], w.surfaces()[6][1]
        if known_overlap(c, w, g, f, rng):
            t[6 * n:7 * n] = meshlib.sampled(f, w.res, w.res)  # look at the rest without the listed finding
    dist = 2e-5 * w.s
    if w.close:
        if le_type == "custom":
            bad = meshlib.closed(t, dist)
            c.true(bad is None, f"closed wing: {bad}", "solids closed")
        border = meshlib.boundary(t, dist)
        c.true(len(border) == 0, f"closed wing is open, e.g. at {border[:1].tolist()}", "solids closed")
        c.true(meshlib.mass(t)[0] > 0, "closed wing does not face outwards", "solids closed")
    else:
        border = meshlib.boundary(t, dist)
        far = border[np.abs(border[:, :, 1] - w.A0[1]).max(axis=1) > dist]
        c.true(len(border) > 0 and not len(far), f"open wing has open edges away from its inner side, e.g. {far[:1].tolist()}", "open sides")


def refused(c):
    rng = c.rng
    w = W(rng, "flat")
    kw = rng.choice([{"Line_B0TT_TYPE": "spline"}, {"tail_option": "NONE"}, {"Line_B0TT_TYPE": "line"}])
    c.note(kw, w.desc)
    c.raises(lambda: w.build(**kw).generate_patches(), f"wing option {kw}")


KINDS = [("flat", flat, 240, 2500), ("nose", nose, 60, 600), ("solid", solid, 90, 900), ("refused", refused, 12, 30)]
