"""Workload generators.  Each returns a real object together with its reference."""
import numpy as np

from hypervehicle.geometry.vector import Vector3
from hypervehicle.geometry.path import Line, Bezier, Polyline, Spline, Arc
from hypervehicle.geometry.surface import CoonsPatch
from hypervehicle.geometry import geometry as G

from . import ref

SPECIAL = [0.0, 1.0, -1.0, 0.5, -0.0, 2.0, 1e-3, -0.25]
T_SPECIAL = [0, 1, 0.0, 1.0, 0.5, 0.25, 0.75, 1 / 3, 2 / 3, 1e-9, 1 - 1e-9, 0.999999, 1e-6]


def scale(rng):
    return rng.choice([1.0, 1.0, 1.0, 1e-2, 10.0, 1e3])


def few(rng, a, b, many, p=0.07):
    """A count from a to b, now and then one up to many."""
    return rng.randint(b, many) if rng.random() < p else rng.randint(a, b)


def number(rng, s=1.0):
    k = rng.random()
    if k < 0.2:
        return rng.choice(SPECIAL) * s
    if k < 0.3:
        n = rng.randint(-5, 5)
        return n if s == 1 else n * s
    x = rng.uniform(-1, 1) * s
    return np.float64(x) if k < 0.4 else x


def point(rng, s=1.0, flat=None):
    p = [number(rng, s) for _ in range(3)]
    if flat is not None:
        p["xyz".index(flat)] = 0.0
    return Vector3(*p)


def tup(v):
    return (float(v.x), float(v.y), float(v.z))


def tvalue(rng):
    return rng.choice(T_SPECIAL) if rng.random() < 0.3 else rng.random()


def tvalues(rng, n):
    return [0, 1] + [tvalue(rng) for _ in range(n)]


def frame(rng):
    """Random right-handed orthonormal frame as three arrays."""
    k = rng.random()
    if k < 0.25:
        e = [np.eye(3)[i] for i in rng.sample(range(3), 3)]
        a, b = e[0] * rng.choice([1, -1]), e[1] * rng.choice([1, -1])
    else:
        q = np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(2)])
        a = q[0] / np.linalg.norm(q[0])
        b = q[1] - a * (q[1] @ a)
        b = b / np.linalg.norm(b)
    return a, b, np.cross(a, b)


class RP:
    """A real path with its reference curve."""

    def __init__(self, real, f, desc, size, length=None, breaks=(), closed=False, kinds=()):
        self.real, self.f, self.desc, self.size = real, f, desc, size
        self.length, self.breaks, self.closed = length, tuple(breaks), closed


class RS:
    """A real surface with its reference."""

    def __init__(self, real, f, desc, size):
        self.real, self.f, self.desc, self.size = real, f, desc, size


def size_of(*pts):
    return max([1e-6] + [float(np.max(np.abs(np.asarray(p, dtype=float)))) for p in pts])


# -- paths -------------------------------------------------------------------
def line(rng, s=1.0, p=None, q=None):
    p = p if p is not None else point(rng, s)
    q = q if q is not None else point(rng, s)
    a, b = tup(p), tup(q)
    return RP(Line(p, q), ref.line(a, b), f"Line{a}->{b}", size_of(a, b),
              length=float(np.linalg.norm(np.subtract(b, a))))


def bezier(rng, s=1.0, p=None, q=None, n=None):
    n = n if n is not None else rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 10, 13]) if p is None else rng.choice([2, 3, 4, 4, 5, 6, 8, 11])
    pts = [point(rng, s) for _ in range(n)]
    if p is not None:
        pts[0], pts[-1] = p, q
    c = [tup(v) for v in pts]
    return RP(Bezier(pts), ref.bezier(c), f"Bezier{c}", size_of(*c))


def spline(rng, s=1.0, p=None, q=None, closed=None):
    n = rng.choice([2, 3, 4, 5, 6, 7, 9, 12, few(rng, 3, 12, 30)])
    pts = [point(rng, s) for _ in range(n)]
    if p is not None:
        pts[0], pts[-1] = p, q
        closed = False
    closed = (n > 2 and rng.random() < 0.25) if closed is None else closed
    c = [tup(v) for v in pts]
    real = Spline(pts, closed=closed)
    cc = c + [c[0]] if closed and np.linalg.norm(np.subtract(c[0], c[-1])) > 1e-10 else c
    segs = ref.natural_spline(cc)
    parts = [(ref.bezier(sg), g.length()) for sg, g in zip(segs, real.segments)]
    if len(parts) == 1:
        f, b = parts[0][0], [0, 1]
    elif sum(w for _, w in parts) <= 0:
        f, b = parts[0][0], [0, 1]
    else:
        f, b = ref.polyline(parts)
    return RP(real, f, f"Spline{c} closed={closed}", 4 * size_of(*c), breaks=b, closed=closed)


def arc(rng, s=1.0):
    e1, e2, _ = frame(rng)
    c = np.array([number(rng, s) for _ in range(3)], dtype=float)
    r = s * rng.choice([0.1, 1.0, 2.5, rng.uniform(0.05, 3)])
    th0 = rng.uniform(0, 2 * np.pi)
    th = rng.choice([np.pi / 2, np.pi / 3, np.pi / 4, rng.uniform(0.05, 3.0)])
    a = c + r * (np.cos(th0) * e1 + np.sin(th0) * e2)
    b = c + r * (np.cos(th0 + th) * e1 + np.sin(th0 + th) * e2)
    f, L = ref.arc(a, b, c)
    return RP(Arc(Vector3(*a), Vector3(*b), Vector3(*c)), f,
              f"Arc a={a.tolist()} b={b.tolist()} c={c.tolist()}",
              size_of(a, b, c, c + r), length=L)


def arc_between(rng, p, q):
    a, b = np.array(tup(p)), np.array(tup(q))
    d = b - a
    L = np.linalg.norm(d)
    if L < 1e-9:
        return None
    n = np.array([rng.gauss(0, 1) for _ in range(3)])
    n -= d * (n @ d) / L**2
    n /= np.linalg.norm(n)
    c = (a + b) / 2 + n * L * rng.uniform(0.2, 2)
    f, length = ref.arc(a, b, c)
    return RP(Arc(p, q, Vector3(*c)), f, f"Arc a={a.tolist()} b={b.tolist()} c={c.tolist()}",
              size_of(a, b, c) * 2, length=length)


def between(rng, p, q, s=1.0, kinds=("line", "bezier", "arc", "spline", "sub", "rev", "poly")):
    """A path from p to q."""
    k = rng.choice(kinds)
    if k == "arc":
        r = arc_between(rng, p, q)
        if r is not None:
            return r
        k = "line"
    if k == "bezier":
        return bezier(rng, s, p, q)
    if k == "spline":
        return spline(rng, s, p, q)
    if k == "rev":
        u = between(rng, q, p, s, ("line", "bezier", "arc"))
        return RP(G.ReversedPath(u.real), lambda t: u.f(1 - t), f"Reversed({u.desc})", u.size, u.length)
    if k == "sub":
        # extend the line from p to q on both sides and take the middle piece
        t0, t1 = rng.uniform(0.1, 0.4), rng.uniform(0.5, 0.9)
        a, b = np.array(tup(p)), np.array(tup(q))
        d = (b - a) / (t1 - t0)
        u = line(rng, s, Vector3(*(a - t0 * d)), Vector3(*(a + (1 - t0) * d)))
        return RP(G.SubRangedPath(u.real, t0, t1), lambda t: u.f(t0 + (t1 - t0) * t),
                  f"Sub({u.desc},{t0},{t1})", u.size * 2, u.length * (t1 - t0))
    if k == "poly":
        m = point(rng, s)
        if np.linalg.norm(np.subtract(tup(m), tup(p))) < 1e-6 or np.linalg.norm(np.subtract(tup(m), tup(q))) < 1e-6:
            return line(rng, s, p, q)
        a, b = line(rng, s, p, m), line(rng, s, m, q)
        f, br = ref.polyline([(a.f, a.length), (b.f, b.length)])
        return RP(Polyline([a.real, b.real]), f, f"Poly[{a.desc},{b.desc}]", max(a.size, b.size),
                  a.length + b.length, br)
    return line(rng, s, p, q)


def polyline(rng, s=1.0, depth=1, degenerate=True):
    """Connected or disconnected polyline, maybe closed, maybe with empty segments."""
    n = rng.choice([1, 2, 3, 4, 5, 8, 12, few(rng, 2, 12, 40)])
    connected = rng.random() < 0.8
    parts, p = [], point(rng, s)
    for _ in range(n):
        q = point(rng, s)
        if connected:
            k = rng.random()
            if degenerate and k < 0.12:
                parts.append(line(rng, s, p, p))
                continue
            parts.append(between(rng, p, q, s) if k < 0.8 or depth < 1 else between(rng, p, q, s, ("poly", "rev")))
            p = q
        elif parts and rng.random() < 0.3:
            parts.append(rng.choice(parts))  # the same segment object again
        else:
            parts.append(path(rng, s, depth - 1, open_only=True))
    closed = rng.random() < 0.3
    segs = list(parts)
    lens = [float(g.real.length()) for g in parts]
    if not any(x > 1e-9 for x in lens):
        return line(rng, s)
    real = Polyline([g.real for g in parts], closed=closed)
    if closed:
        a, b = segs[0].f(0.0), segs[-1].f(1.0)
        d = float(np.linalg.norm(b - a))
        if d > 1e-10:
            segs.append(RP(None, ref.line(b, a), "closing", size_of(a, b), d))
            lens.append(d)
    f, br = ref.polyline([(g.f, L) for g, L in zip(segs, lens)])
    exact = [g.length for g in segs]
    L = None if any(e is None for e in exact) else sum(exact)
    r = RP(real, f, f"Polyline[{', '.join(g.desc for g in segs)}] closed={closed}",
           max(g.size for g in segs), L, br, closed=closed)
    r.jumps = [] if connected else list(br)
    if connected:
        # joints carry any jump of the parts themselves
        r.jumps = []
        for g, a, b in zip([g for g, w in zip(segs, lens) if w > 0], br[:-1], br[1:]):
            r.jumps += [a + (b - a) * j for j in getattr(g, "jumps", [])]
    else:
        for g, a, b in zip([g for g, w in zip(segs, lens) if w > 0], br[:-1], br[1:]):
            r.jumps += [a + (b - a) * j for j in getattr(g, "jumps", [])]
    return r


def xyfun(rng, s=1.0):
    """A smooth offset function of x, y (, z): real returns Vector3, ref returns an array."""
    k = [rng.uniform(-1, 1) for _ in range(9)]

    def f(x, y, z=0.0):
        return np.array([k[0] * y, k[1] * x + k[2] * z, k[3] * s + k[4] * x + k[5] * x * y / s])

    def real(x, y, z=0.0):
        return Vector3(*f(x, y, z))

    return real, f, f"fun{[round(v, 3) for v in k[:6]]}"


def path(rng, s=1.0, depth=2, open_only=False):
    kinds = ["line", "bezier", "spline", "arc", "ellipse", "te"]
    if depth > 0:
        kinds += ["poly", "poly", "sub", "rev", "offset", "mean", "perimeter"]
    k = rng.choice(kinds)
    if k == "line":
        return line(rng, s)
    if k == "bezier":
        return bezier(rng, s)
    if k == "spline":
        return spline(rng, s, closed=False if open_only else None)
    if k == "arc":
        return arc(rng, s)
    if k == "ellipse":
        c, th, w = point(rng, s), rng.choice([1, -1]) * rng.uniform(0.01, 1) * s, rng.uniform(0.01, 1) * s
        side = rng.choice(["top", "bot"])
        return RP(G.ElipsePath(c, th, w, side), ref.ellipse(tup(c), th, w, side),
                  f"Ellipse c={tup(c)} th={th} w={w} {side}", size_of(tup(c), [th, w]) * 2)
    if k == "te":
        a, b = point(rng, s), point(rng, s)
        fr, ff, d = xyfun(rng, s)
        l = ref.line(tup(a), tup(b))
        return RP(G.TrailingEdgePath(a, b, fr), lambda t: l(t) + ff(*l(t)[:2]),
                  f"TE {tup(a)}->{tup(b)} {d}", 20 * size_of(tup(a), tup(b), [s]))
    if k == "poly":
        return polyline(rng, s, depth - 1)
    if k == "perimeter":
        sf = coons(rng, s, kinds=("line", "bezier", "arc"))

        def per(t):
            k, u = divmod(4 * t, 1)
            return [sf.f(u, 0.0), sf.f(1.0, u), sf.f(1 - u, 1.0), sf.f(0.0, 1 - u), sf.f(0.0, 0.0)][int(k)]

        r = RP(G.SurfacePerimeter(sf.real), per, f"Perimeter({sf.desc})", sf.size * 100)
        r.breaks = (0, .25, .5, .75, 1)
        return r
    u = path(rng, s, depth - 1)
    if k == "rev":
        r = RP(G.ReversedPath(u.real), lambda t: u.f(1 - t), f"Reversed({u.desc})", u.size, u.length,
               [1 - b for b in reversed(u.breaks)], u.closed)
        r.jumps = [1 - j for j in getattr(u, "jumps", [])]
        return r
    if k == "sub":
        t0, t1 = sorted([rng.choice([0.0, rng.random()]), rng.choice([1.0, rng.random()])])
        if t1 - t0 < 0.05:
            t0, t1 = 0.2, 0.7
        if rng.random() < 0.4:
            t0, t1 = t1, t0
        r = RP(G.SubRangedPath(u.real, t0, t1), lambda t: u.f(min(1.0, max(0.0, t0 + (t1 - t0) * t))),
               f"Sub({u.desc},{t0},{t1})", u.size, None, sorted((b - t0) / (t1 - t0) for b in u.breaks))
        r.jumps = [(j - t0) / (t1 - t0) for j in getattr(u, "jumps", [])]
        return r
    if k == "offset":
        fr, ff, d = xyfun(rng, s)
        r = RP(G.OffsetPathFunction(u.real, fr), lambda t: u.f(t) + ff(*u.f(t)[:2]),
               f"Offset({u.desc},{d})", u.size * 20 * max(1, u.size / s), None, u.breaks)
        r.jumps = getattr(u, "jumps", [])
        return r
    v = path(rng, s, depth - 1)
    r = RP(G.GeometricMeanPathFunction(u.real, v.real), lambda t: 0.5 * (u.f(t) + v.f(t)),
           f"Mean({u.desc},{v.desc})", max(u.size, v.size), None,
           sorted(set(u.breaks) | set(v.breaks)))
    r.jumps = list(getattr(u, "jumps", [])) + list(getattr(v, "jumps", []))
    return r


# -- surfaces ----------------------------------------------------------------
def coons(rng, s=1.0, kinds=("line", "bezier", "arc", "spline", "sub", "rev", "poly"), corners=None):
    c = corners or [point(rng, s) for _ in range(4)]  # p00 p10 p11 p01
    so, no = between(rng, c[0], c[1], s, kinds), between(rng, c[3], c[2], s, kinds)
    we, ea = between(rng, c[0], c[3], s, kinds), between(rng, c[1], c[2], s, kinds)
    return RS(CoonsPatch(north=no.real, east=ea.real, south=so.real, west=we.real),
              ref.coons(no.f, ea.f, so.f, we.f),
              f"Coons(N={no.desc},E={ea.desc},S={so.desc},W={we.desc})",
              4 * max(no.size, so.size, we.size, ea.size))


FACES = {"east": (0, 1), "west": (0, -1), "north": (1, 1), "south": (1, -1), "top": (2, 1), "bottom": (2, -1)}


def surface(rng, s=1.0, depth=2):
    kinds = ["coons", "coons", "corner", "revolved", "cone", "swept", "cube", "sphere"]
    if depth > 0:
        kinds += ["rot", "mirror", "offset", "curve"]
    k = rng.choice(kinds)
    if k == "coons":
        return coons(rng, s)
    if k == "corner":
        c = [point(rng, s) for _ in range(4)]
        t = [tup(v) for v in c]
        return RS(CoonsPatch(p00=c[0], p10=c[1], p11=c[2], p01=c[3]), ref.bilinear(*t), f"Bilinear{t}", 4 * size_of(*t))
    if k == "revolved":
        g = between(rng, point(rng, s), point(rng, s), s)
        a0, a1 = rng.uniform(-7, 7), rng.uniform(-7, 7)
        return RS(G.RevolvedPatch(g.real, a0, a1), ref.revolved(g.f, a0, a1), f"Revolved({g.desc},{a0},{a1})", 2 * g.size)
    if k == "cone":
        v = [number(rng, s), number(rng, s), rng.uniform(0, 1) * s, rng.uniform(0, 1) * s, rng.uniform(-7, 7), rng.uniform(-7, 7)]
        return RS(G.ConePatch(*v), ref.cone(*v), f"Cone{v}", 4 * size_of(v[:4]))
    if k == "swept":
        e = [between(rng, point(rng, s), point(rng, s), s) for _ in range(rng.randint(2, 5))]
        return RS(G.SweptPatchfromEdges([x.real for x in e]), ref.swept_edges([x.f for x in e]),
                  f"SweptEdges({[x.desc for x in e]})", 2 * max(x.size for x in e))
    if k in ("cube", "sphere"):
        # judged by sampling the real object itself elsewhere; here it is its own reference
        c, a, face = point(rng, s), rng.uniform(0.1, 2) * s, rng.choice(list(FACES))
        real = (G.CubePatch if k == "cube" else G.SpherePatch)(a, c, face)
        return RS(real, lambda r, q: np.array(tup(real(r, q))), f"{k} a={a} c={tup(c)} {face}", size_of(tup(c), [a]) * 2)
    u = surface(rng, s, depth - 1)
    return wrap(rng, u, k, s)


def wrap(rng, u, k=None, s=1.0):
    k = k or rng.choice(["rot", "mirror", "offset", "curve"])
    if k == "rot":
        ax, an, p = rng.choice("xyzXYZ"), rng.uniform(-7, 7), point(rng, s)
        return RS(G.RotatedPatch(u.real, an, ax, p), ref.rotated(u.f, ax.lower(), an, tup(p)),
                  f"Rot({u.desc},{ax},{an},{tup(p)})", 2 * u.size + 2 * size_of(tup(p)))
    if k == "mirror":
        ax = rng.choice("xyzXYZ")
        return RS(G.MirroredPatch(u.real, ax), ref.mirrored(u.f, ax.lower()), f"Mirror({u.desc},{ax})", u.size)
    if k == "offset":
        fr, ff, d = xyfun(rng, s)
        return RS(G.OffsetPatchFunction(u.real, fr), ref.offset(u.f, ff), f"Offset({u.desc},{d})", u.size * 20 * max(1, u.size / s))
    fun, dash, d = curvature(rng, s)
    direction = rng.choice("xy")
    return RS(G.CurvedPatch(u.real, direction, fun, dash), ref.curved(u.f, direction, fun, dash),
              f"Curve({u.desc},{direction},{d})", u.size * 20 * max(1, u.size / s))


def curvature(rng, s=1.0):
    a, b, c = (rng.uniform(-1, 1) for _ in range(3))
    return (lambda x, y: a * x + b * y + c * x * x / s), (lambda x, y: a + b * y / s + 2 * c * x / s), f"curve{a:.3f},{b:.3f},{c:.3f}"
