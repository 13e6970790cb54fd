"""Random components and options, each with what is needed to predict the result.

A Part builds any number of identical fresh components.  The bare geometry of a part is
taken from a fresh component of its own; everything done to it afterwards (modifier,
curvature, rotation, reflection, transformations) is predicted by the reference model.
"""
import numpy as np

from hypervehicle import Vehicle
from hypervehicle.geometry import Vector3, Line, Bezier, Polyline
from hypervehicle.components import (Wing, Fin, SweptComponent, RevolvedComponent, CompositeComponent, Cube, Sphere)

from . import gen, ref
from .core import arr

ANGLES = [0, 30, -30, 45, 90, -90, 180, 270, 360, 720, -450, 1e-9, 12.5, 0.01, -0.3, 2e-4]


def serial(comp):
    """Mesh in this process (only a speed-up; meshes are the same either way)."""
    comp._multiprocess = False
    return comp


def fns(comp):
    """The component's patches, in order, as functions (r, s) -> array."""
    return [lambda r, s, p=p: arr(p(r, s)) for p in comp.patches.values()]


class Part:
    def __init__(self, kind, ctor, desc, size, expensive=False):
        self.kind, self._ctor, self.desc, self.size, self.expensive = kind, ctor, desc, size, expensive

    def build(self, **kw):
        c = serial(self._ctor(**kw))
        c.verbosity = 0
        return c

    def base(self):
        c = self.build()
        c.generate_patches()
        return fns(c)


def V(p):
    return Vector3(float(p[0]), float(p[1]), float(p[2]))


# -- kinds -------------------------------------------------------------------
def section(rng, s, z, twist=0.0, kinds=None, jitter=0.3):
    """Corner and mid points of a closed four-edge loop in a plane z = const."""
    c, sn = np.cos(twist), np.sin(twist)
    P = []
    for u, v in ((-1, -1), (1, -1), (1, 1), (-1, 1)):
        u, v = u + rng.uniform(-jitter, jitter), v + rng.uniform(-jitter, jitter)
        P.append((s * (c * u - sn * v), s * (sn * u + c * v), s * z))
    return P


def loop(P, kinds, bulge, s):
    """Closed loop of paths through the points P; kinds chooses each path's type."""
    n = len(P)
    out = []
    for i in range(n):
        a, b = np.array(P[i]), np.array(P[(i + 1) % n])
        if kinds[i] == "line":
            out.append(Line(V(a), V(b)))
        else:
            d = b - a
            nrm = np.array([d[1], -d[0], 0.0])
            m = (a + b) / 2 + nrm * bulge[i]
            if kinds[i] == "bezier":
                out.append(Bezier([V(a), V(m), V(b)]))
            else:
                out.append(Polyline([Line(V(a), V(m)), Line(V(m), V(b))]))
    return out


def swept(rng, s=1.0, n=None, res=None):
    n = n or gen.few(rng, 2, 4, 9)
    z = np.cumsum([rng.uniform(0.3, 1) for _ in range(n)])
    kinds = [rng.choice(["line", "line", "bezier", "poly"]) for _ in range(4)]
    bulge = [rng.uniform(0.05, 0.3) for _ in range(4)]
    secs = [section(rng, s * rng.uniform(0.5, 1), zz, rng.uniform(-.3, .3)) for zz in z]
    secs = [[(x, y, float(zz) * s) for x, y, _ in P] for P, zz in zip(secs, z)]
    res = res or rng.choice([1, 1, 2, 3])

    def ctor(**kw):
        return SweptComponent(cross_sections=[loop(P, kinds, bulge, s) for P in secs],
                              **{"stl_resolution": res, **kw})

    return Part("swept", ctor, f"swept {kinds} {np.round(secs, 3).tolist()} res={res}", s * 4)


def profile(rng, s=1.0):
    """Points of a profile from axis to axis (y >= 0) and the kind of each piece."""
    n = gen.few(rng, 2, 4, 9)
    xs = np.sort([rng.uniform(-1, 1) * s for _ in range(n + 1)])
    xs = xs + np.arange(n + 1) * 0.2 * s
    ys = [0.0] + [rng.uniform(0.2, 1) * s for _ in range(n - 1)] + [0.0]
    pts = [(x, y, 0.0) for x, y in zip(xs, ys)]
    if rng.random() < 0.5:
        pts = pts[::-1]
    return pts, [rng.choice(["line", "bezier"]) for _ in range(n)]


def prof_line(pts, kinds):
    segs = []
    for a, b, k in zip(pts[:-1], pts[1:], kinds):
        if k == "line":
            segs.append(Line(V(a), V(b)))
        else:
            m = ((a[0] + b[0]) / 2, max(a[1], b[1]), 0.0)
            segs.append(Bezier([V(a), V(m), V(b)]))
    return Polyline(segs)


def revolved(rng, s=1.0, res=None):
    pts, kinds = profile(rng, s)
    res = res or rng.choice([1, 2, 3])
    return Part("revolved", lambda **kw: RevolvedComponent(prof_line(pts, kinds), **{"stl_resolution": res, **kw}),
                f"revolved {np.round(pts, 3).tolist()} {kinds} res={res}", s * 4)


def planform(rng, s=1.0):
    """A wing planform: A0, A1, TT on y=0, B0 outboard, leading edge from B0 to TT."""
    x0 = rng.uniform(-1, 1) * s
    L = rng.uniform(2, 4) * s
    span = rng.uniform(0.5, 1.5) * s
    A0, TT = np.array([x0, 0, 0]), np.array([x0 + L, 0, 0])
    A1 = np.array([x0 + L * rng.uniform(0.3, 0.6), 0, 0])
    B0 = np.array([x0, span, 0])
    if rng.random() < 0.5:
        le = [B0, np.array([A1[0], span * rng.uniform(0.7, 1.0), 0]), np.array([x0 + 0.9 * L, span * rng.uniform(0.15, 0.4), 0]), TT]
        k = "bezier"
    else:
        le = [B0, np.array([A1[0] + 0.05 * L, span * rng.uniform(0.8, 0.95), 0]), np.array([x0 + 0.95 * L, span * rng.uniform(0.15, 0.3), 0]), TT]
        k = "poly"
    return A0, A1, TT, B0, le, k


def le_line(le, k):
    if k == "bezier":
        return Bezier([V(p) for p in le])
    return Polyline([Line(V(a), V(b)) for a, b in zip(le[:-1], le[1:])])


def wing(rng, s=1.0, le_type=None, closed=None, res=None):
    A0, A1, TT, B0, le, k = planform(rng, s)
    le_type = le_type or rng.choice(["flat", "flat", "custom"])
    th = rng.uniform(0.05, 0.2) * s
    sl = rng.uniform(0, 0.2) * th / s
    skew = rng.uniform(0.5, 1.5)
    w = [rng.uniform(0.02, 0.1) * s for _ in range(3)]
    close = rng.random() < 0.5 if closed is None else closed
    fl, fa = rng.choice([0.1, rng.uniform(0.05, 0.5)]) * s, rng.choice([0, 0.1, -0.1, rng.uniform(-.4, .4)])
    res = res or rng.choice([1, 2])
    tB = {}
    if rng.random() < 0.3:
        tB["t_B2"] = rng.uniform(0.8, 0.9)

    def top(x, y, z=0):
        return Vector3(x=0, y=0, z=-th / 2 - sl * x)

    def bot(x, y, z=0):
        return Vector3(x=0, y=0, z=skew * th / 2 + sl * x)

    def wf(t):
        return w[0] * (1 - t) ** 2 + 2 * w[1] * t * (1 - t) + w[2] * t * t

    def ctor(**kw):
        return Wing(A0=V(A0), A1=V(A1), TT=V(TT), B0=V(B0), Line_B0TT=le_line(le, k), top_tf=top, bot_tf=bot,
                    **({} if le_type == "flat" else {"LE_wf": wf}), LE_type=le_type, flap_length=fl, flap_angle=fa,
                    close_wing=close, **{"stl_resolution": res, **tB, **kw})

    p = Part("wing", ctor, f"wing {le_type} {k} {np.round(le, 3).tolist()} A1={A1[0]:.3f} th={th:.3f} flap={fl:.3f},{fa:.3f} close={close} {tB} res={res}",
             s * 6, expensive=le_type != "flat")
    p.info = dict(A0=A0, A1=A1, TT=TT, B0=B0, le=le, k=k, top=top, bot=bot, wf=wf, fl=fl, fa=fa, close=close,
                  le_type=le_type, tB=tB, s=s, res=res)
    return p


def fin(rng, s=1.0, rudder=None, res=None, place=True):
    x0, y0 = rng.uniform(-1, 1) * s, rng.choice([0.0, rng.uniform(-1, 1) * s])
    L, H = rng.uniform(1, 3) * s, rng.uniform(0.5, 1.5) * s
    p0 = np.array([x0, y0, 0])
    p1 = np.array([x0 + rng.choice([0, rng.uniform(-0.1, 0.1)]) * L, y0 + H, 0])
    p2 = np.array([p1[0] + L * rng.uniform(0.2, 0.5), y0 + H * rng.uniform(0.8, 1.0), 0])
    p3 = np.array([max(x0, p2[0]) + L * rng.uniform(0.2, 0.6), y0, 0])
    th = rng.uniform(0.05, 0.3) * s
    rudder = rudder or rng.choice(["flat", "sharp"])
    rl, ra = rng.uniform(0.05, 0.4) * s, rng.choice([0, 0.1, rng.uniform(-.3, .3)])
    fa = rng.choice([0, np.pi / 2, -np.pi / 2, rng.uniform(-4, 4)]) if place else 0
    pa = rng.choice([0, rng.uniform(-1, 1)]) if place else 0
    pp = np.array([rng.uniform(-1, 1) * s, 0, rng.choice([0, rng.uniform(-1, 1) * s])])
    off = np.array([rng.uniform(-1, 1) * s for _ in range(3)])
    use_off = place and rng.random() < 0.5
    w = [rng.uniform(0.02, 0.1) * s for _ in range(2)]
    default_wf = rng.random() < 0.2
    res = res or rng.choice([1, 2])

    def top(x, y, z=0):
        return Vector3(x=0, y=0, z=-th / 2)

    def bot(x, y, z=0):
        return Vector3(x=0, y=0, z=th / 2)

    def wf(t):
        return w[0] * (1 - t) + w[1] * t

    def offset(x, y, z):
        return Vector3(*off)

    def ctor(**kw):
        o = {} if default_wf else {"LE_wf": wf}
        if use_off:
            o["offset_func"] = offset
        if pa != 0:
            o.update(pivot_angle=pa, pivot_point=V(pp))
        return Fin(p0=V(p0), p1=V(p1), p2=V(p2), p3=V(p3), fin_thickness=th, fin_angle=fa, top_thickness_function=top,
                   bot_thickness_function=bot, rudder_type=rudder, rudder_length=rl, rudder_angle=ra,
                   **o, **{"stl_resolution": res, **kw})

    p = Part("fin", ctor, f"fin {np.round([p0, p1, p2, p3], 3).tolist()} th={th:.3f} {rudder} {rl:.3f},{ra:.3f} angle={fa:.3f} "
             f"pivot={pa:.3f}@{np.round(pp, 3).tolist()} off={use_off} res={res}", s * 6, expensive=True)
    p.info = dict(p=[p0, p1, p2, p3], th=th, top=top, bot=bot, wf=None if default_wf else wf, rudder=rudder, rl=rl,
                  ra=ra, fa=fa, pa=pa, pp=pp, off=off if use_off else None, s=s, res=res)
    return p


def cube(rng, s=1.0, res=None):
    a, c = rng.uniform(0.2, 1) * s, [gen.number(rng, s) for _ in range(3)]
    res = res or rng.choice([1, 2, 3])
    return Part("cube", lambda **kw: Cube(a, Vector3(*c), **{"stl_resolution": res, **kw}), f"cube {a:.3f} {c} res={res}", s * 3)


def sphere(rng, s=1.0, res=None):
    a, c = rng.uniform(0.2, 1) * s, [gen.number(rng, s) for _ in range(3)]
    res = res or rng.choice([1, 2, 3])
    return Part("sphere", lambda **kw: Sphere(a, Vector3(*c), **{"stl_resolution": res, **kw}), f"sphere {a:.3f} {c} res={res}", s * 3)


KINDS = {"swept": swept, "revolved": revolved, "wing": wing, "fin": fin, "cube": cube, "sphere": sphere}


def part(rng, s=1.0, allowed=("swept", "revolved", "swept", "revolved", "wing", "fin"), **kw):
    return KINDS[rng.choice(allowed)](rng, s, **kw)


def cheap(rng, s=1.0, **kw):
    """A part whose surfaces are quick to evaluate."""
    k = rng.choice(["swept", "revolved", "wing"])
    return wing(rng, s, le_type="flat", **kw) if k == "wing" else KINDS[k](rng, s, **kw)


def composite(rng, s=1.0, n=None, allowed=("swept", "revolved", "cube", "sphere"), options=True, res=None):
    n = n or rng.randint(1, 3)
    kids = [part(rng, s, allowed) for _ in range(n)]
    opts = [Options(rng, s, only=("curvatures", "reflection", "transformations")) if options and rng.random() < 0.6 else Options(rng, s, only=())
            for _ in kids]
    res = res or rng.choice([1, 2])

    def ctor(**kw):
        c = CompositeComponent(**{"stl_resolution": res, **kw})
        for k, o in zip(kids, opts):
            c.add_component(k.build(), **o.kwargs())
        return c

    p = Part("composite", ctor, f"composite [{'; '.join(k.desc + ' ' + o.desc for k, o in zip(kids, opts))}] res={res}", s * 6,
             expensive=any(k.expensive for k in kids))
    p.kids, p.opts = kids, opts
    return p


# -- motions and options -----------------------------------------------------
def motion(rng, s=1.0, rigid=False):
    """(real transformation tuple factory, reference map on functions, description, inverse)"""
    if rng.random() < 0.55:
        a = rng.choice(ANGLES) if rng.random() < 0.6 else rng.uniform(-400, 400)
        ax = rng.choice("xyzxyzXYZ")
        if rng.random() < 0.1:
            return (lambda: ("rotate", a)), (lambda f: ref.rotated(f, "y", np.deg2rad(a))), f"rotate {a} (y)", ("rotate", -a, "y")
        return ((lambda: ("rotate", a, ax)), (lambda f: ref.rotated(f, ax.lower(), np.deg2rad(a))),
                f"rotate {a} {ax}", ("rotate", -a, ax))
    d = [gen.number(rng, s) for _ in range(3)]
    if rng.random() < 0.12:  # a very short way
        d = [x * rng.choice([1e-4, 5e-7]) for x in d]
    if rng.random() < 0.65:
        return ((lambda: ("translate", Vector3(*d))), (lambda f: ref.offset(f, lambda x, y, z: np.array(d, dtype=float))),
                f"translate {d}", ("translate", Vector3(*[-x for x in d])))
    if rigid:
        return ((lambda: ("translate", lambda x, y, z: Vector3(*d))), (lambda f: ref.offset(f, lambda x, y, z: np.array(d, dtype=float))),
                f"translate by function {d}", ("translate", lambda x, y, z: Vector3(*[-q for q in d])))
    fr, ff, t = gen.xyfun(rng, s)
    return (lambda: ("translate", fr)), (lambda f: ref.offset(f, ff)), f"translate by {t}", None


class Options:
    """Random options of a component and their predicted effect."""

    ALL = ("modifier", "curvatures", "reflection", "transformations")

    def __init__(self, rng, s=1.0, only=ALL, p=0.5, rigid=False):
        self.mod = self.curv = self.refl = self.tf = None
        d = []
        if "modifier" in only and rng.random() < p:
            self.mod = gen.xyfun(rng, s)
            d.append("modifier " + self.mod[2])
        if "curvatures" in only and rng.random() < p:
            self.curv = [(rng.choice("xy"),) + gen.curvature(rng, s) for _ in range(gen.few(rng, 1, 2, 3))]
            d.append(f"curvatures {[(c[0], c[3]) for c in self.curv]}")
        if "reflection" in only and rng.random() < p:
            self.refl = (rng.choice("xyzXYZ"), rng.random() < 0.5)
            d.append(f"reflect {self.refl}")
        if "transformations" in only and rng.random() < p:
            self.tf = [motion(rng, s, rigid) for _ in range(gen.few(rng, 1, 3, 5))]
            if rng.random() < 0.15:  # the same one twice
                self.tf.append(rng.choice(self.tf))
            d.append(f"transformations {[t[2] for t in self.tf]}")
        self.tf_type = list
        self.desc = "{" + ", ".join(d) + "}"

    def kwargs(self):
        k = {}
        if self.mod:
            k["modifier_function"] = self.mod[0]
        if self.curv:
            k["curvatures"] = [tuple(c[:3]) for c in self.curv]
        if self.refl:
            k["reflection_axis"], k["append_reflection"] = self.refl
        if self.tf:
            k["transformations"] = [t[0]() for t in self.tf]
        return k

    def before(self, fs):
        if self.mod:
            fs = [ref.offset(f, self.mod[1]) for f in fs]
        for c in self.curv or ():
            fs = [ref.curved(f, c[0], c[1], c[2]) for f in fs]
        return fs

    def after(self, fs):
        if self.refl:
            m = [ref.mirrored(f, self.refl[0].lower()) for f in fs]
            fs = fs + m if self.refl[1] else m
        for t in self.tf or ():
            fs = [t[1](f) for f in fs]
        return fs

    def apply(self, fs, angle=0):
        fs = self.before(fs)
        if angle:
            fs = [ref.rotated(f, "y", np.deg2rad(angle)) for f in fs]
        return self.after(fs)


def predicted(p, opts=None, angle=0):
    """Reference surfaces of a part with its options, composites included."""
    if p.kind == "composite":
        fs = []
        for k, o in zip(p.kids, p.opts):
            fs += o.apply(predicted(k))
    else:
        fs = p.base()
    return opts.apply(fs, angle) if opts else fs


def vehicle(verbosity=0, name=None):
    v = Vehicle()
    v.configure(name=name, verbosity=verbosity)
    return v


POINTS = [(0, 0), (1, 0), (0.37, 0.81), (1, 1), (0.5, 0.25)]


def compare(c, comp, want, msg, monitor, rng=None, n=4, rel=1e-9, size=1.0):
    """The component's patches equal the reference surfaces, in order."""
    got = fns(comp)
    c.true(len(got) == len(want), f"{msg}: {len(got)} surfaces, expected {len(want)}", monitor)
    pts = [POINTS[i] for i in (rng.sample(range(5), min(n, 5)) if rng else range(n))]
    for i, (g, w) in enumerate(zip(got, want)):
        for r, s in pts:
            x, y = g(r, s), w(float(r), float(s))
            c.close(x, y, size + 10 * float(np.max(np.abs(y))), rel, f"{msg}: surface {i} at ({r}, {s})", monitor)


def expected_mesh(want, res):
    """Triangles of the reference surfaces at an even resolution."""
    from . import meshlib

    if isinstance(res, int):
        res = [(res, res)] * len(want)
    return np.concatenate([meshlib.sampled(f, a, b) for f, (a, b) in zip(want, res)])


def names(v):
    """Names of a vehicle's components, in order: own name, or type and number."""
    out, count = [], {}
    for k in v.components:
        count[k.componenttype] = count.get(k.componenttype, 0) + 1
        out.append(k.name or f"{k.componenttype}_{count[k.componenttype]}")
    return out
