"""C07: rigid motions of surfaces, components and vehicles."""
import numpy as np

from hypervehicle.geometry.vector import Vector3
from hypervehicle.geometry import geometry as G
from hypervehicle.geometry.surface import ParametricSurface
from rv import gen, ref, parts
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random chains of rotations, translations and mirrors over random surfaces, components of every type "
            "and vehicles; a case is distinct by its geometry and chain",
    "required": {"surface points": 3000, "component points": 1500, "vehicle points": 1000, "restored": 300, "long chains": 100, "distances": 500},
    "assumptions": ["axis names are x, y or z in either case"],
}


def surface(c):
    rng = c.rng
    s = gen.scale(rng)
    u = gen.surface(rng, s, rng.choice([0, 0, 1]))
    real, f, d = u.real, u.f, []
    iso = 1
    for _ in range(gen.few(rng, 1, 4, 8)):
        ax = rng.choice("xyzXYZ")
        if rng.random() < 0.7:
            an = rng.choice([0, np.pi / 2, -np.pi / 2, np.pi, 2 * np.pi, 1e-9, 4e-6, -3e-4, rng.uniform(-10, 10)])
            if rng.random() < 0.5:
                p = gen.point(rng, s)
                real, f = G.RotatedPatch(real, an, ax, p), ref.rotated(f, ax.lower(), an, gen.tup(p))
                d.append(("rot", ax, an, gen.tup(p)))
            else:
                real, f = G.RotatedPatch(real, an, ax), ref.rotated(f, ax.lower(), an)
                d.append(("rot", ax, an))
        else:
            real, f = G.MirroredPatch(real, ax), ref.mirrored(f, ax.lower())
            d.append(("mirror", ax))
    c.note(u.desc[:1500], d)
    sz = 10 * (u.size + s * 4)
    P = [(gen.tvalue(rng), gen.tvalue(rng)) for _ in range(8)]
    got = []
    for r, t in P:
        x = arr(real(r, t))
        got.append(x)
        c.close(x, f(float(r), float(t)), sz, 1e-9, f"moved point ({r}, {t})", "surface points")
    old = [arr(u.real(r, t)) for r, t in P]
    for i in range(1, len(P)):
        c.close(np.linalg.norm(got[i] - got[0]), np.linalg.norm(old[i] - old[0]), sz, 1e-9, "distance", "distances")


def single(c):
    """One quarter turn or unit shift, against integers: the sense of rotation is right-handed."""
    rng = c.rng
    from hypervehicle.geometry.surface import CoonsPatch

    P = [Vector3(1, 2, 3), Vector3(4, -1, 2), Vector3(0, 5, -2), Vector3(-3, 1, 6)]
    ax, k = rng.choice("xyzXYZ"), rng.choice([1, 2, 3, -1, -2, 5])
    c.note(ax, k)
    p = G.RotatedPatch(CoonsPatch(p00=P[0], p10=P[1], p11=P[2], p01=P[3]), k * np.pi / 2, ax)
    i = "xyz".index(ax.lower())
    a, b = (i + 1) % 3, (i + 2) % 3
    for v, q in zip(P, [(0, 0), (1, 0), (1, 1), (0, 1)]):
        w = arr(v)
        for _ in range(k % 4):
            w[a], w[b] = -w[b], w[a]
        c.close(arr(p(*q)), w, 10, 1e-12, f"{k} quarter turns about {ax}", "surface points")


def component(c):
    rng = c.rng
    s = rng.choice([1.0, 10.0, 0.1])
    p = parts.part(rng, s, ("swept", "revolved", "wing", "fin", "cube", "sphere"))
    ms = [parts.motion(rng, s) for _ in range(gen.few(rng, 1, 5, 7))]
    c.note(p.desc, [m[2] for m in ms])
    want = p.base()
    comp = p.build()
    comp.generate_patches()
    for real, f, _, _ in ms:
        t = real()
        getattr(comp, t[0])(*t[1:])
        want = [f(w) for w in want]
    parts.compare(c, comp, want, "component", "component points", rng, n=2 if p.expensive else 4, size=s)
    if not p.expensive:
        from rv import meshlib

        e = parts.expected_mesh(want, comp.stl_resolution)
        c.close(meshlib.tris(comp.mesh), e, 1, meshlib.tol(e, 1e-8 * s), "mesh after motions", "component points")


def placed(c):
    """Patches already turned about their own point, then moved with the component."""
    rng = c.rng
    s = rng.choice([1.0, 10.0])
    p = parts.part(rng, s, ("swept", "revolved", "cube"))
    comp = p.build()
    comp.generate_patches()
    want = p.base()
    ax = rng.choice("xyz")
    d = []
    keys = list(comp.patches)
    for _ in range(rng.randint(1, 2)):
        an, q = rng.choice([np.pi / 2, rng.uniform(-3, 3)]), gen.point(rng, s)
        own = rng.choice([ax, ax, rng.choice("xyz")])
        d.append((own, an, gen.tup(q)))
        for k in keys:
            comp.patches[k] = G.RotatedPatch(comp.patches[k], an, own, q)
        want = [ref.rotated(w, own, an, gen.tup(q)) for w in want]
    a = rng.choice([30, -90.0, rng.uniform(-200, 200)])
    ms = [((lambda: ("rotate", a, ax)), (lambda f: ref.rotated(f, ax, np.deg2rad(a))), f"rotate {a} {ax}")]
    ms += [parts.motion(rng, s) for _ in range(rng.randint(0, 2))]
    if rng.random() < 0.3:
        rng.shuffle(ms)
    c.note(p.desc, d, [m[2] for m in ms])
    for m in ms:
        t = m[0]()
        getattr(comp, t[0])(*t[1:])
        want = [m[1](w) for w in want]
    parts.compare(c, comp, want, "turned patches", "component points", rng, n=3, size=10 * s)


def inverse(c):
    rng = c.rng
    s = rng.choice([1.0, 10.0])
    p = parts.part(rng, s, ("swept", "revolved", "cube", "sphere"))
    ms = [parts.motion(rng, s, rigid=True) for _ in range(gen.few(rng, 1, 5, 7))]
    c.note(p.desc, [m[2] for m in ms])
    v = parts.vehicle()
    base = p.base()
    use_vehicle = p.kind in ("swept", "revolved") and rng.random() < 0.6
    comp = p.build()
    chain = [m[0]() for m in ms] + [m[3] for m in reversed(ms)]
    if use_vehicle:
        v.add_component(comp)
        v.generate()
        v.transform(chain)
    else:
        comp.generate_patches()
        for t in chain:
            getattr(comp, t[0])(*t[1:])
    parts.compare(c, comp, base, "motion and inverse", "restored", rng, size=10 * s)


class Counted(ParametricSurface):
    """A surface that gives up when one point needs an absurd number of evaluations."""

    def __init__(self, under, c):
        self.under, self.c, self.n = under, c, 0

    def __repr__(self):
        return f"counted {self.under!r}"

    def __call__(self, r, s):
        self.n += 1
        if self.n > 50000:
            self.c.fail(f"{self.n} evaluations of a surface for a few points of its moved copy")
        return self.under(r, s)


def long(c):
    """Many motions in a row, as when a vehicle is moved step by step."""
    rng = c.rng
    s = rng.choice([1.0, 10.0])
    p = parts.part(rng, s, ("swept", "revolved"))
    step = [parts.motion(rng, s, rigid=True) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.3:  # many very short ways add up
        d = [gen.number(rng, 3e-7) for _ in range(3)]
        step.append(((lambda: ("translate", Vector3(*d))), (lambda f: ref.offset(f, lambda x, y, z: np.array(d, dtype=float))), f"translate {d}"))
    ms = step * rng.randint(5, 30)
    use_vehicle = rng.random() < 0.5
    c.note(p.desc, [m[2] for m in step], len(ms), use_vehicle)
    want = p.base()
    comp = p.build()
    v = parts.vehicle()
    if use_vehicle:
        v.add_component(comp)
        v.generate()
    else:
        comp.generate_patches()
    for k in list(comp.patches):
        comp.patches[k] = Counted(comp.patches[k], c)
    if use_vehicle:
        for i in range(0, len(ms), len(step)):
            v.transform([m[0]() for m in step])
    else:
        for m in ms:
            t = m[0]()
            getattr(comp, t[0])(*t[1:])
    for m in ms:
        want = [m[1](w) for w in want]
    parts.compare(c, comp, want, f"after {len(ms)} motions", "long chains", rng, n=2, size=10 * s * len(ms))


def vehicle(c):
    rng = c.rng
    s = rng.choice([1.0, 10.0])
    n = gen.few(rng, 1, 3, 13, 0.05)
    ps = [parts.part(rng, s, ("swept", "revolved", "swept", "revolved") + ("wing",) * (n < 4)) if rng.random() < 0.9 else parts.composite(rng, s)
          for _ in range(n)]
    opts = [parts.Options(rng, s, only=("transformations",)) for _ in ps]
    first = [parts.motion(rng, s) for _ in range(rng.randint(0, 3))]
    second = [parts.motion(rng, s) for _ in range(rng.randint(0, 2))]
    c.note([p.desc for p in ps], [o.desc for o in opts], [m[2] for m in first], "then", [m[2] for m in second])
    v = parts.vehicle()
    comps = [p.build() for p in ps]
    for p, o, k in zip(ps, opts, comps):
        v.add_component(k, **o.kwargs())
    if len(first) == 1 and rng.random() < 0.7:
        v.add_vehicle_transformations(first[0][0]())  # a single tuple is accepted
    elif first:
        cut = rng.randint(0, len(first))
        v.add_vehicle_transformations([m[0]() for m in first[:cut]])
        v.add_vehicle_transformations([m[0]() for m in first[cut:]])
    v.generate()
    if len(second) == 1 and rng.random() < 0.5:
        v.transform(second[0][0]())
    elif second:
        v.transform([m[0]() for m in second])
    for i, (p, o, k) in enumerate(zip(ps, opts, comps)):
        want = parts.predicted(p, o)
        for m in first + second:
            want = [m[1](w) for w in want]
        parts.compare(c, k, want, f"component {i}", "vehicle points", rng, n=2 if p.expensive else 3, size=s)


KINDS = [("surface", surface, 500, 6000), ("single", single, 36, 100), ("long", long, 36, 300), ("component", component, 120, 1500),
         ("placed", placed, 60, 600), ("inverse", inverse, 120, 1200), ("vehicle", vehicle, 100, 1200)]
