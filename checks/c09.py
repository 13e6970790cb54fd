"""C09: meshes sample their surfaces completely and faithfully."""
import numpy as np

from hypervehicle.geometry.vector import Vector3
from hypervehicle.geometry.surface import ParametricSurface
from hypervehicle.geometry.path import RobertsFunction, LinearFunction
from hypervehicle.utilities import surfce_to_stl
from rv import gen, ref, parts, meshlib
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random surfaces, resolutions (including 1, 49, 98, 100, 103, 128 and unequal ones), power spacings, "
            "clustering functions per direction and mirroring; a case is distinct by surface and options",
    "required": {"triangles compared": 5000, "evaluation parameters": 5000, "cluster parameters": 300, "component meshes": 60},
    "assumptions": ["resolutions are Python ints of at least 1", "single-precision comparison at four units of rounding"],
}

RES = [1, 1, 2, 3, 4, 5, 7, 10, 12]
BIG = [33, 49, 64, 98, 100, 103, 128, 255, 257, 400]


class Recorder(ParametricSurface):
    """A surface that records where it is evaluated."""

    def __init__(self, real):
        self.real, self.at = real, []

    def __repr__(self):
        return "recorded surface"

    def __call__(self, r, s):
        self.at.append((float(r), float(s)))
        return self.real(r, s)


def cluster(rng):
    """(function given by the user, reference function, name)"""
    k = rng.choice(["roberts", "roberts", "linear", "square", "sin", "tuple"])
    if k == "roberts":
        e0, e1, b = rng.random() < 0.5, rng.random() < 0.5, rng.choice([1.01, 1.1, 1.5, rng.uniform(1.001, 2)])
        return RobertsFunction(e0, e1, b), (lambda t: float(ref.roberts(t, e0, e1, b))), f"roberts({e0},{e1},{b:.4f})"
    if k == "linear":
        return LinearFunction(), (lambda t: t), "linear"
    if k == "square":
        return (lambda t: t * t), (lambda t: t * t), "square"
    if k == "sin":
        return (lambda t: np.sin(t * np.pi / 2)), (lambda t: np.sin(t * np.pi / 2)), "sin"
    return (lambda t: 1 - (1 - t) ** 3), (lambda t: 1 - (1 - t) ** 3), "cubic"


def judge(c, rec, mesh, f, rs, ss, size, mirror, ends_exact):
    n = 4 * (len(rs) - 1) * (len(ss) - 1)
    got = meshlib.tris(mesh)
    c.true(len(got) == n, f"{len(got)} triangles, expected {n}", "triangles compared")
    want = meshlib.sampled(f, 0, 0, rs, ss)
    if mirror:
        want = want * np.array([1, -1, 1])
    c.close(got, want, 1, meshlib.tol(want, 1e-8 * size), "mesh vertex", "triangles compared")
    if rec is None:
        return
    at = np.array(rec.at)
    slack = 0.0 if ends_exact else 1e-9
    c.true(at.min() >= -slack and at.max() <= 1 + slack, f"evaluated at {at.min()!r}..{at.max()!r}", "evaluation parameters")
    for k, e in ((0, rs), (1, ss)):
        u = np.unique(at[:, k])
        d = np.abs(u[:, None] - np.asarray(e)[None, :])
        c.true(d.min(axis=1).max() < 1e-9, "evaluated away from the requested parameters", "evaluation parameters")
        c.true(d.min(axis=0).max() < 1e-9, "a requested parameter was never evaluated", "evaluation parameters")
        c.seen("evaluation parameters", len(u))


def even(c):
    rng = c.rng
    s = gen.scale(rng)
    u = gen.surface(rng, s, rng.choice([0, 0, 1]))
    nr, ns = rng.choice(RES), rng.choice(RES)
    if rng.random() < 0.25:
        nr, ns = rng.choice([(rng.choice(BIG), rng.choice([1, 2])), (rng.choice([1, 2]), rng.choice(BIG))])
    kw = {}
    mirror = rng.random() < 0.25
    if mirror or rng.random() < 0.2:
        kw["mirror_y"] = mirror
    si = sj = 1.0
    if rng.random() < 0.3:
        si = kw["si"] = rng.choice([1, 2, 0.5, 1.7, 0.3])
    if rng.random() < 0.3:
        sj = kw["sj"] = rng.choice([1, 2, 0.5, 1.3, 0.2])
    c.note(u.desc[:1200], nr, ns, kw)
    rec = Recorder(u.real)
    m = surfce_to_stl(rec, nr, ns, **kw)
    rs = (np.arange(nr + 1) / nr) ** si
    ss = (np.arange(ns + 1) / ns) ** sj
    judge(c, rec, m, u.f, rs, ss, u.size, mirror, True)


def resolutions(c):
    """Every resolution from 1 to 128 in turn: ends reached exactly, spacing even."""
    n = c.index + 1
    m = 1 + (c.index * 7) % 3
    c.note("resolution", n, m)
    from hypervehicle.geometry.surface import CoonsPatch

    P = [(0, 0, 0), (1.5, 0.2, 0.1), (1.7, 2.0, -0.4), (0.1, 1.2, 0.3)]
    p = CoonsPatch(**{k: Vector3(*v) for k, v in zip(("p00", "p10", "p11", "p01"), P)})
    f = ref.bilinear(*P)
    for a, b in ((n, m), (m, n)):
        rec = Recorder(p)
        judge(c, rec, surfce_to_stl(rec, a, b), f, np.arange(a + 1) / a, np.arange(b + 1) / b, 2.0, False, True)
        at = np.array(rec.at)
        c.true(at[:, 0].max() == 1.0 and at[:, 1].max() == 1.0 and at.min() == 0.0, f"ends not reached: {at.min()!r} {at.max(axis=0)}", "evaluation parameters")


def clustered(c):
    rng = c.rng
    s = gen.scale(rng)
    u = gen.surface(rng, s, 0)
    nr, ns = rng.choice(RES[1:]), rng.choice(RES[1:])
    which = rng.choice(["i", "j", "ij"])
    kw, rs, ss, d = {}, np.arange(nr + 1) / nr, np.arange(ns + 1) / ns, []
    calls = {"i": [], "j": []}
    exact = True
    for k in which:
        real, rf, name = cluster(rng)

        def rec(t, real=real, k=k):
            calls[k].append(float(t))
            return real(t)

        kw[f"{k}_clustering_func"] = rec
        d.append((k, name))
        if k == "i":
            rs = np.array([rf(t) for t in rs])
        else:
            ss = np.array([rf(t) for t in ss])
        exact = False
    if rng.random() < 0.3 and which != "ij":
        if which == "i":
            kw["sj"] = q = rng.choice([2, 0.5])
            ss = ss**q
        else:
            kw["si"] = q = rng.choice([2, 0.5])
            rs = rs**q
    c.note(u.desc[:1200], nr, ns, d, {k: v for k, v in kw.items() if k in ("si", "sj")})
    r = Recorder(u.real)
    m = surfce_to_stl(r, nr, ns, **kw)
    judge(c, r, m, u.f, rs, ss, u.size, False, exact)
    for k, n in (("i", nr), ("j", ns)):
        if k in which:
            t = np.unique(np.round(calls[k], 12))
            c.close(t, np.arange(n + 1) / n, 1, 1e-9, f"{k} clustering function evaluated at", "cluster parameters")


def component(c):
    """Component meshes: all patches in order, resolution argument, clustering options."""
    rng = c.rng
    s = rng.choice([1.0, 10.0])
    p = parts.part(rng, s, ("swept", "revolved", "swept", "wing", "fin"))
    if p.expensive and rng.random() < 0.5:
        p = parts.cheap(rng, s)
    want = p.base()
    comp = p.build()
    v = parts.vehicle()
    kw, rf = {}, {}
    for k in "ij":
        if rng.random() < 0.4:
            real, g, name = cluster(rng)
            kw[f"{k}_clustering_func"], rf[k] = real, (g, name)
    v.add_component(comp, **({"clustering": kw} if kw or rng.random() < 0.3 else {}))
    v.generate()
    n = comp.stl_resolution
    if rng.random() < 0.5:
        n = rng.choice([1, 2, 3]) if p.expensive else rng.choice([1, 2, 3, 5, 8])
        comp.surface(n)
        if rng.random() < 0.3:
            comp.surface(n)
    c.note(p.desc, n, {k: x[1] for k, x in rf.items()})
    e = np.arange(n + 1) / n
    rs = np.array([rf["i"][0](t) for t in e]) if "i" in rf else e
    ss = np.array([rf["j"][0](t) for t in e]) if "j" in rf else e
    w = np.concatenate([meshlib.sampled(f, 0, 0, rs, ss) for f in want])
    c.close(meshlib.tris(comp.mesh), w, 1, meshlib.tol(w, 1e-7 * s), "component mesh", "component meshes")


KINDS = [("even", even, 350, 4000), ("resolutions", resolutions, 128, 128), ("clustered", clustered, 250, 3000),
         ("component", component, 90, 900)]
