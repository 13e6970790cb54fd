"""C24: structured grids."""
import numpy as np

from hypervehicle.geometry.path import ClusterFunction, LinearFunction, RobertsFunction
from hypervehicle.geometry.surface import ParametricSurface, StructuredGrid
from hypervehicle.geometry.vector import Vector3
from rv import gen, ref

SPEC = {
    "level": "exploration",
    "rule": "seeded random surfaces, point counts, clustering on any subset of the four edges and chains of sub-grids; a case is "
            "distinct by surface, counts, clustering and sub-ranges",
    "required": {"grid points": 20000, "border points": 5000, "sub-grid points": 5000, "refusals observed": 100,
                 "copies watched": 500},
    "assumptions": ["surfaces accept arrays of parameters", "sub-ranges lie inside the grid"],
}


class Graph(ParametricSurface):
    """A user's surface whose coordinates are the parameters it was evaluated at."""

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"Graph({self.k})"

    def __call__(self, r, s):
        return Vector3(x=r, y=s, z=self.k * r * s + r - s * s)


class Power(ClusterFunction):
    """A user's clustering function."""

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return f"Power({self.p})"

    def __call__(self, x):
        return x ** self.p

    def distribute_parameter_values(self, nv):
        return np.linspace(0, 1, nv) ** self.p


def cluster(rng):
    """(real clustering function or None, reference, description)"""
    k = rng.choice(["none", "linear", "roberts", "roberts", "power"])
    if k == "none":
        return None, (lambda x: x), "none"
    if k == "linear":
        return LinearFunction(), (lambda x: x), "linear"
    if k == "power":
        p = rng.choice([2, 0.5, rng.uniform(0.4, 3)])
        return Power(p), (lambda x: x ** p), f"power {p}"
    a, b, beta = rng.random() < 0.6, rng.random() < 0.6, rng.choice([1.01, 1.1, 1.5, rng.uniform(1.005, 2)])
    return RobertsFunction(a, b, beta), (lambda x: float(ref.roberts(x, a, b, beta))), f"roberts {a} {b} {beta}"


def surf(rng):
    k = rng.random()
    if k < 0.35:
        q = rng.uniform(-2, 2)
        return gen.RS(Graph(q), lambda r, s: np.array([r, s, q * r * s + r - s * s]), f"graph {q}", 4.0)
    s = gen.scale(rng)
    if k < 0.8:
        return gen.coons(rng, s, (rng.choice(["line", "bezier", "arc", "rev", "poly", "spline"]), "line"))
    for _ in range(20):
        u = gen.surface(rng, s, 1)
        if u.desc.startswith(("Bilinear", "Revolved", "Coons", "sphere", "Cone")):
            return u
    return gen.coons(rng, s, ("line",))


def points(g):
    v = g.vertices
    x, y, z = np.asarray(v.x, dtype=float), np.asarray(v.y, dtype=float), np.asarray(v.z, dtype=float)
    shape = np.broadcast_shapes(x.shape, y.shape, z.shape)
    return np.stack([np.broadcast_to(q, shape) for q in (x, y, z)], -1)


def make(c):
    rng = c.rng
    u = surf(rng)
    ni, nj = (rng.choice([2, 3, 4, 5, 8, gen.few(rng, 2, 14, 70)]) for _ in range(2))
    cf = [cluster(rng) for _ in range(4)]
    c.note(u.desc, ni, nj, [x[2] for x in cf])
    lst = [x[0] for x in cf]
    keep = list(lst)
    kw = {}
    if rng.random() < 0.5:
        kw["label"] = rng.choice(["wall", "", "a b"])
    if rng.random() < 0.5:
        kw["tags"] = ["n", "e", "s", "w"]
    if all(x[2] == "none" for x in cf) and rng.random() < 0.7:
        g = StructuredGrid(u.real, ni, nj, **kw)
    elif rng.random() < 0.5:
        g = StructuredGrid(u.real, ni, nj, lst, **kw)
    else:
        g = StructuredGrid(surface=u.real, niv=ni, njv=nj, cf_list=lst, **kw)
    c.true(len(lst) == 4 and all(a is b for a, b in zip(lst, keep)), "the list of clustering functions changed", "copies watched")
    want = np.empty((ni, nj, 3))
    for i in range(ni):
        for j in range(nj):
            r, s = i / (ni - 1), j / (nj - 1)
            n, e, so, w = (x[1] for x in cf)
            want[i, j] = u.f((1 - s) * so(r) + s * n(r), (1 - r) * w(s) + r * e(s))
    return u, g, want, cf, kw


def grids(c):
    u, g, want, cf, kw = make(c)
    ni, nj = want.shape[:2]
    c.true((g.niv, g.njv) == (ni, nj), f"counts {g.niv} x {g.njv}, requested {ni} x {nj}", "grid points")
    got = points(g)
    c.true(got.shape == want.shape, f"{got.shape[:2]} points, requested {ni} x {nj}", "grid points")
    tol = 1e-7 if "spline" in u.desc.lower() else 1e-8
    c.close(got, want, 4 * u.size + 0.01, tol, "grid point", "grid points")
    # each border on the surface's border, following its own clustering
    n, e, so, w = (x[1] for x in cf)
    for i in range(ni):
        t = i / (ni - 1)
        c.close(got[i, 0], u.f(so(t), 0.0), 4 * u.size + 0.01, tol, f"south border at {i}", "border points")
        c.close(got[i, -1], u.f(n(t), 1.0), 4 * u.size + 0.01, tol, f"north border at {i}", "border points")
    for j in range(nj):
        t = j / (nj - 1)
        c.close(got[0, j], u.f(0.0, w(t)), 4 * u.size + 0.01, tol, f"west border at {j}", "border points")
        c.close(got[-1, j], u.f(1.0, e(t)), 4 * u.size + 0.01, tol, f"east border at {j}", "border points")
    if "label" in kw:
        c.true(g.label == kw["label"], f"label {g.label!r}, given {kw['label']!r}", "grid points")
    if "tags" in kw:
        c.true(list(g.tags) == ["n", "e", "s", "w"], f"tags {g.tags}", "grid points")


def subgrids(c):
    """Chains of sub-grids, all watched while any of them is changed."""
    rng = c.rng
    u, g, want, cf, kw = make(c)
    full = points(g).copy()
    live = [(g, full)]
    for _ in range(rng.randint(1, 4)):
        src, P = rng.choice([x for x in live if x[1].shape[0] > 1 or x[1].shape[1] > 1])
        a, b = P.shape[:2]
        i0, j0 = rng.randrange(a), rng.randrange(b)
        ni, nj = rng.randint(1, a - i0), rng.randint(1, b - j0)
        if src.dimensions == 1 or rng.random() < 0.15:
            j0, nj = 0, b
        c.note("sub", i0, j0, ni, nj)
        o = {k: x for k, x in dict(i0=i0, j0=j0, niv=ni, njv=nj).items() if x != (0 if k[1] == "0" else 1) or rng.random() < 0.5}
        h = src.subgrid(**o)
        c.true((h.niv, h.njv) == (ni, nj), f"sub-grid counts {h.niv} x {h.njv}, requested {ni} x {nj}", "sub-grid points")
        Q = P[i0:i0 + ni, j0:j0 + nj]
        got = points(h)
        c.true(got.shape == Q.shape, f"sub-grid of {got.shape[:2]} points, requested {ni} x {nj}", "sub-grid points")
        c.seen("sub-grid points", Q.size)
        c.true(np.array_equal(got, Q), "a sub-grid point differs from the grid's", "sub-grid points")
        c.true(h.label == src.label and list(h.tags) == list(src.tags), "label or tags of the sub-grid differ", "sub-grid points")
        live.append((h, Q.copy()))
        if rng.random() < 0.6:
            k = rng.randrange(len(live))
            t, T = live[k]
            d = rng.uniform(1, 2)
            for ax in rng.sample("xyz", rng.randint(1, 3)):
                arrx = getattr(t.vertices, ax)
                if isinstance(arrx, np.ndarray) and arrx.flags.writeable and arrx.shape == T.shape[:2]:
                    arrx += d
                    T[..., "xyz".index(ax)] += d
            live[k] = (t, T)
            if rng.random() < 0.3 and t is not g:
                t.tags[0] = f"changed {k}"
                c.true(g.tags[0] != f"changed {k}", "tags of the grid changed with the sub-grid's", "copies watched")
                t.tags[0] = g.tags[0]
        for n, (t, T) in enumerate(live):
            c.true(np.array_equal(points(t), T), f"grid {n} changed with another", "copies watched")
        if all(x[1].shape[:2] == (1, 1) for x in live):
            break


def refused(c):
    rng = c.rng
    u = surf(rng)
    n = rng.choice([1, 0, -1, -5])
    m = rng.randint(2, 6)
    bad = rng.choice(["i", "j", "both", "default", "notsurface", "path"])
    c.note(u.desc[:60], n, m, bad)
    StructuredGrid(u.real, m, m)
    if bad == "i":
        c.raises(lambda: StructuredGrid(u.real, n, m), f"{n} x {m} points")
    elif bad == "j":
        c.raises(lambda: StructuredGrid(u.real, m, n), f"{m} x {n} points")
    elif bad == "both":
        c.raises(lambda: StructuredGrid(u.real, n, n), f"{n} x {n} points")
    elif bad == "default":
        c.raises(lambda: StructuredGrid(u.real), "one point in each direction")
    elif bad == "notsurface":
        o = rng.choice([None, 3, "surface", lambda r, s: Vector3(r, s, 0), object(), [1, 2]])
        c.raises(lambda: StructuredGrid(o, m, m), f"{o!r} as a surface")
    else:
        c.raises(lambda: StructuredGrid(gen.line(rng).real, m, m), "a path as a surface")


KINDS = [("grids", grids, 1200, 6000), ("subgrids", subgrids, 1200, 6000), ("refused", refused, 300, 1000)]
