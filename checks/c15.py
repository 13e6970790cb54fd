"""C15: composites are the union of their children."""
import numpy as np

from hypervehicle import Vehicle
from hypervehicle.components import CompositeComponent, RevolvedComponent
from rv import meshlib, parts, ref

SPEC = {
    "level": "exploration",
    "rule": "seeded random multisets and orders of children of every allowed type with random options, inside random "
            "vehicle options, generated once or several times; a case is distinct by children and options",
    "required": {"surface points": 4000, "triangles expected": 3000, "refusals observed": 30, "regenerations": 40,
                 "children compared": 60},
}


class Labelled(RevolvedComponent):
    """A user's component, with surface names of its own."""

    labels = ()

    def generate_patches(self):
        super().generate_patches()
        self.patches = dict(zip(self.labels, self.patches.values()))


LABELS = [["a", "a_1", "a_0", "a_1_0"], ["a", "a_1", "a_2", "a_3"], ["0", "1", "2", "0_1"], ["a_1", "a_1_1", "a_1_1_1", "a"],
          ["", "_1", "_0", "_1_1"], ["revolved_fuse_0", "revolved_fuse_0_1", "revolved_fuse_1", "revolved_fuse_1_0"],
          ["a_10", "a_1", "a_11", "a_1_1"], ["b", "a", "B", "A"]]


def labelled(rng, s):
    labels = rng.choice(LABELS)
    if rng.random() < 0.5:
        labels = rng.sample(labels, 4)
    pts, kinds = parts.profile(rng, s)
    kind = type("Labelled", (Labelled,), {"labels": labels})
    return parts.Part("revolved", lambda **kw: kind(parts.prof_line(pts, kinds), **{"stl_resolution": 2, **kw}),
                      f"revolved with surfaces {labels} {np.round(pts, 3).tolist()} {kinds}", s * 4)


def kids(rng, s, n, costly):
    if n > 1 and rng.random() < 0.2:  # surfaces named by the user
        one = labelled(rng, s)
        return [one if rng.random() < 0.6 else labelled(rng, s) for _ in range(n)]
    out = []
    for _ in range(n):
        k = rng.choice(["swept", "revolved", "cube", "sphere", "swept", "wing"] + (["fin", "wing"] if costly else []))
        if k == "wing":
            out.append(parts.wing(rng, s, le_type=None if costly else "flat"))
        elif k == "swept" and rng.random() < 0.3:
            # children with resolutions per edge: the composite's resolution applies all the same
            a, b = rng.randint(1, 4), rng.randint(1, 4)
            out.append(parts.swept(rng, s, res={"e0": a, "e2": a, "e1": b, "e3": b, "sweep": rng.randint(1, 4)}))
        else:
            out.append(parts.KINDS[k](rng, s))
    if rng.random() < 0.4 and n > 1:
        out[rng.randrange(n)] = rng.choice(out)  # twins
    return out


def make(rng, s, costly=False):
    n = rng.choice([1, 2, 2, 3, 3, 4, 6, 11] if not costly else [1, 2])
    ps = kids(rng, s, n, costly)
    os = [parts.Options(rng, s, only=("curvatures", "reflection", "transformations"), p=0.35) for _ in ps]
    res = rng.choice([1, 2, 3])

    def build():
        k = parts.serial(CompositeComponent(stl_resolution=res, verbosity=0))
        ch = [p.build() for p in ps]
        for x, o in zip(ch, os):
            k.add_component(x, **o.kwargs())
        return k, ch

    want = []
    for p, o in zip(ps, os):
        want += o.apply(p.base())
    text = f"[{'; '.join(p.desc + ' ' + o.desc for p, o in zip(ps, os))}] res={res}"
    return build, want, text, res, ps, os


def union(c):
    rng = c.rng
    s = rng.choice([1.0, 1.0, 10.0, 0.1])
    costly = rng.random() < 0.15
    build, want, text, res, ps, os = make(rng, s, costly)
    o = parts.Options(rng, s, p=0.3)
    angle = rng.choice([0, 0, rng.uniform(-60, 60)])
    clus, rs = {}, None
    if rng.random() < 0.3:
        e1 = rng.uniform(0.5, 2)
        clus = {"clustering": {"i_clustering_func": lambda t: t ** e1}}
        rs = np.linspace(0, 1, res + 1) ** e1
    gens = rng.choice([1, 1, 2, 3])
    c.note(text[:6000], o.desc, angle, bool(clus), gens)
    comp, ch = build()
    if rng.random() < 0.3 and not costly:
        x = rng.choice(ch)
        x.generate_patches()
        x.mesh
        if rng.random() < 0.5:
            x.rotate(20, "x")
    v = parts.vehicle()
    v.add_component(comp, **o.kwargs(), **clus)
    v.vehicle_angle_offset = angle
    for i in range(gens):
        v.generate()
        if i < gens - 1:
            c.seen("regenerations")
            if rng.random() < 0.5 and not costly:
                comp.mesh
    fs = o.apply(want, angle)
    size = s * 12
    parts.compare(c, comp, fs, "composite", "surface points", rng, n=3, size=size)
    if not costly:
        e = np.concatenate([meshlib.sampled(f, res, res, rs=rs) for f in fs])
        c.close(meshlib.tris(comp.mesh), e, 1, meshlib.tol(e, 1e-8 * size), "mesh of the composite", "triangles expected")


def apart(c):
    """Two composites and a lone component in one vehicle do not interfere; children keep their own surfaces."""
    rng = c.rng
    s = 1.0
    A, B = make(rng, s), make(rng, s)
    L = parts.cheap(rng, s)
    oa, ob, ol = (parts.Options(rng, s, p=0.3) for _ in range(3))
    c.note("apart", A[2][:3000], oa.desc, B[2][:3000], ob.desc, L.desc, ol.desc)
    v = parts.vehicle()
    a, ca = A[0]()
    b, cb = B[0]()
    l = L.build()
    order = [(a, oa), (b, ob), (l, ol)]
    rng.shuffle(order)
    for k, o in order:
        v.add_component(k, **o.kwargs())
    v.generate()
    if rng.random() < 0.5:
        v.generate()
        c.seen("regenerations")
    parts.compare(c, a, oa.apply(A[1]), "first composite", "surface points", rng, n=2, size=12)
    parts.compare(c, b, ob.apply(B[1]), "second composite", "surface points", rng, n=2, size=12)
    parts.compare(c, l, ol.apply(L.base()), "lone component", "surface points", rng, n=2, size=12)
    # a composite equals its children one by one in their own vehicle (where the type is allowed there)
    for p, o in zip(A[4], A[5]):
        if p.kind in ("cube", "sphere"):
            continue
        w = parts.vehicle()
        x = p.build()
        w.add_component(x, **o.kwargs())
        w.generate()
        parts.compare(c, x, o.apply(p.base()), "child alone", "children compared", rng, n=1, size=12)


class Alien:
    componenttype = "fairing"
    verbosity = 0
    name = None
    patches = {}


def refused(c):
    rng = c.rng
    build, want, text, res, ps, os = make(rng, 1.0)
    comp, ch = build()
    k = rng.choice(["composite", "alien", "vehicle"])
    c.note("refused", k, text[:2000])
    bad = {"composite": lambda: parts.composite(rng, 1.0).build(), "alien": Alien, "vehicle": Vehicle}[k]()
    c.raises(lambda: comp.add_component(bad), f"{k} as a child")
    v = parts.vehicle()
    v.add_component(comp)
    v.generate()
    parts.compare(c, comp, want, "composite after a refused child", "surface points", rng, n=1, size=12)


KINDS = [("union", union, 240, 2000), ("apart", apart, 60, 500), ("refused", refused, 36, 200)]
