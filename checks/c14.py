"""C14: reflection of components."""
import numpy as np

from rv import gen, meshlib, parts, ref
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random components of every type with random options, reflected about every axis, appended or "
            "replacing, through a vehicle or directly; a case is distinct by component, options and axis",
    "required": {"surface points": 4000, "triangles expected": 3000, "mirror pairs": 2000, "originals": 1000, "repeated reflections": 400},
}
ALL = ("swept", "revolved", "swept", "revolved", "wing", "fin", "composite", "cube", "sphere")
SIGN = {"x": np.array([-1., 1, 1]), "y": np.array([1., -1, 1]), "z": np.array([1., 1, -1])}


def pick(rng, s, kinds=ALL):
    k = rng.choice(kinds)
    if k == "composite":
        return parts.composite(rng, s)
    if k == "wing" and rng.random() < 0.6:
        return parts.wing(rng, s, le_type="flat")
    return parts.KINDS[k](rng, s)


def in_vehicle(c):
    """Position of the reflection among the other options."""
    rng = c.rng
    s = rng.choice([1.0, 1.0, 10.0, 0.1])
    p = pick(rng, s, ALL[:7])
    o = parts.Options(rng, s)
    o.refl = (rng.choice("xyzXYZ"), rng.random() < 0.5)
    angle = rng.choice([0, rng.choice(parts.ANGLES), rng.uniform(-60, 60)])
    c.note(p.desc, o.desc, o.refl, angle)
    v = parts.vehicle()
    comp = p.build()
    v.add_component(comp, **o.kwargs())
    v.vehicle_angle_offset = angle
    v.generate()
    want = parts.predicted(p, o, angle)
    size = p.size * 3
    parts.compare(c, comp, want, "reflected component", "surface points", rng, n=3, size=size)
    if not p.expensive:
        res = comp.stl_resolution
        e = parts.expected_mesh(want, res)
        c.close(meshlib.tris(comp.mesh), e, 1, meshlib.tol(e, 1e-8 * size), "mesh", "triangles expected")


def direct(c):
    """Mirror pairs of one component, with clustering, against the same component unreflected."""
    rng = c.rng
    s = rng.choice([1.0, 1.0, 10.0, 0.1])
    p = pick(rng, s)
    ax, app = rng.choice("xyzXYZ"), rng.random() < 0.6
    how = rng.choice(["stored", "argument"])
    if how == "argument":
        app = True
    clus = {}
    if rng.random() < 0.5:
        e1, e2 = rng.uniform(0.5, 2), rng.uniform(0.5, 2)
        clus = {"i_clustering_func": lambda t: t ** e1, "j_clustering_func": lambda t: t ** e2}
        if rng.random() < 0.4:
            clus.pop(rng.choice(sorted(clus)))
    pts = [(gen.tvalue(rng), gen.tvalue(rng)) for _ in range(2 if p.expensive else 4)]
    times = 1
    c.note("direct", p.desc, ax, app, how, sorted(clus), pts)
    plain, comp = p.build(), p.build()
    plain.generate_patches()
    comp.generate_patches()
    before = dict(comp.patches)
    if clus:
        plain.add_clustering_options(**clus)
        comp.add_clustering_options(**clus)
    if how == "stored":
        holder = parts.vehicle()
        if p.kind in ("cube", "sphere"):
            from hypervehicle.components import CompositeComponent

            k = CompositeComponent(stl_resolution=comp.stl_resolution, verbosity=0)
            parts.serial(k)
            k.add_component(comp, reflection_axis=ax, append_reflection=app)
            if clus:
                k.add_clustering_options(**clus)
            holder.add_component(k)
            holder.generate()
            comp = k
        else:
            holder.add_component(comp, reflection_axis=ax, append_reflection=app)
            holder.generate()
    else:
        comp.reflect(axis=ax)
    n = len(plain.patches)
    got = parts.fns(comp)
    c.true(len(got) == (2 * n if app else n), f"{len(got)} surfaces from {n}", "mirror pairs")
    sg = SIGN[ax.lower()]
    base = parts.fns(plain)
    size = p.size
    for i in range(n):
        for r, q in pts:
            x = base[i](r, q)
            if app:
                c.close(got[i](r, q), x, size, 1e-12, f"original surface {i} at ({r}, {q})", "originals")
            y = got[i + n if app else i](r, q)
            c.close(y, x * sg, size, 1e-12, f"mirror image of surface {i} at ({r}, {q})", "mirror pairs")
    for k, f in before.items():
        g = plain.patches[k]
        r, q = pts[0]
        c.close(arr(f(r, q)), arr(g(r, q)), size, 1e-12, f"patch {k} held before reflecting", "originals")
    if p.expensive and rng.random() < 0.7:
        return
    t0, t1 = meshlib.tris(plain.mesh), meshlib.tris(comp.mesh)
    want = np.concatenate([t0, t0 * sg]) if app else t0 * sg
    c.close(t1, want, 1, meshlib.tol(t0, 1e-9 * size), "mesh of the reflected component", "triangles expected")


def again(c):
    """One reflection after another: each mirrors all that is there."""
    rng = c.rng
    k = rng.choice(["swept", "revolved", "cube", "swept_edges"])
    if k == "swept_edges":
        a, b = rng.randint(1, 3), rng.randint(1, 3)
        p = parts.swept(rng, 1.0, res={"e0": a, "e2": a, "e1": b, "e3": b, "sweep": rng.randint(1, 3)})
    else:
        p = parts.KINDS[k](rng, 1.0, res=rng.choice([1, 2]))
    axes = [rng.choice("xyz") for _ in range(rng.choice([2, 2, 3]))]
    mid = rng.random() < 0.3  # meshed in between
    c.note("again", p.desc, axes, mid)
    plain, comp = p.build(), p.build()
    for q in (plain, comp):
        q.generate_patches()
    want, t = parts.fns(plain), meshlib.tris(plain.mesh)
    for ax in axes:
        comp.reflect(axis=ax)
        if mid:
            comp.mesh
        want = want + [ref.mirrored(f, ax) for f in want]
        t = np.concatenate([t, t * SIGN[ax]])
    c.true(len(comp.patches) == len(want), f"{len(comp.patches)} surfaces after reflections {axes}, expected {len(want)}", "repeated reflections")
    # as a set: nothing is claimed about the order of surfaces here
    at = [(gen.tvalue(rng), gen.tvalue(rng)) for _ in range(3)]
    mine = sorted(np.round(np.concatenate([f(r, q) for r, q in at]), 7).tolist() for f in parts.fns(comp))
    theirs = sorted(np.round(np.concatenate([f(r, q) for r, q in at]), 7).tolist() for f in want)
    for f in want:
        x = np.concatenate([f(r, q) for r, q in at])
        d = min(np.max(np.abs(np.array(y) - x)) for y in mine)
        c.true(d < 1e-6 * p.size, f"no surface for one of the mirror images after {axes}", "repeated reflections")
    for y in mine:
        d = min(np.max(np.abs(np.array(y) - np.array(x))) for x in theirs)
        c.true(d < 1e-6 * p.size, f"a surface that is no mirror image after {axes}", "repeated reflections")
    c.true(len(comp.mesh.vectors) == len(t), f"{len(comp.mesh.vectors)} triangles after {axes}, expected {len(t)}", "repeated reflections")


def none(c):
    """Without an axis nothing changes; one component's reflection is its own."""
    rng = c.rng
    ps = [pick(rng, 1.0, ("swept", "revolved", "wing")) for _ in range(gen.few(rng, 2, 4, 14))]
    ax = [rng.choice([None, "x", "y", "z"]) for _ in ps]
    app = [rng.random() < 0.5 for _ in ps]
    c.note("vehicle", [p.desc for p in ps], ax, app)
    v = parts.vehicle()
    comps = [p.build() for p in ps]
    for k, a, b in zip(comps, ax, app):
        v.add_component(k, reflection_axis=a, append_reflection=b)
    v.generate()
    for _ in range(rng.randint(0, 2)):
        v.generate()
    for i, (p, k, a, b) in enumerate(zip(ps, comps, ax, app)):
        fs = p.base()
        if a:
            m = [ref.mirrored(f, a) for f in fs]
            fs = fs + m if b else m
        parts.compare(c, k, fs, f"component {i}", "surface points" if a else "originals", rng, n=3, size=p.size)


KINDS = [("in_vehicle", in_vehicle, 180, 1500), ("direct", direct, 180, 1500), ("none", none, 60, 500), ("again", again, 80, 800)]
