"""C18: inertial analysis against exact polyhedral integrals and closed forms."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from hypervehicle.components import CompositeComponent, Cube
from hypervehicle.geometry import Vector3
from hypervehicle.utilities import assess_inertial_properties
from rv import gen, meshlib, parts, ref, watch

SPEC = {
    "level": "exploration",
    "rule": "seeded random vehicles of closed bodies (named, unnamed, ghost) with random placements and densities, analysed "
            "before and after rigid motions, reorderings and density changes; a case is distinct by components and densities",
    "required": {"component values": 2000, "vehicle values": 2000, "motions followed": 100, "tables compared": 300,
                 "closed forms": 200},
    "assumptions": ["closed, consistently oriented meshes; the sign of the volume follows the orientation of the mesh",
                    "total mass not zero"],
}


def body(rng, s):
    k = rng.choice(["swept", "revolved", "swept", "revolved", "box", "fin", "wing"] if rng.random() < 0.4 else ["swept", "revolved", "box"])
    if k == "swept":
        return parts.swept(rng, s)
    if k == "revolved":
        return parts.revolved(rng, s, res=rng.choice([2, 3, 4]))
    if k == "box":
        return parts.composite(rng, s, n=rng.choice([1, 2]), allowed=("cube", "sphere"), options=False)
    if k == "fin":
        return parts.fin(rng, s, res=1)
    return parts.wing(rng, s, le_type="custom", closed=True, res=1)


def build(rng, s, n=None):
    n = n or gen.few(rng, 1, 4, 14)
    out = []
    for i in range(n):
        p = body(rng, s)
        o = parts.Options(rng, s * rng.choice([1, 1, 5]), only=("transformations",), rigid=True, p=0.7)
        name = rng.choice([None, None, f"part {i}", f"n{i}"])
        out.append((p, o, name, rng.random() < 0.2))
    return out


def assemble(rows):
    v = parts.vehicle()
    for p, o, name, ghost in rows:
        v.add_component(p.build(), name=name, ghost=ghost, **o.kwargs())
    return v


def density(rng):
    return rng.choice([1, 1.0, 1000, 2700.0, rng.uniform(0.1, 20), np.float64(3.3), 0.001])


def tolerances(t):
    ext = float(np.max(np.abs(t)))
    A = meshlib.area(t)
    return ext, A, 2e-6 * ext * A


def expected(v, dens, names):
    """Per component (V, m, c, I, A, tolV, ext), and totals."""
    comp = {}
    for k, n in zip(v.components, names):
        t = meshlib.tris(k.mesh)
        V, m, c, I = meshlib.mass(t, float(dens[n]))
        ext, A, tv = tolerances(t)
        comp[n] = (V, m, c, I, A, tv, ext)
    M = sum(x[1] for x in comp.values())
    V = sum(x[0] for x in comp.values())
    A = sum(x[4] for x in comp.values())
    cog = sum(x[1] * x[2] for x in comp.values()) / M if M else np.full(3, np.nan)
    I = np.zeros((3, 3))
    for x in comp.values():
        d = x[2] - cog
        I += x[3] + x[1] * (d @ d * np.eye(3) - np.outer(d, d))
    return comp, (V, M, cog, I, A)


def conditioned(comp, tot, dens):
    """Cancelling masses or slivers leave the centre undetermined; such vehicles are left out."""
    M = sum(abs(x[1]) for x in comp.values())
    return abs(tot[1]) > 0.05 * M and all(abs(x[0]) > 50 * x[5] for x in comp.values())


def vehicle_close(c, got, tot, comp, dens, what, rel=1.0):
    V, M, cog, I, A = tot
    tv = sum(x[5] for x in comp.values()) * rel
    tm = sum(x[5] * float(dens[n]) for n, x in comp.items()) * rel
    ext = max(x[6] for x in comp.values())
    dc = sum(x[5] * float(dens[n]) * ext * (1 + abs(x[1]) / max(abs(x[0] * float(dens[n])), 1e-300)) for n, x in comp.items()) / abs(M) * 4 * rel
    c.close(got[0], V, 1, tv, f"{what}: volume", "vehicle values")
    c.close(got[1], M, 1, tm, f"{what}: mass", "vehicle values")
    c.close(got[2], cog, 1, dc, f"{what}: centre of gravity", "vehicle values")
    di = 10 * tm * ext ** 2 + 10 * dc * ext * sum(abs(x[1]) for x in comp.values())
    c.close(got[3], I, 1, di, f"{what}: inertia", "vehicle values")
    return tv, tm, dc, di


def analysis(c):
    rng = c.rng
    s = rng.choice([1.0, 1.0, 10.0, 0.1, 1e-3])
    rows = build(rng, s)
    v = assemble(rows)
    names = parts.names(v)
    dens = {n: density(rng) for n in names}
    if len(names) > 1 and rng.random() < 0.15:
        dens[rng.choice(names)] = 0
    order = list(dens)
    rng.shuffle(order)
    dens = {k: dens[k] for k in order}
    if rng.random() < 0.3:
        dens["something else"] = 5.0
    lazy = rng.random() < 0.3
    c.note([f"{p.desc} {o.desc} {n} ghost={g}" for p, o, n, g in rows], {k: float(x) for k, x in dens.items()}, lazy)
    keep = dict(dens)
    if not lazy:
        v.generate()
    if rng.random() < 0.5:
        vp, cp = assess_inertial_properties(v, dens)
        got = (vp["volume"], vp["mass"], vp["cog"], vp["moi"])
        area = vp["area"]
    else:
        got = v.analyse(dens)
        cp, area = v.component_properties, v.area
        for a, b in zip((v.volume, v.mass, v.cog, v.moi), got):
            c.true(np.array_equal(a, b), "values held by the vehicle differ from those returned", "tables compared")
    c.true(dens == keep, "densities were changed", "tables compared")
    comp, tot = expected(v, dens, names)
    if not conditioned(comp, tot, dens):
        c.trivial = True
        return
    for n, x in comp.items():
        r = float(dens[n])
        V, m, cog, I, A, tv, ext = x
        c.close(cp["volume"][n], V, 1, tv, f"volume of {n}", "component values")
        c.close(cp["mass"][n], m, 1, tv * r, f"mass of {n}", "component values")
        c.close(cp["area"][n], A, A, 1e-5, f"area of {n}", "component values")
        dc = 10 * tv * ext / abs(V)
        c.close(cp["cog"][n], cog, 1, dc, f"centre of {n}", "component values")
        c.close(cp["moi"][n], I, 1, 20 * r * tv * ext ** 2 + 4 * dc * ext * abs(m), f"inertia of {n}", "component values")
    for q in cp:
        c.true(set(cp[q]) == set(names), f"components in table of {q}: {list(cp[q])}", "tables compared")
    vehicle_close(c, got, tot, comp, dens, "vehicle")
    # the totals follow from the values reported for the components
    ms = {n: float(cp["mass"][n]) for n in names}
    cs = {n: np.array(cp["cog"][n], dtype=float) for n in names}
    G = sum(ms[n] * cs[n] for n in names) / sum(ms.values())
    E = max(x[6] for x in comp.values()) + max(float(np.max(np.abs(x))) for x in cs.values())
    W = sum(abs(x) for x in ms.values())
    c.close(got[2], G, E * W / abs(sum(ms.values())), 1e-7, "centre of gravity from the components", "tables compared")
    J, span = np.zeros((3, 3)), 0.0
    for n in names:
        d = cs[n] - np.array(got[2], dtype=float)
        J += np.array(cp["moi"][n], dtype=float) + ms[n] * (d @ d * np.eye(3) - np.outer(d, d))
        span += float(np.max(np.abs(cp["moi"][n]))) + abs(ms[n]) * float(d @ d)
    c.close(got[3], J, span, 1e-6, "inertia from the components", "tables compared")
    c.close(area, tot[4], tot[4], 1e-5, "area", "vehicle values")
    # densities scale
    f = rng.choice([2.0, 10, 0.5])
    g2 = v.analyse({k: x * f for k, x in dens.items()})
    c.close(g2[0], got[0], abs(got[0]), 1e-9, "volume at scaled density", "vehicle values")
    c.close(g2[1], f * got[1], abs(f * got[1]), 1e-9, "mass at scaled density", "vehicle values")
    c.close(g2[3], f * np.array(got[3]), np.max(np.abs(f * np.array(got[3]))), 1e-6, "inertia at scaled density", "vehicle values")
    # rigid motion
    m = parts.motion(rng, s, rigid=True)
    v.transform([m[0]()])
    g3 = v.analyse(dens)
    move = lambda P: np.array(m[1](lambda r, q: np.array(P, dtype=float))(0, 0))
    o = move([0, 0, 0])
    R = np.array([move(e) - o for e in np.eye(3)]).T
    ext = max(x[6] for x in comp.values()) + float(np.max(np.abs(o)))
    comp3 = {n: x[:5] + (2e-6 * ext * x[4], ext) for n, x in comp.items()}
    t3 = (got[0], got[1], o + R @ np.array(got[2]), R @ np.array(got[3]) @ R.T, tot[4])
    comp3 = {n: tuple(x) for n, x in comp3.items()}
    if conditioned(comp3, t3, dens):
        vehicle_close(c, g3, t3, comp3, dens, f"after {m[2]}", 3.0)
        c.seen("motions followed")
    c.close(v.area, tot[4], tot[4], 1e-4, "area after motion", "vehicle values")


def same_ways(c):
    """On generation or afterwards; in any order of components; tables in the file."""
    rng = c.rng
    s = rng.choice([1.0, 10.0, 0.1, 1e-3])
    rows = build(rng, s, rng.choice([2, 3]))
    rows = [(p, o, f"c{i}", g) for i, (p, o, n, g) in enumerate(rows)]
    dens = {f"c{i}": density(rng) for i in range(len(rows))}
    c.note("ways", [f"{p.desc} {o.desc} {n} ghost={g}" for p, o, n, g in rows], {k: float(x) for k, x in dens.items()})
    a, b = assemble(rows), assemble(rows)
    shuf = rng.sample(rows, len(rows))
    d = assemble(shuf)
    a.analyse_after_generating(dens)
    a.generate()
    b.generate()
    gb = b.analyse(dens)
    comp, tot = expected(b, dens, parts.names(b))
    if not conditioned(comp, tot, dens):
        c.trivial = True
        return
    for k, x in zip(("volume", "mass", "cog", "moi"), gb):
        c.true(np.array_equal(a.analysis_results[k], x), f"{k} on generation differs from {k} afterwards", "tables compared")
    vehicle_close(c, gb, tot, comp, dens, "vehicle")
    vehicle_close(c, d.analyse(dens), tot, comp, dens, "components in another order")
    # transformations of the vehicle come first, then the analysis
    m = parts.motion(rng, s, rigid=True)
    e = assemble(rows)
    e.add_vehicle_transformations([m[0]()])
    e.analyse_after_generating(dens)
    e.generate()
    b.transform([m[0]()])
    for k, x in zip(("volume", "mass", "cog", "moi"), b.analyse(dens)):
        c.true(np.array_equal(e.analysis_results[k], x), f"{k} on generation ignores the vehicle transformations", "tables compared")
    # generating again renews the results
    e.generate()
    for k, x in zip(("volume", "mass", "cog", "moi"), b.analyse(dens)):
        c.true(np.array_equal(e.analysis_results[k], x), f"{k} after generating again", "tables compared")
    tmp = tempfile.mkdtemp(prefix="rv-c18-")
    try:
        with watch.cwd(tmp):
            a.to_stl(prefix="q")
        t = pd.read_csv(os.path.join(tmp, "q_properties", "q_volmass.csv"), index_col=0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for k, q, x in [("vehicle", "mass", tot[1]), ("vehicle", "volume", tot[0]), ("vehicle", "area", tot[4])]:
        c.close(t.loc[k, q], x, abs(x) + sum(y[5] * max(float(dens[n]), 1) for n, y in comp.items()) * 1e5, 1e-5, f"table: vehicle {q}", "tables compared")
    for n, x in comp.items():
        c.close(t.loc[n, "volume"], a.component_properties["volume"][n], abs(x[0]), 1e-9, f"table: volume of {n}", "tables compared")
        c.close(t.loc[n, "mass"], a.component_properties["mass"][n], abs(x[1]) + 1e-30, 1e-9, f"table: mass of {n}", "tables compared")
        c.close(t.loc[n, "area"], x[4], x[4], 1e-5, f"table: area of {n}", "tables compared")


def boxes(c):
    """Cubes of known mass, centre and inertia."""
    rng = c.rng
    n = gen.few(rng, 1, 4, 13)
    v = parts.vehicle()
    M, first, items, dens, text = 0, np.zeros(3), [], {}, []
    for i in range(n):
        k = parts.serial(CompositeComponent(stl_resolution=rng.choice([1, 2]), verbosity=0))
        rho = rng.uniform(0.5, 5)
        R = np.eye(3)
        tf = []
        for _ in range(rng.randint(0, 2)):
            ax, ang = rng.choice("xyz"), rng.uniform(-180, 180)
            tf.append(("rotate", ang, ax))
            R = ref.rot(ax, np.deg2rad(ang)) @ R
        for j in range(rng.randint(1, 3)):
            a = rng.uniform(0.2, 1)
            ctr = np.array([rng.uniform(-3, 3) for _ in range(3)])
            k.add_component(parts.serial(Cube(a, Vector3(*ctr), verbosity=0)))
            m = rho * 8 * a ** 3
            items.append((m, R @ ctr, m * (2 * a) ** 2 / 6))
            text.append((round(a, 3), ctr.round(3).tolist()))
        dens[f"b{i}"] = rho
        v.add_component(k, name=f"b{i}", transformations=tf, ghost=rng.random() < 0.3)
        text.append(tf)
    c.note("boxes", text, dens)
    V, m, cog, I = v.analyse(dens)
    M = sum(x[0] for x in items)
    C = sum(x[0] * x[1] for x in items) / M
    W = np.zeros((3, 3))
    for q, p, i in items:
        d = p - C
        W += i * np.eye(3) + q * (d @ d * np.eye(3) - np.outer(d, d))
    c.close(m, M, M, 1e-4, "mass of the boxes", "closed forms")
    c.close(cog, C, 10, 1e-4, "centre of the boxes", "closed forms")
    c.close(I, W, np.max(np.abs(W)) + 1, 1e-3, "inertia of the boxes", "closed forms")


def mirrored(c):
    """A closed body with its mirror image has twice its volume (listed finding)."""
    rng = c.rng
    p = parts.swept(rng, 1.0)
    app = rng.random() < 0.5
    c.note("mirrored", p.desc, app)
    v, w = parts.vehicle(), parts.vehicle()
    v.add_component(p.build(name="a"), reflection_axis=rng.choice("xyz"), append_reflection=app)
    w.add_component(p.build(name="a"))
    W = w.analyse({"a": 2.0})[0]
    V = v.analyse({"a": 2.0})[0]
    n = 2 if app else 1
    if abs(V - n * W) > 1e-4 * abs(W):
        wound = 0 if app else -W
        if abs(V - wound) < 1e-4 * abs(W):
            c.known("mirrored-winding", f"volume {V} with the mirror image {'appended' if app else 'alone'}, body alone {W}")
        else:
            c.fail(f"volume {V} with the mirror image, body alone {W}")
    c.seen("mirror images weighed")


KINDS = [("analysis", analysis, 180, 1800), ("same_ways", same_ways, 60, 500), ("boxes", boxes, 60, 500), ("mirrored", mirrored, 6, 24)]
