"""C21: mesh check and mesh repair on meshes with known flaws."""
from collections import Counter

import numpy as np
from stl import mesh as sm

from hypervehicle.components import Cube
from rv import meshlib, parts

SPEC = {
    "level": "exploration",
    "rule": "seeded random closed meshes on an exact lattice (and meshes of real components) with removed, flipped, "
            "duplicated or displaced triangles and vertex scatter inside or beyond the repair distance; a case is distinct "
            "by mesh, flaw, scatter and options",
    "required": {"checks judged": 600, "checks that must pass": 100, "checks that must fail": 200, "vertices after repair": 5000,
                 "clusters joined": 500, "repaired meshes checked": 40, "untouched meshes": 40},
    "assumptions": ["no triangle is degenerate", "joining is required where, in every coordinate, the values near a cluster's "
                    "belong to one group narrower than the distance and farther than it from the next (see known findings)"],
}


def holder(t, normals=True):
    d = np.zeros(len(t), dtype=sm.Mesh.dtype)
    d["vectors"] = t
    k = parts.serial(Cube(1.0, verbosity=0))
    k.mesh = sm.Mesh(d)
    return k


# -- closed meshes on a lattice ----------------------------------------------
def tetra(o, s):
    p = [np.array(o) + s * np.array(x) for x in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1))]
    return [[p[0], p[2], p[1]], [p[0], p[1], p[3]], [p[1], p[2], p[3]], [p[2], p[0], p[3]]]


def octa(o, s):
    c = np.array(o)
    e = [np.array(x) * s for x in ((1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0))]
    u, d = np.array([0, 0, s]), np.array([0, 0, -s])
    out = []
    for i in range(4):
        a, b = e[i], e[(i + 1) % 4]
        out += [[c + a, c + b, c + u], [c + b, c + a, c + d]]
    return out


def box(o, n, s):
    """Surface of a block of n cells per side, two triangles per face."""
    o = np.array(o)
    out = []
    for ax in range(3):
        for side in (0, 1):
            u, v = (ax + 1) % 3, (ax + 2) % 3
            for i in range(n[u]):
                for j in range(n[v]):
                    q = []
                    for a, b in ((0, 0), (1, 0), (1, 1), (0, 1)):
                        p = np.zeros(3, dtype=int)
                        p[ax], p[u], p[v] = side * n[ax], i + a, j + b
                        q.append(o + s * p)
                    if not side:
                        q = q[::-1]
                    out += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
    return out


def solid(rng):
    out, text = [], []
    for b in range(rng.choice([1, 1, 2, 3])):
        o = [rng.randint(-3, 3) + (12 * b if i == 0 else 0) for i in range(3)]
        k = rng.choice(["tetra", "octa", "box", "box"])
        s = rng.choice([1, 2])
        if k == "tetra":
            out += tetra(o, s)
        elif k == "octa":
            out += octa(o, s)
        else:
            n = [rng.randint(1, 3) for _ in range(3)]
            k += str(n)
            out += box(o, n, s)
        text.append(f"{k}@{o}x{s}")
    t = np.array(out, dtype=float)
    if rng.random() < 0.3:
        t = t[:, ::-1]
        text.append("inward")
    perm = list(range(len(t)))
    rng.shuffle(perm)
    t = t[perm]
    t = np.array([np.roll(x, rng.randrange(3), axis=0) for x in t])
    t = t * rng.choice([1, 1, 0.5, 0.25, 8])
    return t, " ".join(text)


def edges_ok(t):
    e = Counter()
    for tri in np.asarray(t, dtype=np.float32):
        v = [tuple(float(x) + 0.0 for x in p) for p in tri]
        for a, b in ((0, 1), (1, 2), (2, 0)):
            e[(v[a], v[b])] += 1
    return all(n == 1 and e.get((b, a), 0) == 1 for (a, b), n in e.items())


def balance(t):
    """True, False, or None when rounding could decide it."""
    t = np.asarray(t, dtype=np.float32).astype(float)
    n = np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
    s, w = np.abs(n.sum(axis=0)), np.abs(n).sum(axis=0)
    eps = meshlib.EPS32
    if np.all(s == 0):
        return True
    if np.any(s > 20 * eps * (w + w.max())):
        return False
    return None


def flaw(rng, t):
    k = rng.choice(["none", "none", "remove", "remove2", "opposite", "flip", "flip2", "flipall", "dup", "move", "swap", "edge"])
    t = t.copy()
    i = rng.randrange(len(t))
    if k == "remove":
        t = np.delete(t, i, axis=0)
    elif k == "remove2":
        t = np.delete(t, [i, rng.randrange(len(t))], axis=0)
    elif k == "opposite":
        # leave out two triangles of opposite area vector, if there are any: balanced but open
        n = np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
        j = [q for q in range(len(t)) if np.array_equal(n[q], -n[i])]
        if j:
            t = np.delete(t, [i, rng.choice(j)], axis=0)
        else:
            k = "none"
    elif k == "flip":
        t[i] = t[i, ::-1]
    elif k == "flip2":
        j = rng.randrange(len(t))
        t[i] = t[i, ::-1]
        if j != i:
            t[j] = t[j, ::-1]
    elif k == "flipall":
        t = t[:, ::-1].copy()
    elif k == "dup":
        x = t[i] if rng.random() < 0.5 else t[i, ::-1]
        t = np.concatenate([t, x[None]])
    elif k == "move":
        q = rng.randrange(3)
        t[i, q, rng.randrange(3)] += rng.choice([0.125, -0.125, 2 ** -14])
    elif k == "swap":
        j = rng.randrange(len(t))
        t[[i, j]] = t[[j, i]]
    elif k == "edge":
        # a second body along an edge: four triangles share it
        a, b = t[i, 0], t[i, 1]
        L = float(np.linalg.norm(b - a))
        d = np.array([0.0, 0.0, 512.0])
        e = np.array([0.0, 512.0, 0.0])
        p = [a, b, a + d, a + e]
        t = np.concatenate([t, np.array([[p[0], p[2], p[1]], [p[0], p[1], p[3]], [p[1], p[2], p[3]], [p[2], p[0], p[3]]])])
    return t, k


def snapshot(k):
    m = k.mesh
    return m, np.array(m.vectors).tobytes(), np.array(m.normals).tobytes(), m.data.tobytes()


def judge(c, k, t, area, lines, what):
    e, b = edges_ok(t), balance(t)
    want = True
    if lines:
        want = want and e
    if area:
        if b is None and want:
            c.trivial = True
            want = None
        elif b is False:
            want = False
    before = snapshot(k)
    got = k.stl_check(project_area=area, matching_lines=lines)
    after = snapshot(k)
    c.true(before[1:] == after[1:], f"{what}: the check altered the mesh", "checks judged")
    if want is None:
        return
    c.true(got is not None and bool(got) == want, f"{what}: check(area={area}, lines={lines}) gave {got}, edges {'match' if e else 'do not match'}, "
           f"areas {'balance' if b else 'do not balance'}", "checks judged")
    c.seen("checks that must pass" if want else "checks that must fail")


def check(c):
    rng = c.rng
    t, text = solid(rng)
    t, k = flaw(rng, t)
    if rng.random() < 0.2:
        t, k2 = flaw(rng, t)
        k += "+" + k2
    c.note(text, k, len(t), rng.random())
    comp = holder(t)
    if rng.random() < 0.3:
        e, b = edges_ok(t), balance(t)
        got = comp.stl_check()
        c.true(b is None or bool(got) == (e and b), f"{k}: default check gave {got}", "checks judged")
    for area in (True, False):
        for lines in (True, False):
            judge(c, comp, t, area, lines, f"{text} with {k}")


def real(c):
    """Meshes of real bodies: judged edge by edge on the exact vertices."""
    rng = c.rng
    p = rng.choice([parts.cube, parts.sphere, parts.swept])(rng, rng.choice([1.0, 4.0]), res=rng.choice([1, 2, 3]))
    cut = rng.random() < 0.4
    c.note("real", p.desc, cut)
    comp = p.build()
    comp.generate_patches()
    t = np.array(comp.mesh.vectors)
    if cut:
        t = np.delete(t, rng.randrange(len(t)), axis=0)
        comp = holder(t)
    a = t.astype(float)
    if np.min(np.linalg.norm(np.cross(a[:, 1] - a[:, 0], a[:, 2] - a[:, 0]), axis=1)) < 1e-9:
        c.trivial = True
        return
    judge(c, comp, t, False, True, f"{p.kind} cut={cut}")
    if p.kind == "cube" and not cut:
        c.true(bool(comp.stl_check(project_area=False)) == edges_ok(t), "check without areas", "checks judged")


# -- repair --------------------------------------------------------------------
def scatter(c, t, d, spread):
    """Each corner of each triangle displaced by at most spread/2 in every coordinate."""
    return (t + c.np.uniform(-0.5, 0.5, t.shape) * spread).astype(np.float32).astype(float)


def ulps(t, n):
    return (n + 4) * meshlib.EPS32 * float(np.max(np.abs(t)))


def repair(c):
    rng = c.rng
    t, text = solid(rng)
    d = rng.choice([1e-2, 1e-3, 1e-4, 1e-1])
    use = rng.choice([0.2, 0.5, 0.9])
    # the displacement of a corner is limited so that copies of a vertex stay within the distance
    part = rng.random()
    k = "none"
    if rng.random() < 0.3:
        x, k = flaw(rng, t)
        t, k = (t, "none") if k == "move" else (x, k)
    q = scatter(c, t, d, use * d)
    if part < 0.4:
        m = c.np.random(t.shape[:2]) < 0.5
        q[m] = t[m]
    c.note("repair", text, k, d, use, part < 0.4, len(t), rng.random())
    comp = holder(q)
    q = np.array(comp.mesh.vectors, dtype=float)
    comp.stl_repair(small_distance=d)
    r = np.array(comp.mesh.vectors, dtype=float)
    c.true(r.shape == q.shape, f"{len(r)} triangles from {len(q)}", "vertices after repair")
    cnt = int(max(Counter(map(tuple, t.reshape(-1, 3).tolist())).values()))
    c.close(r, q, 1, d + ulps(q, cnt), "vertex moved by more than the distance", "vertices after repair")
    # copies of one lattice vertex coincide
    byv = {}
    for a, b in zip(t.reshape(-1, 3), np.array(comp.mesh.vectors).reshape(-1, 3)):
        byv.setdefault(tuple(a), []).append(b)
    for v, xs in byv.items():
        c.true(all(np.array_equal(x, xs[0]) for x in xs), f"copies of vertex {v} do not coincide after repair", "clusters joined")
    for fresh in (False, True):
        k2 = holder(np.array(comp.mesh.vectors)) if fresh else comp
        got = k2.stl_check(project_area=False, matching_lines=True)
        c.true(bool(got) == edges_ok(t), f"edge test after repair of a mesh with flaw {k} gave {got}", "repaired meshes checked")


def untouched(c):
    """Nothing close enough: nothing moves (up to the rounding of averaging identical copies)."""
    rng = c.rng
    t, text = solid(rng)
    d = rng.choice([1e-6, 1e-3, 1e-2])
    far = rng.random() < 0.6
    q = t.copy()
    if far:
        # some corners moved beyond the distance, each to a place of its own
        d = rng.choice([1e-3, 1e-2])
        for j in range(rng.randint(1, 3)):
            i, v = rng.randrange(len(t)), rng.randrange(3)
            q[i, v] = t[i, v] + np.array([rng.choice([-1, 1]) * (3 + 3 * j + rng.random()) * d for _ in range(3)])
    elif rng.random() < 0.6:
        # one corner moved just beyond the distance, along one coordinate
        d = rng.choice([1e-3, 1e-2])
        i, v, ax = rng.randrange(len(t)), rng.randrange(3), rng.randrange(3)
        q[i, v, ax] += rng.choice([-1, 1]) * rng.uniform(1.15, 1.95) * d
    c.note("untouched", text, d, far, rng.random())
    comp = holder(q)
    q = np.array(comp.mesh.vectors, dtype=float)
    if d == 1e-6 and rng.random() < 0.5:
        comp.stl_repair()
    else:
        comp.stl_repair(small_distance=d)
    r = np.array(comp.mesh.vectors, dtype=float)
    cnt = int(max(Counter(map(tuple, q.reshape(-1, 3).tolist())).values()))
    c.close(r, q, 1, ulps(q, cnt), "vertex of a clean mesh moved", "vertices after repair")
    c.true(edges_ok(np.array(comp.mesh.vectors)) == edges_ok(q), "repair changed which edges match", "untouched meshes")


def bodies(c):
    """Real bodies with scatter: no vertex leaves, and what was closed up to scatter is closed."""
    rng = c.rng
    p = parts.cube(rng, 1.0, res=rng.choice([1, 2]))
    c.note("bodies", p.desc)
    comp = p.build()
    comp.generate_patches()
    t = np.array(comp.mesh.vectors, dtype=float)
    d = 1e-3
    idx, _ = meshlib.weld(t, 1e-5)
    comp = holder(scatter(c, t, d, 0.5 * d))
    q = np.array(comp.mesh.vectors, dtype=float)
    comp.stl_repair(small_distance=d)
    r = np.array(comp.mesh.vectors)
    c.close(r.astype(float), q, 1, d * 1.01, "vertex moved by more than the distance", "vertices after repair")
    flat = r.reshape(-1, 3)
    for v in np.unique(idx):
        xs = flat[idx.reshape(-1) == v]
        c.true(np.all(xs == xs[0]), "copies of a vertex do not coincide after repair", "clusters joined")
    c.true(bool(comp.stl_check(project_area=False)), "edge test after repair", "repaired meshes checked")


def sheet(c):
    """Open sheets whose vertices have few copies, each vertex with coordinates of its own, shared by one to three triangles."""
    rng = c.rng
    d = rng.choice([1e-2, 1e-3, 1e-4])
    n = rng.randint(4, 8)
    V = np.array([rng.sample(range(-20, 20), n) for _ in range(3)], dtype=float).T * rng.choice([0.25, 1.0])
    tris = [rng.sample(range(n), 3) for _ in range(rng.randint(2, 5))]
    t = V[np.array(tris)]
    keep = rng.choice([0.0, 0.5])
    q = scatter(c, t, d, rng.choice([0.05, 0.4, 0.9]) * d)
    m = c.np.random(t.shape[:2]) < keep
    q[m] = t[m]
    c.note("sheet", V.tolist(), tris, d, keep)
    comp = holder(q)
    q = np.array(comp.mesh.vectors, dtype=float)
    comp.stl_repair(small_distance=d)
    r = np.array(comp.mesh.vectors)
    c.close(r.astype(float), q, 1, d + ulps(q, len(tris)), "vertex moved by more than the distance", "vertices after repair")
    byv = {}
    for a, b in zip(np.array(tris).reshape(-1), r.reshape(-1, 3)):
        byv.setdefault(a, []).append(b)
    for v, xs in byv.items():
        c.true(all(np.array_equal(x, xs[0]) for x in xs), f"copies of vertex {V[v]} do not coincide after repair", "clusters joined")


def chained(c):
    """A pair of near vertices whose x values fall into different groups because of a third, distant vertex."""
    rng = c.rng
    d = 1e-2
    a = rng.uniform(0.1, 0.8)
    t = np.array([[[a * d, 5, 5], [3, 6, 5], [3, 5, 7]], [[1.2 * d, 5, 5], [4, 9, 1], [4, 8, 2]], [[0, -5, -5], [7, -6, -5], [7, -5, -8]]], dtype=float)
    c.note("chained", a)
    comp = holder(t)
    comp.stl_repair(small_distance=d)
    r = np.array(comp.mesh.vectors)
    if not np.array_equal(r[0, 0], r[1, 0]):
        c.known("repair-anchored-groups", f"vertices {t[0, 0].tolist()} and {t[1, 0].tolist()} not joined by a repair distance of {d}")
    c.seen("chained pairs")


KINDS = [("check", check, 300, 3000), ("real", real, 60, 600), ("repair", repair, 150, 1500), ("untouched", untouched, 90, 900),
         ("bodies", bodies, 18, 180), ("sheet", sheet, 120, 1200), ("chained", chained, 6, 12)]
