"""Meshes as (n, 3, 3) float64 arrays: expected meshes, closedness, orientation, mass properties."""
import numpy as np
from scipy.spatial import cKDTree

EPS32 = float(np.finfo(np.float32).eps)


def tris(mesh):
    """Triangles of a numpy-stl mesh as float64."""
    return np.array(mesh.vectors, dtype=np.float64)


def grid(f, rs, ss):
    return np.array([[f(float(r), float(s)) for s in ss] for r in rs])


def cells(g):
    """Four triangles round the mean of each cell's corners, cell by cell (r slow, s fast)."""
    a, b, c, d = g[:-1, :-1], g[1:, :-1], g[1:, 1:], g[:-1, 1:]
    m = 0.25 * (a + b + c + d)
    t = np.stack([np.stack(x, axis=2) for x in ((a, b, m), (b, c, m), (c, d, m), (d, a, m))], axis=2)
    return t.reshape(-1, 3, 3)


def sampled(f, nr, ns, rs=None, ss=None):
    rs = np.linspace(0, 1, nr + 1) if rs is None else rs
    ss = np.linspace(0, 1, ns + 1) if ss is None else ss
    return cells(grid(f, rs, ss))


def tol(t, extra=0.0):
    return 4 * EPS32 * float(np.max(np.abs(t), initial=1e-30)) + extra


def weld(t, dist):
    """Vertex index (n, 3) after joining vertices closer than dist (transitively)."""
    p = t.reshape(-1, 3)
    q, inv = np.unique(p, axis=0, return_inverse=True)
    inv = inv.reshape(-1)
    pairs = cKDTree(q).query_pairs(dist, output_type="ndarray")
    lab = np.arange(len(q))
    if len(pairs):
        from scipy.sparse import coo_matrix
        from scipy.sparse.csgraph import connected_components

        m = coo_matrix((np.ones(len(pairs)), (pairs[:, 0], pairs[:, 1])), shape=(len(q), len(q)))
        lab = connected_components(m, directed=False)[1]
    return lab[inv].reshape(-1, 3), q


def edge_balance(idx):
    """(open, misdirected): edges used by one side only, and edges used twice in one direction.

    Triangles that collapsed to an edge or a point are dropped first."""
    k = (idx[:, 0] != idx[:, 1]) & (idx[:, 1] != idx[:, 2]) & (idx[:, 2] != idx[:, 0])
    idx = idx[k]
    e = np.concatenate([idx[:, [0, 1]], idx[:, [1, 2]], idx[:, [2, 0]]])
    from collections import Counter

    c = Counter(map(tuple, e.tolist()))
    opened = [x for x in c if c[x] != c.get((x[1], x[0]), 0)]
    multi = [x for x in c if c[x] > 1]
    return opened, multi


def boundary(t, dist):
    """Open border of a mesh as directed segments (n, 2, 3), after cancelling straight seams
    that the two sides divide differently (their segments cover the same line)."""
    idx, _ = weld(t, dist)
    k = (idx[:, 0] != idx[:, 1]) & (idx[:, 1] != idx[:, 2]) & (idx[:, 2] != idx[:, 0])
    idx = idx[k]
    from collections import Counter

    c = Counter(map(tuple, np.concatenate([idx[:, [0, 1]], idx[:, [1, 2]], idx[:, [2, 0]]]).tolist()))
    p = t.reshape(-1, 3)
    flat = weld(t, dist)[0].reshape(-1)
    pos = {}
    for i, v in enumerate(flat):
        pos.setdefault(int(v), p[i])
    left = []
    for (a, b), n in c.items():
        left += [(a, b)] * max(0, n - c.get((b, a), 0))
    vs = sorted({v for e in left for v in e})
    P = np.array([pos[v] for v in vs]).reshape(-1, 3)
    cut = Counter()
    for a, b in left:
        A, B = pos[a], pos[b]
        d = B - A
        L = np.linalg.norm(d)
        u = (P - A) @ d / L ** 2
        off = np.linalg.norm(P - A - u[:, None] * d, axis=1)
        on = [(u[i], vs[i]) for i in np.nonzero((off < dist) & (u > 0) & (u < 1))[0] if vs[i] not in (a, b)]
        chain = [a] + [v for _, v in sorted(on)] + [b]
        for x, y in zip(chain[:-1], chain[1:]):
            cut[(x, y)] += 1
    out = []
    for (a, b), n in cut.items():
        out += [(pos[a], pos[b])] * max(0, n - cut.get((b, a), 0))
    return np.array(out).reshape(-1, 2, 3)


def closed(t, dist):
    """None when watertight and consistently oriented, otherwise a description."""
    idx, _ = weld(t, dist)
    opened, multi = edge_balance(idx)
    if opened:
        p = t.reshape(-1, 3)
        flat = idx.reshape(-1)
        x = p[np.argmax(flat == opened[0][0])], p[np.argmax(flat == opened[0][1])]
        return f"{len(opened)} edges without an opposite partner, e.g. {x[0].round(6).tolist()}-{x[1].round(6).tolist()}"
    if multi:
        return f"{len(multi)} edges used twice in the same direction"
    return None


def mass(t, rho=1.0):
    """Volume, mass, centroid, inertia about the centroid of the solid bounded by t (signed)."""
    o = t.reshape(-1, 3).mean(axis=0)
    a = t - o
    d = np.einsum("ij,ij->i", a[:, 0], np.cross(a[:, 1], a[:, 2]))
    V = d.sum() / 6
    S = a.sum(axis=1)
    first = (d[:, None] * S).sum(axis=0) / 24
    C = np.einsum("n,nij->ij", d, np.einsum("ni,nj->nij", S, S) + np.einsum("nki,nkj->nij", a, a)) / 120
    c = first / V if V else np.full(3, np.nan)
    C = C - V * np.outer(c, c)
    I = np.trace(C) * np.eye(3) - C
    return V, rho * V, c + o, rho * I


def area(t):
    return 0.5 * np.linalg.norm(np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]), axis=1).sum()
