"""C05: transfinite patches."""
import numpy as np

from hypervehicle.geometry.vector import Vector3
from hypervehicle.geometry.path import Line, Bezier, Polyline
from hypervehicle.geometry.surface import CoonsPatch
from rv import gen, ref
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random four-sided loops of curves of every type, corner sets, open corners and chains of displaced "
            "copies; a case is distinct by its edges and displacements",
    "required": {"edge points": 2000, "interior points": 2000, "open corners refused": 200, "copies watched": 500},
    "assumptions": ["an open corner is one whose gap exceeds a thirtieth of its distance from the origin and a thousandth of the unit"],
}


def edges(c):
    rng = c.rng
    s = gen.scale(rng)
    n = rng.choice([4, 4, 4, 3, 2])
    pts = [gen.point(rng, s) for _ in range(4)]
    if n == 3:  # one collapsed side, as used at noses
        pts[rng.choice([1, 3])] = pts[0]
    c00, c10, c11, c01 = pts
    k = ("line", "bezier", "arc", "spline", "sub", "rev", "poly")
    e = {"south": gen.between(rng, c00, c10, s, k), "north": gen.between(rng, c01, c11, s, k),
         "west": gen.between(rng, c00, c01, s, k), "east": gen.between(rng, c10, c11, s, k)}
    off = gen.point(rng, s) if rng.random() < 0.2 else None
    c.note({n: v.desc for n, v in e.items()}, off)
    kw = {n: v.real for n, v in e.items()}
    if off is not None:
        kw["offset"] = off
    p = CoonsPatch(**kw)
    d = arr(off) if off is not None else 0.0
    sz = 4 * max(v.size for v in e.values()) + 0.01
    f = ref.coons(e["north"].f, e["east"].f, e["south"].f, e["west"].f)
    for t in gen.tvalues(rng, 4):
        for side, (r, q) in {"south": (t, 0), "north": (t, 1), "west": (0, t), "east": (1, t)}.items():
            c.close(arr(p(r, q)), e[side].f(float(t)) + d, sz, 1e-8, f"{side} side at {t}", "edge points")
    for _ in range(8):
        r, q = gen.tvalue(rng), gen.tvalue(rng)
        c.close(arr(p(r, q)), f(float(r), float(q)) + d, sz, 1e-8, f"point ({r}, {q})", "interior points")


def corners(c):
    rng = c.rng
    s = gen.scale(rng)
    v = [gen.point(rng, s) for _ in range(4)]
    X = [gen.tup(p) for p in v]
    c.note(X)
    p = CoonsPatch(p00=v[0], p10=v[1], p11=v[2], p01=v[3])
    f = ref.bilinear(*X)
    sz = gen.size_of(*X)
    for _ in range(8):
        r, q = gen.tvalue(rng), gen.tvalue(rng)
        c.close(arr(p(r, q)), f(float(r), float(q)), sz, 1e-11, f"bilinear point ({r}, {q})", "interior points")
    for (r, q), x in zip([(0, 0), (1, 0), (1, 1), (0, 1)], X):
        c.close(arr(p(r, q)), np.array(x), sz, 1e-12, f"corner ({r}, {q})", "edge points")
    before = arr(p(0.3, 0.6))
    for w in v:
        w *= 2.0
        w /= 7.0
    c.close(arr(p(0.3, 0.6)), before, 1, 0, "patch moved with the caller's corners", "copies watched")
    for w, x in zip(v, X):
        c.close(arr(w), np.array(x) * 2 / 7, sz, 1e-14, "corner changed by the patch", "copies watched")


def opened(c):
    """One end of one edge is moved away from its corner."""
    rng = c.rng
    s = rng.choice([1.0, 10.0, 0.1])
    P = [np.array([rng.uniform(-1, 1) * s for _ in range(3)]) for _ in range(4)]
    side, end, ax = rng.choice(["north", "east", "south", "west"]), rng.randrange(2), rng.randrange(3)
    loop = {"south": (0, 1), "north": (3, 2), "west": (0, 3), "east": (1, 2)}
    if rng.random() < 0.3:  # a corner at the origin
        P[loop[side][end]] *= rng.choice([0.0, 0.01])
    gap = rng.choice([-1, 1]) * s * rng.choice([0.11, 0.3, 2.0])
    if rng.random() < 0.5:
        gap = rng.choice([-1, 1]) * max(0.034 * np.linalg.norm(P[loop[side][end]]), 1e-3)
    closed, opened_ = {}, {}
    for k, (a, b) in loop.items():
        mid = np.array([rng.uniform(-1, 1) * s for _ in range(3)])
        mk = rng.choice(["line", "bezier", "poly"])
        for d, move in ((closed, False), (opened_, True)):
            q = [P[a].copy(), P[b].copy()]
            if move and k == side:
                q[end][ax] += gap
            v = [Vector3(*q[0]), Vector3(*mid), Vector3(*q[1])]
            d[k] = {"line": lambda: Line(v[0], v[2]), "bezier": lambda: Bezier(v),
                    "poly": lambda: Polyline([Line(v[0], v[1]), Line(v[1], v[2])])}[mk]()
    c.note([p.round(3).tolist() for p in P], side, end, ax, gap)
    CoonsPatch(**closed)  # accepted
    c.raises(lambda: CoonsPatch(**opened_), f"gap of {gap} at end {end} of {side}")
    c.seen("open corners refused")


def incomplete(c):
    rng = c.rng
    v = [Vector3(*[rng.uniform(-1, 1) for _ in range(3)]) for _ in range(4)]
    kw = {"p00": v[0], "p10": v[1], "p11": v[2], "p01": v[3]}
    drop = rng.choice(list(kw))
    c.note(drop, [arr(x).round(3).tolist() for x in v])
    CoonsPatch(**kw)
    del kw[drop]
    c.raises(lambda: CoonsPatch(**kw), f"corner {drop} missing")


def chain(c):
    """Displaced copies: a tree of copies, all watched after every step."""
    rng = c.rng
    s = 1.0
    b = gen.coons(rng, s) if rng.random() < 0.7 else None
    if b is None:
        v = [gen.point(rng, s) for _ in range(4)]
        b = gen.RS(CoonsPatch(p00=v[0], p10=v[1], p11=v[2], p01=v[3]), ref.bilinear(*[gen.tup(x) for x in v]), "bil", 4)
    nodes = [(b.real, np.zeros(3))]
    q = [(rng.random(), rng.random()) for _ in range(3)]
    steps = []
    for _ in range(6):
        i = rng.randrange(len(nodes))
        d = gen.point(rng, s)
        D = arr(d)
        sign = rng.choice([1, -1])
        p, o = nodes[i]
        if rng.random() < 0.3:
            new = p
            if sign > 0:
                new += d
            else:
                new -= d
        else:
            new = p + d if sign > 0 else p - d
        c.true(new is not p, "displacement returned the same patch", "copies watched")
        nodes.append((new, o + sign * D))
        steps.append((i, sign, D.round(3).tolist()))
        c.close(arr(d), D, 1, 0, "displacement changed", "copies watched")
        if rng.random() < 0.5:
            d *= 10.0
        for n, (p, o) in enumerate(nodes):
            for r, t in q:
                c.close(arr(p(r, t)), b.f(r, t) + o, b.size + 10, 1e-8, f"copy {n} after step {len(steps)}", "copies watched")
    c.note(b.desc[:800], steps)


def isolated(c):
    """Later changes to the curves used to build a patch do not move it."""
    rng = c.rng
    P = [np.array([rng.uniform(-1, 1) for _ in range(3)]) for _ in range(4)]
    m = [np.array([rng.uniform(-1, 1) for _ in range(3)]) for _ in range(4)]
    loop = [(3, 2), (1, 2), (0, 1), (0, 3)]  # N E S W
    paths = [Polyline([Line(Vector3(*P[a]), Vector3(*m[i])), Line(Vector3(*m[i]), Vector3(*P[b]))])
             if i % 2 else Line(Vector3(*P[a]), Vector3(*P[b])) for i, (a, b) in enumerate(loop)]
    c.note([p.round(3).tolist() for p in P])
    p = CoonsPatch(north=paths[0], east=paths[1], south=paths[2], west=paths[3])
    q = [(rng.random(), rng.random()) for _ in range(5)] + [(0, 0.5), (0.5, 1), (1, 1)]
    before = [arr(p(*x)) for x in q]
    own = [[arr(g(t)) for t in (0, 0.3, 1)] for g in paths]
    for g, o in zip(paths, own):
        for t, x in zip((0, 0.3, 1), o):
            c.close(arr(g(t)), x, 1, 0, "edge changed by the patch", "copies watched")
    for g in paths:
        for h in getattr(g, "segments", [g]):
            h.p0 *= 3.0
            h.p1 *= -2.0
    for x, b in zip(q, before):
        c.close(arr(p(*x)), b, 1, 0, "patch moved with the caller's curves", "copies watched")


KINDS = [("edges", edges, 700, 7000), ("corners", corners, 300, 3000), ("opened", opened, 700, 6000),
         ("incomplete", incomplete, 40, 200), ("chain", chain, 200, 2000), ("isolated", isolated, 120, 1200)]
