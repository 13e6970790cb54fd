"""C03: reported lengths and arc-length parameterisation."""
import numpy as np

from hypervehicle.geometry.vector import Vector3
from hypervehicle.geometry.path import Line, Bezier, Spline, Arc, Polyline, ArcLengthParameterizedPath
from hypervehicle.geometry import geometry as G
from rv import gen, ref
from rv.core import arr, Skip

SPEC = {
    "level": "exploration",
    "rule": "seeded random curves of every type, sub-ranges in both directions and compositions; lengths bracketed "
            "between the chord sum at the documented 20 samples and the converged length of the reference curve; a "
            "case is distinct by its curve",
    "required": {"lengths bracketed": 500, "exact lengths": 300, "arc-length points": 2000, "rigid motions": 100},
    "assumptions": ["curves without jumps"],
}


def chords(f, n, a=0.0, b=1.0):
    p = np.array([f(a + (b - a) * i / n) for i in range(n + 1)])
    return np.linalg.norm(np.diff(p, axis=0), axis=1).sum()


def sampled(c, f, got, n, what, size, breaks=()):
    lo = chords(f, n)
    hi = ref.curve_length(f, 400, breaks)
    c.seen("lengths bracketed")
    if not (lo - 1e-8 * size <= got <= hi * (1 + 1e-6) + 1e-8 * size):
        c.fail(f"{what}: reported {got}, sampled {lo}, true {hi}")
    return hi


def exact(c):
    rng = c.rng
    s = gen.scale(rng)
    k = rng.choice(["line", "arc", "rline", "rarc", "poly", "subline", "subarc", "subfull", "alp"])
    if k in ("line", "rline", "subline"):
        p = gen.line(rng, s)
    elif k in ("arc", "rarc", "subarc"):
        p = gen.arc(rng, s)
    elif k == "poly":
        P = [gen.point(rng, s) for _ in range(gen.few(rng, 2, 6, 20))]
        closed = rng.random() < 0.4
        X = [np.array(gen.tup(q)) for q in P]
        L = sum(np.linalg.norm(b - a) for a, b in zip(X[:-1], X[1:]))
        if closed:
            L += np.linalg.norm(X[0] - X[-1])
        segs = [Line(a, b) for a, b in zip(P[:-1], P[1:])]
        again = rng.random() < 0.4 and not closed
        if again:  # there, back and there again along the same segment objects
            X = X + X[::-1][1:] + X[1:]
            L *= 3
            segs = segs + [Line(b, a) for a, b in zip(P[:-1], P[1:])][::-1] + segs
        c.note(k, [x.tolist() for x in X], closed, again)
        got = Polyline(segs, closed=closed).length()
        c.close(got, L, gen.size_of(*X), 1e-9, "polyline length", "exact lengths")
        return
    else:
        p = gen.arc(rng, s) if rng.random() < 0.5 else gen.line(rng, s)
    c.note(k, p.desc)
    if k in ("line", "arc"):
        c.close(p.real.length(), p.length, p.size, 1e-9, "length", "exact lengths")
    elif k in ("rline", "rarc"):
        c.close(G.ReversedPath(p.real).length(), p.length, p.size, 1e-9, "reversed length", "exact lengths")
    elif k == "subfull":
        a, b = rng.choice([(0, 1), (1, 0), (0.0, 1.0), (1.0, 0.0)])
        c.close(G.SubRangedPath(p.real, a, b).length(), p.length, p.size, 1e-9, "full-range length", "exact lengths")
    elif k == "alp":
        c.close(ArcLengthParameterizedPath(p.real, rng.choice([5, 50])).length(), p.length, p.size, 1e-9,
                "arc-length path length", "exact lengths")
    else:
        a, b = rng.random(), rng.random()
        got = G.SubRangedPath(p.real, a, b).length()
        want = p.length * abs(b - a)
        if k == "subline":
            c.close(got, want, p.size, 1e-9, "sub-range length", "exact lengths")
        else:
            th = want / (p.length / 1.0) if p.length else 0
            lo = chords(lambda t: p.f(a + (b - a) * t), 20)
            c.true(lo - 1e-9 * p.size <= got <= want + 1e-9 * p.size,
                   f"sub-range arc length {got}, true {want}", "exact lengths")


def curves(c):
    rng = c.rng
    s = rng.choice([1.0, 10.0])
    k = rng.choice(["bezier", "ellipse", "sub", "rev", "nested", "n", "polymix", "spline"])
    if k in ("bezier", "n"):
        p = gen.bezier(rng, s, n=gen.few(rng, 2, 6, 14))
    elif k == "ellipse":
        while True:
            p = gen.path(rng, s, 0)
            if p.desc.startswith(("Ellipse", "TE")):
                break
    elif k == "spline":
        p = gen.spline(rng, s)
    else:
        p = gen.between(rng, gen.point(rng, s), gen.point(rng, s), s, ("bezier", "arc", "line"))
    c.note(k, p.desc)
    if k == "n":
        n = rng.choice([1, 2, 7, 20, 50, 200])
        c.note(n)
        sampled(c, p.f, p.real.length(n), n, f"length with {n} samples", p.size)
        c.close(p.real.length(n=n), chords(p.f, n), p.size, 1e-9, "documented sampling", "lengths bracketed")
    elif k in ("bezier", "ellipse"):
        sampled(c, p.f, p.real.length(), 20, "length", p.size)
    elif k == "spline":
        lo = sum(chords(ref.bezier(sg), 20) for sg in
                 ref.natural_spline([arr(q) for q in p.real.points]))
        hi = ref.curve_length(p.f, 400, p.breaks)
        got = p.real.length()
        c.true(lo - 1e-7 * p.size <= got <= hi * (1 + 1e-6) + 1e-7 * p.size, f"spline length {got} not in [{lo}, {hi}]", "lengths bracketed")
    elif k == "rev":
        r = G.ReversedPath(p.real)
        c.close(r.length(), p.real.length(), p.size, 1e-9, "reversal changed the length", "lengths bracketed")
    elif k == "polymix":
        parts, q0 = [], gen.point(rng, s)
        for _ in range(rng.randint(1, 4)):
            q1 = gen.point(rng, s)
            parts.append(gen.between(rng, q0, q1, s, ("bezier", "arc", "line", "sub", "rev")))
            q0 = q1
        c.note([g.desc for g in parts])
        lo = sum(chords(g.f, 20) for g in parts)
        hi = sum(ref.curve_length(g.f, 400) for g in parts)
        got = Polyline([g.real for g in parts]).length()
        sz = sum(g.size for g in parts)
        c.true(lo - 1e-8 * sz <= got <= hi * (1 + 1e-6) + 1e-8 * sz, f"composed length {got} not in [{lo}, {hi}]", "lengths bracketed")
    else:
        a, b = rng.random(), rng.random()
        q = G.SubRangedPath(p.real, a, b)
        f = lambda t: p.f(a + (b - a) * t)
        if k == "nested":
            a2, b2 = rng.random(), rng.random()
            q = G.SubRangedPath(q, a2, b2)
            g = f
            f = lambda t: g(a2 + (b2 - a2) * t)
            c.note(a2, b2)
        c.note(a, b)
        sampled(c, f, q.length(), 20, "sub-range length", p.size)


def arclength(c):
    rng = c.rng
    s = rng.choice([1.0, 0.01, 10.0])
    k = rng.choice(["bezier", "arc", "line", "ellipse", "spline", "poly"])
    if k == "ellipse":
        a, b = rng.choice([(1, 0.05), (0.02, 0.3), (rng.uniform(0.05, 1), rng.uniform(0.05, 1))])
        side = rng.choice(["top", "bot"])
        cen = gen.point(rng, s)
        p = gen.RP(G.ElipsePath(cen, b * s, a * s, side), ref.ellipse(gen.tup(cen), b * s, a * s, side),
                   f"Ellipse {gen.tup(cen)} {a} {b} {side}", gen.size_of(gen.tup(cen), [s]))
    elif k == "spline":
        p = gen.spline(rng, s, closed=False)
    elif k == "poly":
        p = gen.between(rng, gen.point(rng, s), gen.point(rng, s), s, ("poly",))
    else:
        p = gen.between(rng, gen.point(rng, s), gen.point(rng, s), s, (k,))
    n = rng.choice([None, 1, 10, 100, 1000, 137])
    c.note(k, n, p.desc)
    q = ArcLengthParameterizedPath(p.real) if n is None else ArcLengthParameterizedPath(p.real, n=n)
    n = n or 1000
    N = 20 * 137 * 10 if n == 137 else 4000
    pts = np.array([p.f(i / N) for i in range(N + 1)])
    seg = np.linalg.norm(np.diff(pts, axis=0), axis=1)
    S = np.concatenate([[0], np.cumsum(seg)])
    L = S[-1]
    smp = np.array([p.f(i / n) for i in range(n + 1)])
    piece = np.linalg.norm(np.diff(smp, axis=0), axis=1)
    Sn = np.interp(np.linspace(0, 1, n + 1), np.linspace(0, 1, N + 1), S)
    true_piece = np.diff(Sn).max() if n > 0 else L
    tol = (1.05 if n <= 10 else 0.6) * true_piece + 2 * (L - piece.sum()) + 1e-7 * p.size
    if L < 1e-9 * s:
        raise Skip()
    c.close(arr(q(0)), p.f(0.0), p.size, 1e-8, "start", "arc-length points")
    c.close(arr(q(1)), p.f(1.0), p.size, 1e-8, "end", "arc-length points")
    for t in [0.25, 0.5, 0.75] + [gen.tvalue(rng) for _ in range(6)]:
        u = np.interp(t * L, S, np.linspace(0, 1, N + 1))
        d = np.linalg.norm(arr(q(t)) - p.f(float(u)))
        c.true(d <= tol, f"point at fraction {t} of the length is off by {d} (tolerance {tol}, length {L})", "arc-length points")


def motion(c):
    """Length unchanged by moving or reversing the control points."""
    rng = c.rng
    k = rng.choice(["line", "bezier", "spline", "arc"])
    R = ref.rot("x", rng.uniform(-4, 4)) @ ref.rot("y", rng.uniform(-4, 4)) @ ref.rot("z", rng.uniform(-4, 4))
    d = np.array([rng.uniform(-3, 3) for _ in range(3)])
    mv = lambda x: Vector3(*(R @ np.array(x) + d))
    if k == "arc":
        e1, e2, _ = gen.frame(rng)
        cen, r, th = np.array([rng.uniform(-1, 1) for _ in range(3)]), rng.uniform(0.1, 2), rng.uniform(0.1, 3.0)
        a, b = cen + r * e1, cen + r * (np.cos(th) * e1 + np.sin(th) * e2)
        X = [a, b, cen]
        mk = lambda q: Arc(*q)
        rv = lambda q: Arc(q[1], q[0], q[2])
    else:
        X = [np.array([rng.uniform(-2, 2) for _ in range(3)]) for _ in range(2 if k == "line" else rng.randint(2, 6))]
        cls = {"line": lambda q: Line(*q), "bezier": Bezier, "spline": Spline}[k]
        mk, rv = cls, lambda q: cls(q[::-1])
    c.note(k, [x.round(4).tolist() for x in X], d.round(3).tolist())
    L = mk([Vector3(*x) for x in X]).length()
    c.close(mk([mv(x) for x in X]).length(), L, 10, 1e-7, "length after a rigid motion", "rigid motions")
    c.close(rv([Vector3(*x) for x in X]).length(), L, 10, 1e-7, "length of the reversed curve", "rigid motions")


KINDS = [("exact", exact, 900, 9000), ("curves", curves, 600, 6000), ("arclength", arclength, 240, 2400),
         ("motion", motion, 300, 3000)]
