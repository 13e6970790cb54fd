"""C08: offset, modifier and curvature functions, leading- and trailing-edge surfaces."""
import numpy as np

from hypervehicle.geometry.vector import Vector3
from hypervehicle.geometry.path import Line, Bezier
from hypervehicle.geometry import geometry as G
from rv import gen, ref, parts
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random user functions, surfaces, directions and chains, and random edge lines, widths, flap lengths "
            "and angles; a case is distinct by geometry and functions",
    "required": {"displaced points": 3000, "user function arguments": 1000, "curved points": 2000,
                 "leading edge points": 1500, "trailing edge points": 1000},
    "assumptions": ["edge lines advance in x-y (the section plane is vertical)",
                    "positions round the nose ellipse are checked to the sampling step of the arc-length table"],
}


def offset(c):
    rng = c.rng
    s = gen.scale(rng)
    u = gen.surface(rng, s, rng.choice([0, 1]))
    fr, ff, d = gen.xyfun(rng, s)
    c.note(u.desc[:1500], d)
    calls = []

    def rec(x, y, z):
        calls.append((float(x), float(y), float(z)))
        return fr(x, y, z)

    p = G.OffsetPatchFunction(u.real, rec)
    sz = u.size * 20 * max(1, u.size / s)
    for r, t in [(0, 0), (1, 1)] + [(gen.tvalue(rng), gen.tvalue(rng)) for _ in range(6)]:
        calls.clear()
        b = arr(u.real(r, t))
        c.close(arr(p(r, t)), b + ff(*b), sz, 1e-10, f"offset point ({r}, {t})", "displaced points")
        c.true(len(calls) > 0, "the user's function was not called", "user function arguments")
        for k in calls:
            c.close(k, b, u.size, 1e-10, "coordinates handed to the user's function", "user function arguments")


def curve(c):
    rng = c.rng
    s = gen.scale(rng)
    u = gen.surface(rng, s, rng.choice([0, 0, 1]))
    p, f, d = u.real, u.f, []
    sz = u.size
    for _ in range(rng.randint(1, 3)):
        fun, dash, t = gen.curvature(rng, s)
        k = rng.choice("xy")
        p, f = G.CurvedPatch(p, k, fun, dash), ref.curved(f, k, fun, dash)
        d.append((k, t))
        sz = sz * 4 * max(1, sz / s)
    c.note(u.desc[:1500], d)
    for _ in range(8):
        r, t = gen.tvalue(rng), gen.tvalue(rng)
        c.close(arr(p(r, t)), f(float(r), float(t)), sz, 1e-10, f"curved point ({r}, {t})", "curved points")


def flat_plane(c):
    """Points of the plane z=0 land on the user's curve; heights stand normal to it."""
    rng = c.rng
    s = rng.choice([1.0, 5.0])
    fun, dash, d = gen.curvature(rng, s)
    k = rng.choice("xy")
    h = rng.uniform(-0.3, 0.3) * s
    x, y = rng.uniform(-1, 1) * s, rng.uniform(-1, 1) * s
    c.note(d, k, h, x, y)
    from hypervehicle.geometry.surface import CoonsPatch

    def at(z):
        q = [Vector3(x + a, y + b, z) for a, b in ((0, 0), (s, 0), (s, s), (0, s))]
        return arr(G.CurvedPatch(CoonsPatch(p00=q[0], p10=q[1], p11=q[2], p01=q[3]), k, fun, dash)(0, 0))

    foot, top = at(0.0), at(h)
    c.close(foot, [x, y, fun(x, y)], 10 * s, 1e-12, "height of the user's curve", "curved points")
    m = dash(x, y)
    tang = np.array([1, 0, m]) if k == "x" else np.array([0, 1, m])
    c.close((top - foot) @ tang, 0.0, 10 * s, 1e-11, "height not normal to the curve", "curved points")
    c.close(np.linalg.norm(top - foot), abs(h), 10 * s, 1e-11, "height above the curve", "curved points")
    c.close((top - foot)[2] * np.sign(h) >= 0, True, 1, 0, "height reversed", "curved points")


def component(c):
    """Modifier and curvatures through a vehicle, over every component type."""
    rng = c.rng
    s = rng.choice([1.0, 3.0])
    p = parts.part(rng, s) if rng.random() < 0.85 else parts.composite(rng, s)
    o = parts.Options(rng, s, only=("modifier", "curvatures"), p=0.75)
    c.note(p.desc, o.desc)
    want = parts.predicted(p, o)
    comp = p.build()
    v = parts.vehicle()
    v.add_component(comp, **o.kwargs())
    v.generate()
    parts.compare(c, comp, want, "component", "displaced points", rng, n=2 if p.expensive else 4, size=20 * s)


def edge_line(rng, s):
    """A planform edge line with a well-defined direction, and its reference."""
    if rng.random() < 0.4:
        a = np.array([rng.uniform(-1, 1), rng.uniform(0.5, 1), 0]) * s
        b = a + np.array([rng.uniform(0.5, 2), rng.uniform(-1, 0.2), 0]) * s
        return Line(Vector3(*a), Vector3(*b)), ref.line(a, b), [a, b]
    x = np.cumsum([rng.uniform(0.3, 1) for _ in range(4)]) * s
    P = [np.array([x[i], rng.uniform(-1, 1) * s, 0]) for i in range(4)]
    return Bezier([Vector3(*q) for q in P]), ref.bezier(P), P


def thickness(rng, s):
    a, b, k = rng.uniform(0.05, 0.3) * s, rng.uniform(0.05, 0.3) * s, rng.uniform(0, 0.02)
    z0 = rng.choice([0, rng.uniform(-.5, .5) * s])

    def top(x, y, z=0):
        return Vector3(0, 0, z0 - a - k * (x / s) ** 2 * s)

    def bot(x, y, z=0):
        return Vector3(0, 0, z0 + b + k * (x / s) ** 2 * s)

    return top, bot, f"thickness {a:.4f} {b:.4f} {k:.4f} {z0:.4f}"


def on_ellipse(c, p, centre, a, b, direction, r, side, s):
    """p is on the quarter ellipse standing on the edge line, at share r of its length."""
    d = p - centre
    u, w = d @ direction, d @ np.array([-direction[1], direction[0], 0])
    c.close(w, 0.0, a + b, 2e-3, "section not perpendicular to the edge line", "leading edge points")
    u = np.hypot(d[0], d[1]) * np.sign(u)
    z = d[2]
    c.close((u / a) ** 2 + (z / b) ** 2, 1.0, 1, 1e-6, f"not on the nose ellipse (u={u}, z={z}, a={a}, b={b})", "leading edge points")
    c.true(u >= -1e-6 * (a + b) and (z <= 1e-9 * s if side == "top" else z >= -1e-9 * s), f"wrong quarter (u={u}, z={z})", "leading edge points")
    th = np.linspace(-np.pi / 2, 0, 1001) if side == "top" else np.linspace(0, np.pi / 2, 1001)
    k = a * b / np.sqrt((b * np.cos(th)) ** 2 + (a * np.sin(th)) ** 2)
    P = np.array([k * np.cos(th), k * np.sin(th)])
    L = np.concatenate([[0], np.cumsum(np.hypot(*np.diff(P, axis=1)))])
    got = np.interp(np.arctan2(z, u), th, L) / L[-1]
    step = np.max(np.diff(L)) / L[-1]
    c.close(got, r, 1, 3 * step, "share of the nose length", "leading edge points")


def near(rng):
    """A parameter close to the start of the line, down to a few parts in a million."""
    return 10 ** -rng.uniform(2, 5.5)


def leading(c):
    rng = c.rng
    s = rng.choice([1.0, 5.0, 0.2])
    line, f, P = edge_line(rng, s)
    top, bot, td = thickness(rng, s)
    w = [rng.uniform(0.02, 0.3) * s for _ in range(2)]
    wf = lambda t: w[0] + (w[1] - w[0]) * t
    t0, t1 = sorted([rng.choice([0.0, rng.uniform(0, 0.4), near(rng)]), rng.choice([1.0, rng.uniform(0.5, 1), 1 - near(rng)])])
    side = rng.choice(["top", "bot"])
    tf = top if side == "top" else bot
    up, lo = G.OffsetPathFunction(line, top), G.OffsetPathFunction(line, bot)
    mean = G.GeometricMeanPathFunction(up, lo)
    fm = lambda t: f(t) + np.array([0, 0, 0.5 * (top(*f(t)[:2]).z + bot(*f(t)[:2]).z)])
    use_mean = rng.random() < 0.6
    c.note(np.round(P, 4).tolist(), td, w, t0, t1, side, use_mean)
    if use_mean:
        p = G.MeanLeadingEdgePatchFunction(mean, up if side == "top" else lo, wf, t0, t1, side)
        base = fm
        half = lambda t: abs(0.5 * (top(*f(t)[:2]).z - bot(*f(t)[:2]).z))
    else:
        p = G.LeadingEdgePatchFunction(line, tf, wf, t0, t1, side)
        base = f
        half = lambda t: abs(tf(*f(t)[:2]).z)
    for tr in [0.0, 1.0, near(rng), 1 - near(rng)] + [rng.random() for _ in range(2)]:
        t = t1 - tr * (t1 - t0)
        if t == 0:
            d = np.array([0, 1.0, 0])
        elif t == 1:
            d = np.array([1.0, 0, 0])
        else:
            h = 1e-5
            g = f(min(t + h, 1)) - f(max(t - h, 0))
            d = np.array([-g[1], g[0], 0]) / np.hypot(g[0], g[1])
        if half(t) < 1e-3 * s:
            continue
        for r in [0.0, 1.0, rng.random()]:
            on_ellipse(c, arr(p(tr, r)), base(t), wf(t), half(t), d, r, side, s)
        # it joins the surface edge at the shoulder, and has the full width at the nose
        sh, no = (0.0, 1.0) if side == "top" else (1.0, 0.0)
        z = np.array([0, 0, -half(t) if side == "top" else half(t)])
        c.close(arr(p(tr, sh)), base(t) + z, 5 * s, 1e-8, f"shoulder at {tr}", "leading edge points")
        c.close(np.linalg.norm((arr(p(tr, no)) - base(t))[:2]), wf(t), 5 * s, 1e-8, f"width at the nose at {tr}", "leading edge points")
        if use_mean:
            e = f(t) + np.array([0, 0, tf(*f(t)[:2]).z])
            c.close(arr(p(tr, sh)), e, 5 * s, 1e-8, f"edge line at {tr}", "leading edge points")


def flat(c):
    rng = c.rng
    s = rng.choice([1.0, 5.0, 0.2])
    line, f, P = edge_line(rng, s)
    top, bot, td = thickness(rng, s)
    up, lo = G.OffsetPathFunction(line, top), G.OffsetPathFunction(line, bot)
    t0, t1 = rng.uniform(0, 0.4), rng.uniform(0.5, 1)
    c.note(np.round(P, 4).tolist(), td, t0, t1)
    p = G.FlatLeadingEdgePatchFunction(up, lo, t0, t1)
    for tr, r in [(0, 0), (1, 1)] + [(rng.random(), gen.tvalue(rng)) for _ in range(6)]:
        t = t1 - tr * (t1 - t0)
        x = f(t)
        z = (1 - r) * top(*x[:2]).z + r * bot(*x[:2]).z
        c.close(arr(p(tr, r)), [x[0], x[1], x[2] + z], 5 * s, 1e-10, f"flat leading edge ({tr}, {r})", "leading edge points")


def trailing(c):
    rng = c.rng
    s = rng.choice([1.0, 5.0, 0.2])
    A0, B0 = [np.array([rng.uniform(-1, 1), rng.uniform(-1, 1), 0]) * s for _ in range(2)]
    top, bot, td = thickness(rng, s)
    L, an = rng.uniform(0.01, 1) * s, rng.choice([0, 0.3, -0.3, rng.uniform(-1.4, 1.4)])
    side = rng.choice(["top", "bot"])
    use_mean = rng.random() < 0.5
    c.note(A0.tolist(), B0.tolist(), td, L, an, side, use_mean)
    a, b = Vector3(*A0), Vector3(*B0)
    tt, tb = G.TrailingEdgePath(a, b, top), G.TrailingEdgePath(a, b, bot)
    own, tf = (tt, top) if side == "top" else (tb, bot)
    line = ref.line(A0, B0)
    edge = lambda t: line(t) + np.array([0, 0, tf(*line(t)[:2]).z])
    if use_mean:
        p = G.MeanTrailingEdgePatch(G.GeometricMeanPathFunction(tt, tb), own, L, an, side)
        tip = [q + np.array([-L * np.cos(an), 0, 0.5 * (top(*q[:2]).z + bot(*q[:2]).z) + L * np.sin(an)]) for q in (A0, B0)]
    else:
        p = G.TrailingEdgePatch(a, b, own, L, an, side)
        tip = [q + np.array([-L, 0, L * np.sin(an)]) for q in (A0, B0)]
    flap = ref.line(*tip)
    if use_mean:
        m = [q + np.array([0, 0, 0.5 * (top(*q[:2]).z + bot(*q[:2]).z)]) for q in (A0, B0)]
        sd = 0 if side == "top" else 1
        for i in (0, 1):
            c.close(np.linalg.norm(arr(p(i, sd)) - m[i]), L, 5 * s, 1e-10, "flap length", "trailing edge points")
    no, so = (edge, flap) if side == "top" else (flap, edge)
    f = ref.coons(no, ref.line(so(1), no(1)), so, ref.line(so(0), no(0)))
    for r, t in [(0, 0), (1, 0), (1, 1), (0, 1)] + [(gen.tvalue(rng), gen.tvalue(rng)) for _ in range(6)]:
        c.close(arr(p(r, t)), f(float(r), float(t)), 5 * s, 1e-10, f"flap point ({r}, {t})", "trailing edge points")


KINDS = [("offset", offset, 300, 4000), ("curve", curve, 350, 4000), ("flat_plane", flat_plane, 150, 1500),
         ("component", component, 90, 900), ("leading", leading, 120, 1200), ("flat", flat, 120, 1200),
         ("trailing", trailing, 200, 2000)]
