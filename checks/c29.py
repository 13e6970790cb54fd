"""C29: definitions that cannot be built are refused, their valid neighbours are not."""
import numpy as np

from hypervehicle.components import Wing
from hypervehicle.geometry.geometry import (CubePatch, CurvedPatch, ElipsePath, MeanTrailingEdgePatch, SpherePatch, SubRangedPath,
                                            SweptPatch, TrailingEdgePatch)
from hypervehicle.geometry.path import Arc, ArcLengthParameterizedPath, Bezier, Line
from hypervehicle.geometry.surface import CoonsPatch
from hypervehicle.geometry.vector import Vector3
from rv import gen, parts
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random definitions in pairs, one valid and one made unusable in a single respect; a case is distinct by "
            "its numbers and by what was made unusable",
    "required": {"refusals observed": 400, "valid neighbours": 400, "operands unchanged": 800},
    "assumptions": ["an error may be raised when the object is made or when it is first used",
                    "arcs to be refused differ in radius by at least a hundredth, or lie exactly on a line with their centre"],
}

ODD = [None, "text", [1.0, 2.0, 3.0], (0, 0, 0), {"x": 1.0}, object()]
NOT_NUMBERS = ["text", None, {"x": 1.0}, object()]


def vec(rng, s=1.0):
    return Vector3(*[rng.uniform(-2, 2) * s for _ in range(3)])


def pair(c, good, bad, what):
    """good() must succeed before and after bad() was refused, with the same points."""
    a = good()
    c.raises(bad, what)
    b = good()
    c.close(np.array(b), np.array(a), 1, 0, f"valid definition after the refusal of {what}", "valid neighbours")


def unchanged(c, vs, was, what):
    for v, w in zip(vs, was):
        c.close(arr(v), w, 1, 0, f"operand after the refusal of {what}", "operands unchanged")


def operands(c):
    """Vectors and displaced objects with something that is not a vector."""
    rng = c.rng
    a, b = vec(rng), vec(rng)
    was = [arr(a), arr(b)]
    op = rng.choice(["add", "sub", "dot", "imul", "idiv", "line", "patch+", "patch-", "vector"])
    odd = rng.choice(NOT_NUMBERS[:1] + NOT_NUMBERS[2:] if op == "vector" else NOT_NUMBERS if op in ("imul", "idiv") else ODD + [1.5])
    c.note(op, repr(odd)[:12], was)
    line = Line(a, b)
    q = [a, b, vec(rng), vec(rng)]
    patch = CoonsPatch(p00=q[0], p10=q[1], p11=q[2], p01=q[3])

    def imul(x):
        v = Vector3(a)
        v *= x
        return arr(v)

    def idiv(x):
        v = Vector3(a)
        v /= x
        return arr(v)

    fn = {"add": lambda x: arr(a + x), "sub": lambda x: arr(a - x), "dot": lambda x: float(a.dot(x)),
          "imul": imul, "idiv": idiv, "line": lambda x: arr((line + x)(0.3)), "patch+": lambda x: arr((patch + x)(0.3, 0.4)),
          "patch-": lambda x: arr((patch - x)(0.3, 0.4)), "vector": lambda x: arr(Vector3(x))}[op]
    fine = 2.0 if op in ("imul", "idiv", "vector") else b
    p = [arr(line(0.7)), arr(patch(0.2, 0.9))]
    pair(c, lambda: fn(fine), lambda: fn(odd), f"{op} with {odd!r}")
    unchanged(c, [a, b], was, op)
    c.close(np.array([arr(line(0.7)), arr(patch(0.2, 0.9))]), np.array(p), 1, 0, "displaced object after a refusal", "operands unchanged")


def arcs(c):
    """End points at different distances from the centre, or on a line with it."""
    rng = c.rng
    s = rng.choice([1.0, 10.0, 100.0])
    o, r = vec(rng, s), rng.uniform(0.5, 2) * s
    u = c.np.normal(size=3)
    u /= np.linalg.norm(u)
    w = np.cross(u, c.np.normal(size=3))
    w /= np.linalg.norm(w)
    th = rng.uniform(0.3, 2.8)
    at = lambda k, t: Vector3(*(arr(o) + k * r * (np.cos(t) * u + np.sin(t) * w)))
    a, b = at(1, 0), at(1, th)
    how = rng.choice(["longer", "shorter", "line"])
    if how == "line":
        # exactly representable, so the three points are on a line without rounding
        o = Vector3(*[float(rng.randint(-4, 4)) for _ in range(3)])
        d = np.zeros(3)
        d[rng.randrange(3)] = rng.choice([1.0, 2.0, -0.5])
        a = Vector3(*(arr(o) + d))
        z = Vector3(*(arr(o) - d))
        e = np.roll(d, 1)
        b = Vector3(*(arr(o) + e))
    else:
        z = at(1 + rng.choice([0.01, 0.1, 1.0]) if how == "longer" else 1 - rng.choice([0.01, 0.1, 0.5]), th)
    was = [arr(x) for x in (a, b, z, o)]
    c.note(how, was)
    use = rng.choice([lambda k: arr(k(0.4)), lambda k: float(k.length())])
    pair(c, lambda: use(Arc(a, b, o)), lambda: use(Arc(a, z, o)), f"arc, {how}")
    unchanged(c, (a, b, z, o), was, "an arc")


def curves(c):
    """Something that is not a curve, or no samples, where a curve is needed."""
    rng = c.rng
    k = gen.path(rng, 1.0, 1).real
    odd = rng.choice(["not a curve", None, 3.0, [vec(rng)], lambda t: Vector3(t, 0, 0), object()])
    how = rng.choice(["sub", "arclength", "samples", "bezier"])
    p = arr(k(0.37))
    c.note(how, repr(odd)[:14], p)
    if how == "sub":
        t0, t1 = rng.uniform(0, 0.5), rng.uniform(0.5, 1)
        pair(c, lambda: arr(SubRangedPath(k, t0, t1)(0.3)), lambda: SubRangedPath(odd, t0, t1)(0.3), f"sub-range of {odd!r}")
    elif how == "arclength":
        pair(c, lambda: arr(ArcLengthParameterizedPath(k, n=50)(0.3)), lambda: ArcLengthParameterizedPath(odd, n=50)(0.3), f"arc length of {odd!r}")
    elif how == "samples":
        n = rng.choice([0, -1, -10])
        pair(c, lambda: arr(ArcLengthParameterizedPath(k, n=20)(0.3)), lambda: ArcLengthParameterizedPath(k, n=n)(0.3), f"{n} samples")
    else:
        q = [vec(rng) for _ in range(rng.randint(2, 5))]
        bad = list(q)
        bad[rng.randrange(len(bad))] = rng.choice([None, "p", object()])
        pair(c, lambda: arr(Bezier(q)(0.3)), lambda: Bezier(bad)(0.3), "a control point that is no point")
    unchanged(c, [k(0.37)], [p], how)


def surfaces(c):
    """Unknown sides and faces, curvature without its slope, sections at one station."""
    rng = c.rng
    how = rng.choice(["ellipse", "flap", "mean flap", "cube", "sphere", "slope", "curve", "sections"])
    word = rng.choice(["left", "", "upper", None, 3])
    a, b = vec(rng), vec(rng)
    was = [arr(a), arr(b)]
    u = gen.surface(rng, 1.0, 0).real
    p = arr(u(0.3, 0.8))
    c.note(how, word, was)
    side = rng.choice(["top", "bot"])
    L, an = rng.uniform(0.1, 1), rng.uniform(-0.5, 0.5)
    edge = Line(a, b)
    if how == "ellipse":
        mk = lambda w: arr(ElipsePath(a, 0.3, 0.2, w)(0.4))
        pair(c, lambda: mk(side), lambda: mk(word), f"side {word!r}")
    elif how == "flap":
        mk = lambda w: arr(TrailingEdgePatch(A0=a, B0=b, TE_path=edge, flap_length=L, flap_angle=an, side=w)(0.4, 0.6))
        pair(c, lambda: mk(side), lambda: mk(word), f"side {word!r}")
    elif how == "mean flap":
        mk = lambda w: arr(MeanTrailingEdgePatch(mean_line=edge, TE_path=edge, flap_length=L, flap_angle=an, side=w)(0.4, 0.6))
        pair(c, lambda: mk(side), lambda: mk(word), f"side {word!r}")
    elif how in ("cube", "sphere"):
        K = {"cube": CubePatch, "sphere": SpherePatch}[how]
        face = rng.choice(["east", "west", "north", "south", "top", "bottom"])
        mk = lambda w: arr(K(1.5, a, w)(0.4, 0.6))
        pair(c, lambda: mk(face), lambda: mk(word), f"face {word!r}")
    elif how in ("slope", "curve"):
        f, g = lambda x, y: 0.1 * x * x, lambda x, y: 0.2 * x
        kw = {"fun": f, "fun_dash": g}
        bad = {k: v for k, v in kw.items() if k != ("fun_dash" if how == "slope" else "fun")}
        d = rng.choice("xy")
        pair(c, lambda: arr(CurvedPatch(u, direction=d, **kw)(0.4, 0.6)), lambda: CurvedPatch(u, direction=d, **bad)(0.4, 0.6), f"curvature without {how}")
    else:
        z = rng.uniform(-1, 1)

        def section(h):
            return CoonsPatch(p00=Vector3(0.0, 0.0, h), p10=Vector3(1.0, 0.0, h), p11=Vector3(1.0, 1.0, h), p01=Vector3(0.0, 1.0, h))

        mk = lambda h: arr(SweptPatch([section(z), section(h)])(0.4, 0.6))
        pair(c, lambda: mk(z + 1.0), lambda: mk(z), "sections at one station")
    unchanged(c, [a, b, u(0.3, 0.8)], was + [p], how)


def thin(c):
    """An elliptical edge on a wing without thickness."""
    rng = c.rng
    i = parts.wing(rng, 1.0, le_type="custom", closed=False, res=1).info
    c.note("thin wing", np.round(i["le"], 3).tolist(), i["fl"], i["fa"])

    def mk(k):
        f = {n: (lambda x, y, z=0, g=g: k * g(x, y)) for n, g in (("top_tf", i["top"]), ("bot_tf", i["bot"]))}
        w = Wing(A0=parts.V(i["A0"]), A1=parts.V(i["A1"]), TT=parts.V(i["TT"]), B0=parts.V(i["B0"]), Line_B0TT=parts.le_line(i["le"], i["k"]),
                 LE_wf=i["wf"], LE_type="custom", flap_length=i["fl"], flap_angle=i["fa"], verbosity=0, **f)
        w.generate_patches()
        return [arr(q(0.3, 0.6)) for q in w.patches.values()]

    pair(c, lambda: mk(1.0), lambda: mk(0.0), "an elliptical edge without thickness")


def early(c):
    """Steps asked for before what they need exists, and accepted afterwards."""
    rng = c.rng
    p = rng.choice([parts.swept, parts.revolved])(rng, 1.0, res=rng.choice([1, 2]))
    how = rng.choice(["mesh before surfaces", "motion before generation"])
    c.note(how, p.desc[:300])
    if how == "mesh before surfaces":
        comp = p.build()
        c.raises(comp.surface, how)
        comp.generate_patches()
        comp.surface()
        c.true(len(comp.mesh.vectors) > 0, "no mesh after the refusal", "valid neighbours")
        return
    v = parts.vehicle(verbosity=0)
    v.add_component(p.build(), name="only")
    d = vec(rng)
    c.raises(lambda: v.transform([("translate", d)]), how)
    v.generate()
    c.true(parts.names(v) == ["only"], "components after a refused motion", "valid neighbours")
    c.true(len(v.components) == 1, "number of components after a refused motion", "valid neighbours")


KINDS = [("operands", operands, 240, 2400), ("arcs", arcs, 160, 1600), ("curves", curves, 160, 1600),
         ("surfaces", surfaces, 200, 2000), ("thin", thin, 12, 120), ("early", early, 48, 400)]
