"""C27: options that are left out take their documented values."""
import os
import shutil
import tempfile

import numpy as np

from hypervehicle import Vehicle
from hypervehicle.components.common import OgiveNose
from hypervehicle.components import CompositeComponent, Cube, Fin, RevolvedComponent, Sphere, SweptComponent, Wing
from hypervehicle.components.common import leading_edge_width_function, uniform_thickness_function
from hypervehicle.geometry import Vector3
from hypervehicle.geometry import geometry as G
from hypervehicle.geometry.path import ArcLengthParameterizedPath, LinearFunction, Polyline, RobertsFunction, Spline
from hypervehicle.geometry.surface import CoonsPatch, StructuredGrid
from hypervehicle.utilities import SensitivityStudy, surfce_to_stl
from rv import gen, parts, ref, watch
from rv.core import arr
from checks import c19

SPEC = {
    "level": "exploration",
    "rule": "seeded random components, vehicles, curves, surfaces and studies in pairs, one with a random subset of options left "
            "out and one giving the documented values; a case is distinct by the object and the options left out",
    "required": {"component pairs": 150, "vehicle pairs": 80, "geometry pairs": 300, "study pairs": 16, "helper values": 2000},
    "assumptions": ["the values in the tables of this check are those documented by the package"],
}


def width(t):
    """The documented default leading-edge width: a parabola 0.01, 0.1, 0.01."""
    return 0.01 * (1 - t) ** 2 + 0.2 * t * (1 - t) + 0.01 * t * t


def same(c, A, B, what, monitor, exact=True, mesh=True, size=1.0):
    fa, fb = parts.fns(A), parts.fns(B)
    c.true(len(fa) == len(fb), f"{what}: {len(fa)} surfaces, {len(fb)} with the options given", monitor)
    for i, (f, g) in enumerate(zip(fa, fb)):
        for r, s in ((0, 0), (0.3, 0.7), (1, 0.5)):
            c.close(f(r, s), g(r, s), size, 1e-9, f"{what}: surface {i} at ({r}, {s})", monitor)
    if mesh:
        x, y = np.array(A.mesh.vectors), np.array(B.mesh.vectors)
        c.true(x.shape == y.shape, f"{what}: meshes of {len(x)} and {len(y)} triangles", monitor)
        c.close(x, y, size, 1e-6, f"{what}: mesh", monitor)


def choose(rng, table):
    """A non-empty random subset of the options to leave out."""
    k = list(table)
    return rng.sample(k, rng.randint(1, len(k))) if rng.random() < 0.7 else k


def component(c):
    rng = c.rng
    s, other = 1.0, {}
    k = rng.choice(["wing", "fin", "swept", "revolved", "cube", "sphere", "composite", "ogive"])
    if k == "wing":
        p = parts.wing(rng, s, le_type=rng.choice(["flat", "custom"]), res=1)
        i = p.info
        must = dict(A0=parts.V(i["A0"]), A1=parts.V(i["A1"]), TT=parts.V(i["TT"]), B0=parts.V(i["B0"]), Line_B0TT=parts.le_line(i["le"], i["k"]),
                    top_tf=i["top"], bot_tf=i["bot"])
        tab = dict(Line_B0TT_TYPE="Bezier", tail_option="FLAP", flap_length=0, flap_angle=0, close_wing=False, stl_resolution=2, name=None)
        f = rng.choice(["flat", "custom", "default"])
        if f == "default":
            tab.update(LE_type="custom", LE_wf=width)
            tab["stl_resolution"] = 2
        else:
            must.update(LE_type=f, **({"LE_wf": i["wf"]} if f == "custom" else {}))
        other = dict(flap_length=i["fl"], flap_angle=i["fa"] or 0.1, close_wing=True)
        cls = Wing
        cheap = f == "flat"
    elif k == "fin":
        i = parts.fin(rng, s, res=1).info
        must = dict(zip(("p0", "p1", "p2", "p3"), map(parts.V, i["p"])))
        must.update(fin_thickness=i["th"], fin_angle=i["fa"], top_thickness_function=i["top"], bot_thickness_function=i["bot"])
        tab = dict(LE_wf=width, rudder_type="flat", rudder_length=0, rudder_angle=0, pivot_angle=0, pivot_point=Vector3(0, 0, 0), offset_func=None,
                   stl_resolution=2, name=None)
        other = dict(rudder_type="sharp", rudder_length=i["rl"], rudder_angle=i["ra"] or 0.1, pivot_angle=rng.uniform(-1, 1),
                     pivot_point=parts.V([rng.uniform(-1, 1), 0, rng.uniform(-1, 1)]))
        cls, cheap = Fin, False
    elif k == "swept":
        A = parts.swept(rng, s).build()
        must = dict(cross_sections=A.cross_sections)
        tab = dict(close_ends=True, stl_resolution=1, name=None)
        cls, cheap = SweptComponent, True
    elif k == "revolved":
        pts, kinds = parts.profile(rng, s)
        must = dict(revolve_line=parts.prof_line(pts, kinds))
        tab = dict(stl_resolution=4, name=None)
        cls, cheap = RevolvedComponent, True
    elif k == "ogive":
        h, r = rng.uniform(0.3, 1), rng.uniform(1.5, 4)
        must = dict(h=h, r_n=rng.uniform(0.02, 0.2) * h, r_o=r * h, L_o=rng.uniform(0.5, 3))
        tab = dict(stl_resolution=3, name=None)
        cls, cheap = OgiveNose, True
    elif k in ("cube", "sphere"):
        must = {"a" if k == "cube" else "r": rng.uniform(0.2, 2)}
        tab = dict(centre=Vector3(0, 0, 0), stl_resolution=2, name=None)
        other = dict(centre=parts.V([rng.uniform(-1, 1) for _ in range(3)]))
        cls, cheap = (Cube if k == "cube" else Sphere), True
    else:
        kids = [parts.part(rng, s, ("swept", "revolved", "cube", "sphere")) for _ in range(2)]
        refl = rng.choice([None, "x", "y", "z"])

        def cls(**kw):
            given = kw.pop("given")
            q = CompositeComponent(**kw)
            for kid in kids:
                o = dict(append_reflection=True, curvatures=None, clustering=None, transformations=None) if given else {}
                q.add_component(kid.build(), **({"reflection_axis": refl} if refl else {}), **o)
            return q

        must, tab, cheap = dict(given=False), dict(stl_resolution=2, name=None, given=True), True
    # some options given another value in both, so that what goes with them matters
    for q, x in other.items():
        if rng.random() < 0.5:
            must[q] = x
            del tab[q]
    out = choose(rng, tab)
    c.note(k, {q: repr(x)[:80] for q, x in must.items()}, "left out", out)
    A = parts.serial(cls(**{**must, **{q: x for q, x in tab.items() if q not in out}}, verbosity=0))
    B = parts.serial(cls(**{**must, **tab}, verbosity=0))
    A.generate_patches()
    B.generate_patches()
    same(c, A, B, f"{k} without {out}", "component pairs", mesh=cheap)
    c.true(A.stl_resolution == B.stl_resolution and A.name == B.name, f"{k} without {out}: resolution {A.stl_resolution}, name {A.name}", "component pairs")
    level = cls(**must).verbosity
    c.true(level == 1, f"{k}: output level {level} unless given", "component pairs")
    want = (rng.choice([0, 2, 3]), f"n{rng.randint(0, 99)}", rng.randint(3, 7))
    Q = cls(**{**must, "verbosity": want[0], "name": want[1], "stl_resolution": want[2]})
    got = (Q.verbosity, Q.name, Q.stl_resolution)
    c.true(got == want, f"{k}: output level, name and resolution {got}, given {want}", "component pairs")


VTAB = dict(name=None, append_reflection=True, ghost=False, curvatures=None, clustering=None, transformations=None, modifier_function=None)


def vehicle(c):
    rng = c.rng
    ps = [parts.cheap(rng, 1.0) for _ in range(rng.randint(1, 3))]
    os_ = [{"reflection_axis": rng.choice("xyz")} if rng.random() < 0.6 else {} for _ in ps]
    outs = [choose(rng, VTAB) for _ in ps]
    ang = rng.choice([None, 0])
    a = rng.choice([30, -45, 90])
    c.note([p.desc for p in ps], os_, outs, ang, a)
    V = []
    for given in (False, True):
        v = Vehicle()
        v.verbosity = 0
        for p, o, left in zip(ps, os_, outs):
            k = p.build()
            kw = dict(VTAB) if given else {q: x for q, x in VTAB.items() if q not in left}
            v.add_component(k, **o, **kw)
            c.true(k in list(v.get_non_ghost_components().values()), "a component added without saying so is a ghost", "vehicle pairs")
        if given:
            v.vehicle_angle_offset = 0
        v.generate()
        v.transform([("rotate", a, "y")] if given else [("rotate", a)])
        V.append(v)
    for i, (A, B) in enumerate(zip(V[0].components, V[1].components)):
        same(c, A, B, f"component {i} without {outs[i]}", "vehicle pairs", size=4)
        # resolution left out is the component's own
        A.surface()
        x = np.array(A.mesh.vectors)
        B.surface(resolution=B.stl_resolution)
        c.true(np.array_equal(x, np.array(B.mesh.vectors)), f"component {i}: resolution left out", "vehicle pairs")
        A.rotate()
        B.rotate(0, "y")
        same(c, A, B, f"component {i} rotated without arguments", "vehicle pairs", size=4)
    root = tempfile.mkdtemp(prefix="rv-c27-")
    try:
        for d, kw in (("a", {}), ("b", {"prefix": None, "merge": False})):
            os.mkdir(os.path.join(root, d))
            with watch.cwd(os.path.join(root, d)):
                V[0 if d == "a" else 1].to_stl(**kw)
        fa, fb = sorted(os.listdir(root + "/a")), sorted(os.listdir(root + "/b"))
        c.true(fa == fb and len(fa) == len(ps) and all(f.startswith("vehicle-") for f in fa), f"files {fa} and {fb}", "vehicle pairs")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    w = Vehicle()
    c.true(w.name == "vehicle" and w.verbosity == 1 and w.vehicle_angle_offset == 0 and list(w.components) == [] and w.properties == {},
           "state of a new vehicle", "vehicle pairs")
    w.configure()
    c.true(w.name == "vehicle" and w.verbosity == 1, "configuring nothing", "vehicle pairs")
    w.configure(name="n")
    c.true(w.name == "n" and w.verbosity == 1, "configuring the name only", "vehicle pairs")
    w.configure(verbosity=2)
    c.true(w.name == "n" and w.verbosity == 2, "configuring the output level only", "vehicle pairs")


def geometry(c):
    rng = c.rng
    k = rng.choice(["vector", "polyline", "spline", "arc length", "coons", "grid", "mean edge", "trailing edge", "mesh"])
    m = "geometry pairs"
    c.note(k, rng.random())
    ts = gen.tvalues(rng, 4)
    if k == "vector":
        x, y = rng.uniform(-3, 3), rng.uniform(-3, 3)
        c.close(arr(Vector3(x)), [x, 0, 0], 1, 0, "vector of one number", m)
        c.close(arr(Vector3(x=x, y=y)), [x, y, 0], 1, 0, "vector of two numbers", m)
        c.close(arr(Vector3(x, y)), [x, y, 0], 1, 0, "vector of two numbers", m)
    elif k in ("polyline", "spline"):
        P = [gen.point(rng) for _ in range(rng.randint(3, 5))]
        from hypervehicle.geometry import Line

        if k == "polyline":
            segs = [Line(a, b) for a, b in zip(P[:-1], P[1:])]
            A, B = Polyline(segs), Polyline(segs, closed=False, tolerance=1e-10)
        else:
            A, B = Spline(P), Spline(P, closed=False, tolerance=1e-10)
        for t in ts:
            c.close(arr(A(t)), arr(B(t)), 5, 1e-12, f"{k} without options at {t}", m)
        c.close(arr(A(1.0)), arr(P[-1]), 5, 1e-9, f"{k} without options is open", m)
    elif k == "arc length":
        p = gen.bezier(rng).real
        A, B = ArcLengthParameterizedPath(p), ArcLengthParameterizedPath(p, n=1000)
        for t in ts:
            c.close(arr(A(t)), arr(B(t)), 5, 1e-9, f"arc-length path at {t}", m)
    elif k == "coons":
        P = [gen.point(rng) for _ in range(4)]
        kw = dict(zip(("p00", "p10", "p11", "p01"), P))
        A, B = CoonsPatch(**kw), CoonsPatch(**kw, offset=Vector3(0, 0, 0))
        for r in ts:
            c.close(arr(A(r, 0.3)), arr(B(r, 0.3)), 5, 1e-12, "patch without an offset", m)
    elif k == "grid":
        P = [gen.point(rng) for _ in range(4)]
        sf = CoonsPatch(**dict(zip(("p00", "p10", "p11", "p01"), P)))
        n, q = rng.randint(2, 5), rng.randint(2, 5)
        A, B = StructuredGrid(surface=sf, niv=n, njv=q), StructuredGrid(surface=sf, niv=n, njv=q, cf_list=[LinearFunction()] * 4)
        for a in "xyz":
            c.close(getattr(A.vertices, a), getattr(B.vertices, a), 5, 1e-12, "grid without clustering", m)
        # clustering for some of the edges only
        cf = [rng.choice([None, RobertsFunction(rng.random() < 0.5, True, rng.uniform(1.05, 1.5))]) for _ in range(4)]
        A, B = (StructuredGrid(surface=sf, niv=n, njv=q, cf_list=[x or y for x in cf]) for y in (None, LinearFunction()))
        for a in "xyz":
            c.close(getattr(A.vertices, a), getattr(B.vertices, a), 5, 1e-12, "grid with some edges clustered", m)
    elif k in ("mean edge", "trailing edge"):
        a, b = Vector3(0, 0, 0), Vector3(rng.uniform(-.2, .2), 1, 0)
        from hypervehicle.geometry import Line

        th = rng.uniform(0.05, 0.2)
        mean = Line(a, b)
        te = Line(Vector3(0, 0, -th), Vector3(b.x, 1, -th))
        L = rng.uniform(0.1, 1)
        if k == "mean edge":
            A, B = G.MeanTrailingEdgePatch(mean, te, L), G.MeanTrailingEdgePatch(mean, te, L, flap_angle=0, side="top")
        else:
            A, B = G.TrailingEdgePatch(a, b, te, L), G.TrailingEdgePatch(a, b, te, L, flap_angle=0.0, side="top")
        for r in ts:
            c.close(arr(A(r, 0.4)), arr(B(r, 0.4)), 5, 1e-12, "edge patch without options", m)
        w = lambda t: 0.05
        A = G.MeanLeadingEdgePatchFunction(mean, te, w, 0.0, 1.0)
        B = G.MeanLeadingEdgePatchFunction(mean, te, w, 0.0, 1.0, side="top")
        c.close(arr(A(0.4, 0.6)), arr(B(0.4, 0.6)), 5, 1e-12, "leading edge without a side", m)
    else:
        sf = gen.coons(rng, kinds=("line", "bezier")).real
        n, q = rng.randint(1, 4), rng.randint(1, 4)
        A = surfce_to_stl(sf, n, q)
        B = surfce_to_stl(sf, n, q, si=1.0, sj=1.0, mirror_y=False, i_clustering_func=None, j_clustering_func=None, verbosity=0)
        D = surfce_to_stl(sf, n, q, i_clustering_func=lambda t: t, j_clustering_func=lambda t: t)
        c.close(np.array(A.vectors), np.array(B.vectors), 5, 0, "mesh without options", m)
        c.close(np.array(A.vectors), np.array(D.vectors), 5, 1e-6, "mesh without clustering", m)


def helpers(c):
    rng = c.rng
    th = rng.choice([rng.uniform(0.01, 2), 1, 0.0, np.float64(0.3)])
    c.note("helpers", th)
    for _ in range(10):
        x, y, z = (gen.number(rng) for _ in range(3))
        for side, want in (("top", -th / 2), ("bot", th / 2)):
            f = uniform_thickness_function(th, side)
            for v in (f(x, y), f(x, y, z), f(x=x, y=y), f(x=x, y=y, z=z)):
                c.close(arr(v), [0, 0, want], max(1, th), 1e-12, f"uniform thickness, {side}", "helper values")
        t = gen.tvalue(rng)
        c.close(leading_edge_width_function(t), width(t), 1, 1e-12, f"default leading-edge width at {t}", "helper values")


def study(c):
    rng = c.rng
    fam = c19.Family(rng)
    val = {n: rng.choice([1.0, 2, -1.5]) for n in fam.params}
    over = {n: 1.0 for n in fam.over}  # the generator's own values
    tab = dict(overrides=over or None, perturbation=5, write_nominal_stl=True, nominal_stl_prefix=None)
    left = choose(rng, tab)
    c.note("study", val, [(q["kind"], q["name"], q["res"]) for q in fam.comps], left)
    out = []
    for kw in ({k: x for k, x in tab.items() if k not in left}, tab):
        root = tempfile.mkdtemp(prefix="rv-c27-")
        try:
            with watch.cwd(root):
                S = SensitivityStudy(fam.Gen, verbosity=0)
                S.dvdp(val, **kw)
                out.append((S.component_sensitivities, sorted(os.listdir(root))))
        finally:
            shutil.rmtree(root, ignore_errors=True)
    (a, fa), (b, fb) = out
    c.true(fa == fb, f"files {fa}, {fb} with the options given", "study pairs")
    c.true(list(a) == list(b), "components of the study", "study pairs")
    for n in a:
        c.true(list(a[n].columns) == list(b[n].columns) and a[n].shape == b[n].shape, f"table of {n}", "study pairs")
        x, y = a[n].to_numpy(dtype=float), b[n].to_numpy(dtype=float)
        c.close(x, y, np.max(np.abs(y)) + 1, 1e-9, f"table of {n} without {left}", "study pairs")


KINDS = [("component", component, 140, 1200), ("vehicle", vehicle, 40, 400), ("geometry", geometry, 180, 1800), ("helpers", helpers, 30, 300),
         ("study", study, 16, 160)]
