"""C23: arguments, copies and defaults."""
import copy
import shutil
import tempfile

import numpy as np

from hypervehicle import Vehicle
from hypervehicle.components import (CompositeComponent, Cube, Fin, RevolvedComponent, Sphere, SweptComponent, Wing)
from hypervehicle.geometry import Vector3
from hypervehicle.geometry import geometry as G
from hypervehicle.geometry.path import (Arc, ArcLengthParameterizedPath, Bezier, ClusterFunction, Line, Path, Polyline,
                                        RobertsFunction, Spline)
from hypervehicle.geometry.surface import CoonsPatch, ParametricSurface, StructuredGrid
from rv import gen, meshlib, parts, watch
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random constructors with shared points, curves, sections, options and dictionaries, fingerprinted before "
            "and after random operation histories; copies taken at random moments and changed on either side; pairs with "
            "default options; a case is distinct by arguments and operations",
    "required": {"arguments compared": 8000, "reuse compared": 500, "copies compared": 1500, "defaults compared": 500,
                 "operations": 500},
    "assumptions": ["values are what the user can observe: coordinates, points of curves and surfaces, list and dictionary contents"],
}

TS = (0.0, 0.3, 0.5, 0.77, 1.0)
RS = ((0.0, 0.0), (1.0, 0.4), (0.3, 1.0), (0.6, 0.25))


def fp(x, depth=0):
    """What a user can observe of an argument, as nested tuples of exact values."""
    if isinstance(x, Vector3):
        return ("V",) + tuple(bits(getattr(x, a)) for a in "xyz")
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(fp(q, depth + 1) for q in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((repr(k), fp(v, depth + 1)) for k, v in x.items())
    if isinstance(x, Path):
        return (type(x).__name__,) + tuple(fp(x(t)) for t in TS)
    if isinstance(x, ParametricSurface):
        return (type(x).__name__,) + tuple(fp(x(r, s)) for r, s in RS)
    if isinstance(x, ClusterFunction):
        return (type(x).__name__,) + tuple(bits(x(t)) for t in TS)
    if isinstance(x, np.ndarray) or np.isscalar(x):
        return bits(x)
    return ("obj", id(x), repr(x) if isinstance(x, (str, type(None))) else "")


def bits(v):
    if isinstance(v, (str, bytes, bool, type(None))):
        return repr(v)
    a = np.asarray(v)
    return (str(a.dtype), a.shape, a.tobytes())


class Watched:
    """Named arguments and their fingerprints."""

    def __init__(self, c):
        self.c, self.items = c, []

    def add(self, name, x):
        self.items.append((name, x, fp(x)))
        return x

    def check(self, after):
        for name, x, f in self.items:
            g = fp(x)
            self.c.true(g == f, f"{name} changed by {after}", "arguments compared")


# -- constructors whose arguments the caller keeps -----------------------------
def args_of(rng, s=1.0):
    """(kind, arguments with fresh objects, constructor from arguments)"""
    k = rng.choice(["wing", "wing", "swept", "swept", "swept", "revolved", "revolved", "cube", "sphere"])
    if rng.random() < 0.06:
        k = "fin"
    return k, BUILD[k](rng, s)


def swept_args(rng, s):
    n = rng.randint(2, 3)
    z = np.cumsum([rng.uniform(0.3, 1) for _ in range(n)]) * s
    kinds = [rng.choice(["line", "bezier", "poly"]) for _ in range(4)]
    bulge = [rng.uniform(0.05, 0.3) for _ in range(4)]
    secs = [[(x, y, float(zz)) for x, y, _ in parts.section(rng, s * rng.uniform(0.5, 1), zz, rng.uniform(-.3, .3))] for zz in z]
    res = rng.choice([1, 2, {"e0": 2, "e1": 1, "e2": 2, "e3": 1, "sweep": 2}])
    close = rng.random() < 0.7

    def make():
        return {"cross_sections": [parts.loop(P, kinds, bulge, s) for P in secs], "stl_resolution": copy.copy(res), "close_ends": close}

    return SweptComponent, make, f"swept {kinds} {np.round(secs, 3).tolist()} {res} {close}"


def revolved_args(rng, s):
    pts, kinds = parts.profile(rng, s)
    res = rng.choice([2, 3])
    return (RevolvedComponent, lambda: {"revolve_line": parts.prof_line(pts, kinds), "stl_resolution": res},
            f"revolved {np.round(pts, 3).tolist()} {kinds} {res}")


def wing_args(rng, s):
    p = parts.wing(rng, s, le_type=None if rng.random() < 0.2 else "flat", res=1)
    i = p.info

    def make():
        a = dict(A0=parts.V(i["A0"]), A1=parts.V(i["A1"]), TT=parts.V(i["TT"]), B0=parts.V(i["B0"]),
                 Line_B0TT=parts.le_line(i["le"], i["k"]), top_tf=i["top"], bot_tf=i["bot"], LE_type=i["le_type"],
                 flap_length=i["fl"], flap_angle=i["fa"], close_wing=i["close"], stl_resolution=i["res"], **i["tB"])
        if i["le_type"] != "flat":
            a["LE_wf"] = i["wf"]
        return a

    return Wing, make, p.desc


def fin_args(rng, s):
    p = parts.fin(rng, s, res=1)
    i = p.info

    def make():
        P = [parts.V(q) for q in i["p"]]
        a = dict(p0=P[0], p1=P[1], p2=P[2], p3=P[3], fin_thickness=i["th"], fin_angle=i["fa"], top_thickness_function=i["top"],
                 bot_thickness_function=i["bot"], rudder_type=i["rudder"], rudder_length=i["rl"], rudder_angle=i["ra"],
                 stl_resolution=i["res"])
        if i["wf"]:
            a["LE_wf"] = i["wf"]
        if i["off"] is not None:
            a["offset_func"] = lambda x, y, z: Vector3(*i["off"])
        if i["pa"]:
            a.update(pivot_angle=i["pa"], pivot_point=parts.V(i["pp"]))
        return a

    return Fin, make, p.desc


def ball_args(cls):
    def f(rng, s):
        a, ctr, res = rng.uniform(0.2, 1) * s, [gen.number(rng, s) for _ in range(3)], rng.choice([1, 2])
        return cls, lambda: {"a" if cls is Cube else "r": a, "centre": Vector3(*ctr), "stl_resolution": res}, f"{cls.__name__} {a} {ctr}"
    return f


BUILD = {"wing": wing_args, "fin": fin_args, "swept": swept_args, "revolved": revolved_args, "cube": ball_args(Cube),
         "sphere": ball_args(Sphere)}


def make_component(cls, args):
    k = parts.serial(cls(**args))
    k.verbosity = 0
    return k


def shape(comp):
    """Exact surfaces of a component."""
    return tuple(fp(p) for p in comp.patches.values())


def cluster_dict(rng):
    d = {}
    for k in ("i_clustering_func", "j_clustering_func"):
        if rng.random() < 0.6:
            d[k] = RobertsFunction(True, rng.random() < 0.5, rng.uniform(1.05, 2)) if rng.random() < 0.5 else (lambda x: x * x)
    return d


def steps(rng, n):
    """Transformations in every form they can be given in."""
    t = [parts.motion(rng, 1.0)[0]() for _ in range(n)]
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 2)):
            t.insert(rng.randrange(len(t) + 1), rng.choice([("rotate",), ("reflect",), ("rotate", 15.0), ("reflect", "y"), ("reflect", "z")]))
    return t


def options(rng, s, modifier=True):
    o = parts.Options(rng, s, p=0.6, only=parts.Options.ALL if modifier else ("curvatures", "reflection", "transformations"))
    kw = o.kwargs()
    if "transformations" in kw and rng.random() < 0.4:
        kw["transformations"] = steps(rng, rng.randint(1, 3))
    if rng.random() < 0.5:
        kw["clustering"] = cluster_dict(rng)
    return kw, o.desc


def operations(c, rng, v, w, tmp, n):
    """A random history on a vehicle, with the arguments checked after every step."""
    log = []
    for _ in range(n):
        op = rng.choice(["generate", "generate", "mesh", "surface", "transform", "move", "write", "analyse", "after", "vt",
                         "cluster", "check", "angle", "merge", "repair"])
        log.append(op)
        c.seen("operations")
        k = rng.choice(v.components)
        names = parts.names(v)
        if op == "generate":
            v.generate()
        elif op == "mesh":
            k.mesh
        elif op == "surface":
            k.surface(resolution=rng.choice([None, 1, 2]))
        elif op == "transform":
            t = w.add("transformations given to the vehicle", steps(rng, rng.randint(1, 2)))
            v.transform(t if rng.random() < 0.7 else t[0])
        elif op == "move":
            m = w.add("motion of a component", parts.motion(rng, 1.0)[0]())
            getattr(k, m[0])(*m[1:])
        elif op == "write":
            v.to_stl(prefix=tmp + "/f")
        elif op == "analyse":
            v.analyse(w.add("densities", {q: rng.uniform(1, 5) for q in names}))
        elif op == "after":
            v.analyse_after_generating(w.add("densities kept by the vehicle", {q: rng.uniform(1, 5) for q in names}))
        elif op == "vt":
            t = w.add("transformations kept by the vehicle", steps(rng, rng.randint(1, 2)))
            v.add_vehicle_transformations(t if rng.random() < 0.7 else t[0])
            if rng.random() < 0.5:
                v.add_vehicle_transformations(t)
        elif op == "cluster":
            k.add_clustering_options(**w.add("clustering", cluster_dict(rng)))
        elif op == "check":
            k.stl_check()
        elif op == "angle":
            v.vehicle_angle_offset = rng.uniform(-20, 20)
        elif op == "merge":
            with watch.stub_pymesh(load=lambda f: np.zeros(0)):
                v.to_stl(prefix=tmp + "/m", merge=True)
        elif op == "repair":
            k.stl_repair(rng.choice([1e-6, 1e-9]))
        w.check(op)
    return log


def arguments(c):
    rng = c.rng
    s = 1.0
    tmp = tempfile.mkdtemp(prefix="rv-c23-")
    try:
        w = Watched(c)
        v = parts.vehicle(rng.choice([0, 0, 1]))
        recs, notes = [], []
        kept = None
        for _ in range(rng.randint(1, 2)):
            kind, (cls, make, desc) = args_of(rng, s)
            fresh = make_component(cls, make())
            fresh.generate_patches()
            want = shape(fresh)
            args = make()
            for k, x in args.items():
                w.add(f"{k} of a {kind}", x)
            if rng.random() < 0.5 or kept is None:
                kept = options(rng, s, modifier=kind not in ("cube", "sphere"))
                for k, x in kept[0].items():
                    w.add(f"option {k}", x)
            kw, od = kept
            comps = [make_component(cls, args) for _ in range(rng.randint(1, 2))]
            w.check(f"constructing a {kind}")
            for comp in comps:
                kw2 = dict(kw)
                if kind in ("cube", "sphere") or rng.random() < 0.2:
                    kw2.pop("modifier_function", None)
                    box = CompositeComponent(stl_resolution=2, verbosity=0)
                    parts.serial(box)
                    box.add_component(comp, **kw2)
                    w.check("adding to a composite")
                    if rng.random() < 0.5:
                        comp.add_clustering_options(**cluster_dict(rng))
                        w.check("adding clustering to a part of a composite")
                    comp = box
                    kw2 = {}
                v.add_component(comp, **kw2)
                w.check("adding to a vehicle")
            recs.append((kind, cls, args, want))
            notes.append(f"{desc} {od} x{len(comps)}")
        v.generate()
        w.check("generating")
        log = operations(c, rng, v, w, tmp, rng.randint(3, 7))
        c.note(notes, log)
        # the same arguments again
        for kind, cls, args, want in recs:
            again = make_component(cls, args)
            again.generate_patches()
            c.true(shape(again) == want, f"a {kind} built again from the same arguments differs", "reuse compared")
            c.seen("reuse compared", 4 * len(want))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def geometry(c):
    """Curves and surfaces share points and edges; evaluating or moving one leaves the others."""
    rng = c.rng
    w = Watched(c)
    P = [w.add(f"point {i}", Vector3(*[rng.uniform(-1, 1) + 2 * (j == i % 3) for j in range(3)])) for i in range(4)]
    lst = w.add("list of points", [P[0], P[1], P[2], P[3]])
    made = []

    def keep(name, fn):
        x = fn()
        w.check(f"constructing {name}")
        made.append(name)
        return w.add(name, x)

    pool = [keep("a line", lambda: Line(P[0], P[1])), keep("a Bezier curve", lambda: Bezier(lst)),
            keep("a spline", lambda: Spline(lst, closed=rng.random() < 0.3))]
    segs = w.add("list of segments", [Line(P[0], P[1]), Bezier([P[1], P[2], P[3]])])
    pool.append(keep("a polyline", lambda: Polyline(segs, closed=rng.random() < 0.5)))
    e = w.add("four edges", [Line(P[3], P[2]), Line(P[1], P[2]), Bezier([P[0], P[2], P[1]]), Polyline([Line(P[0], P[1]), Line(P[1], P[3])])])
    coons = keep("a patch", lambda: CoonsPatch(north=e[0], east=e[1], south=e[2], west=e[3]))
    flat = keep("a flat patch", lambda: CoonsPatch(p00=P[0], p10=P[1], p11=P[2], p01=P[3]))
    surfs = [coons, flat]
    off = w.add("displacement", Vector3(0.3, -0.2, 0.5))
    for _ in range(rng.randint(3, 8)):
        k = rng.choice(["sub", "rev", "arclen", "offpath", "move", "offset", "rotate", "mirror", "revolve", "curve", "edges",
                        "grid", "arc", "length", "shift", "perimeter", "vector"])
        p, q = rng.choice(pool), rng.choice(surfs)
        if k == "sub":
            pool.append(keep("part of a curve", lambda: G.SubRangedPath(p, 0.2, 0.9)))
        elif k == "rev":
            pool.append(keep("a reversed curve", lambda: G.ReversedPath(p)))
        elif k == "arclen":
            pool.append(keep("a curve by arc length", lambda: ArcLengthParameterizedPath(p)))
        elif k == "offpath":
            pool.append(keep("an offset curve", lambda: G.OffsetPathFunction(p, lambda x, y, z=0: off)))
        elif k == "move":
            pool.append(keep("a displaced line", lambda: Line(P[0], P[2]) + off))
        elif k == "offset":
            surfs.append(keep("an offset surface", lambda: G.OffsetPatchFunction(q, lambda x, y, z=0: off)))
        elif k == "rotate":
            surfs.append(keep("a rotated surface", lambda: G.RotatedPatch(q, 0.4, rng.choice("xyz"), point=P[1])))
        elif k == "mirror":
            surfs.append(keep("a mirrored surface", lambda: G.MirroredPatch(q, rng.choice("xyz"))))
        elif k == "revolve":
            surfs.append(keep("a revolved surface", lambda: G.RevolvedPatch(p, 0.1, 2.0)))
        elif k == "curve":
            surfs.append(keep("a curved surface", lambda: G.CurvedPatch(q, direction="x", fun=lambda x, y, z=0: 0.1 * x * x, fun_dash=lambda x, y, z=0: 0.2 * x)))
        elif k == "edges":
            o = p
            surfs.append(keep("a surface between edges", lambda: G.SweptPatchfromEdges(w.add("edges", [o, Line(P[2], P[3])]))))
        elif k == "grid":
            StructuredGrid(flat, 3, 4, w.add("clustering list", [RobertsFunction(True, False, 1.2), None, None, None]), tags=w.add("tags", ["a", "b", "c", "d"]))
        elif k == "arc":
            ctr = w.add("centre", Vector3(0, 0, 0))
            a, b = w.add("start", Vector3(1, 0, 0)), w.add("end", Vector3(0, 1, 0))
            pool.append(keep("an arc", lambda: Arc(a, b, ctr)))
        elif k == "length":
            p.length()
        elif k == "shift":
            surfs.append(keep("a displaced patch", lambda: coons + off if rng.random() < 0.5 else flat - off))
        elif k == "perimeter":
            pool.append(keep("the border of a surface", lambda: G.SurfacePerimeter(q)))
        else:
            a, b = P[rng.randrange(4)], P[rng.randrange(4)]
            a + b, a - b, -a, a * 2.0, 3 * b, a / 2.0, abs(a), a.dot(b) if hasattr(a, "dot") else None
            x = Vector3(a)
            x += b
            x *= 3.0
            x -= a
            x /= 7.0
            x.normalize()
        w.check(k)
        made.append(k)
    # results handed out belong to the caller
    for x in rng.sample(pool, min(3, len(pool))):
        r = x(rng.choice([0, 0.0, 1, 1.0, 0.5]))
        nudge(r)
    for x in rng.sample(surfs, min(3, len(surfs))):
        r = x(rng.choice([0, 1, 0.0, 1.0, 0.3]), rng.choice([0, 1, 0.5]))
        nudge(r)
    w.check("changing a returned point")
    c.note(made, [arr(p).round(3).tolist() for p in P])


# -- copies -------------------------------------------------------------------
def look(x):
    """Everything observable of a component or vehicle that a later operation depends on."""
    comps = x.components if isinstance(x, Vehicle) else [x]
    out = [tuple((k.name, k.componenttype, shape(k)) for k in comps)]
    if isinstance(x, Vehicle):
        out.append((x.name, x.vehicle_angle_offset, fp(x.properties), parts.names(x),
                    fp([x.volume, x.mass, x.cog, x.moi]), tuple(x.get_non_ghost_components())))
    return out


def meshes(x):
    comps = x.components if isinstance(x, Vehicle) else [x]
    return [np.array(k.mesh.vectors).tobytes() for k in comps if k.patches]


def renew(k):
    """What generating a vehicle does to each component."""
    k.patches, k.surfaces, k.mesh = {}, None, None
    k.generate_patches()
    k.apply_modifier()
    k.curve()
    k.reflect()
    k.transform()


def future(x, rng_seed, motions):
    """What an object does when worked with: regenerated, moved and meshed."""
    if isinstance(x, Vehicle):
        x.generate()
        x.transform([m[0]() for m in motions])
    else:
        renew(x)
        for m in motions:
            t = m[0]()
            getattr(x, t[0])(*t[1:])
    return look(x)[0], meshes(x)


def vary(rng, x, motions):
    """Changes to one side only; some of them may be refused, which is not judged here."""
    log = []
    for _ in range(rng.randint(1, 5)):
        comps = x.components if isinstance(x, Vehicle) else [x]
        k = rng.choice(comps)
        op = rng.choice(["move", "surface", "mesh edit", "cluster", "name", "regenerate", "vt", "property", "angle", "add",
                         "resolution", "patches", "analyse", "child", "points"])
        log.append(op)
        try:
            change(rng, x, k, op, motions)
        except Exception:
            log.append("(refused)")
    for k in comps:
        if rng.random() < 0.4:
            log.append("own points")
            own(k)
    return log


def change(rng, x, k, op, motions):
    if op == "move":
        m = parts.motion(rng, 1.0)[0]()
        getattr(k, m[0])(*m[1:])
    elif op == "surface" and k.patches:
        k.surface(resolution=rng.choice([1, 3]))
    elif op == "mesh edit" and k.patches:
        k.mesh.vectors[...] += 1.0
    elif op == "cluster":
        k.add_clustering_options(i_clustering_func=RobertsFunction(True, False, 1.05))
    elif op == "name" and not isinstance(x, Vehicle):
        k.name = "renamed"
    elif op == "regenerate":
        future(x, 0, motions)
    elif op == "resolution":
        k.stl_resolution = 1
    elif op == "patches" and k.patches:
        k.patches.pop(next(iter(k.patches)))
    elif op == "child" and isinstance(k, CompositeComponent) and k.components:
        q = k.components[0]
        q.rotate(20, "x")
        k.add_component(parts.serial(Cube(2.0, Vector3(1, 1, 1))), reflection_axis="x")
    elif op == "points":
        for p in k.patches.values():
            nudge(p(0.0, 1.0))
    elif isinstance(x, Vehicle):
        if op == "vt":
            x.add_vehicle_transformations([("rotate", 31, "z"), ("translate", Vector3(3, 0, 1))])
        elif op == "property":
            x.add_property("p", 4.0)
        elif op == "angle":
            x.vehicle_angle_offset = 12
        elif op == "add":
            x.add_component(parts.swept(rng, 1.0).build(), name="extra", reflection_axis="y")
        elif op == "analyse" and all(q.patches for q in x.components):
            x.analyse({n: 2.0 for n in parts.names(x)})
            x.analyse_after_generating({n: 2.0 for n in parts.names(x)})


def nudge(p):
    """Change a point in place."""
    p *= 3.5


def own(k):
    """Move, in place, the points a component was built from."""
    for a in ("A0", "TT", "B0", "p0", "p1", "p2", "p3", "centre", "pivot_point"):
        p = vars(k).get(a)
        if isinstance(p, Vector3):
            nudge(p)
    for sec in vars(k).get("cross_sections") or []:
        if isinstance(sec, list):
            sec.reverse()


def copies(c):
    rng = c.rng
    s = 1.0
    motions = [parts.motion(rng, s) for _ in range(rng.randint(0, 2))]
    p = rng.choice([lambda: parts.cheap(rng, s), lambda: parts.composite(rng, s), lambda: parts.cube(rng, s), lambda: parts.sphere(rng, s),
                    lambda: parts.cheap(rng, s)])()
    if rng.random() < 0.1:
        p = parts.fin(rng, s, res=1) if rng.random() < 0.5 else parts.wing(rng, s, res=1)
    whole = p.kind not in ("cube", "sphere") and rng.random() < 0.5
    o = parts.Options(rng, s, p=0.5)
    o2 = parts.Options(rng, s, p=0.5)
    q = parts.cheap(rng, s)
    if whole:
        x = parts.vehicle(0, "craft")
        x.add_component(p.build(), **o.kwargs(), name=rng.choice([None, "first"]))
        x.add_component(q.build(), **o2.kwargs(), ghost=rng.random() < 0.3)
        x.add_property("q", 2.0)
        if rng.random() < 0.5:
            x.add_vehicle_transformations([parts.motion(rng, s)[0]()])
    else:
        x = p.build()
        if p.kind not in ("cube", "sphere"):
            # options are given through a vehicle
            parts.vehicle().add_component(x, **o.kwargs())
    stage = rng.choice(["new", "generated", "meshed", "moved"])
    if stage != "new":
        future(x, 0, motions if stage == "moved" else [])
    if stage == "generated":
        comps = x.components if whole else [x]
        for k in comps:
            k.surface(resolution=1)
            k.rotate(5, "z")
    y = copy.deepcopy(x)
    if rng.random() < 0.3:
        y = copy.deepcopy(y)
    c.true(look(y) == look(x), "the copy differs from the original", "copies compared")
    keep_x, keep_y = look(x), look(y)
    ms = meshes(x) if stage != "new" else None
    if ms is not None:
        c.true(meshes(y) == ms, "mesh of the copy differs from the original's", "copies compared")
    a, b, side = (x, y, "copy") if rng.random() < 0.5 else (y, x, "original")
    # b is changed, a is watched
    log = vary(rng, b, motions)
    c.note(p.desc, o.desc, o2.desc if whole else "", whole, stage, side, log, [m[2] for m in motions])
    c.true(look(a) == (keep_x if a is x else keep_y), f"changing the {side} ({log}) changed the other", "copies compared")
    c.seen("copies compared", 4 * sum(len(k.patches) for k in (a.components if whole else [a])))
    if ms is not None:
        c.true(meshes(a) == ms, f"changing the {side} ({log}) changed the other's mesh", "copies compared")
    # and its later life is what an untouched object's would be
    if whole:
        z = None
    else:
        z = p.build()
        if p.kind not in ("cube", "sphere"):
            parts.vehicle().add_component(z, **o.kwargs())
        fa, fz = future(a, 0, motions), future(z, 0, motions)
        c.true(fa[1] == fz[1] and [t[2] for t in fa[0]] == [t[2] for t in fz[0]],
               f"after changing the {side} ({log}) the other regenerates differently from a fresh component", "copies compared")
    if whole:
        fa = future(a, 0, motions)
        a2 = future(copy.deepcopy(a), 0, motions)
        c.true(fa == a2, f"a copy regenerates differently after {log}", "copies compared")


# -- defaults -----------------------------------------------------------------
def bare(rng):
    """Constructor of a component with as many defaults as possible."""
    k = rng.choice(["cube", "sphere", "swept", "revolved", "composite", "wing", "swept"])
    if rng.random() < 0.1:
        k = "fin"
    if k == "cube":
        return k, lambda: Cube(1.0)
    if k == "sphere":
        return k, lambda: Sphere(1.0)
    if k == "composite":
        return k, lambda: CompositeComponent()
    cls, make, _ = BUILD[k](rng, 1.0)
    drop = rng.random() < 0.6

    def f():
        a = make()
        if drop:
            for n in ("LE_wf", "flap_length", "flap_angle", "pivot_angle", "pivot_point", "offset_func", "rudder_length",
                      "rudder_angle", "stl_resolution", "close_ends"):
                a.pop(n, None)
        return cls(**a)

    return k, f


def state(k):
    renew(k)
    m = meshes(k) if k.patches else None
    return shape(k), m, k.name, k.stl_resolution


def defaults(c):
    rng = c.rng
    kind, f = bare(rng)

    def new():
        k = parts.serial(f())
        k.verbosity = 0
        return k

    if kind in ("fin", "wing"):
        res = lambda k: setattr(k, "stl_resolution", 1)
    else:
        res = lambda k: None
    first = new()
    res(first)
    want = state(first)
    a, b = new(), new()
    res(a), res(b)
    log = []
    if rng.random() < 0.7:
        state(a)
    if kind not in ("cube", "sphere"):
        v = parts.vehicle()
        v.add_component(a, **parts.Options(rng, 1.0, p=0.8).kwargs())
        if kind != "composite":
            v.generate()
    else:
        box = CompositeComponent(verbosity=0)
        box.add_component(a, reflection_axis="x", transformations=[("rotate", 20, "y")])
    log += vary(rng, a, [])
    own(a)
    if kind == "composite":
        a.add_component(Cube(1.0))
    late = new()
    res(late)
    c.note(kind, log)
    for k, what in ((b, "built before"), (late, "built after")):
        c.true(state(k) == want, f"a {kind} {what} differs after {log} on another", "defaults compared")
        c.seen("defaults compared", len(want[0]))


def vehicles(c):
    rng = c.rng
    s = 1.0
    p = parts.cheap(rng, s)

    def new():
        return Vehicle()

    def view(v):
        return (v.name, v.vehicle_angle_offset, fp(v.properties), len(v.components), v.verbosity, fp([v.volume, v.mass, v.cog, v.moi]),
                v.analysis_results, len(v.get_non_ghost_components()), repr(v))

    first = view(new())
    a, b = new(), new()
    a.configure(name=rng.choice([None, "one"]), verbosity=0)
    for _ in range(rng.randint(1, 2)):
        a.add_component(p.build(), **parts.Options(rng, s).kwargs())
    a.add_property("x", 1.0)
    a.add_vehicle_transformations([parts.motion(rng, s)[0]()])
    if rng.random() < 0.5:
        a.analyse_after_generating({k: 2.0 for k in parts.names(a)})
    a.generate()
    log = vary(rng, a, [])
    c.note(p.desc, log)
    for v, what in ((b, "built before"), (new(), "built after")):
        c.true(view(v) == first, f"a vehicle {what} is {view(v)}, was {first}", "defaults compared")
        v.configure(verbosity=0)
        k, z = p.build(), p.build()
        z.generate_patches()
        v.add_component(k)
        v.generate()
        fs = [lambda r, t, q=q: arr(q(r, t)) for q in z.patches.values()]
        parts.compare(c, k, fs, f"a vehicle {what}: component", "defaults compared", rng, n=2, size=10)
        c.true(v.analysis_results is None, "results of another vehicle", "defaults compared")


KINDS = [("arguments", arguments, 240, 1600), ("geometry", geometry, 200, 2000), ("copies", copies, 160, 1600),
         ("defaults", defaults, 90, 900), ("vehicles", vehicles, 60, 500)]
