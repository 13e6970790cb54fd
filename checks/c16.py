"""C16: vehicle pipeline under arbitrary operation histories, against a model of the vehicle."""
import copy
import shutil
import tempfile

import numpy as np

from hypervehicle import Vehicle
from hypervehicle.components import Cube, Sphere
from hypervehicle.transformations import CART3D
from rv import gen, meshlib, parts, ref

SPEC = {
    "level": "exploration",
    "rule": "seeded random histories of adding, generating, meshing, writing, analysing and transforming over random "
            "components and options; a case is distinct by its operations and components",
    "required": {"surface points": 4000, "triangles expected": 3000, "operations": 900, "meshes after a change": 100,
                 "fresh vehicle compared": 60, "refusals observed": 40},
}


class Entry:
    """One component of the modelled vehicle."""

    def __init__(self, p, o, comp):
        self.p, self.o, self.comp = p, o, comp
        self.fs = None  # current surfaces
        self.base = None
        self.res = None  # resolution asked for explicitly since the last change
        self.meshed = False  # a mesh exists
        self.stale = False  # something changed since a mesh existed

    def changed(self):
        self.stale = self.stale or self.meshed
        self.meshed = False
        self.res = None


class Model:
    def __init__(self, c, rng, s, verbosity=0):
        self.c, self.rng, self.s = c, rng, s
        self.v = parts.vehicle(verbosity)
        self.items, self.angle, self.vt, self.generated = [], 0, [], False
        self.log, self.past = [], []
        self.dir = None

    def say(self, *x):
        self.log.append(" ".join(map(str, x)))
        self.c.seen("operations")

    def scratch(self):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix="rv-c16-")
        return self.dir

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)

    # -- operations --------------------------------------------------------
    def add(self):
        rng = self.rng
        p = parts.composite(rng, self.s) if rng.random() < 0.15 else parts.cheap(rng, self.s)
        o = parts.Options(rng, self.s)
        if self.items and rng.random() < 0.2:
            o = rng.choice(self.items).o
        if self.items and rng.random() < 0.2:
            p = rng.choice(self.items).p
        comp = p.build()
        self.v.add_component(comp, **o.kwargs(), ghost=rng.random() < 0.15)
        self.items.append(Entry(p, o, comp))
        self.say("add", p.desc, o.desc)

    def set_angle(self):
        self.angle = self.rng.choice([0, 10, -10, self.rng.uniform(-90, 90), 360, 0.3, -0.02, 1e-3])
        self.v.vehicle_angle_offset = self.angle
        self.say("angle", self.angle)

    def moves(self, n=3):
        if self.rng.random() < 0.1:
            # the package's own list for the Cart3D axes: (x, y, z) -> (-x, -z, -y)
            R = np.array([[-1.0, 0, 0], [0, 0, -1], [0, -1, 0]])
            last = lambda f: (lambda r, t: R @ f(r, t))
            return [(lambda t=t: t, last if i == len(CART3D) - 1 else (lambda f: f), f"cart3d {t}", None) for i, t in enumerate(CART3D)]
        out = []
        for _ in range(self.rng.randint(1, n)):
            # now and then one that was used before
            out.append(self.rng.choice(self.past) if self.past and self.rng.random() < 0.25 else parts.motion(self.rng, self.s))
            self.past.append(out[-1])
        return out

    def add_vt(self):
        m = self.moves(2)
        if len(m) == 1 and self.rng.random() < 0.5:
            self.v.add_vehicle_transformations(m[0][0]())
        else:
            self.v.add_vehicle_transformations([x[0]() for x in m])
        self.vt += m
        self.say("vehicle transformations", [x[2] for x in m])

    def generate(self):
        self.v.generate()
        for e in self.items:
            if e.base is None:
                e.base = parts.predicted(e.p)
            e.changed()
            fs = e.o.apply(e.base, self.angle)
            for m in self.vt:
                fs = [m[1](f) for f in fs]
            e.fs = fs
        self.generated = True
        self.say("generate")

    def transform(self):
        m = self.moves()
        x = [q[0]() for q in m]
        if len(x) == 1 and self.rng.random() < 0.5:
            x = x[0]
        if not self.generated:
            self.say("transform too early")
            self.c.raises(lambda: self.v.transform(x), "transforming a vehicle that was not generated")
            return
        self.v.transform(x)
        for e in self.items:
            if e.fs is not None:
                for q in m:
                    e.fs = [q[1](f) for f in e.fs]
                e.changed()
        self.say("transform", [q[2] for q in m])

    def ready(self):
        return [e for e in self.items if e.fs is not None]

    def move_one(self):
        if not self.ready():
            return
        e = self.rng.choice(self.ready())
        m = parts.motion(self.rng, self.s)
        a = m[0]()
        getattr(e.comp, a[0])(*a[1:])
        e.fs = [m[1](f) for f in e.fs]
        e.changed()
        self.say("move component", self.items.index(e), m[2])

    def read_mesh(self):
        if not self.ready():
            return
        e = self.rng.choice(self.ready())
        e.comp.mesh
        e.meshed = True
        self.say("mesh", self.items.index(e))

    def surface(self):
        if not self.ready():
            return
        e = self.rng.choice(self.ready())
        r = self.rng.choice([None, 1, 2, 4])
        e.comp.surface(resolution=r)
        e.res, e.meshed = r, True
        self.say("surface", self.items.index(e), r)

    def write(self):
        if not self.items or len(self.ready()) < len(self.items):
            return
        self.v.to_stl(prefix=self.scratch() + "/v")
        for e in self.items:
            e.meshed = True
        self.say("write")

    def analyse(self):
        if not self.items or len(self.ready()) < len(self.items):
            return
        self.v.analyse({k: 1.0 + i for i, k in enumerate(parts.names(self.v))})
        for e in self.items:
            e.meshed = True
        self.say("analyse")

    def refuse(self):
        bad = self.rng.choice([lambda: Cube(1.0), lambda: Sphere(1.0), Odd])()
        n = len(self.v.components)
        self.c.raises(lambda: self.v.add_component(bad), "an unsupported component")
        self.c.true(len(self.v.components) == n, "a refused component was added all the same", "refusals observed")
        self.say("refused")

    # -- observation -------------------------------------------------------
    def look(self, e, what="component", n=2):
        i = self.items.index(e)
        parts.compare(self.c, e.comp, e.fs, f"{what} {i}", "surface points", self.rng, n=n, size=self.size())

    def size(self):
        return 30 * self.s

    def look_mesh(self, e, what="mesh of component"):
        i = self.items.index(e)
        if e.stale:
            self.c.seen("meshes after a change")
        res = e.res or e.comp.stl_resolution
        want = parts.expected_mesh(e.fs, res)
        self.c.close(meshlib.tris(e.comp.mesh), want, 1, meshlib.tol(want, 1e-8 * self.size()), f"{what} {i}", "triangles expected")
        e.meshed, e.stale = True, False


class Odd:
    componenttype = "nacelle"
    verbosity = 0
    name = None


OPS = (["add"] * 3 + ["generate"] * 3 + ["transform"] * 2 + ["read_mesh"] * 3 + ["surface", "write", "analyse", "refuse"]
       + ["move_one"] * 2 + ["set_angle", "add_vt"])


def history(c):
    rng = c.rng
    m = Model(c, rng, rng.choice([1.0, 1.0, 10.0, 0.1]), rng.choice([0, 0, 1, 2]))
    try:
        many = rng.random() < 0.06
        most = 13 if many else 4
        for _ in range(11 if many else rng.randint(1, 2)):
            m.add()
        if rng.random() < 0.3:
            m.set_angle()
        if rng.random() < 0.3:
            m.add_vt()
        if rng.random() < 0.7:
            m.generate()
        for _ in range(rng.randint(4, 12)):
            op = rng.choice(OPS)
            if op == "add" and len(m.items) >= most:
                op = "generate"
            getattr(m, op)()
            if m.ready() and rng.random() < 0.4:
                e = rng.choice(m.ready())
                m.look(e)
                if rng.random() < 0.5:
                    m.look_mesh(e)
        for e in m.ready():
            m.look(e)
            m.look_mesh(e)
        c.note("; ".join(m.log)[:8000])
    except BaseException:
        c.note("; ".join(m.log)[:8000])
        raise
    finally:
        m.close()


def fresh(c):
    """After any history, generating gives bit for bit what a fresh vehicle gives."""
    rng = c.rng
    s = rng.choice([1.0, 10.0, 0.1])
    n = rng.randint(1, 3)
    ps = [parts.composite(rng, s) if rng.random() < 0.2 else parts.cheap(rng, s) for _ in range(n)]
    os = [parts.Options(rng, s) for _ in ps]
    angle = rng.choice([0, rng.uniform(-40, 40), rng.choice([0.4, -0.03])])
    vt = [parts.motion(rng, s) for _ in range(rng.randint(0, 2))]

    def make():
        v = parts.vehicle()
        for p, o in zip(ps, os):
            v.add_component(p.build(), **o.kwargs())
        v.vehicle_angle_offset = angle
        if vt:
            v.add_vehicle_transformations([m[0]() for m in vt])
        return v

    a, b = make(), make()
    a.generate()
    want = [np.array(k.mesh.vectors) for k in a.components]
    tmp = tempfile.mkdtemp(prefix="rv-c16-")
    log = []
    try:
        b.generate()
        for _ in range(rng.randint(1, 6)):
            op = rng.choice(["generate", "mesh", "write", "transform", "surface", "analyse", "rotate"])
            log.append(op)
            k = rng.choice(b.components)
            if op == "generate":
                b.generate()
            elif op == "mesh":
                k.mesh
            elif op == "write":
                b.to_stl(prefix=tmp + "/w")
            elif op == "transform":
                b.transform([parts.motion(rng, s)[0]()])
            elif op == "surface":
                k.surface(resolution=rng.choice([1, 3, 4]))
            elif op == "analyse":
                b.analyse({x: 2.0 for x in parts.names(b)})
            else:
                k.rotate(33.0, rng.choice("xyz"))
            c.seen("operations")
        c.note("fresh", [p.desc + " " + o.desc for p, o in zip(ps, os)], angle, [m[2] for m in vt], log)
        b.generate()
        for i, k in enumerate(b.components):
            got = np.array(k.mesh.vectors)
            c.true(got.shape == want[i].shape and np.array_equal(got, want[i]),
                   f"component {i} after {log} differs from a fresh vehicle", "fresh vehicle compared")
        # the first vehicle did not notice
        for i, k in enumerate(a.components):
            c.true(np.array_equal(np.array(k.mesh.vectors), want[i]), f"component {i} of the other vehicle changed", "fresh vehicle compared")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def order(c):
    """Costly components too: the fixed order of options, and options of one never reach another."""
    rng = c.rng
    s = 1.0
    ps = [parts.wing(rng, s, le_type="custom") if rng.random() < 0.5 else parts.fin(rng, s)]
    ps += [parts.cheap(rng, s) for _ in range(rng.randint(0, 2))]
    rng.shuffle(ps)
    os = [parts.Options(rng, s, p=0.7) for _ in ps]
    if rng.random() < 0.3:
        os[rng.randrange(len(os))] = parts.Options(rng, s, only=())
    angle = rng.choice([0, rng.uniform(-40, 40), rng.choice([0.4, -0.03])])
    vt = [parts.motion(rng, s) for _ in range(rng.randint(0, 3))]
    c.note("order", [p.desc + " " + o.desc for p, o in zip(ps, os)], angle, [m[2] for m in vt])
    v = parts.vehicle()
    comps = [p.build() for p in ps]
    for k, o in zip(comps, os):
        v.add_component(k, **o.kwargs())
    v.vehicle_angle_offset = angle
    for m in vt:
        v.add_vehicle_transformations([m[0]()] if rng.random() < 0.5 else m[0]())
    v.generate()
    for i, (p, o, k) in enumerate(zip(ps, os, comps)):
        fs = parts.predicted(p, o, angle)
        for m in vt:
            fs = [m[1](f) for f in fs]
        parts.compare(c, k, fs, f"component {i}", "surface points", rng, n=2, size=30)


def moved_on(c):
    """A component (or its deep copy) used in a second vehicle follows the options given there."""
    rng = c.rng
    s = 1.0
    p = parts.cheap(rng, s)
    first = parts.Options(rng, s, p=0.6)
    then = parts.Options(rng, s, p=0.6)
    while (first.mod and not then.mod) or (first.refl and not then.refl):
        then = parts.Options(rng, s, p=0.8)
    ghost = rng.random() < 0.4
    early = rng.random() < 0.6
    how = rng.choice(["same", "copy"])
    c.note("moved on", p.desc, first.desc, then.desc, ghost, early, how)
    v = parts.vehicle()
    k = p.build()
    v.add_component(k, ghost=ghost, **first.kwargs())
    if early:
        v.generate()
        if rng.random() < 0.5:
            k.mesh
    if how == "copy":
        k = copy.deepcopy(k)
    w = parts.vehicle()
    w.add_component(k, **{"curvatures": [], "transformations": [], **then.kwargs()})
    c.true(list(w.get_non_ghost_components().values()) == [k], "a component added without being a ghost is one", "operations")
    w.generate()
    want = parts.predicted(p, then)
    parts.compare(c, k, want, "in the second vehicle", "surface points", rng, n=3, size=10)
    e = parts.expected_mesh(want, k.stl_resolution)
    c.close(meshlib.tris(k.mesh), e, 1, meshlib.tol(e, 1e-8 * s), "mesh in the second vehicle", "triangles expected")


KINDS = [("history", history, 180, 2000), ("fresh", fresh, 60, 600), ("order", order, 48, 500), ("moved_on", moved_on, 80, 800)]
