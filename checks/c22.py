"""C22: parametric generators and the vehicle library."""
import copy
import json
import os
import subprocess
import sys

import numpy as np

import hypervehicle.hangar as hangar
from hypervehicle import Vehicle
from hypervehicle.generator import Generator
from hypervehicle.geometry import Vector3
from rv import core, parts
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "every vehicle of the library with default, varied and default-valued parameters, built repeatedly, interleaved "
            "with and after manipulation of other vehicles, and in fresh processes; random user generators; a case is "
            "distinct by vehicle, parameters and interleaving",
    "required": {"surface points": 8000, "fresh processes": 10, "overrides applied": 150, "structures compared": 60,
                 "bystander points": 2000},
    "assumptions": ["parameters vary by up to four per cent together, or ten per cent of one alone where the default design allows it"],
}

LIB = ["ParametricD21", "ParametricFalcon9", "ParametricFinner", "ParametricHIFiRE4", "ParametricHIFiRE8", "ParametricHTV",
       "ParametricReFEX", "ParametricWaverider", "ParametricWedge", "ParametricX43"]
POINTS = [(0.1, 0.2), (0.7, 0.4), (0.0, 1.0), (1.0, 0.5)]


def gen(name, kw=None):
    return getattr(hangar, name)(**(kw or {}))


def make(g):
    v = g.create_instance()
    v.verbosity = 0
    for k in v.components:
        k.verbosity = 0
        parts.serial(k)
    return v


def structure(v):
    return [(k.componenttype, k.name, len(k.patches)) for k in v.components]


def prints(v):
    """Every component's surfaces at a few points, and its resolution."""
    return [np.array([arr(p(r, s)) for p in k.patches.values() for r, s in POINTS]) for k in v.components]


def built(name, kw=None):
    v = make(gen(name, kw))
    v.generate()
    return v


def same(c, a, b, what, monitor="surface points"):
    c.true(len(a) == len(b) and all(x.shape == y.shape for x, y in zip(a, b)), f"{what}: structure differs", monitor)
    for i, (x, y) in enumerate(zip(a, b)):
        c.seen(monitor, len(x))
        if not np.array_equal(x, y):
            j = int(np.argwhere(~np.all(x == y, axis=1))[0][0])
            c.fail(f"{what}: component {i}, surface {j // len(POINTS)}: {x[j].tolist()} and {y[j].tolist()}")


def numeric(g):
    """Continuous parameters: public numbers that are neither switches nor resolutions."""
    return {k: x for k, x in vars(g).items() if isinstance(x, (int, float)) and not isinstance(x, bool)
            and "res" not in k and not k.startswith("_")}


def value(rng, x, f):
    return x * (1 + rng.uniform(-f, f)) if x else rng.uniform(-f, f)


def pick(c):
    """Every library vehicle in turn."""
    return LIB[c.index % len(LIB)]


def disturb(c, rng, v):
    """Things users do to some vehicle; none of it may be felt elsewhere."""
    for _ in range(rng.randint(1, 3)):
        op = rng.choice(["transform", "mesh", "again", "angle", "scale", "name"])
        if op == "transform":
            v.transform([parts.motion(rng, 1.0)[0]()])
        elif op == "mesh":
            k = rng.choice(v.components)
            k.surface(resolution=1)
            k.mesh
        elif op == "again":
            v.generate()
        elif op == "angle":
            v.vehicle_angle_offset = 11
            v.generate()
        elif op == "scale":
            k = rng.choice(v.components)
            k.rotate(15, "x")
            k.translate(Vector3(1, 2, 3))
        else:
            v.components[0].name = "renamed"
            v.add_property("p", 3)
            v.add_vehicle_transformations([("rotate", 3, "x")])


def repeat(c):
    """Same parameters, same geometry, whatever happened in between."""
    rng = c.rng
    name = pick(c)
    others = [rng.choice(LIB) for _ in range(rng.randint(0, 2))] + ([name] if rng.random() < 0.6 else [])
    kw = {}
    g0 = gen(name)
    P = numeric(g0)
    if rng.random() < 0.5:
        for k in rng.sample(sorted(P), rng.randint(1, min(3, len(P)))):
            kw[k] = value(rng, P[k], 0.04)
    c.note("repeat", name, kw, others)
    early = gen(name, dict(kw)) if rng.random() < 0.5 else None
    v1 = built(name, dict(kw))
    first = prints(v1)
    st = structure(v1)
    for o in others:
        okw = {}
        og = gen(o)
        for k, x in numeric(og).items():
            if rng.random() < 0.3:
                okw[k] = value(rng, x, 0.04)
        w = built(o, okw)
        disturb(c, rng, w)
    if rng.random() < 0.5:
        disturb(c, rng, v1)
    v2 = make(early) if early is not None else make(gen(name, dict(kw)))
    v2.generate()
    c.true(structure(v2) == st, f"structure {structure(v2)}, before {st}", "structures compared")
    same(c, prints(v2), first, f"{name} built again")
    if rng.random() < 0.5:
        # two vehicles of one generator
        g = gen(name, dict(kw))
        a, b = make(g), make(g)
        a.generate()
        if rng.random() < 0.5:
            disturb(c, rng, a)
        b.generate()
        same(c, prints(b), first, f"second vehicle of one generator of {name}")


def overrides(c):
    rng = c.rng
    name = pick(c)
    g0 = gen(name)
    P = numeric(g0)
    ref = prints(built(name))
    # 1. default values given explicitly change nothing
    kw = {k: P[k] for k in rng.sample(sorted(P), rng.randint(1, len(P)))}
    c.note("overrides", name, "defaults", sorted(kw))
    keep = dict(kw)
    same(c, prints(built(name, kw)), ref, f"{name} with default values given")
    c.true(kw == keep, "given parameters changed", "overrides applied")
    # 2. a given value is what the vehicle is built from; others keep their defaults
    k = rng.choice(sorted(P))
    val = rng.choice([value(rng, P[k], 0.04), value(rng, P[k], 0.04), 0 if "angle" in k else value(rng, P[k], 0.02)])
    c.note(k, val)
    a = gen(name, {k: val})
    c.true(getattr(a, k) == val, f"{name}({k}={val}) has {k}={getattr(a, k)}", "overrides applied")
    for q, x in P.items():
        if q != k:
            c.true(getattr(a, q) == x, f"{name}({k}={val}) changed {q} to {getattr(a, q)}", "overrides applied")
    b = gen(name)
    c.true(getattr(b, k) == P[k], f"default of {k} became {getattr(b, k)} after giving it to another generator", "overrides applied")
    setattr(b, k, val)
    va, vb = make(a), make(b)
    va.generate()
    vb.generate()
    same(c, prints(va), prints(vb), f"{name}({k}={val}) against setting the same parameter")
    # 3. the override stays with its instance
    same(c, prints(built(name)), ref, f"{name} after one with {k}={val}", "bystander points")


def vary(c):
    """Structure and finiteness under moderate variation."""
    rng = c.rng
    name = pick(c)
    P = numeric(gen(name))
    if rng.random() < 0.5:
        k = rng.choice(sorted(P))
        f = 0.04 if name == "ParametricWaverider" else 0.10
        kw = {k: value(rng, P[k], f)}
    else:
        kw = {k: value(rng, x, 0.04) for k, x in P.items()}
    c.note("vary", name, kw)
    base, v = built(name), built(name, kw)
    c.true(structure(v) == structure(base), f"{name}: structure {structure(v)}, default {structure(base)}", "structures compared")
    fp = prints(v)
    for i, x in enumerate(fp):
        c.true(np.all(np.isfinite(x)), f"{name}: component {i} has points that are not finite", "surface points")
        c.seen("surface points", len(x))
    ext = max(float(np.max(np.abs(x))) for x in prints(base))
    for i, (x, y) in enumerate(zip(fp, prints(base))):
        c.true(float(np.max(np.abs(x - y))) < ext, f"{name}: component {i} moved by {np.max(np.abs(x - y))} under {kw}", "surface points")
    if rng.random() < 0.3:
        k = rng.choice(v.components)
        k.surface(resolution=rng.choice([1, 2]))
        c.true(np.all(np.isfinite(k.mesh.vectors)), f"{name}: mesh not finite", "surface points")


SCALE = {"ParametricFalcon9": ["D", "L_b", "h", "r_n", "r_o", "f_L"],
         "ParametricWedge": ["wingspan", "chord", "thickness"]}


def scaled(c):
    """Vehicles made of lengths alone scale with them."""
    rng = c.rng
    name = rng.choice(sorted(SCALE))
    f = rng.choice([2.0, 0.5, rng.uniform(0.3, 4)])
    P = numeric(gen(name))
    kw0 = {k: value(rng, P[k], 0.04) for k in SCALE[name]}
    c.note("scaled", name, f, kw0)
    a, b = prints(built(name, kw0)), prints(built(name, {k: f * x for k, x in kw0.items()}))
    for i, (x, y) in enumerate(zip(a, b)):
        c.close(y, f * x, f * float(np.max(np.abs(x))), 1e-6, f"{name} scaled by {f}: component {i}", "surface points")


WEDGE = ["wingspan", "chord", "thickness"]


def wedge(c):
    """The wedge has a closed form: four edges of a diamond swept over the span."""
    rng = c.rng
    w, h, t = (rng.choice([1, 2.5, rng.uniform(0.2, 5)]) for _ in range(3))
    c.note("wedge", w, h, t)
    v = built("ParametricWedge", {"wingspan": w, "chord": h, "thickness": t})
    Q = [np.array(x) for x in ((0, t / 2, 0), (-h / 2, 0, 0), (0, -t / 2, 0), (h / 2, 0, 0))]
    fs = parts.fns(v.components[0])
    for i in range(4):
        for r, s in POINTS:
            want = (1 - s) * Q[i] + s * Q[(i + 1) % 4] + np.array([0, 0, w * (r - 0.5)])
            c.close(fs[i](r, s), want, w + h + t, 1e-9, f"side {i} of the wedge at ({r}, {s})", "surface points")


def fresh(c):
    """A vehicle built in a fresh process, and here after others, is the same."""
    rng = c.rng
    name = pick(c)
    P = numeric(gen(name))
    kw = {k: value(rng, P[k], 0.04) for k in rng.sample(sorted(P), rng.randint(0, 2))}
    before = [rng.choice(LIB)]
    c.note("fresh", name, kw, before)
    code = ("import sys, json; sys.path.insert(0, %r); from rv import core; core.setup_import()\n"
            "import contextlib, io\n"
            "from checks import c22\n"
            "with contextlib.redirect_stdout(io.StringIO()):\n"
            "    x = c22.prints(c22.built(%r, %r))\n"
            "print('RESULT' + json.dumps([[[v.hex() for v in p] for p in k.tolist()] for k in x]))\n") % (core.VERIF, name, kw)
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1000)))
    out = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=env, timeout=600)
    line = [l for l in out.stdout.splitlines() if l.startswith("RESULT")]
    c.true(len(line) == 1, f"{name} could not be built in a fresh process: {out.stderr[-500:]}", "fresh processes")
    want = [np.array([[float.fromhex(v) for v in p] for p in k]) for k in json.loads(line[0][6:])]
    for o in before:
        disturb(c, rng, built(o))
    same(c, prints(built(name, kw)), want, f"{name} here and in a fresh process")


def user(c):
    """Generators written by users: overrides of every kind of value, per instance."""
    rng = c.rng
    names = rng.sample(["a", "b", "width", "flag", "items", "items_copy", "name", "fn"], rng.randint(2, 5))
    vals = [0, 0.0, None, False, True, "", "text", 3, -2.5, [], [1, 2], {}, {"k": 1}, Vector3(1, 2, 3), len, np.arange(3)]
    default = {n: rng.choice(vals) for n in names}

    # defaults may be written in the constructor, in the class or in a class it extends
    where = {n: rng.choice(["constructor", "constructor", "class", "parent"]) for n in names}

    class P(Generator):
        pass

    class U(P):
        def __init__(self, **kw):
            for n, x in default.items():
                if where[n] == "constructor":
                    setattr(self, n, x)
            super().__init__(**kw)

        def create_instance(self):
            return Vehicle()

    for n, w in where.items():
        if w != "constructor":
            # staticmethod: a function is a value here, not a method
            setattr(U if w == "class" else P, n, staticmethod(default[n]) if callable(default[n]) else default[n])
    kw = {n: rng.choice(vals) for n in rng.sample(names, rng.randint(1, len(names)))}
    extra = {"another": rng.choice(vals)} if rng.random() < 0.4 else {}
    c.note("user", sorted(where.items()), sorted((k, repr(x)) for k, x in default.items()), sorted((k, repr(x)) for k, x in {**kw, **extra}.items()))
    first = U()
    given = {**kw, **extra}
    u = U(**given)
    last = U()
    for n in names:
        c.true(getattr(u, n) is kw.get(n, default[n]) if n in kw else getattr(u, n) is default[n], f"{n} is {getattr(u, n)!r}", "overrides applied")
        for o in (first, last):
            c.true(getattr(o, n) is default[n], f"{n} of another generator became {getattr(o, n)!r}", "overrides applied")
    for n in extra:
        c.true(getattr(u, n) is extra[n], f"{n} is {getattr(u, n)!r}", "overrides applied")


KINDS = [("repeat", repeat, 40, 300), ("overrides", overrides, 40, 300), ("vary", vary, 80, 600), ("scaled", scaled, 24, 100),
         ("wedge", wedge, 24, 100), ("fresh", fresh, 20, 100), ("user", user, 60, 300)]
