"""C28: a vehicle's records and descriptions."""
import random
import re

import numpy as np

from hypervehicle.components.common import OgiveNose
from hypervehicle.components import Cube, Sphere
from rv import gen, parts
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random histories of adding, refusing, naming, renaming, generating and recording properties, with the records "
            "read at random moments; random curves and surfaces described at random moments; a case is distinct by its history",
    "required": {"records compared": 1500, "descriptions read": 1500, "analysed names": 200, "refusals observed": 100, "values after a description": 3000},
    "assumptions": ["names given to the components of a vehicle differ from each other and from the generated ones"],
}


class Other:
    componenttype = "nacelle"
    verbosity = 0
    name = None


def history(c):
    rng = c.rng
    v = parts.vehicle()
    title = rng.choice([None, "craft", "X-43 A"])
    if title:
        v.configure(name=title, verbosity=0)
    title = title or "vehicle"
    have, props, log, generated = [], {}, [], False  # (component, name, ghost)
    count = {}

    def add():
        p = parts.cheap(rng, 1.0, res=1) if rng.random() < 0.8 else parts.composite(rng, 1.0, n=1)
        own = rng.choice([None, None, f"own {len(have)}", f"Own {len(have)} "])
        k = p.build(**({"name": own} if own else {}))
        given = rng.choice([None, None, f"given {len(have)}", f" Gi/ven.{len(have)}\t"])
        ghost = rng.random() < 0.3
        if rng.random() < 0.1:  # it was part of another vehicle
            parts.vehicle().add_component(k, ghost=True)
        kw = {} if not ghost and rng.random() < 0.5 else {"ghost": ghost}
        v.add_component(k, **({"name": given} if given else {}), **kw)
        count[k.componenttype] = count.get(k.componenttype, 0) + 1
        have.append((k, given or own or f"{k.componenttype}_{count[k.componenttype]}", ghost, given or own))
        log.append(("add", p.kind, own, given, ghost))

    def refuse():
        c.raises(lambda: v.add_component(rng.choice([Other, lambda: Cube(1.0), lambda: Sphere(1.0)])(), name="no"), "an unsupported component")
        c.seen("refusals observed")
        log.append(("refused",))

    def prop():
        n, x = rng.choice(["range", "mass ratio", "q"]), rng.choice([1, 2.5, -rng.random()])
        v.add_property(n, x)
        props[n] = x
        log.append(("property", n))

    def rename():
        nonlocal title
        title = rng.choice(["craft", "b", "wing thing"])
        v.configure(name=title, verbosity=0)
        log.append(("name", title))

    def generate():
        nonlocal generated
        if have:
            v.generate()
            generated = True
            log.append(("generate",))

    def analyse():
        if not have:
            return
        v.generate()
        rho = {n: rng.uniform(1, 2) for _, n, _, _ in have}
        v.analyse(rho)
        for q in ("mass", "volume", "area"):
            d = v.component_properties[q]
            c.true(list(d) == [n for _, n, _, _ in have], f"{q} reported for {list(d)}", "analysed names")
        for k, n, _, _ in have:
            # the density given under a name reaches the component of that name
            c.close(v.component_properties["mass"][n], rho[n] * v.component_properties["volume"][n],
                    abs(v.component_properties["volume"][n]), 1e-9, f"mass of {n}", "analysed names")
        log.append(("analyse",))

    def records():
        c.true(len(v.components) == len(have) and all(a is b for a, (b, *_) in zip(v.components, have)), f"components {v.components}", "records compared")
        d = v.get_non_ghost_components()
        want = [(n, k) for k, n, g, _ in have if not g]
        c.true(list(d) == [n for n, _ in want] and all(d[n] is k for n, k in want), f"components to be written {list(d)}, expected {[n for n, _ in want]}", "records compared")
        d.clear()  # the caller's own copy
        c.true(len(v.get_non_ghost_components()) == len(want), "clearing the returned listing changed the vehicle", "records compared")
        c.true(dict(v.properties) == props, f"properties {v.properties}, expected {props}", "records compared")
        for k, _, _, tag in have:
            c.true(k.name == tag, f"component called {k.name}, expected {tag}", "records compared")

    def text():
        s, r = str(v), repr(v)
        c.true(title in s and title in r, f"{s!r} does not name {title!r}", "descriptions read")
        rest = s.replace(title, "", 1)
        nums = [int(x) for x in re.findall(r"\d+", rest)]
        c.true(nums == ([len(have)] if have else []), f"{s!r} for {len(have)} components", "descriptions read")
        if have:
            tail = r.replace(title, "", 1)
            for t, n in count.items():
                m = re.findall(r"(\d+) " + re.escape(t) + r"\b", tail)
                c.true(m == [str(n)], f"{r!r} for {n} of {t}", "descriptions read")
        else:
            c.true("no components" in r, f"{r!r} for an empty vehicle", "descriptions read")
        for k, _, _, tag in have:
            c.true((tag or k.componenttype) in str(k) and k.componenttype in repr(k) and (not tag or tag in repr(k)),
                   f"{str(k)!r}, {repr(k)!r} for a {k.componenttype} called {tag}", "descriptions read")

    ops = [add] * 4 + [refuse, prop, prop, rename, generate, analyse] + [records] * 2 + [text] * 2
    try:
        if rng.random() < 0.7:
            add()
        text()
        most = gen.few(rng, 6, 6, 24, 0.1)
        for _ in range(rng.randint(5, 14) if most == 6 else 3 * most):
            op = rng.choice(ops)
            if op is add and len(have) >= most:
                op = text
            op()
            if rng.random() < 0.3:
                records()
        records()
        text()
    finally:
        c.note(log)


def nose(rng):
    h = rng.uniform(0.5, 1)
    return parts.Part("ogive", lambda **kw: OgiveNose(**{"h": h, "r_n": 0.2 * h, "r_o": 3 * h, "L_o": 1.0, "stl_resolution": 2, **kw}), f"nose {h}", 2)


def objects(c):
    """Describing a curve, surface or vector never fails and never changes it."""
    rng = c.rng
    seed = rng.getrandbits(60)
    k = rng.choice(["path", "path", "surface", "vector", "component"])
    c.note(k, seed)
    make = {"path": lambda r: gen.path(r, 1.0, 2), "surface": lambda r: gen.surface(r, 1.0, 2),
            "vector": lambda r: gen.point(r), "component": lambda r: parts.part(r, 1.0, ("swept", "revolved", "wing", "cube", "sphere", "fin")) if r.random() < 0.85 else nose(r)}[k]
    a, b = make(random.Random(seed)), make(random.Random(seed))
    if k == "vector":
        for x in (str(a), repr(a)):
            c.true(isinstance(x, str) and x != "", "description of a vector", "descriptions read")
            got = [float(q) for q in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", re.sub(r"Vector3|np\.float64", "", x))]
            c.close(got[-3:], arr(b), 1, 1e-3, f"numbers in {x!r}", "values after a description")
        c.close(arr(a), arr(b), 1, 0, "vector after a description", "values after a description")
        return
    if k == "component":
        tag = rng.choice([None, "part", "left, 2"])
        A, B = a.build(**({"name": tag} if tag else {})), b.build()
        c.true(A.name == tag and B.name is None, f"components called {A.name} and {B.name}, expected {tag} and None", "records compared")
        for x in (str(A), repr(A)):
            c.true(not tag or tag in x, f"{x!r} for a component called {tag}", "descriptions read")
        for x in (str(B), repr(A)):
            c.true(A.componenttype in x or a.kind in x.lower(), f"{x!r} for a {A.componenttype}", "descriptions read")
        A.generate_patches()
        B.generate_patches()
        pts = [(0.2, 0.6)]
        for p in A.patches.values():
            c.true(repr(p) != "" and str(p) != "", "description of a patch", "descriptions read")
        for f, g in zip(parts.fns(A), parts.fns(B)):
            for r, s in pts:
                c.close(f(r, s), g(r, s), 1, 0, "patch after a description", "values after a description")
        return
    c.true(str(a.real) != "" and repr(a.real) != "", f"description of {a.desc}", "descriptions read")
    for _ in range(4):
        u = (gen.tvalue(rng),) if k == "path" else (gen.tvalue(rng), gen.tvalue(rng))
        c.true(repr(a.real) == repr(a.real), "describing twice", "descriptions read")
        c.close(arr(a.real(*u)), arr(b.real(*u)), 1, 0, f"{a.desc} at {u} after a description", "values after a description")


KINDS = [("history", history, 160, 1600), ("objects", objects, 400, 4000)]
