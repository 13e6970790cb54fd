"""C10: concurrent meshing against serial meshing, with delayed and failing surfaces."""
import glob
import os
import signal
import tempfile
import time

import numpy as np
import multiprocess.pool

from hypervehicle.geometry.vector import Vector3
from hypervehicle.geometry.surface import ParametricSurface
from hypervehicle.geometry.path import RobertsFunction
from hypervehicle.utilities import surfce_to_stl
from rv import gen, parts
from rv.core import TimeUp

SPEC = {
    "level": "fault_enumeration",
    "rule": "random components of every type meshed by 1 to 8 worker processes with delays put into chosen surfaces, and "
            "with a fault put into each surface (or a chosen evaluation) in turn; a case is distinct by its component, "
            "number of workers, delays and faults",
    "required": {"meshes compared with serial": 60, "faults injected": 40, "faults that reached the caller": 40,
                 "recoveries compared": 30, "worker checks": 100, "workers seen": 100},
    "assumptions": ["a surface fails by raising an exception that can be sent between processes; a worker killed from "
                    "outside is not covered"],
}

HANG_S = 240
WORKERS = [None]  # forced number of workers, None for the default

_init = multiprocess.pool.Pool.__init__


def _forced(self, processes=None, *a, **k):
    _init(self, WORKERS[0] or processes, *a, **k)


multiprocess.pool.Pool.__init__ = _forced


class Fault(Exception):
    pass


class Slow(ParametricSurface):
    """A surface that waits before its first evaluation in each process, and notes who evaluated it."""

    def __init__(self, under, delay, log):
        self.under, self.delay, self.log, self.first = under, delay, log, True

    def __call__(self, r, s):
        if self.first:
            self.first = False
            with open(f"{self.log}/pid-{os.getpid()}", "a"):
                pass
            time.sleep(self.delay)
        return self.under(r, s)

    def __repr__(self):
        return f"{type(self).__name__}({self.under!r})"


class Faulty(ParametricSurface):
    """A surface whose k-th evaluation raises while the flag file exists."""

    def __init__(self, under, flag, k, exc, delay=0.0):
        self.under, self.flag, self.k, self.exc, self.n, self.delay = under, flag, k, exc, 0, delay

    def __call__(self, r, s):
        self.n += 1
        if self.n >= self.k and os.path.exists(self.flag):
            time.sleep(self.delay)
            raise self.exc
        return self.under(r, s)

    def __repr__(self):
        return f"{type(self).__name__}({self.under!r})"


def children():
    """Live (not zombie) processes whose parent is this one."""
    me, out = str(os.getpid()), []
    for p in glob.glob("/proc/[0-9]*/stat"):
        try:
            f = open(p).read().rsplit(")", 1)[1].split()
        except OSError:
            continue
        if f[1] == me and f[0] != "Z":
            out.append(int(p.split("/")[2]))
    return out


def no_workers(c, before):
    """Workers may take a moment to end, but they end."""
    for _ in range(200):
        left = set(children()) - before
        if not left:
            break
        time.sleep(0.1)
    c.true(not left, f"{len(left)} worker processes still running after meshing", "worker checks")


class guard:
    """Interrupt a meshing that never returns."""

    def __enter__(self):
        self.t = False

        def up(*_):
            self.t = True
            raise TimeUp(f"meshing did not return within {HANG_S} s")

        self.old = signal.signal(signal.SIGALRM, up)
        signal.setitimer(signal.ITIMER_REAL, HANG_S)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def parallel(comp):
    comp._multiprocess = True
    return comp


def want(comp, res, clus):
    out = []
    for k, p in comp.patches.items():
        nr, ns = (res, res) if isinstance(res, int) else (comp.patch_res_r[k], comp.patch_res_s[k])
        out.append(surfce_to_stl(parametric_surface=p, triangles_per_edge_r=nr, triangles_per_edge_s=ns, **clus).vectors)
    return np.concatenate(out)


ALLOWED = ("swept", "revolved", "wing", "cube", "sphere", "fin", "composite")


def make(c, allowed=ALLOWED):
    rng = c.rng
    k = rng.choice(allowed)
    res = rng.choice([1, 2])
    if k == "swept" and rng.random() < 0.7:
        a, b = rng.randint(1, 3), rng.randint(1, 3)
        res = {"e0": a, "e2": a, "e1": b, "e3": b, "sweep": rng.randint(1, 4)}
    p = parts.composite(rng, 1.0, n=gen.few(rng, 1, 3, 14, 0.25)) if k == "composite" else parts.KINDS[k](rng, 1.0, res=res)
    if k == "wing":
        p = parts.wing(rng, 1.0, le_type="flat", res=1)
    comp = parallel(p.build())
    clus = {}
    if k != "composite" and rng.random() < 0.3:
        clus = {"i_clustering_func": RobertsFunction(True, False, 1.2)}
        if rng.random() < 0.5:
            clus["j_clustering_func"] = RobertsFunction(False, True, 1.1)
        comp.add_clustering_options(**clus)
    return p, comp, clus


def speeds(c):
    rng = c.rng
    p, comp, clus = make(c, ALLOWED + ("swept", "swept"))
    w = rng.choice([1, 2, 3, 5, 8, None])
    comp.generate_patches()
    if rng.random() < 0.3:
        comp.reflect(rng.choice("xyz"))
    keys = list(comp.patches)
    res = rng.choice([None, 1, 2, 3])
    if isinstance(comp.stl_resolution, dict) and rng.random() < 0.6:
        res = None
    ref = want(comp, res or comp.stl_resolution, clus)
    style = rng.choice(["none", "first", "last", "random", "descending"])
    n = len(keys)
    delay = {"none": [0] * n, "first": [0.15] + [0] * (n - 1), "last": [0] * (n - 1) + [0.15],
             "random": [rng.choice([0, 0, 0.02, 0.08]) for _ in keys],
             "descending": [0.12 * (n - i) / n for i in range(n)]}[style]
    c.note(p.desc[:600], sorted(clus), f"workers={w} delays={style} res={res}")
    before = set(children())
    with tempfile.TemporaryDirectory() as d, guard():
        for k, x in zip(keys, delay):
            comp.patches[k] = Slow(comp.patches[k], x, d)
        WORKERS[0] = w
        try:
            if res:
                comp.surface(resolution=res)
            got = np.array(comp.mesh.vectors)
            if rng.random() < 0.4:  # and again
                comp.surface(**({"resolution": res} if res else {}))
                again = np.array(comp.mesh.vectors)
                c.true(np.array_equal(got, again), "meshing again gives another mesh", "meshes compared with serial")
        finally:
            WORKERS[0] = None
        c.seen("workers seen", len(glob.glob(d + "/pid-*")))
    c.true(got.shape == ref.shape, f"{len(got)} triangles, serial meshing gives {len(ref)}", "meshes compared with serial")
    bad = np.argwhere((got != ref).any(axis=(1, 2)))
    c.true(not len(bad), lambda: f"{len(bad)} triangles differ from serial meshing, first {bad[0]}: {got[bad[0][0]].tolist()} "
                                 f"for {ref[bad[0][0]].tolist()}", "meshes compared with serial")
    no_workers(c, before)
    # the same component meshed without workers
    parts.serial(comp)
    for k in keys:
        comp.patches[k] = comp.patches[k].under
    comp.surface(**({"resolution": res} if res else {}))
    alone = np.array(comp.mesh.vectors)
    c.true(same(alone, ref), f"meshed without workers: {len(alone)} triangles, expected {len(ref)}", "meshes compared with serial")


EXCS = [Fault("injected"), ValueError("injected"), ZeroDivisionError(), FloatingPointError("x"), KeyError("k"),
        IndexError("list index"), StopIteration(), RuntimeError("a", 3), AttributeError("y"), AssertionError(), MemoryError()]


def attempt(c, fn, exc, what):
    """fn must raise exc."""
    c.seen("faults injected")
    try:
        with guard():
            out = fn()
    except Exception as e:
        if not isinstance(e, type(exc)) and not isinstance(exc, StopIteration):
            # another exception type may carry the failure, as long as it names the cause
            t = repr(e) + repr(e.__cause__) + repr(e.__context__)
            c.true(type(exc).__name__ in t or str(exc) in t, f"{what}: {e!r} reached the caller for {exc!r}", "faults that reached the caller")
        else:
            c.seen("faults that reached the caller")
        return None
    c.seen("faults that reached the caller")
    return out if out is not None else "returned"


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def faults(c):
    rng = c.rng
    p, comp, clus = make(c, ("swept", "revolved", "wing", "cube", "sphere", "composite"))
    comp.generate_patches()
    keys = list(comp.patches)
    res = rng.choice([1, 2])
    ref = want(comp, res, clus)
    old_res = 3 - res
    ref_old = want(comp, old_res, clus)
    had = rng.random() < 0.4  # a mesh exists before the failing attempt
    w = rng.choice([1, 2, 3, 8, None])
    late = rng.random() < 0.3
    if rng.random() < 0.3:
        w = None
        comp._multiprocess = False  # one after another
    bad = rng.sample(range(len(keys)), rng.choice([1, 1, 1, 2]) if len(keys) > 1 else 1)
    exc = rng.choice(EXCS)
    k = rng.randint(1, (res + 1) ** 2)  # every vertex is evaluated at least once
    c.note(p.desc[:600], f"workers={w} concurrent={comp._multiprocess} failing={bad} of {len(keys)} at evaluation {k} with {exc!r} late={late} mesh before={had}")
    comp.stl_resolution = res
    before = set(children())
    with tempfile.TemporaryDirectory() as d:
        flag = d + "/fail"
        with open(flag, "w"):
            pass
        WORKERS[0] = w
        try:
            if had:
                with guard():
                    comp.surface(resolution=old_res)
                    if rng.random() < 0.5:
                        comp.mesh
            for i in bad:
                comp.patches[keys[i]] = Faulty(comp.patches[keys[i]], flag, k, exc, 0.1 if late else 0)
            how = rng.choice(["surface", "mesh", "to_stl"]) if not had else "surface"
            out = d + "/out.stl"
            fn = {"surface": comp.surface, "mesh": lambda: comp.mesh, "to_stl": lambda: comp.to_stl(out)}[how]
            for _ in range(rng.choice([1, 1, 2])):
                r = attempt(c, fn, exc, how)
                c.true(r is None, f"{how} of a failing surface returned", "faults that reached the caller")
                c.true(not os.path.exists(out), "an STL file of an incomplete mesh was written")
                no_workers(c, before)
            # whatever can be read now is complete or refused
            try:
                with guard():
                    m = np.array(comp.mesh.vectors)
            except Exception:
                m = None
            c.true(m is None or same(m, ref_old) and had, "an incomplete or mixed mesh is visible after the failure")
            s = comp.surfaces
            if s:
                c.true(had and list(s) == keys, f"surfaces {list(s)} of {keys} are visible after the failure")
            os.remove(flag)
            with guard():
                comp.surface()
                m = np.array(comp.mesh.vectors)
            c.true(same(m, ref), f"mesh after the cause was removed: {len(m)} triangles, expected {len(ref)}", "recoveries compared")
        finally:
            WORKERS[0] = None
    no_workers(c, before)


def through_vehicle(c):
    """A user function fails while a vehicle is written; afterwards writing succeeds."""
    rng = c.rng
    n = rng.randint(1, 3)
    ps = [parts.KINDS[rng.choice(["swept", "revolved"])](rng, 1.0, res=rng.choice([1, 2])) for _ in range(n)]
    j = rng.randrange(n)
    exc = rng.choice(EXCS[:9])
    w = rng.choice([1, 2, None])
    action = rng.choice(["to_stl", "analyse"])
    c.note([p.desc[:300] for p in ps], f"component {j} fails with {exc!r} workers={w} action={action}")
    before = set(children())
    with tempfile.TemporaryDirectory() as d:
        flag = d + "/fail"
        open(flag, "w").close()

        def mod(x, y, z):
            if os.path.exists(flag) and x * x + y * y + z * z > 0.01:
                raise exc
            return Vector3(0.1 * y, 0.0, 0.2)

        v = parts.vehicle(name="ship")
        comps = [p.build() if rng.random() < 0.2 else parallel(p.build()) for p in ps]
        for i, k in enumerate(comps):
            v.add_component(k, name=f"part{i}", **({"modifier_function": mod} if i == j else {}))
        WORKERS[0] = w
        cwd = os.getcwd()
        os.chdir(d)
        try:
            with guard():
                v.generate()
            fn = (lambda: v.to_stl("out")) if action == "to_stl" else (lambda: v.analyse({f"part{i}": 1.0 for i in range(n)}))
            r = attempt(c, fn, exc, action)
            c.true(r is None, f"{action} with a failing function returned", "faults that reached the caller")
            no_workers(c, before)
            os.remove(flag)
            if action == "to_stl":
                with guard():
                    v.to_stl("out")
            for i, k in enumerate(comps):
                with guard():
                    m = np.array(k.mesh.vectors)
                c.true(same(m, want(k, k.stl_resolution, {})), f"mesh of component {i} after the cause was removed",
                       "recoveries compared")
        finally:
            os.chdir(cwd)
            WORKERS[0] = None
    no_workers(c, before)


def each_surface(c):
    """Every surface of one component fails in turn."""
    rng = c.rng
    p, comp, clus = make(c, ("swept", "cube", "revolved", "sphere"))
    w = rng.choice([2, 4, None])
    exc = rng.choice(EXCS)
    if rng.random() < 0.3:
        comp._multiprocess = False
    comp.stl_resolution = 1
    comp.generate_patches()
    keys = list(comp.patches)
    c.note(p.desc[:600], f"workers={w} concurrent={comp._multiprocess} each of {len(keys)} surfaces in turn with {exc!r}")
    ref = want(comp, 1, clus)
    before = set(children())
    with tempfile.TemporaryDirectory() as d:
        flag = d + "/fail"
        WORKERS[0] = w
        try:
            for k in keys:
                open(flag, "w").close()
                good = comp.patches[k]
                comp.patches[k] = Faulty(good, flag, rng.choice([1, 2, 4]), exc)
                r = attempt(c, comp.surface, exc, f"surface {k}")
                c.true(r is None, f"meshing returned although surface {k} failed", "faults that reached the caller")
                os.remove(flag)
                comp.patches[k] = good
            with guard():
                comp.surface()
            c.true(same(np.array(comp.mesh.vectors), ref), "mesh after all failures", "recoveries compared")
        finally:
            WORKERS[0] = None
    no_workers(c, before)


KINDS = [("speeds", speeds, 100, 800), ("faults", faults, 80, 800), ("through_vehicle", through_vehicle, 30, 300),
         ("each_surface", each_surface, 20, 200)]
