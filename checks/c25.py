"""C25: the amount of output asked for changes nothing but the output."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import numpy as np

from hypervehicle.components import CompositeComponent
from hypervehicle.utilities import SensitivityStudy, append_sensitivities_to_tri, merge_stls
from rv import parts, watch
from checks import c19, c20

SPEC = {
    "level": "exploration",
    "rule": "seeded random vehicles with the same history, studies and files at every output level; a case is distinct by "
            "its components, options, history and levels",
    "required": {"results compared": 800, "files compared": 250, "silent operations": 400, "studies compared": 20,
                 "surface files compared": 40},
    "assumptions": ["components are meshed by worker processes, as by default, where silence is claimed",
                    "the components made by a generator ask for no output of their own where silence is claimed of a study"],
}


@contextlib.contextmanager
def output():
    """Everything written to standard output inside the block, by this process or a child."""
    got = [""]
    f = tempfile.TemporaryFile()
    sys.stdout.flush()
    old = os.dup(1)
    text = io.StringIO()
    os.dup2(f.fileno(), 1)
    try:
        with contextlib.redirect_stdout(text):
            yield got
    finally:
        os.dup2(old, 1)
        os.close(old)
        f.seek(0)
        got[0] = text.getvalue() + f.read().decode(errors="replace")
        f.close()


def content(root):
    """Relative path -> what the file says (the header of a binary mesh carries a date)."""
    out = {}
    for d, _, fs in os.walk(root):
        for x in fs:
            p = os.path.join(d, x)
            with open(p, "rb") as f:
                b = f.read()
            out[os.path.relpath(p, root)] = b[80:] if x.endswith(".stl") else b
    return out


def flat(x):
    """A nested result as a list of arrays and plain values."""
    if isinstance(x, dict):
        return [y for k in x for y in [str(k)] + flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    if hasattr(x, "columns"):
        return [[str(k) for k in x.columns], x.to_numpy()]
    return [np.asarray(x)] if x is not None else ["none"]


def equal(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, (str, list)):
            if type(x) is not type(y) or x != y:
                return False
        elif np.shape(x) != np.shape(y) or not np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(x).dtype.kind == "f"):
            return False
    return True


def sample(v):
    return [np.array([f(r, s) for f in parts.fns(k) for r, s in ((0, 0), (0.3, 0.7), (1, 1), (0.5, 0.25))]) for k in v.components]


def history(c):
    rng = c.rng
    s = rng.choice([1.0, 10.0])
    ps = [parts.composite(rng, s, n=2) if rng.random() < 0.25 else parts.fin(rng, s, res=1) if rng.random() < 0.1
          else parts.cheap(rng, s, res=rng.choice([1, 2])) for _ in range(rng.randint(1, 3))]
    os_ = [parts.Options(rng, s) for _ in ps]
    ghosts = [rng.random() < 0.15 for _ in ps]
    nm = [rng.choice([None, None, f"part {i}"]) for i in range(len(ps))]
    angle = rng.choice([0, rng.uniform(-40, 40)])
    vt = [parts.motion(rng, s) for _ in range(rng.randint(0, 2))]
    own = [rng.choice([0, 1, 2, 3]) for _ in ps]
    extra = [rng.choice(["write", "mesh", "transform", "analyse", "generate", "after", "property", "text", "surface", "merge"]) for _ in range(rng.randint(2, 5))]
    ops = ["add", "generate"] + extra
    moves = [parts.motion(rng, s) for _ in ops]
    pick = [rng.random() for _ in ops]
    levels = [0] + sorted(rng.sample([1, 2, 3], 2))
    pool = rng.random() < 0.5
    c.note([p.desc + " " + o.desc for p, o in zip(ps, os_)], ghosts, nm, angle, [m[2] for m in vt], own, ops, levels, f"pool={pool}")

    def run(level, root):
        v = parts.vehicle(level, name="craft")
        got, said = [], []
        for i, op in enumerate(ops):
            with output() as text:
                r = None
                if op == "add":
                    for p, o, g, n, w in zip(ps, os_, ghosts, nm, own):
                        k = p._ctor(verbosity=w) if level == 0 and pool else parts.serial(p._ctor(verbosity=w))
                        v.add_component(k, name=n, ghost=g, **o.kwargs())
                    v.vehicle_angle_offset = angle
                    if vt:
                        v.add_vehicle_transformations([m[0]() for m in vt])
                elif op == "generate":
                    v.generate()
                    r = sample(v)
                elif op == "write":
                    r = v.to_stl(prefix=rng_choice(pick[i], [None, "w", "sub/w"]))
                elif op == "merge":
                    with watch.stub_pymesh() as log:
                        v.to_stl(prefix="m", merge=True)
                    r = str(log).replace(root, "")
                elif op == "mesh":
                    r = [np.array(k.mesh.vectors) for k in v.components]
                elif op == "surface":
                    k = v.components[int(pick[i] * len(v.components))]
                    r = k.surface(resolution=rng_choice(pick[i], [None, 1, 3]))
                elif op == "transform":
                    v.transform([moves[i][0]()])
                    r = sample(v)
                elif op == "analyse":
                    r = v.analyse({n: 1.0 + j for j, n in enumerate(parts.names(v))})
                elif op == "after":
                    v.analyse_after_generating({n: 2.0 + j for j, n in enumerate(parts.names(v))})
                elif op == "property":
                    v.add_property("range", pick[i])
                else:
                    r = str(v) + repr(v) + "".join(str(k) + repr(k) for k in v.components)
            got.append([r] if isinstance(r, str) else flat(r))
            said.append(text[0])
        got.append(flat(sample(v)) + flat(v.properties) + flat(v.analysis_results or {}))
        return got, said

    base = None
    for level in levels:
        root = tempfile.mkdtemp(prefix="rv-c25-")
        os.mkdir(os.path.join(root, "sub"))
        try:
            with watch.cwd(root):
                got, said = run(level, root)
            files = content(root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        if level == 0:
            base = got, files
            if pool:
                for op, t in zip(ops, said):
                    c.true(t == "", f"output at level 0 during {op}: {t[:200]!r}", "silent operations")
            else:
                for op, t in zip(ops, said):
                    if op in ("add", "text", "property", "after") or (op == "transform"):
                        c.true(t == "", f"output at level 0 during {op}: {t[:200]!r}", "silent operations")
            continue
        for i, (a, b) in enumerate(zip(base[0], got)):
            c.true(equal(a, b), f"{(ops + ['final state'])[i]} differs between levels 0 and {level}", "results compared")
        c.true(sorted(files) == sorted(base[1]), f"files {sorted(set(files) ^ set(base[1]))} at one of levels 0 and {level}", "files compared")
        for f in files:
            c.true(files[f] == base[1][f], f"{f} differs between levels 0 and {level}", "files compared")


def alone(c):
    """A component made for no output is silent on its own, with everything put into it."""
    rng = c.rng
    p = parts.composite(rng, 1.0, n=rng.randint(1, 3)) if rng.random() < 0.6 else parts.cheap(rng, 1.0, res=1)
    c.note("alone", p.desc)
    got = []
    for level in (0, rng.choice([1, 2, 3])):
        with output() as text:
            if p.kind == "composite":
                k = CompositeComponent(stl_resolution=1, verbosity=level)
                for kid, o in zip(p.kids, p.opts):
                    k.add_component(kid._ctor(verbosity=rng.choice([0, 1, 2, 3])), **o.kwargs())
            else:
                k = p._ctor(verbosity=level)
            if level:
                parts.serial(k)
            k.generate_patches()
            if rng.random() < 0.5:
                k.rotate(20, "x")
                k.rotate(-20, "x")
            got.append(np.array(k.mesh.vectors))
        if level == 0:
            c.true(text[0] == "", f"output of a silent component: {text[0][:200]!r}", "silent operations")
    c.true(got[0].shape == got[1].shape and np.allclose(got[0], got[1], rtol=0, atol=1e-5), f"{p.kind} differs between levels", "results compared")


def rng_choice(u, xs):
    return xs[int(u * len(xs))]


def study(c):
    rng = c.rng
    fam = c19.Family(rng)
    val = {n: rng.choice([1.0, 2, -1.5]) for n in fam.params}
    over = {n: 1.5 for n in fam.over}
    levels = [0] + rng.sample([1, 2], 1)
    vl = [rng.choice([0, 1, 2, 3]) for _ in levels]
    c.note(fam.params, val, over, [(q["kind"], q["name"], q["ghost"], q["res"]) for q in fam.comps], levels, vl)
    make = fam.vehicle
    res = []
    for level, w in zip(levels, vl):
        def vehicle(x, w=w):
            v = make(x)
            v.verbosity = w
            return v
        fam.vehicle = vehicle
        root = tempfile.mkdtemp(prefix="rv-c25-")
        try:
            with watch.cwd(root):
                S = SensitivityStudy(fam.Gen, verbosity=level)
                with output() as text:
                    ret = S.dvdp(val, overrides=over, perturbation=7)
                with output() as t2:
                    S.to_csv(outdir="out")
            files = content(root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        res.append((flat(ret) + flat(S.component_sensitivities) + flat(S.scalar_sensitivities or {}) + flat(S.property_sensitivities or {}), files))
        if level == 0:
            said = "".join(l for l in (text[0] + t2[0]).splitlines(True) if "Creating stl for" not in l)  # in-process meshing
            c.true(said == "", f"output of a silent study: {said[:200]!r}", "silent operations")
    c.true(equal(res[0][0], res[1][0]), f"study results differ between levels {levels}", "studies compared")
    c.true(res[0][1] == res[1][1], f"study files differ between levels {levels}: {sorted(f for f in set(res[0][1]) | set(res[1][1]) if res[0][1].get(f) != res[1][1].get(f))}",
           "files compared")


def surface_file(c):
    rng = c.rng
    params = rng.sample(["w", "L_b", "span"], rng.choice([1, 2]))
    n = rng.choice([3, 10, 40])
    P = c.np.uniform(-1, 1, (n, 3))
    S = c.np.normal(size=(n, 3 * len(params)))
    pts = [P[rng.randrange(n)] + rng.choice([0, 1e-7, 3.0]) for _ in range(rng.choice([1, 5, 120]))]
    c.note("surface file", params, n, len(pts), rng.random())
    st = rng.getstate()
    res = []
    for level in (0, 1, 2, 3):
        root = tempfile.mkdtemp(prefix="rv-c25-")
        try:
            rng.setstate(st)
            c20.table(rng, params, P, S).to_csv(os.path.join(root, "a_sensitivity.csv"), index=False)
            c20.tri_file(os.path.join(root, "Components.i.tri"), pts, rng, "%.17e")
            with watch.cwd(root), output() as text:
                r = append_sensitivities_to_tri(["a_sensitivity.csv"], verbosity=level)
            res.append((r, content(root)))
        finally:
            shutil.rmtree(root, ignore_errors=True)
        if level == 0:
            c.true(text[0] == "", f"output of silent matching: {text[0][:200]!r}", "silent operations")
        c.true(res[-1] == res[0], f"matching differs between levels 0 and {level}", "surface files compared")


def merging(c):
    rng = c.rng
    files = [f"f{i}.stl" for i in range(rng.randint(1, 4))]
    name = rng.choice([None, "all"])
    c.note("merge", files, name)
    res = []
    for level in (0, 1, 2):
        root = tempfile.mkdtemp(prefix="rv-c25-")
        try:
            with watch.cwd(root), watch.stub_pymesh() as log, output() as text:
                merge_stls(files, name=name, verbosity=level)
            res.append([tuple(x.replace(root, "") if isinstance(x, str) else str(x).replace(root, "") for x in e) for e in log])
        finally:
            shutil.rmtree(root, ignore_errors=True)
        if level == 0:
            c.true(text[0] == "", f"output of silent merging: {text[0][:200]!r}", "silent operations")
        c.true(res[-1] == res[0] and res[0], f"merging differs between levels 0 and {level}", "surface files compared")


KINDS = [("alone", alone, 24, 200), ("history", history, 120, 1000), ("study", study, 30, 300), ("surface_file", surface_file, 24, 240), ("merging", merging, 12, 60)]
