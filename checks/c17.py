"""C17: files written for a vehicle."""
import os
import shutil
import struct
import tempfile

import numpy as np
import pandas as pd

from rv import gen, meshlib, parts, watch

SPEC = {
    "level": "exploration",
    "rule": "seeded random vehicles of named, unnamed and ghost components written with random prefixes and names, with "
            "and without results, once or repeatedly, in a scratch directory with bystander files; a case is distinct by "
            "components, names, prefix and history",
    "required": {"files compared": 400, "triangles read back": 2000, "directories compared": 150, "writes audited": 300,
                 "property values read back": 500, "merges watched": 30},
    "assumptions": ["component names distinct within a vehicle", "pymesh is replaced by a recording stand-in"],
}


def read_stl(path):
    b = open(path, "rb").read()
    n = struct.unpack("<I", b[80:84])[0]
    if len(b) != 84 + 50 * n:
        return None, None
    d = np.frombuffer(b[84:], dtype=np.dtype([("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")]), count=n)
    return np.array(d["v"]), np.array(d["n"])


NAMES = ["wing", "left fin", "body.v2", "nose-cone", "a_b", "Fin", "tail", "é", "stl", "engine.stl"] + [f"part {i}" for i in range(9, 60)]


class Scene:
    """A vehicle with known names in a scratch directory."""

    def __init__(self, rng, c):
        self.rng, self.c = rng, c
        n = gen.few(rng, 1, 5, 24)
        self.v = parts.vehicle(verbosity=rng.choice([0, 0, 1, 2]))
        self.vname = rng.choice([None, "X-1", "my vehicle", "v.2"])
        if self.vname:
            self.v.configure(name=self.vname, verbosity=self.v.verbosity)
        free = rng.sample(NAMES, len(NAMES))
        self.rows, self.desc = [], []
        counts = {}
        for _ in range(n):
            p = parts.composite(rng, 1.0, n=1, options=False, res=2) if rng.random() < 0.1 else rng.choice([parts.swept, parts.revolved, parts.swept])(rng, 1.0, res=rng.choice([2, 3]))
            ghost = rng.random() < 0.25
            how = rng.choice(["none", "none", "add", "ctor", "both"])
            name, kw, kb = None, {}, {}
            if how in ("ctor", "both"):
                name = kb["name"] = free.pop()
            if how in ("add", "both"):
                name = kw["name"] = free.pop() if how == "add" else rng.choice([free.pop(), name])
            o = parts.Options(rng, 1.0, only=("transformations",), rigid=True, p=0.3)
            comp = p.build(**kb)
            self.v.add_component(comp, ghost=ghost, **kw, **o.kwargs())
            t = comp.componenttype
            no = counts.get(t, 0)
            counts[t] = no + 1
            self.rows.append((comp, name, t, no, ghost))
            self.desc.append(f"{p.kind} name={name} by {how} ghost={ghost}")

    def file(self, prefix, name, t, no):
        v = self.vname or "vehicle"
        if prefix:
            return f"{prefix}-{name}.stl" if name else f"{prefix}-{t}-{no}.stl"
        return f"{name}.stl" if name else f"{v}-{t}-{no}.stl"

    def expected(self, prefix):
        return [(self.file(prefix, n, t, no), comp) for comp, n, t, no, g in self.rows if not g]

    def ghosts(self, prefix):
        return [self.file(prefix, n, t, no) for comp, n, t, no, g in self.rows if g]


def contents(c, path, comp, what):
    v, nrm = read_stl(path)
    c.true(v is not None, f"{what}: not a binary STL file", "files compared")
    want = np.array(comp.mesh.vectors, dtype=np.float32)
    c.true(v.shape == want.shape and np.array_equal(v, want), f"{what}: triangles differ from the component's mesh", "files compared")
    c.seen("triangles read back", len(v))
    a = v.astype(float)
    x = np.cross(a[:, 1] - a[:, 0], a[:, 2] - a[:, 0])
    L = np.linalg.norm(x, axis=1)
    k = L > 1e-4 * max(L.max(), 1e-30)
    dot = np.einsum("ij,ij->i", x[k], nrm[k].astype(float))
    c.true(np.all(dot > 0), f"{what}: a normal disagrees with its triangle", "files compared")


def numbers(path):
    return np.array([float(x) for x in open(path).read().replace("\n", ",").split(",") if x.strip()])


def write(c):
    rng = c.rng
    root = tempfile.mkdtemp(prefix="rv-c17-")
    try:
        s = Scene(rng, c)
        v = s.v
        work = os.path.join(root, "work")
        other = os.path.join(root, "elsewhere")
        os.mkdir(work)
        os.mkdir(other)
        results, props = rng.random() < 0.5, rng.random() < 0.5
        dens = {k: rng.uniform(0.5, 9) for k in parts.names(v)}
        if results:
            v.analyse_after_generating(dens)
        P = {}
        if props:
            for k in rng.sample(["lift", "cd0", "span m", "n", "zero", "neg", "tiny", "huge"], rng.randint(1, 5)):
                P[k] = {"zero": 0.0, "neg": -1.5e-7, "n": 3, "tiny": rng.uniform(1, 9) * 1e-13, "huge": -rng.uniform(1, 9) * 1e12}.get(k, rng.uniform(-1e5, 1e5))
                v.add_property(k, P[k])
        v.generate()
        vname = s.vname or "vehicle"
        prefixes = [rng.choice([None, None, "p", "run 1", "a.b", "sub/q", other + "/r"]) for _ in range(rng.choice([1, 1, 2, 3]))]
        c.note(s.desc, s.vname, prefixes, results, props)
        os.mkdir(os.path.join(work, "sub"))
        # bystanders, and a file where a ghost's would be
        for d in (work, other, os.path.join(work, "sub")):
            with open(os.path.join(d, "keep.stl"), "w") as f:
                f.write("bystander")
        for pre in prefixes:
            for g in s.ghosts(pre):
                with open(os.path.join(work, g), "w") as f:
                    f.write("ghost stand-in")
        known = watch.listing(root)
        for step, pre in enumerate(prefixes):
            if step and rng.random() < 0.5:
                v.transform([parts.motion(rng, 1.0, rigid=True)[0]()])
            merge = rng.random() < 0.25
            with watch.cwd(work), watch.files() as log:
                if merge:
                    with watch.stub_pymesh(load=lambda f: watch_read(f)) as mlog:
                        v.to_stl(prefix=pre, merge=True) if pre else v.to_stl(merge=True)
                elif pre is None:
                    v.to_stl()
                else:
                    v.to_stl(prefix=pre)
            want = {os.path.relpath(os.path.join(work, f), root): comp for f, comp in s.expected(pre)}
            pd_name = f"{pre or vname}_properties"
            pdir = os.path.relpath(os.path.join(work, pd_name), root)
            base = os.path.basename(pre or vname)
            pfiles = []
            if results:
                pfiles += [f"{base}_volmass.csv", f"{base}_cog.txt", f"{base}_moi.txt"]
            if props:
                pfiles += [f"{base}_properties.csv"]
            allowed = set(want) | {os.path.join(pdir, f) for f in pfiles}
            now = watch.listing(root)
            new = set(now) - set(known)
            exp_new = {p for p in allowed if p not in known} | ({pdir} if pfiles and pdir not in known else set())
            c.true(new == exp_new, f"prefix {pre!r}: new files {sorted(new)}, expected {sorted(exp_new)}", "directories compared")
            for p in known:
                c.true(p in now, f"{p} disappeared", "directories compared")
                if p not in allowed:
                    c.true(now[p] == known[p], f"{p} was altered", "directories compared")
            ok = {os.path.join(root, p) for p in allowed} | {os.path.join(root, pdir)}
            for ev, p in log:
                if p == os.devnull or "__pycache__" in p:
                    continue
                c.true(p in ok or temp_of(p, ok, ev), f"{ev} of {p}", "writes audited")
            for p, comp in want.items():
                contents(c, os.path.join(root, p), comp, p)
            if merge:
                ld = [x[1] for x in mlog if x[0] == "load"]
                c.true(sorted(ld) == sorted(os.path.join(root, p) for p in want), f"merging read {ld}, written {sorted(want)}", "merges watched")
                sv = [x for x in mlog if x[0] == "save"]
                c.true(len(sv) == 1 and os.path.relpath(sv[0][1], work) == os.path.relpath(os.path.join(work, f"{pre or vname}.stl"), work),
                       f"merged mesh saved as {[x[1] for x in sv]}", "merges watched")
                arrs = [x for x in mlog if x[0] == "merge"]
                c.true(len(arrs) == 1, f"{len(arrs)} merges", "merges watched")
                byfile = dict(zip(ld, arrs[0][1]))
                for p, comp in want.items():
                    c.true(np.array_equal(byfile[os.path.join(root, p)], np.array(comp.mesh.vectors)), f"merging read something else from {p}", "merges watched")
            if results:
                d = os.path.join(root, pdir)
                t = pd.read_csv(os.path.join(d, f"{base}_volmass.csv"), index_col=0)
                c.true(sorted(t.columns) == ["area", "mass", "volume"], f"columns {list(t.columns)}", "property values read back")
                c.true(list(t.index) == parts.names(v) + ["vehicle"], f"rows {list(t.index)}", "property values read back")
                for q in ("mass", "volume", "area"):
                    for k in parts.names(v):
                        x = v.component_properties[q][k]
                        c.close(t.loc[k, q], x, abs(x), 1e-12, f"{q} of {k} in file", "property values read back")
                    x = getattr(v, q)
                    c.close(t.loc["vehicle", q], x, abs(x), 1e-12, f"vehicle {q} in file", "property values read back")
                for q in ("cog", "moi"):
                    x = np.ravel(v.analysis_results[q])
                    c.close(numbers(os.path.join(d, f"{base}_{q}.txt")), x, np.max(np.abs(x)), 1e-12, f"{q} in file", "property values read back")
            if props:
                t = pd.read_csv(os.path.join(root, pdir, f"{base}_properties.csv"), index_col=0)
                c.true(sorted(map(str, t.index)) == sorted(P), f"properties {list(t.index)}", "property values read back")
                for k, x in P.items():
                    c.close(float(t.loc[k].iloc[0]), x, abs(x), 1e-12, f"property {k} in file", "property values read back")
            known = now
    finally:
        shutil.rmtree(root, ignore_errors=True)


def watch_read(f):
    return read_stl(f)[0]


def temp_of(p, ok, ev):
    """A temporary file beside an allowed file, gone afterwards, is nobody's business."""
    return not os.path.exists(p) and any(os.path.dirname(p) == os.path.dirname(q) for q in ok) and ev != "os.remove"


def one(c):
    """A component alone: writing it, and a ghost, directly."""
    rng = c.rng
    root = tempfile.mkdtemp(prefix="rv-c17-")
    try:
        p = rng.choice([parts.swept, parts.revolved, parts.cube, parts.sphere])(rng, 1.0, res=rng.choice([2, 3]))
        comp = p.build()
        comp.generate_patches()
        f = os.path.join(root, rng.choice(["a.stl", "b c.stl", "d.STL"]))
        c.note("alone", p.desc, os.path.basename(f))
        comp.to_stl(f)
        contents(c, f, comp, "component file")
        c.true(os.listdir(root) == [os.path.basename(f)], f"files {os.listdir(root)}", "directories compared")
        comp.rotate(rng.uniform(10, 80), "z")
        comp.to_stl(f)
        contents(c, f, comp, "component file written again")
        q = p.base()
        want = parts.expected_mesh(parts.fns(comp), comp.stl_resolution)
        c.close(meshlib.tris(comp.mesh), want, 1, meshlib.tol(want, 1e-8), "mesh written", "triangles read back")
    finally:
        shutil.rmtree(root, ignore_errors=True)


KINDS = [("write", write, 420, 4000), ("one", one, 36, 300)]
