"""C19: sensitivity studies against finite differences made outside the study."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from hypervehicle.components import SweptComponent, RevolvedComponent
from hypervehicle.generator import Generator
from hypervehicle.geometry import Line, Polyline
from hypervehicle.utilities import SensitivityStudy
from rv import gen, parts, watch
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random generators (several components, named or not, ghosts, results, properties), parameter values of "
            "either sign and of int and float type, overrides and perturbations; a case is distinct by generator, values and perturbation",
    "required": {"vertex sensitivities": 5000, "combined rows": 3000, "scalar sensitivities": 300, "file values": 3000,
                 "constructions watched": 150, "inputs compared": 60},
    "assumptions": ["non-zero nominal values", "components keep their number of triangles under the perturbation"],
}


class Family:
    """A random parametric vehicle with a record of how it was built."""

    def __init__(self, rng):
        self.rng = rng
        self.np = np.random.default_rng(rng.getrandbits(60))
        pool = ["width", "L_b", "angle", "x", "dxd", "h2", "dy", "theta_dxdq", "n"]
        self.params = rng.sample(pool, rng.choice([1, 1, 2, 2, 3, 4, 9]))
        self.over = rng.sample(["o1", "o2", "mass_factor"], rng.randint(0, 2))
        names = self.params + self.over
        self.results = rng.random() < 0.5
        self.props = rng.sample(["lift", "volume", "range km"], rng.randint(1, 3)) if rng.random() < 0.5 else []
        self.props_coef = {p: {n: rng.uniform(-2, 2) for n in names} for p in self.props}
        self.comps = []
        used = {}
        for i in range(gen.few(rng, 1, 3, 12, 0.05)):
            k = rng.choice(["swept", "revolved"])
            # parameters that reach this component, and how strongly
            act = [n for n in names if rng.random() < 0.7]
            base = self.points(k)
            w = max(1, len(names) / 4)
            d = {n: self.np.uniform(-0.1, 0.1, base.shape) / w * (rng.random() < 0.9) for n in act}
            q = {n: self.np.uniform(-0.02, 0.02, base.shape) / w for n in act}
            if k == "revolved":
                for x in (*d.values(), *q.values()):
                    x[0, 1] = x[-1, 1] = 0
                    x[:, 2] = 0
            self.comps.append(dict(kind=k, base=base, d=d, q=q, res=rng.choice([1, 2, 3]) if k == "swept" else rng.choice([2, 3]),
                                   name=rng.choice([None, None, f"comp{i}", f"the part {i}"]), ghost=rng.random() < 0.2,
                                   refl=rng.choice([None, None, None, "y"])))
        self.log, self.shift = [], {}
        # vertices of different surfaces and components that coincide only in the nominal vehicle
        self.about = {} if rng.random() < 0.4 else None
        if self.about is not None:
            for q in self.comps:
                like = [o for o in self.comps if o is not q and o["base"].shape == q["base"].shape and o["kind"] == q["kind"]]
                if like and rng.random() < 0.6:
                    q["base"], q["res"], q["refl"] = like[0]["base"], like[0]["res"], like[0]["refl"]
                if q["kind"] == "swept" and q["refl"] and not self.results:
                    q["base"] = q["base"] * 1.0
                    q["base"][:2, 1] = 0.0
                    q["append"] = True
        fam = self

        class Gen(Generator):
            def __init__(self, **kw):
                fam.log.append(dict(kw))
                self.__dict__.update({n: 1.0 for n in names})
                super().__init__(**kw)

            def create_instance(self):
                return fam.vehicle({n: getattr(self, n) for n in names})

        self.Gen = Gen

    def value(self, p, x):
        return sum(a * x[n] + 0.3 * x[n] ** 2 for n, a in self.props_coef[p].items())

    def points(self, k):
        rng = self.rng
        if k == "revolved":
            n = rng.randint(3, 4)
            P = np.array([[i + rng.uniform(-.2, .2), rng.uniform(0.5, 1), 0] for i in range(n)])
            P[0, 1] = P[-1, 1] = 0
            return P
        out = []
        for z in range(rng.randint(2, 3)):
            out.append([[-1, -1, z], [1, -1, z], [1, 1, z], [-1, 1, z]])
        return np.array(out, dtype=float).reshape(-1, 3) + self.np.uniform(-.2, .2, (4 * len(out), 3))

    def vehicle(self, x):
        v = parts.vehicle()
        for cmp in self.comps:
            y = {n: x[n] - (self.about or {}).get(n, 0.0) for n in x}
            P = cmp["base"] + sum((cmp["d"][n] * y[n] + cmp["q"][n] * y[n] ** 2 for n in cmp["d"]), np.zeros(3))
            if cmp["kind"] == "swept":
                secs = [[Line(parts.V(S[i]), parts.V(S[(i + 1) % 4])) for i in range(4)] for S in P.reshape(-1, 4, 3)]
                k = SweptComponent(cross_sections=secs, stl_resolution=cmp["res"], verbosity=0)
            else:
                k = RevolvedComponent(Polyline([Line(parts.V(a), parts.V(b)) for a, b in zip(P[:-1], P[1:])]), stl_resolution=cmp["res"], verbosity=0)
            v.add_component(parts.serial(k), name=cmp["name"], ghost=cmp["ghost"], reflection_axis=cmp["refl"],
                            append_reflection=cmp.get("append", False))
        if self.results:
            v.analyse_after_generating({n: 2.0 + i for i, n in enumerate(parts.names(v))})
        for p in self.props:
            v.add_property(p, self.value(p, x) - self.shift.get(p, 0))
        return v


def rows_match(c, got, want, tols, what, monitor):
    """Every row of got is a row of want (first three columns exactly) and the other way round."""
    key = lambda r: tuple(np.asarray(r[:3], dtype=np.float32).tolist())
    W, G = {}, {}
    for r in want:
        W.setdefault(key(r), []).append(r)
    for r in got:
        G.setdefault(key(r), []).append(r)
    c.true(np.all(np.isfinite(got)), f"{what}: missing entries", monitor)
    c.true(set(W) == set(G), f"{what}: {len(set(W) - set(G))} vertices missing, {len(set(G) - set(W))} unknown", monitor)
    for k in W:
        for A, B, t in ((G[k], W[k], "reported"), (W[k], G[k], "expected")):
            for r in A:
                if not any(np.all(np.abs(r[3:] - b[3:]) <= tols) for b in B):
                    c.fail(f"{what}: {t} row {r.tolist()} at vertex {k}, against {[b[3:].tolist() for b in B]}")
    c.seen(monitor, len(got))


def study(c):
    rng = c.rng
    fam = Family(rng)
    val = {}
    for n in fam.params:
        val[n] = rng.choice([1.0, 2, -3, 1, -1.5, rng.uniform(0.5, 3), -rng.uniform(0.5, 3), np.float64(1.25)])
    over = {n: rng.choice([1.0, 2, 0, 0.0, False, rng.uniform(-1, 1)]) for n in fam.over}
    if fam.about is not None:
        fam.about.update(val)
        fam.about.update(over)
    pert = rng.choice([5, 5, 1, 20, -5, 10.0, -0.5, rng.uniform(1, 30), 75, 120.0, -60])
    for p in fam.props:  # some properties vanish on the nominal vehicle
        if rng.random() < 0.3:
            fam.shift[p] = fam.value(p, {**{n: 1.0 for n in fam.over}, **val, **over})
    pass_over = over or rng.random() < 0.5
    prefix = rng.choice([None, "nom", "q/nom"])
    wr = rng.random() < 0.5
    c.note(fam.params, {k: float(x) for k, x in val.items()}, over, pert, [(q["kind"], q["name"], q["ghost"], q["res"], q["refl"]) for q in fam.comps],
           f"results={fam.results}", fam.props, wr, prefix)
    root = tempfile.mkdtemp(prefix="rv-c19-")
    try:
        os.mkdir(os.path.join(root, "q"))
        S = SensitivityStudy(fam.Gen, verbosity=0)
        if rng.random() < 0.25:
            # an earlier study with the same object leaves nothing behind
            with watch.cwd(root):
                S.dvdp({fam.params[-1]: 1.7}, overrides={**over, **{n: 0.9 for n in fam.params[:-1]}}, perturbation=3, write_nominal_stl=False)
        fam.log.clear()
        v0, o0 = dict(val), dict(over)
        before = watch.listing(root)
        with watch.cwd(root):
            kw = {"overrides": over} if pass_over else {}
            ret = S.dvdp(val, perturbation=pert, write_nominal_stl=wr, **({"nominal_stl_prefix": prefix} if prefix else {}), **kw)
        c.true(val == v0 and all(type(val[k]) is type(v0[k]) for k in v0) and list(val) == list(v0), f"parameters changed to {val}", "inputs compared")
        c.true(over == o0, f"overrides changed to {over}", "inputs compared")
        log = list(fam.log)
        # how the vehicles were built
        pv = {n: val[n] * (1 + pert / 100) for n in val}
        for kw in log:
            diff = [n for n in val if kw.get(n) != val[n]]
            c.true(set(kw) == set(val) | set(over), f"vehicle built with {sorted(kw)}", "constructions watched")
            c.true(len(diff) <= 1 and all(abs(kw[n] - pv[n]) <= 1e-12 * abs(pv[n]) for n in diff) and all(kw[n] == over[n] for n in over),
                   f"vehicle built with {kw}", "constructions watched")
        # reference vehicles
        full = {**val, **over}
        nom = fam.vehicle(full)
        nom.generate()
        names = parts.names(nom)
        mesh0 = {n: np.array(k.mesh.vectors) for n, k in zip(names, nom.components)}
        pert_v, dps = {}, {}
        for p in val:
            w = fam.vehicle({**full, p: pv[p]})
            w.generate()
            pert_v[p] = w
            dps[p] = pv[p] - val[p]
        meshp = {p: {n: np.array(k.mesh.vectors) for n, k in zip(names, w.components)} for p, w in pert_v.items()}
        c.true(list(ret) == list(val) and all(set(ret[p]) == set(names) for p in ret), "parameters or components of the result", "vertex sensitivities")
        table, tols = {}, {}
        for n in names:
            cols, tl = [mesh0[n].reshape(-1, 3).astype(float)], []
            for p in val:
                d = (meshp[p][n].astype(float) - mesh0[n].astype(float)).reshape(-1, 3)
                cols.append(d / dps[p])
                tl += [(1e-6 * np.max(np.abs(d)) + 1e-12) / abs(dps[p])] * 3
            table[n], tols[n] = np.hstack(cols), np.array(tl)
        for j, p in enumerate(val):
            for n in names:
                df = ret[p][n]
                got = df[["x", "y", "z", f"dxd{p}", f"dyd{p}", f"dzd{p}"]].to_numpy(dtype=float)
                rows_match(c, got, np.hstack([table[n][:, :3], table[n][:, 3 + 3 * j:6 + 3 * j]]), tols[n][:3] * 0 + tols[n][3 * j:3 * j + 3],
                           f"sensitivity of {n} to {p}", "vertex sensitivities")
        cs = S.component_sensitivities
        c.true(list(cs) == names, f"components {list(cs)}", "combined rows")
        want_cols = ["x", "y", "z"] + [f"d{a}d{p}" for p in val for a in "xyz"]
        for n in names:
            c.true(list(cs[n].columns) == want_cols, f"columns {list(cs[n].columns)}", "combined rows")
            got = cs[n].to_numpy(dtype=float)
            rows_match(c, got, table[n], tols[n], f"combined table of {n}", "combined rows")
            c.true(len(np.unique(got, axis=0)) == len(got), f"combined table of {n} repeats rows", "combined rows")
        # scalars
        if fam.results:
            for p in val:
                for q in ("volume", "mass", "cog", "moi"):
                    a, b = np.array(pert_v[p].analysis_results[q]), np.array(nom.analysis_results[q])
                    c.close(S.scalar_sensitivities[p][q], (a - b) / dps[p], (np.max(np.abs(b)) + 1) / abs(dps[p]), 1e-9, f"sensitivity of {q} to {p}", "scalar sensitivities")
                t = S.component_scalar_sensitivities[p]
                for q in ("mass", "volume", "area"):
                    for n in names + ["vehicle"]:
                        g = lambda v: getattr(v, q) if n == "vehicle" else v.component_properties[q][n]
                        c.close(t.loc[n, q], (g(pert_v[p]) - g(nom)) / dps[p], (abs(g(nom)) + 1) / abs(dps[p]), 1e-9, f"sensitivity of {q} of {n} to {p}", "scalar sensitivities")
        for p in val if fam.props else ():
            for q in fam.props:
                a, b = pert_v[p].properties[q], nom.properties[q]
                c.close(S.property_sensitivities[p][q], (a - b) / dps[p], (abs(b) + 1) / abs(dps[p]), 1e-9, f"sensitivity of property {q} to {p}", "scalar sensitivities")
        # nominal vehicle
        for n, k in zip(names, S.nominal_vehicle_instance.components):
            c.true(np.array_equal(np.array(k.mesh.vectors), mesh0[n]), f"nominal vehicle: {n} is not the unperturbed one", "vertex sensitivities")
        after = watch.listing(root)
        stl = {f for f in after if f.endswith(".stl")} - set(before)
        n_real = sum(not q["ghost"] for q in fam.comps)
        c.true(len(stl) == (n_real if wr else 0), f"nominal files {sorted(stl)}", "file values")
        if wr:
            from stl import mesh as sm

            for f in stl:
                X = sm.Mesh.from_file(os.path.join(root, f)).vectors
                c.true(any(X.shape == m.shape and np.array_equal(X, m) for m in mesh0.values()), f"{f} is not a nominal mesh", "file values")
        files(c, rng, S, root, names, val, table, tols, fam, nom, pert_v, dps)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def files(c, rng, S, root, names, val, table, tols, fam, nom, pert_v, dps):
    before = watch.listing(root)
    how = rng.choice(["new", "there", "cwd"])
    out = os.path.join(root, "out")
    if how == "there":
        os.mkdir(out)
    if how == "cwd":
        os.mkdir(out)
        with watch.cwd(out):
            path = S.to_csv()
    else:
        path = S.to_csv(outdir=out)
    now = watch.listing(out)
    want = {f"{n}_sensitivity.csv" for n in names} | {"all_components_sensitivity.csv"}
    if fam.results:
        want |= {"scalar_sensitivities", "scalar_sensitivities/volmass_sensitivity.csv"}
        want |= {f"scalar_sensitivities/{p}_{q}_sensitivity.txt" for p in val for q in ("cog", "moi")}
    if fam.props:
        want |= {"scalar_sensitivities", "scalar_sensitivities/property_sensitivity.csv"}
    c.true(set(now) == want, f"files {sorted(set(now) ^ want)} missing or unexpected", "file values")
    c.true(os.path.abspath(path) == os.path.join(out, "all_components_sensitivity.csv"), f"returned path {path}", "file values")
    for p, h in before.items():
        c.true(watch.listing(root).get(p, 0) == h, f"{p} altered", "file values")
    allrows = []
    for n in names:
        df = pd.read_csv(os.path.join(out, f"{n}_sensitivity.csv"))
        c.true(list(df.columns) == list(S.component_sensitivities[n].columns), f"columns of {n} in file", "file values")
        x = S.component_sensitivities[n].to_numpy(dtype=float)
        c.close(df.to_numpy(dtype=float), x, np.max(np.abs(x)), 1e-12, f"table of {n} in file", "file values")
        allrows.append(x)
    df = pd.read_csv(path)
    x = np.vstack(allrows)
    c.close(df.to_numpy(dtype=float), x, np.max(np.abs(x)), 1e-12, "combined file", "file values")
    sd = os.path.join(out, "scalar_sensitivities")
    if fam.results:
        t = pd.read_csv(os.path.join(sd, "volmass_sensitivity.csv"), index_col=0)
        c.true(list(t.columns) == list(val), f"columns {list(t.columns)}", "file values")
        c.true(set(t.index) == {f"{n}_{q}" for n in names + ["vehicle"] for q in ("mass", "volume", "area")}, f"rows {list(t.index)}", "file values")
        for p in val:
            for n in names + ["vehicle"]:
                for q in ("mass", "volume", "area"):
                    g = lambda v: getattr(v, q) if n == "vehicle" else v.component_properties[q][n]
                    c.close(t.loc[f"{n}_{q}", p], (g(pert_v[p]) - g(nom)) / dps[p], (abs(g(nom)) + 1) / abs(dps[p]), 1e-9, f"{q} of {n} to {p} in file", "file values")
            for q in ("cog", "moi"):
                x = np.ravel(S.scalar_sensitivities[p][q])
                y = np.array([float(z) for z in open(os.path.join(sd, f"{p}_{q}_sensitivity.txt")).read().split(",")])
                c.close(y, x, np.max(np.abs(x)) + 1e-30, 1e-12, f"{q} to {p} in file", "file values")
    if fam.props:
        t = pd.read_csv(os.path.join(sd, "property_sensitivity.csv"), index_col=0)
        for p in val:
            for q in fam.props:
                x = S.property_sensitivities[p][q]
                c.close(t.loc[q, p], x, abs(x) + 1e-30, 1e-12, f"property {q} to {p} in file", "file values")


def early(c):
    fam = Family(c.rng)
    c.note("before any study", fam.params)
    root = tempfile.mkdtemp(prefix="rv-c19-")
    try:
        c.raises(lambda: SensitivityStudy(fam.Gen, verbosity=0).to_csv(root), "writing before any study")
        c.true(os.listdir(root) == [], "files written before any study", "file values")
    finally:
        shutil.rmtree(root, ignore_errors=True)


KINDS = [("study", study, 300, 3000), ("early", early, 6, 12)]
