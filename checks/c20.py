"""C20: sensitivities appended to a surface file."""
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

import numpy as np
import pandas as pd

from hypervehicle.utilities import append_sensitivities_to_tri
from rv import gen, watch

SPEC = {
    "level": "exploration",
    "rule": "seeded random vertex tables divided over files, and surface files whose points lie inside or outside the "
            "tolerance of vertices in single coordinates; a case is distinct by points, files, parameters and tolerances",
    "required": {"points compared": 5000, "unmatched points": 500, "elements preserved": 500, "inputs compared": 200,
                 "combined rows": 3000},
    "assumptions": ["coordinate distances are kept away from exactly the tolerance", "the previous combined file appears in the list under its own name"],
}


def table(rng, params, P, S):
    d = {"x": P[:, 0], "y": P[:, 1], "z": P[:, 2]}
    for j, p in enumerate(params):
        for i, a in enumerate("xyz"):
            d[f"d{a}d{p}"] = S[:, 3 * j + i]
    return pd.DataFrame(d)


def tri_file(path, pts, rng, fmt):
    style = rng.choice(["lead", "plain", "blank", "tabs"])
    rows = [("\t" if style == "tabs" else " ").join(fmt % x for x in p) for p in pts]
    text = {"lead": "\n " + "\n ".join(rows) + "\n ", "plain": "\n".join(rows), "blank": "\n\n" + "\n".join(rows) + "\n\n",
            "tabs": "\n\t" + "\n\t".join(rows) + "\n"}[style]
    root = ET.Element("VTKFile", {"type": "UnstructuredGrid", "version": "0.1"})
    g = ET.SubElement(root, "UnstructuredGrid")
    p = ET.SubElement(g, "Piece", {"NumberOfPoints": str(len(pts)), "NumberOfCells": "1"})
    q = ET.SubElement(p, "Points")
    ET.SubElement(q, "DataArray", {"NumberOfComponents": "3", "type": "Float64", "format": "ascii"}).text = text
    k = ET.SubElement(p, "Cells")
    ET.SubElement(k, "DataArray", {"Name": "connectivity", "type": "Int32"}).text = "\n 0 1 2\n "
    ET.SubElement(k, "DataArray", {"Name": "offsets", "type": "Int32"}).text = "\n 3\n "
    if rng.random() < 0.5:
        cd = ET.SubElement(p, "CellData", {"Scalars": "comp"})
        ET.SubElement(cd, "DataArray", {"Name": "IntersectComponents", "TRIXtype": "COMPONENT_TAGS"}).text = " 1 2 <&> "
    if rng.random() < 0.3:
        pd_ = ET.SubElement(p, "PointData")
        ET.SubElement(pd_, "DataArray", {"Name": "old_sens"}).text = "\n 1 2 3"
    if rng.random() < 0.3:
        ET.SubElement(root, "AppendedData", {"note": "tail"}).text = "xyz"
    ET.ElementTree(root).write(path)
    return style


def tree(e):
    return (e.tag, tuple(sorted(e.attrib.items())), e.text, [tree(x) for x in e])


def case(c):
    rng = c.rng
    s = rng.choice([1.0, 1.0, 100.0, 0.01])
    tol = rng.choice([None, 1e-5, 1e-3, 1e-6]) if s != 0.01 else rng.choice([1e-6, 1e-5])
    T = 1e-5 if tol is None else tol
    rt = rng.choice([None, 1e-8, 1e-4, 0.1])
    RT = 1e-8 if rt is None else rt
    params = rng.sample(["w", "L_b", "dxd", "theta_dxdq", "x", "span", "a b"] + [f"q{i}" for i in range(8)], rng.choice([1, 1, 2, 3, 4, gen.few(rng, 1, 4, 13)]))
    n = rng.choice([1, 3, 10, 40, 80, gen.few(rng, 10, 80, 400)])
    cluster = rng.random() < 0.4
    P = c.np.uniform(-1, 1, (n, 3)) * s
    if cluster and n > 2:
        # vertices that agree in two coordinates with others
        for i in range(n):
            j = rng.randrange(n)
            P[i, rng.choice([0, 1, 2])] = P[j, rng.choice([0, 1, 2])]
    if n > 2 and rng.random() < 0.4:
        P[rng.randrange(n)] = P[rng.randrange(n)]  # a repeated vertex
    S = c.np.normal(size=(n, 3 * len(params))) * rng.choice([1.0, 1e3])
    for _ in range(n):
        i, j = rng.randrange(n), rng.randrange(S.shape[1])
        S[i, j] = rng.choice([0.0, RT * 0.5, -RT * 0.5, RT * 2, -RT * 2, 1e-300, -S[i, j]])
    m = rng.choice([1, 2, 10, 60, gen.few(rng, 10, 60, 300)])
    pts = []
    for _ in range(m):
        kind = rng.choice(["on", "in", "in", "edge", "out1", "far"])
        p = P[rng.randrange(n)].copy()
        if kind == "in":
            p = p + np.array([rng.uniform(-0.9, 0.9) for _ in range(3)]) * T
        elif kind == "edge":
            p = p + np.array([rng.choice([-0.99, 0.99, 0]) for _ in range(3)]) * T
        elif kind == "out1":
            k = rng.randrange(3)
            p[k] += rng.choice([-1, 1]) * rng.choice([1.05, 1.5, 3, 100]) * T
        elif kind == "far":
            p = p + np.array([10, 0, 0]) * s
        pts.append(p)
    fmt = "%.17e"
    nf = rng.choice([1, 1, 2, 3, gen.few(rng, 1, 4, 13)])
    cuts = sorted(rng.randint(0, n) for _ in range(nf - 1))
    blocks = np.split(np.arange(n), cuts)
    blocks = [b for b in blocks if len(b)]
    prev = rng.random() < 0.35
    comb = rng.choice([None, "all.csv"])
    comb_fn = comb or "all_components_sensitivity.csv"
    outk = rng.choice(["none", "new", "there"])
    verb = rng.choice([0, 0, 1])
    c.note(params, n, m, s, tol, rt, [len(b) for b in blocks], prev, comb, outk, cluster, c.rng.random())
    root = tempfile.mkdtemp(prefix="rv-c20-")
    try:
        names = []
        for i, b in enumerate(blocks):
            f = f"comp {i}_sensitivity.csv" if rng.random() < 0.3 else f"comp{i}_sensitivity.csv"
            f = f if rng.random() < 0.5 else os.path.join(root, f)
            names.append(f)
            table(rng, params, P[b], S[b]).to_csv(os.path.join(root, f), index=False)
        if prev:
            table(rng, params, P + 1e-9, S * 7 + 5).to_csv(os.path.join(root, comb_fn), index=False)
            names.insert(rng.randint(0, len(names)), comb_fn)
        keep = list(names)
        tri = rng.choice(["Components.i.tri", "geo.tri"])
        trip = os.path.join(root, tri)
        c.note(tri_file(trip, pts, rng, fmt))
        old = ET.parse(trip).getroot()
        out = {"none": None, "new": os.path.join(root, "o"), "there": os.path.join(root, "o")}[outk]
        if outk == "there":
            os.mkdir(out)
        kw = {"verbosity": verb}
        if tol is not None:
            kw["match_tolerance"] = tol
        if rt is not None:
            kw["rounding_tolerance"] = rt
        if comb:
            kw["combined_sens_fn"] = comb
        if out:
            kw["outdir"] = out
        if tri != "Components.i.tri":
            kw["components_filepath"] = tri
        before = watch.listing(root)
        with watch.cwd(root):
            frac = append_sensitivities_to_tri(names, **kw)
        c.true(names == keep, f"list of files changed to {names}", "inputs compared")
        after = watch.listing(root)
        cpath = os.path.join("o", comb_fn) if out else comb_fn
        allowed = {tri, cpath, "o"}
        for f, h in before.items():
            if f not in allowed:
                c.true(after.get(f, 0) == h, f"input {f} altered", "inputs compared")
        c.true(set(after) - set(before) <= allowed and cpath in after, f"new files {set(after) - set(before)}", "inputs compared")
        # what each point may get
        R = np.where(np.abs(S) < RT, 0.0, S)
        cand = []
        for p in pts:
            d = np.abs(P - p)
            cand.append(np.nonzero(np.all(d < T, axis=1))[0])
            near = np.abs(d / T - 1)
            amb = np.all((d < T * 1.001), axis=1) & np.any(near < 1e-3, axis=1)
            if amb.any():
                c.trivial = True
                return  # on the tolerance
        matched = sum(len(x) > 0 for x in cand)
        c.close(frac, matched / m, 1, 1e-12, "fraction matched", "points compared")
        c.seen("unmatched points", m - matched)
        new = ET.parse(trip).getroot()
        # everything that was there is still there
        a, b = tree(old), tree(new)
        opiece, npiece = old[0][0], new[0][0]
        k0, k1 = [tree(x) for x in opiece], [tree(x) for x in npiece]
        c.true(k1[:len(k0)] == k0 and npiece.attrib == opiece.attrib, "elements of the surface file altered", "elements preserved")
        c.true([tree(x) for x in old[1:]] == [tree(x) for x in new[1:]] and old.attrib == new.attrib and old[0].attrib == new[0].attrib
               and len(new[0]) == 1, "outer elements of the surface file altered", "elements preserved")
        c.seen("elements preserved", len(k0))
        added = [d for e in npiece[len(k0):] for d in e]
        c.true(sorted(d.attrib.get("Name") for d in added) == sorted(f"{p}_sens" for p in params),
               f"blocks {[d.attrib.get('Name') for d in added]}", "elements preserved")
        c.true(all(e.tag == "PointData" for e in npiece[len(k0):]) and all(d.attrib.get("NumberOfComponents") == "3" for d in added), "kind of blocks", "elements preserved")
        block = {}
        for d in added:
            rows = [[float(x) for x in l.split()] for l in d.text.splitlines() if l.strip()]
            c.true(len(rows) == m and all(len(r) == 3 for r in rows), f"{len(rows)} rows for {m} points", "points compared")
            block[d.attrib["Name"]] = np.array(rows)
        got = np.hstack([block[f"{p}_sens"] for p in params])
        for i, x in enumerate(cand):
            opts = R[x] if len(x) else np.zeros((1, S.shape[1]))
            err = np.max(np.abs(opts - got[i]) - 1e-13 * np.abs(opts), axis=1)
            c.true(np.any(err <= 0), f"point {i} {'' if len(x) else 'without a vertex '}got {got[i].tolist()}, expected {opts.tolist()[:3]}", "points compared")
        df = pd.read_csv(os.path.join(root, cpath))
        cols = ["x", "y", "z"] + [f"d{a}d{p}" for p in params for a in "xyz"]
        c.true(list(df.columns) == cols and len(df) == m, f"combined table: columns {list(df.columns)}, {len(df)} rows", "combined rows")
        X = df.to_numpy(dtype=float)
        c.close(X[:, :3], np.array(pts), 20 * s, 1e-12, "points of the combined table", "combined rows")
        c.true(np.all(np.abs(X[:, 3:] - got) <= 1e-13 * np.abs(X[:, 3:])), "combined table and blocks disagree", "combined rows")
    finally:
        shutil.rmtree(root, ignore_errors=True)


KINDS = [("append", case, 600, 6000)]
