"""Run one check:  python checks/run.py C01 [--replay FILE]

Splits the cases over a few processes, merges what they observed, writes
evidence/<id>.json and prints the verdict.  Exit 0 held, 1 violated, 2 inconclusive
(a deciding monitor observed too little), 3 error of the check.
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
}

SHARDS = {"C10": 2}  # cases that start worker pools of their own


def worker(prop, shard, nshards, out, only=None):
    import resource

    from rv import core

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))  # runaway growth becomes MemoryError
    core.setup_import()
    mod = importlib.import_module(f"checks.{prop.lower()}")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    run = core.Run(prop, tier, seed, shard, nshards, only)
    run.execute(mod.KINDS)
    core.dump(dict(run.result(), spec=mod.SPEC), out)


def merge(parts):
    m = {"evaluations": 0, "skipped": 0, "hashes": set(), "samples": [], "violations": [],
         "counts": {}, "kinds": {}, "known_seen": {}, "cpu": 0.0, "slowest": (0.0, "")}
    for p in parts:
        m["cpu"] += p["cpu"]
        m["slowest"] = max(m["slowest"], tuple(p["slowest"]))
        m["evaluations"] += p["evaluations"]
        m["skipped"] += p["skipped"]
        m["hashes"].update(p["hashes"])
        m["violations"] += p["violations"]
        have = {s.split(":")[0] for s in m["samples"]}
        m["samples"] += [s for s in p["samples"] if s.split(":")[0] not in have]
        for k in ("counts", "kinds", "known_seen"):
            for n, v in p[k].items():
                m[k][n] = m[k].get(n, 0) + v
    return m


def main(argv):
    prop = argv[0]
    if "--worker" in argv:
        shard, nshards, out = int(argv[2]), int(argv[3]), argv[4]
        only = (argv[5], int(argv[6])) if len(argv) > 6 else None
        worker(prop, shard, nshards, out, only)
        return 0

    from rv import core

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    only = []
    if "--replay" in argv:
        rec = json.load(open(argv[argv.index("--replay") + 1]))
        seed, tier = rec["seed"], rec["tier"]
        only = [rec["kind"], str(rec["index"])]
    nshards = 1 if only else SHARDS.get(prop, 6)
    scratch = tempfile.mkdtemp(prefix=f"rv-{prop}-")
    env = dict(os.environ, **ENV, VERIF_SEED=str(seed), VERIF_TIER=tier, TMPDIR=scratch)
    limit = 840 if tier == "quick" else 3 * 3600
    procs, status = [], 0
    try:
        for s in range(nshards):
            d = os.path.join(scratch, f"w{s}")
            os.mkdir(d)
            out = os.path.join(scratch, f"out{s}.json")
            cmd = [sys.executable, os.path.join(VERIF, "checks", "run.py"), prop, "--worker",
                   str(s), str(nshards), out] + only
            log = open(os.path.join(scratch, f"log{s}"), "w")
            procs.append((subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=log,
                                           start_new_session=True), out, log))
        parts = []
        for p, out, log in procs:
            try:
                p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                print(f"{prop}: a worker did not finish in {limit} s")
                status = 3
                continue
            if os.path.exists(out):
                parts.append(json.load(open(out)))
            else:
                status = 3
                print(f"{prop}: a worker failed\n" + open(log.name).read()[-3000:])
    finally:
        for p, _, log in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            log.close()
        shutil.rmtree(scratch, ignore_errors=True)

    if not parts:
        return status or 3
    spec = parts[0]["spec"]
    m = merge(parts)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    missing = [f"{k} (saw {m['counts'].get(k, 0)}, need {v})"
               for k, v in spec.get("required", {}).items() if m["counts"].get(k, 0) < v]
    known = core.load_known(prop)
    if not only:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"],
              "coverage": {
                  "evaluations": m["evaluations"],
                  "distinct_nontrivial": len(m["hashes"]),
                  "rule": spec["rule"],
                  "samples": m["samples"][:12],
                  "observations_by_monitor": dict(sorted(m["counts"].items())),
                  "cases_held_by_kind": dict(sorted(m["kinds"].items())),
                  "cases_outside_domain": m["skipped"],
                  "known_findings_seen": m["known_seen"],
                  "processor_s": round(m["cpu"], 1),
                  "slowest_case": "%s, %.2f s of processor time" % m["slowest"][::-1]},
              "assumptions": spec.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2),
              "violations": len(m["violations"])}
        core.dump(ev, os.path.join(evdir, f"{prop}.json"))
    for k in m["known_seen"]:
        print(f"KNOWN-FINDING: property={prop} {known.get(k, k)}")
    if m["violations"]:
        for n, v in enumerate(m["violations"][:5]):
            path = os.path.join(evdir, f"{prop}-violation-{n}.json")
            core.dump(v, path)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['kind']}[{v['index']}]: {v['message'][:400]}")
        return 1
    if status:
        return status
    if missing and not only:
        print(f"{prop}: inconclusive, monitors observed too little: " + ", ".join(missing))
        return 2
    print(f"{prop}: held on {m['evaluations']} cases ({len(m['hashes'])} distinct), "
          f"{sum(m['counts'].values())} observations, {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Exception:
        import traceback

        traceback.print_exc()
        code = 3
    sys.exit(code)
