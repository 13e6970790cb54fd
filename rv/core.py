"""Run context shared by all checks: seeded cases, verdicts, evidence, known findings.

A check module (checks/cNN.py) defines KINDS, a list of (name, function, quick, thorough)
where the numbers are how many cases of that kind a run makes.  Each case gets its own
random generator derived from (seed, property, kind, index), so any case can be replayed
alone.  A case function drives the real code and reports what the monitors saw through the
Case object; the first disagreement ends the case with a violation.
"""
import contextlib
import hashlib
import io
import json
import os
import random
import re
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("RV_REPO_SRC", "/repo/src")  # the variable is for development only
CASE_CPU_S = 150  # the slowest cases measured need about 12 s
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    """The property does not hold on this case."""


class TimeUp(BaseException):
    """A case used far more processor time than any case needs."""


class Skip(Exception):
    """The case falls outside the property's domain (counted, never a verdict)."""


def load_known(prop):
    """key -> text of the known (unrepaired) findings listed for a property."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def arr(v):
    """numpy float64 triple of anything with x, y, z (or a sequence)."""
    if hasattr(v, "x"):
        return np.array([float(v.x), float(v.y), float(v.z)])
    return np.asarray(v, dtype=float)


class Case:
    def __init__(self, run, kind, index):
        self.run, self.kind, self.index = run, kind, index
        self.rng = random.Random(f"{run.seed}|{run.prop}|{kind}|{index}")
        self.np = np.random.default_rng(self.rng.getrandbits(63))
        self.text = []
        self.trivial = False

    # -- description -------------------------------------------------------
    def note(self, *parts):
        """Describe the case; the text identifies it and is kept as a sample."""
        self.text.append(" ".join(str(p) for p in parts))

    def seen(self, monitor, n=1):
        """Count one observation made by a monitor."""
        self.run.counts[monitor] = self.run.counts.get(monitor, 0) + n

    # -- verdicts ----------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def true(self, cond, msg, monitor="assertions"):
        self.seen(monitor)
        if not cond:
            raise Violation(msg if isinstance(msg, str) else msg())

    def close(self, got, want, scale=1.0, rel=1e-9, msg="value", monitor="values compared"):
        """got equals want to within rel*scale (NaN never equals)."""
        got = np.asarray(arr(got) if hasattr(got, "x") else got, dtype=float)
        want = np.asarray(arr(want) if hasattr(want, "x") else want, dtype=float)
        self.seen(monitor, max(1, want.size))
        if got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape}, expected {want.shape}")
        err = np.abs(got - want)
        ok = err <= rel * scale
        if not np.all(ok):
            bad = np.argwhere(~ok)
            i = tuple(bad[0]) if bad.size else ()
            raise Violation(
                f"{msg}: got {got[i] if i else got}, expected {want[i] if i else want}"
                f" (at {i}, tolerance {rel * scale:.3g}, {len(bad)} differ)")

    def raises(self, fn, msg, exc=Exception):
        """fn must raise."""
        self.seen("refusals observed")
        try:
            fn()
        except exc:
            return
        raise Violation(f"{msg}: was accepted")

    def known(self, key, msg):
        """A disagreement explained by a listed finding; an unlisted key is a violation."""
        if key in self.run.known_listed:
            self.run.known_seen[key] = self.run.known_seen.get(key, 0) + 1
            return
        raise Violation(msg)


class Run:
    def __init__(self, prop, tier, seed, shard=0, nshards=1, only=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards, self.only = shard, nshards, only
        self.counts, self.kind_counts = {}, {}
        self.evaluations = 0
        self.skipped = 0
        self.hashes = set()
        self.samples = []
        self.violations = []
        self.known_listed = load_known(prop)
        self.known_seen = {}
        self.slowest = (0.0, "")

    def execute(self, kinds):
        for name, fn, quick, thorough in kinds:
            n = quick if self.tier == "quick" else thorough
            fails = 0
            for i in range(n):
                if self.only is not None:
                    if (name, i) != self.only:
                        continue
                elif i % self.nshards != self.shard:
                    continue
                fails += self.one(name, fn, i)
                if fails >= 3:
                    break

    def one(self, name, fn, i):
        c = Case(self, name, i)
        self.evaluations += 1
        out = io.StringIO()
        failed = 0
        t0 = time.process_time()
        try:
            with contextlib.redirect_stdout(out), np.errstate(all="ignore"), cpu_limit(CASE_CPU_S):
                fn(c)
            self.kind_counts[name] = self.kind_counts.get(name, 0) + 1
        except Skip:
            self.skipped += 1
            return 0
        except Violation as v:
            failed = 1
            self.violations.append(self.record(c, str(v), None))
        except TimeUp as t:
            failed = 3  # one is enough: later cases of this kind would hang as well
            self.violations.append(self.record(c, str(t) or f"did not finish in {CASE_CPU_S} s of processor time", None))
        except Exception as e:  # the code under test raised on a valid input
            failed = 1
            tb = traceback.format_exc(limit=-6)
            self.violations.append(self.record(c, f"unexpected {type(e).__name__}: {e}", tb))
        self.slowest = max(self.slowest, (round(time.process_time() - t0, 2), f"{name}[{i}]"))
        text = f"{name}: " + "; ".join(c.text)
        if not c.trivial and c.text:
            self.hashes.add(hashlib.sha1(text.encode()).hexdigest()[:16])
        if len([s for s in self.samples if s.startswith(name + ":")]) < 1:
            self.samples.append(text[:600])
        return failed

    def record(self, c, msg, tb):
        return {"property": self.prop, "kind": c.kind, "index": c.index, "seed": self.seed,
                "tier": self.tier, "case": c.text, "message": msg, "traceback": tb}

    def result(self):
        return {"evaluations": self.evaluations, "skipped": self.skipped,
                "hashes": sorted(self.hashes), "samples": self.samples,
                "violations": self.violations, "counts": self.counts,
                "kinds": self.kind_counts, "known_seen": self.known_seen,
                "slowest": self.slowest, "cpu": cpu_used()}


def cpu_used():
    """Processor time of this process and its finished children, for the record only."""
    t = os.times()
    return t.user + t.system + t.children_user + t.children_system


@contextlib.contextmanager
def cpu_limit(seconds):
    """Interrupt code that does not terminate."""
    def up(*_):
        raise TimeUp()

    old = signal.signal(signal.SIGPROF, up)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def setup_import():
    """Import the package from /repo's working tree, ignoring any cached bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join("/nonexistent", "pycache")
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import hypervehicle

    where = os.path.dirname(os.path.abspath(hypervehicle.__file__))
    assert where == os.path.join(REPO_SRC, "hypervehicle"), where


def dump(obj, path):
    with open(path, "w") as f:
        json.dump(obj, f, indent=1, default=str)
