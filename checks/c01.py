"""C01: vector algebra, judged by a shadow numpy vector kept for every live vector."""
import numpy as np

from hypervehicle.geometry.vector import Vector3, cross_product, approximately_equal_vectors
from rv import gen
from rv.core import arr

SPEC = {
    "level": "exploration",
    "rule": "seeded random operands (ints, floats, numpy floats, special values, magnitudes 1e-90..1e90) and "
            "random operation sequences over a pool of shared vectors; a case is distinct by its operands",
    "required": {"results compared": 2000, "operands re-read": 2000, "frame round trips": 100, "in-place updates": 200},
    "assumptions": ["components within 1e+-90 so squares neither overflow nor vanish",
                    "scalars are Python or numpy floats or Python ints"],
}


def comp(rng):
    k = rng.random()
    if k < 0.15:
        return rng.choice([0, 0.0, -0.0, 1, -1, 1.0, 2, 0.5])
    if k < 0.25:
        return rng.randint(-1000, 1000)
    if k < 0.35:
        return rng.choice([-1, 1]) * 10.0 ** rng.uniform(-90, 90)
    x = rng.uniform(-10, 10)
    return np.float64(x) if k < 0.5 else np.float64(-x).item() if k < 0.6 else x


def vec(rng, wild=True):
    if wild and rng.random() < 0.25:  # long or short as a whole
        k = 10.0 ** rng.uniform(-90, 90)
        c = [k * rng.uniform(-1, 1) for _ in range(3)]
    else:
        c = [comp(rng) if wild else rng.uniform(-5, 5) for _ in range(3)]
    return Vector3(*c), np.array([float(x) for x in c])


def scalar(rng, nonzero=False):
    while True:
        s = rng.choice([0, 1, -1, 2, 0.5, -3, rng.uniform(-10, 10), np.float64(rng.uniform(-10, 10))])
        if not (nonzero and s == 0):
            return s


def mag(*vs):
    return max([1e-300] + [float(np.max(np.abs(v))) for v in vs])


def same(c, v, s, what):
    """v holds exactly the values s."""
    c.seen("operands re-read")
    if not np.array_equal(arr(v), s):
        c.fail(f"{what}: holds {arr(v).tolist()}, expected {s.tolist()}")


def algebra(c):
    rng = c.rng
    (a, A), (b, B) = vec(rng), vec(rng)
    s, d = scalar(rng), scalar(rng, True)
    c.note(A.tolist(), B.tolist(), s, d)
    m = mag(A, B)

    def res(got, want, what, tol=None):
        c.close(arr(got), want, 1.0, tol if tol is not None else 1e-13 * m * max(1, abs(s)), what, "results compared")
        c.true(isinstance(got, Vector3) and got is not a and got is not b, f"{what} did not return a new vector")

    res(Vector3(a), A, "copy", 0)
    res(a + b, A + B, "sum")
    res(a - b, A - B, "difference")
    res(-a, -A, "negation", 0)
    res(a * s, A * s, "scaled")
    res(s * a, A * s, "scaled from the left")
    res(a / d, A / d, "divided", 1e-13 * mag(A) / abs(d))
    nA = np.sqrt((A / mag(A)) @ (A / mag(A))) * mag(A)
    c.close(abs(a), nA, nA, 1e-12, "magnitude", "results compared")
    c.close(a.norm, nA, nA, 1e-12, "norm", "results compared")
    if np.any(A):
        res(a.unit, A / nA, "unit", 1e-12)
    k = mag(A) * mag(B)
    c.close(a.dot(b), float(A @ B), 1, 1e-12 * k, "dot", "results compared")
    res(cross_product(a, b), np.cross(A, B), "cross", 1e-12 * k)
    c.close(np.array(a.vec), A, 1, 0, "array form", "results compared")
    c.true(bool(a == b) == bool(np.array_equal(A, B)), "equality")
    c.true(bool(a == Vector3(a)), "equality with a copy")
    for i in range(3):
        t = A.copy()
        t[i] = t[i] + (abs(t[i]) or 1.0)
        c.true(not bool(a == Vector3(*t)), f"equality ignored component {i}")
    same(c, a, A, "first operand")
    same(c, b, B, "second operand")


def approx(c):
    rng = c.rng
    a, A = vec(rng, False)
    rt, at = rng.choice([(None, None), (1e-2, 1e-5), (1e-6, 1e-3), (0.1, 0.0), (0.0, 0.5)])
    r, t = (1e-2, 1e-5) if rt is None else (rt, at)
    f = rng.choice([0.0, 0.2, 0.5, 0.8])
    D = np.array([rng.choice([-1, 1]) * f * (t + r * abs(x)) for x in A])
    i = rng.randrange(3)
    E = D.copy()
    E[i] = rng.choice([-1, 1]) * (1.5 * (t + r * abs(A[i])) + 1e-9) * rng.choice([1, 3, 100])
    c.note(A.tolist(), rt, at, f, i, E.tolist())
    kw = {} if rt is None else {"rel_tol": rt, "abs_tol": at}
    # tolerances are relative to one operand; keep clear of the difference between the two
    if f <= 0.5:
        c.true(bool(approximately_equal_vectors(a, Vector3(*(A + D)), **kw)), "near vectors judged different", "results compared")
    c.true(not bool(approximately_equal_vectors(Vector3(*(A + E)), a, **kw)), f"component {i} beyond tolerance accepted", "results compared")
    same(c, a, A, "operand")


def frames(c):
    rng = c.rng
    n, t1, t2 = gen.frame(rng)
    (v, X), (o, O) = vec(rng, False), vec(rng, False)
    use = rng.random() < 0.7
    fr = [Vector3(*e) for e in (n, t1, t2)]
    c.note(X.tolist(), n.tolist(), t1.tolist(), O.tolist() if use else None)
    args = fr + ([o] if use else [])
    M = np.array([n, t1, t2])
    base = O if use else np.zeros(3)
    loc = M @ (X - base)
    w = Vector3(v)
    got = w.transform_to_local_frame(*args)
    c.close(arr(got), loc, 20, 1e-12, "local coordinates returned", "results compared")
    c.close(arr(w), loc, 20, 1e-12, "local coordinates in place", "results compared")
    c.seen("in-place updates")
    back = w.transform_to_global_frame(*args)
    c.close(arr(back), X, 20, 1e-12, "round trip", "frame round trips")
    c.close(arr(w), X, 20, 1e-12, "round trip in place", "frame round trips")
    g = Vector3(v)
    g.transform_to_global_frame(*args)
    c.close(arr(g), M.T @ X + base, 20, 1e-12, "global coordinates", "results compared")
    g.transform_to_local_frame(*args)
    c.close(arr(g), X, 20, 1e-12, "reverse round trip", "frame round trips")
    same(c, v, X, "source vector")
    for e, E in zip(fr, (n, t1, t2)):
        same(c, e, E, "frame axis")
    same(c, o, O, "frame origin")


def sequence(c):
    """Random operations over a pool of shared vectors; every vector checked after each."""
    rng = c.rng
    pool = [list(vec(rng, False)) for _ in range(4)]
    ops = []
    for _ in range(14):
        op = rng.choice(["add", "sub", "mul", "rmul", "div", "neg", "copy", "unit", "cross", "imul", "idiv", "norm",
                         "local", "global", "dot", "eq", "iadd", "isub", "coords"])
        i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
        (a, A), (b, B) = pool[i], pool[j]
        s = rng.choice([2, -1, 0.5, rng.uniform(0.2, 3), np.float64(1.5)])
        ops.append((op, i, j))
        new = None
        if op == "add":
            new = (a + b, A + B)
        elif op == "sub":
            new = (a - b, A - B)
        elif op == "iadd":  # rebinds a name, never changes the vector behind it
            x = a
            x += b
            new = (x, A + B)
        elif op == "isub":
            x = a
            x -= b
            new = (x, A - B)
        elif op == "mul":
            new = (a * s, A * s)
        elif op == "rmul":
            new = (s * a, A * s)
        elif op == "div":
            new = (a / s, A / s)
        elif op == "neg":
            new = (-a, -A)
        elif op == "copy":
            new = (Vector3(a), A.copy())
        elif op == "coords":
            new = (Vector3.from_coordinates(rng.choice([list, tuple, np.array])(A.tolist())), A.copy())
        elif op == "unit" and np.linalg.norm(A) > 1e-6:
            new = (a.unit, A / np.linalg.norm(A))
        elif op == "cross" and max(mag(A), mag(B)) < 1e4:
            new = (cross_product(a, b), np.cross(A, B))
        elif op == "dot":
            c.close(a.dot(b), float(A @ B), 1 + mag(A) * mag(B), 1e-11, "dot", "results compared")
        elif op == "eq":
            bool(a == b), approximately_equal_vectors(a, b), abs(a), a.norm, a.vec, repr(a), str(a)
        elif op == "imul":
            x = a
            x *= s
            c.true(x is a, "in-place scaling made a new vector", "in-place updates")
            pool[i][1] = A * s
        elif op == "idiv":
            x = a
            x /= s
            c.true(x is a, "in-place division made a new vector", "in-place updates")
            pool[i][1] = A / s
        elif op == "norm" and np.linalg.norm(A) > 1e-6:
            a.normalize()
            c.seen("in-place updates")
            pool[i][1] = A / np.linalg.norm(A)
        elif op in ("local", "global"):
            n, t1, t2 = gen.frame(rng)
            M = np.array([n, t1, t2])
            fr = [Vector3(*e) for e in (n, t1, t2)]
            withc = rng.random() < 0.5 and i != j
            if op == "local":
                a.transform_to_local_frame(*fr, *([b] if withc else []))
                pool[i][1] = M @ (A - (B if withc else 0))
            else:
                a.transform_to_global_frame(*fr, *([b] if withc else []))
                pool[i][1] = M.T @ A + (B if withc else 0)
            c.seen("in-place updates")
        if new is not None:
            c.true(all(new[0] is not p[0] for p in pool), f"{op} returned one of the existing vectors")
            if len(pool) < 8:
                pool.append(list(new))
            else:
                pool[rng.randrange(8)] = list(new)
        for k, (v, S) in enumerate(pool):
            c.close(arr(v), S, 1 + mag(S), 1e-11, f"vector {k} after {op}({i},{j})", "operands re-read")
            pool[k][1] = arr(v)
    c.note(ops, [p[1].round(3).tolist() for p in pool[:2]])


def construct(c):
    rng = c.rng
    x, y, z = comp(rng), comp(rng), comp(rng)
    c.note(x, y, z)
    c.close(arr(Vector3(x)), [float(x), 0, 0], 1, 0, "one component", "results compared")
    c.close(arr(Vector3(x, y)), [float(x), float(y), 0], 1, 0, "two components", "results compared")
    c.close(arr(Vector3(x=x, y=y, z=z)), [float(x), float(y), float(z)], 1, 0, "three components", "results compared")
    c.close(arr(Vector3(x, z=z)), [float(x), 0, float(z)], 1, 0, "x and z", "results compared")
    for bad in (None, "1", [1, 2, 3]):
        c.raises(lambda: Vector3(bad), f"Vector3({bad!r})")


KINDS = [("algebra", algebra, 1200, 12000), ("approx", approx, 600, 6000), ("frames", frames, 800, 8000),
         ("sequence", sequence, 600, 8000), ("construct", construct, 200, 2000)]
