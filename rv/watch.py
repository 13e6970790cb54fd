"""Monitors of the process: files opened for writing, created or removed, and calls into a stand-in pymesh."""
import contextlib
import hashlib
import os
import sys
import types

_active = []
_installed = False


def _hook(event, args):
    if not _active:
        return
    log = _active[-1]
    if event == "open":
        path, mode, flags = args
        if isinstance(path, (str, bytes, os.PathLike)):
            w = (isinstance(mode, str) and any(x in mode for x in "wax+")) or (
                mode is None and flags is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if w:
                log.append(("write", os.path.abspath(os.fsdecode(path))))
    elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.rename", "os.truncate", "os.link", "os.symlink", "shutil.rmtree",
                   "shutil.move", "shutil.copyfile"):
        for a in args[:2]:
            if isinstance(a, (str, bytes)):
                log.append((event, os.path.abspath(os.fsdecode(a))))


@contextlib.contextmanager
def files():
    """List of (event, absolute path) of everything done to files inside the block."""
    global _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True
    log = []
    _active.append(log)
    try:
        yield log
    finally:
        _active.pop()


def listing(root):
    """Relative path -> digest of every file below root; directories map to None."""
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in fs:
            p = os.path.join(d, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = hashlib.sha1(f.read()).hexdigest()
    return out


@contextlib.contextmanager
def cwd(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def stub_pymesh(load=None):
    """Stand-in for pymesh that records what it is asked to do; yields the log."""
    log = []
    m = types.ModuleType("pymesh")
    io = types.ModuleType("pymesh.meshio")

    def load_mesh(f, *a, **k):
        log.append(("load", os.path.abspath(str(f))))
        return ("mesh", load(str(f)) if load else str(f))

    def save_mesh(f, mesh, *a, **k):
        log.append(("save", os.path.abspath(str(f)), mesh))

    def merge(meshes):
        meshes = list(meshes)
        log.append(("merge", [x[1] for x in meshes]))
        return ("merged", [x[1] for x in meshes])

    io.load_mesh, io.save_mesh = load_mesh, save_mesh
    m.meshio, m.load_mesh, m.save_mesh, m.merge_meshes = io, load_mesh, save_mesh, merge
    m.resolve_self_intersection = lambda x, *a, **k: x
    for n in ("remove_degenerated_triangles", "remove_duplicated_faces", "remove_isolated_vertices", "remove_obtuse_triangles"):
        setattr(m, n, lambda x, *a, **k: (x, {}))
    old = {k: sys.modules.get(k) for k in ("pymesh", "pymesh.meshio")}
    sys.modules["pymesh"], sys.modules["pymesh.meshio"] = m, io
    try:
        yield log
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
