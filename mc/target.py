"""Binds the checks to /repo's current working tree.

Python sources are imported from /repo itself. The four Cython extensions are used as they lie in
/repo when they were built from exactly the sources that lie there now (a content digest decides, never
a time stamp); otherwise they are built from /repo's current sources in a scratch directory, and only
the resulting extension modules are loaded from there.
"""
import atexit
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


def _digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(f"{p}\0".encode())
        h.update(p.read_bytes() + b"\0")
    return h.hexdigest()


def native_state():
    """Digest of the inputs of every extension module (same recipe as the sandbox's build stamp)."""
    shared = [REPO / "setup.py", REPO / "thinc" / "about.py"]
    for pat in ("*.pxd", "*.pxi", "*.hh", "*.h", "*.hpp"):
        shared += sorted((REPO / "thinc").rglob(pat))
    shared = [p for p in shared if p.is_file()]
    return {
        str(pyx.relative_to(REPO).with_suffix("")): _digest([pyx] + shared)
        for pyx in sorted((REPO / "thinc").rglob("*.pyx"))
    }


def _so_of(root, mod):
    base = root / mod
    return sorted(base.parent.glob(f"{base.name}.cpython*.so"))


NEEDED = ["thinc/backends/cblas", "thinc/backends/numpy_ops", "thinc/layers/premap_ids", "thinc/layers/sparselinear"]


def stale_modules():
    try:
        stamp = json.loads((REPO / "build" / "vp-stamp.json").read_text())
    except (OSError, ValueError):
        stamp = {}
    now = native_state()
    return [m for m in NEEDED if m in now and (stamp.get(m) != now[m] or not _so_of(REPO, m))]


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, mapping):
        self.mapping = mapping

    def find_spec(self, name, path=None, target=None):
        so = self.mapping.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, str(so))
        return importlib.util.spec_from_file_location(name, str(so), loader=loader)


def build_scratch():
    """Build the extensions of the current tree in a scratch copy; return the scratch root."""
    root = Path(tempfile.mkdtemp(prefix="verif-native-"))
    atexit.register(_cleanup, str(root), os.getpid())
    for name in ("setup.py", "setup.cfg", "pyproject.toml", "MANIFEST.in", "README.md", "LICENSE"):
        if (REPO / name).is_file():
            shutil.copy2(REPO / name, root / name)

    def ignore(d, names):
        return [n for n in names if n.endswith((".so", ".cpp", ".o")) or n in ("tests", "__pycache__")]

    shutil.copytree(REPO / "thinc", root / "thinc", ignore=ignore)
    env = dict(os.environ)
    r = subprocess.run(
        [sys.executable, "setup.py", "build_ext", "--inplace", "-j", "4"],
        cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode != 0:
        raise RuntimeError("building the extensions failed:\n" + r.stdout[-3000:])
    return root


def _cleanup(root, pid):
    if os.getpid() == pid and root.startswith(tempfile.gettempdir()):
        shutil.rmtree(root, ignore_errors=True)


INFO = {}


def load():
    """Import thinc from /repo, with up-to-date extension modules."""
    if INFO:
        return INFO
    sys.dont_write_bytecode = True
    stale = stale_modules()
    if stale:
        root = build_scratch()
        mapping = {}
        for m in NEEDED:
            sos = _so_of(root, m)
            if sos:
                mapping[m.replace("/", ".")] = sos[0]
        sys.meta_path.insert(0, _Finder(mapping))
    sys.path.insert(0, str(REPO))
    import thinc  # noqa

    assert Path(thinc.__file__).resolve().parent == (REPO / "thinc").resolve(), thinc.__file__
    import thinc.api  # noqa

    INFO["native"] = "rebuilt in scratch from the current tree" if stale else "as built in /repo (digest matches the current tree)"
    return INFO
