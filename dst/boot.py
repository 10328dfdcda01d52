"""Builds the extension from the current tree of the repository (outside of it),
installs the simulator's seams, then imports the code under test from the tree
itself."""
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("DST_REPO", "/repo")  # override: development only
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MOD = "tt_sketch.drm.fast_lazy_gaussian"


class HarnessError(Exception):
    pass


def _pyx():
    for root, _, files in os.walk(os.path.join(REPO, "tt_sketch")):
        for f in sorted(files):
            if f.endswith((".pyx", ".pxd", ".pxi", ".h")):
                yield os.path.join(root, f)


def build_key():
    h = hashlib.sha256(sys.version.encode())
    for f in sorted(_pyx()) + [os.path.join(REPO, x) for x in ("setup.py", "pyproject.toml")]:
        if os.path.exists(f):
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def build_extension():
    """Returns the path of the shared object for the current tree."""
    import tempfile

    cache = os.path.join(VERIF, ".cache")
    os.makedirs(cache, exist_ok=True)
    so = os.path.join(cache, f"flg-{build_key()}.so")
    if os.path.exists(so):
        return so
    tmp = tempfile.mkdtemp(prefix="dst-build-")
    try:
        for x in ("setup.py", "pyproject.toml", "README.md", "MANIFEST.in"):
            p = os.path.join(REPO, x)
            if os.path.exists(p):
                shutil.copy(p, tmp)
        shutil.copytree(
            os.path.join(REPO, "tt_sketch"),
            os.path.join(tmp, "tt_sketch"),
            ignore=shutil.ignore_patterns("*.so", "*.c", "*.html", "__pycache__"),
        )
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HOME=tmp)
        r = subprocess.run(
            [PY, "setup.py", "-q", "build_ext", "--inplace", "--force"],
            cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600,
        )
        found = [
            os.path.join(root, f)
            for root, _, files in os.walk(os.path.join(tmp, "tt_sketch"))
            for f in files
            if f.startswith("fast_lazy_gaussian") and f.endswith(".so")
        ]
        if r.returncode or not found:
            raise HarnessError("extension build failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        shutil.copy(found[0], so + f".{os.getpid()}")
        os.replace(so + f".{os.getpid()}", so)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


def load(so, scripts=False, cookie=False):
    """Install the seams and import the code under test."""
    os.environ["DST_SO"] = so
    from dst import sim

    sim.install()
    import warnings

    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    spec = importlib.util.spec_from_file_location(MOD, so)
    m = importlib.util.module_from_spec(spec)
    sys.modules[MOD] = m
    spec.loader.exec_module(m)
    import numpy as np

    np.seterr(all="ignore")
    import tt_sketch
    import tt_sketch.utils
    import tt_sketch.drm
    import tt_sketch.tensor
    import tt_sketch.sketch
    import tt_sketch.sketch_dispatch
    import tt_sketch.tt_gmres
    import tt_sketch.tt_svd

    if not tt_sketch.__file__.startswith(os.path.join(REPO, "tt_sketch")):
        raise HarnessError(f"wrong package imported: {tt_sketch.__file__}")
    if scripts:
        import scripts.experiment_base
        import scripts.data_download_util

        if not scripts.experiment_base.__file__.startswith(REPO):
            raise HarnessError("wrong scripts package")
        from dst import fs

        fs.install()
        from dst import httpsim

        httpsim.install()
    if cookie:
        import types

        for m in ("matplotlib", "matplotlib.pyplot"):  # only for plots
            sys.modules.setdefault(m, types.ModuleType(m))
        import scripts.cookie_problem  # noqa
    sim.monitor_files((os.path.join(REPO, "tt_sketch"), os.path.join(REPO, "scripts")))
    import gc

    gc.collect()
    gc.disable()
