"""Makes the library under test (/repo) and Hypothesis importable, offline and without stale bytecode."""
import glob
import os
import sys
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEPS = os.path.join(VERIF, ".deps")
WHEELS = "/opt/veriftools/wheels"


def _have(path):
    return os.path.isdir(os.path.join(path, "hypothesis")) and os.path.isdir(os.path.join(path, "sortedcontainers"))


def ensure_deps():
    """Returns a directory from which hypothesis and sortedcontainers can be imported."""
    if _have(DEPS):
        return DEPS
    names = []
    for pat in ("hypothesis-*cp312*.whl", "hypothesis-*py3*.whl", "sortedcontainers-*.whl"):
        got = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if pat.startswith("hypothesis") and any("hypothesis" in os.path.basename(n) for n in names):
            continue
        if got:
            names.append(got[-1])
    if len(names) >= 2:
        tmp = DEPS + ".tmp%d" % os.getpid()
        for n in names:
            with zipfile.ZipFile(n) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:  # another process was faster
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
        if _have(DEPS):
            return DEPS
    for p in glob.glob("/opt/veriftools/pyvenv/lib/python3.12/site-packages"):
        if _have(p):
            return p
    raise RuntimeError("hypothesis not found in the offline wheelhouse")


def setup_path():
    deps = ensure_deps()
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if deps not in sys.path:
        sys.path.append(deps)
    # third-party modules may use their own bytecode caches ...
    import numpy, scipy, scipy.integrate, scipy.linalg, scipy.spatial, pint, pydantic  # noqa: E401,F401
    try:
        import jax, jax.numpy  # noqa: E401,F401
        from jax.experimental.ode import odeint  # noqa: F401
    except ImportError:
        pass
    import hypothesis  # noqa: F401
    # ... but never one lying beside the sources under test: the working tree decides
    sys.pycache_prefix = os.path.join(VERIF, ".deps", "no-pycache")
