"""Make hypothesis (from the offline wheelhouse) and the quantfinlib of /repo importable."""

import glob
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
WHEELS = "/opt/veriftools/wheels"
FALLBACK = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
REPO = os.environ.get("VERIF_REPO", "/repo")
NEEDED = ("hypothesis", "sortedcontainers")


def _complete(path):
    return os.path.exists(os.path.join(path, ".ok"))


def ensure_deps():
    """Unpack the wheels into /verif/.deps; atomic, and safe to run twice."""
    if _complete(DEPS):
        return DEPS
    try:
        tmp = tempfile.mkdtemp(prefix=".deps.", dir=ROOT)
    except OSError:
        tmp = tempfile.mkdtemp(prefix="deps.")
    for name in NEEDED:
        tag = f"-cp{sys.version_info[0]}{sys.version_info[1]}-"
        found = sorted(w for w in glob.glob(os.path.join(WHEELS, name + "-*.whl")) if tag in w or "-none-any" in w)
        if not found:
            shutil.rmtree(tmp, ignore_errors=True)
            return FALLBACK
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(tmp)
    open(os.path.join(tmp, ".ok"), "w").close()
    try:
        os.rename(tmp, DEPS)
        return DEPS
    except OSError:
        if _complete(DEPS):
            shutil.rmtree(tmp, ignore_errors=True)
            return DEPS
        return tmp


def activate():
    deps = ensure_deps()
    sys.path.append(deps)  # at the end: numpy, pandas, ... must come from the environment of /repo
    sys.path.insert(0, REPO)
    import quantfinlib

    where = os.path.realpath(quantfinlib.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"quantfinlib was imported from {where}, not from {REPO}")
    import hypothesis  # noqa: F401
