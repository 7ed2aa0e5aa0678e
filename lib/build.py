"""Build the contour engine from /repo's working tree and import trackeddy with it.

/repo/trackeddy/_cntr*.so may be stale (it is not rebuilt before a check), so every
check compiles cntr.c into a scratch directory and loads that one.
"""
import atexit
import glob
import importlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PLAIN = ["-O2", "-DNPY_NO_DEPRECATED_API=0"]
ASAN = [
    "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
    "-fno-omit-frame-pointer",
]
_dirs = []


def scratch(prefix="vh-"):
    d = tempfile.mkdtemp(prefix=prefix)
    _dirs.append((os.getpid(), d))
    return d


@atexit.register
def clean(since=0):
    """Remove the scratch folders this process made (workers are not left to exit)."""
    for pid, d in _dirs[since:]:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)
    del _dirs[since:]


class BuildError(Exception):
    pass


def build_engine(flags=None, out=None):
    import numpy

    sources = sorted(glob.glob(os.path.join(REPO, "trackeddy/src/*.c")))
    if not sources:
        raise BuildError("no C sources in trackeddy/src")
    out = out or scratch()
    target = os.path.join(out, "_cntr" + sysconfig.get_config_var("EXT_SUFFIX"))
    cmd = ["gcc", "-shared", "-fPIC", "-w", *(flags or PLAIN)]
    cmd += ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]
    cmd += sources + ["-o", target, "-lm"]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise BuildError(r.stderr[-2000:])
    return target


def load_engine(path, name="trackeddy._cntr"):
    spec = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def import_trackeddy(engine=None):
    """Import trackeddy from /repo with a freshly built engine."""
    if "trackeddy.trackeddy" in sys.modules:
        return sys.modules["trackeddy"]
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    package = importlib.import_module("trackeddy")
    assert os.path.realpath(package.__file__).startswith(os.path.realpath(REPO)), (
        package.__file__)
    module = load_engine(engine or build_engine())
    sys.modules["trackeddy._cntr"] = module
    package._cntr = module
    importlib.import_module("trackeddy.trackeddy")
    return package
