"""The compiled extension, made from the source that is there now."""
import glob
import hashlib
import importlib.util
import os
import subprocess
import sys
import sysconfig

from .core import PYTHON, REPO, MachineryError

NAME = "rsciio.bruker.unbcf_fast"
STAMP = "/opt/vp/build/rsciio__bruker__unbcf_fast.sha256"


def current(src):
    """Whether the build of the working tree is the one of this source."""
    if os.path.realpath(REPO) != "/repo" or not glob.glob(os.path.splitext(src)[0] + ".cpython-*.so"):
        return False
    try:
        with open(src, "rb") as f, open(STAMP) as g:
            return hashlib.sha256(f.read()).hexdigest() == g.read().split()[0]
    except (OSError, IndexError):
        return False


def inject(folder):
    """Make ``import rsciio.bruker.unbcf_fast`` find what the source says."""
    src = os.path.join(REPO, "rsciio", "bruker", "unbcf_fast.pyx")
    if not os.path.exists(src) or current(src):
        return
    c = os.path.join(folder, "unbcf_fast.c")
    so = os.path.join(folder, "unbcf_fast" + sysconfig.get_config_var("EXT_SUFFIX"))
    for cmd in (
        [PYTHON, "-m", "cython", "-3", src, "-o", c],
        ["gcc", "-O1", "-fPIC", "-shared", "-I" + sysconfig.get_path("include"), c, "-o", so],
    ):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise MachineryError(f"{cmd[0]}: {r.stderr[-500:]}")
    import rsciio.bruker

    sys.modules.pop(NAME, None)
    spec = importlib.util.spec_from_file_location(NAME, so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules[NAME] = rsciio.bruker.unbcf_fast = m
    if "rsciio.bruker._api" in sys.modules:
        a = sys.modules["rsciio.bruker._api"]
        a.unbcf_fast, a.fast_unbcf = m, True
