"""Put /repo first and hypothesis last on sys.path; pin the environment.

hypothesis is not in /opt/venv (where qermit's dependencies live).  It is
borrowed from the tooling venv, appended at the *end* of sys.path so that every
other package still comes from /opt/venv; failing that, from the wheelhouse.
"""

import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "RAYON_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def _hypothesis_path():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    cand = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if os.path.isdir(os.path.join(cand, "hypothesis")):
        sys.path.append(cand)
        try:
            import hypothesis  # noqa: F401

            return
        except ImportError:
            sys.path.remove(cand)
    import atexit
    import glob
    import shutil
    import tempfile
    import zipfile

    d = tempfile.mkdtemp(prefix="verif_hyp_")
    atexit.register(shutil.rmtree, d, True)
    for pat in ("hypothesis-*", "sortedcontainers-*", "attrs-*"):
        for w in sorted(glob.glob("/opt/veriftools/wheels/" + pat + ".whl")):
            try:
                with zipfile.ZipFile(w) as z:
                    z.extractall(d)
                break
            except Exception:
                continue
    sys.path.append(d)
    import hypothesis  # noqa: F401


_hypothesis_path()

import warnings  # noqa: E402

warnings.filterwarnings("ignore")
import logging  # noqa: E402

logging.disable(logging.WARNING)
