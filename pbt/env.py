"""Process set-up: where the code under test comes from, and a quiet, deterministic environment.

The code under test is always imported from REPO's working tree (default /repo; VERIF_REPO overrides it when the
machinery is tested against a scratch copy).
"""
import importlib
import importlib.machinery
import importlib.util
import logging
import os
import sys
import types
import warnings

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ.setdefault("TQDM_DISABLE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

HYPOTHESIS_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


class HarnessError(Exception):
    """The machinery itself could not run (never reported as a violation)."""


def _hypothesis():
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    # appended last, so the repository's own numpy/pandas/scipy keep priority
    if HYPOTHESIS_DIR not in sys.path:
        sys.path.append(HYPOTHESIS_DIR)
    try:
        import hypothesis  # noqa
    except ImportError as ex:  # pragma: no cover
        raise HarnessError(f"hypothesis is not available offline: {ex}")


def _import_repo():
    sys.path.insert(0, REPO)
    # `esat_eval` is REPO/eval in the project's packaging; bind it to the tree under test.
    pkg = types.ModuleType("esat_eval")
    pkg.__path__ = [os.path.join(REPO, "eval")]
    pkg.__file__ = os.path.join(REPO, "eval", "__init__.py")
    pkg.__spec__ = importlib.machinery.ModuleSpec("esat_eval", None, is_package=True)
    pkg.__spec__.submodule_search_locations = pkg.__path__
    sys.modules["esat_eval"] = pkg
    # The compiled extension cannot be built offline. Some modules may import a console helper from it at import time;
    # give them a no-op, then make every later `import esat_rust` fail so that the documented Python path is used.
    have_rust = importlib.util.find_spec("esat_rust") is not None
    if not have_rust:
        stub = types.ModuleType("esat_rust")
        stub.clear_screen = lambda *a, **k: None
        sys.modules["esat_rust"] = stub
    for m in ("esat.model.sa", "esat.model.batch_sa", "esat.error.bs_disp", "esat.error.bootstrap",
              "esat.error.displacement", "esat.data.datahandler", "esat.data.analysis", "esat.data.impute",
              "esat.rotational.constrained", "esat.estimator", "esat.model.recombinator", "esat.error.error",
              "esat_eval.simulator", "esat_eval.factor_comparison", "esat.cli.esat_cli",
              "esat_eval.factor_catalog", "esat_eval.perturbation"):
        importlib.import_module(m)
    if not have_rust:
        sys.modules["esat_rust"] = None


_done = False


def bootstrap():
    global _done
    if _done:
        return
    _done = True
    _hypothesis()
    warnings.simplefilter("ignore")
    _import_repo()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
    import plotly.graph_objects as go
    import plotly.io as pio
    pio.renderers.default = "json"
    go.Figure.show = lambda self, *a, **k: None     # nothing is ever opened or rendered
    import esat.model.sa as m
    if not os.path.realpath(m.__file__).startswith(REPO + os.sep):
        raise HarnessError(f"esat imported from {m.__file__}, not from {REPO}")
