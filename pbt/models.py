"""Builds small trained objects of every kind from a case, for the checks which need one."""
import os
import shutil
import tempfile
from contextlib import contextmanager

import numpy as np
import pandas as pd

from .gen import problem


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif-case-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def factor_limit(c, factors):
    return max(1, min(factors, c["m"], c["n"] - 1))


def trained_sa(c, factors=2, seed=1, iters=12, method="ls-nmf", delta=1e-6, conv_n=8):
    from esat.model.sa import SA
    V, U, rng = problem(c)
    sa = SA(V=V, U=U, factors=factor_limit(c, factors), method=method, seed=seed)
    sa.initialize()
    sa.train(max_iter=iters, converge_delta=delta, converge_n=conv_n)
    return sa


def labels(n):
    """Names of features, in no alphabetical order."""
    names = ["Zn", "PM2.5", "As", "OC 2", "Sulfate", "Na+", "Al", "x_1", "Pb", "EC", "Cu-1"]
    return [names[j] if j < len(names) else f"F{(7 * j) % 50}" for j in range(n)]


def frames(V, U, freq="D", names=None, start="2021-03-01", shared=False):
    idx = pd.date_range(start, periods=V.shape[0], freq=freq, name="Date")
    if shared:
        # the samples of two sites, one below the other
        idx = idx[np.arange(len(idx)) % ((len(idx) + 1) // 2)]
    names = names or labels(V.shape[1])
    return pd.DataFrame(V, index=idx, columns=names), pd.DataFrame(U, index=idx, columns=names)


def handler(V, U, **kw):
    from esat.data.datahandler import DataHandler
    i, u = frames(V, U, **kw)
    return DataHandler.load_dataframe(input_df=i, uncertainty_df=u)


def listing(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def same_sa(a, b):
    """None if the two SA models hold the same contents, else what differs."""
    for n in ("V", "U", "We", "W", "H", "WH"):
        x, y = getattr(a, n, None), getattr(b, n, None)
        if (x is None) != (y is None) or (x is not None and not np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True)):
            return n
    for n in ("Qtrue", "Qrobust"):
        x, y = getattr(a, n, None), getattr(b, n, None)
        if not (x == y or (x is not None and y is not None and np.isnan(x) and np.isnan(y))):
            return n
    for n in ("factors", "method", "seed", "converged", "converge_steps", "model_i", "m", "n"):
        if getattr(a, n, None) != getattr(b, n, None):
            return n
    if not np.array_equal(np.asarray(a.q_list, float), np.asarray(b.q_list, float), equal_nan=True):
        return "loss history"
    if {k: str(v) for k, v in a.metadata.items()} != {k: str(v) for k, v in b.metadata.items()}:
        return "metadata"
    return None


@contextmanager
def shown():
    """Collects the figures that are shown instead of rendering them."""
    import plotly.graph_objects as go
    figs = []
    old = go.Figure.show
    go.Figure.show = lambda self, *a, **k: figs.append(self)
    try:
        yield figs
    finally:
        go.Figure.show = old


def usable(sa):
    """Semi-NMF on noise can drive a profile to zero and the contributions to overflow; nothing is claimed then."""
    W, H = np.asarray(sa.W, float), np.asarray(sa.H, float)
    return bool(sa.Qtrue is not None and np.isfinite(sa.Qtrue) and np.isfinite(W).all() and np.isfinite(H).all()
                and np.abs(W).max() < 1e9 and np.abs(H).max() < 1e9)


class _Pool:
    """A process pool which runs everything in this process (forking a pool per case would dominate the run time)."""

    def __init__(self, processes=None, *a, **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")

    def starmap(self, f, xs, *a, **k):
        return [f(*x) for x in xs]

    def map(self, f, xs, *a, **k):
        return [f(x) for x in xs]

    def imap(self, f, xs, *a, **k):
        return iter(self.map(f, xs))

    imap_unordered = imap

    def _done(self, r, callback):
        if callback is not None:
            callback(r)

        class R:
            def get(self, timeout=None):
                return r

            def wait(self, timeout=None):
                pass

            def ready(self):
                return True

            def successful(self):
                return True
        return R()

    def starmap_async(self, f, xs, chunksize=None, callback=None, error_callback=None):
        return self._done(self.starmap(f, xs), callback)

    def map_async(self, f, xs, chunksize=None, callback=None, error_callback=None):
        return self._done(self.map(f, xs), callback)

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        return self._done(f(*args, **kwds), callback)

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


@contextmanager
def inline_pool():
    import multiprocessing
    import multiprocessing.pool
    old = multiprocessing.Pool
    multiprocessing.Pool = _Pool
    try:
        yield
    finally:
        multiprocessing.Pool = old


@contextmanager
def log_lines():
    """Collects everything reported through logging."""
    import logging

    class Lines(logging.Handler):
        def __init__(self):
            super().__init__()
            self.lines = []

        def emit(self, record):
            self.lines.append(record.getMessage())
    h = Lines()
    root = logging.getLogger()
    old, level = root.manager.disable, root.level
    root.addHandler(h)
    logging.disable(logging.NOTSET)
    root.setLevel(logging.INFO)
    try:
        yield h.lines
    finally:
        logging.disable(old)
        root.setLevel(level)
        root.removeHandler(h)
