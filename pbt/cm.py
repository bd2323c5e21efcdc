"""Constrained models with every update of theirs recorded."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .gen import fast_q, problem, recipe, seeds
from .models import frames, trained_sa, usable
from esat.data.datahandler import DataHandler
from esat.rotational.constrained import ConstrainedModel


def s_base(neg=True):
    rs = [recipe(min_m=4, min_n=3, max_m=9, max_n=5)] * 3 + ([recipe(min_m=4, min_n=3, max_m=9, max_n=5, neg=True)] if neg else [])
    return {"p": st.one_of(*rs), "factors": st.integers(1, 3), "seed": seeds(),
            "method": st.sampled_from(["ls-nmf", "ls-nmf", "ls-nmf", "ws-nmf"] if neg else ["ls-nmf"]), "iters": st.sampled_from([2, 10, 40]),
            "soft": st.sampled_from([1.0, 1.0, 0.2, 5.0])}


def s_elem():
    return {"target": st.sampled_from(["feature", "feature", "sample"]), "f": st.integers(0, 11), "x": st.integers(0, 20)}


def elem(e, sa):
    """(target, native index) of a generated element."""
    f = e["f"] % sa.factors
    if e["target"] == "feature":
        return "feature", (f, e["x"] % sa.n)
    return "sample", (e["x"] % sa.m, f)


class Rec:
    """Stands in for the update procedure: passes on, keeps what it got and gave."""

    def __init__(self, update):
        self.update, self.steps = update, []

    def __call__(self, V=None, We=None, W=None, H=None, **kw):
        w, h = np.array(W, copy=True), np.array(H, copy=True)
        W2, H2 = self.update(V=V, We=We, W=W, H=H, **kw)
        self.steps.append((w, h, np.array(W2, copy=True), np.array(H2, copy=True)))
        return W2, H2


def handler(i, u, extra):
    """A handler of the data, with further samples and features which the model does not use."""
    if "samples" in extra:      # a second and a last sample with missing values, which are dropped
        days, shared = i.index, i.index.duplicated().any()
        step = days[1] - days[0]
        rows = np.r_[0, 0, 1:len(days), 0]
        i, u = i.iloc[rows].copy(), u.iloc[rows].copy()
        # samples of several sites: at times of others; otherwise at times of their own
        i.index = u.index = pd.DatetimeIndex(days[rows] if shared else [days[0], days[1], *(days[1:] + step), days[-1] + 2 * step], name="Date")
        i.iloc[[1, -1]] = u.iloc[[1, -1]] = 1.0
        i.iloc[[1, -1], 0] = np.nan
    if "feature" in extra:
        i.insert(1, "Unused", 1.0 + np.arange(len(i)))
        u.insert(1, "Unused", 0.1)
    kw = {}
    if "location" in extra:
        i["Site"], u["Site"] = "here", "here"
        kw = {"loc_cols": ["Site"]}
    dh = DataHandler.load_dataframe(input_df=i, uncertainty_df=u, **kw)
    if "feature" in extra:
        dh.set_category("Unused", "bad")
    if extra:
        dh.get_data()
    return dh


def build(case):
    """(base model, constrained model, recorder), or None for a degenerate base model."""
    sa = trained_sa(case["p"], factors=case["factors"], seed=case["seed"], iters=case["iters"], method=case["method"])
    if not usable(sa):
        return None
    V, U, _ = problem(case["p"])
    i, u = frames(V, U, **case.get("clock") or {})
    dh = handler(i, u, case.get("extra") or [])
    rec = Rec(sa.update_step)
    sa.update_step = rec
    cm = ConstrainedModel(base_model=sa, data_handler=dh, softness=case["soft"])
    return sa, cm, rec


def previous(sa, rec, i):
    """The factors before the pull of iteration i."""
    if i == 0:
        return np.array(sa.W), np.array(sa.H)
    return rec.steps[i - 1][2], rec.steps[i - 1][3]


def finite(rec):
    return all(np.isfinite(x).all() and np.abs(x).max() < 1e8 for s in rec.steps for x in s)


def noise(V, U, W, H):
    """Bound on the float32 rounding error of a loss."""
    V, U, W, H = (np.asarray(x, np.float64) for x in (V, U, W, H))
    a = (np.abs(V) + np.abs(W) @ np.abs(H)) / U
    s = np.abs(V - W @ H) / U
    return float(5e-7 * np.sum(s * a) + 1e-12 * np.sum(a * a) + 5e-7 * np.sum(s * s)) + 1e-6
