"""C08: invalid input is refused before training and leaves no results; valid input is accepted."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import problem, recipe, wide, seeds
from esat.model.sa import SA

FAULTS = ["none", "nan_V", "nan_U", "shape_rows", "shape_cols", "shape_T", "nan_H", "H_rows", "H_cols", "nan_W", "W_rows",
          "W_cols", "W_T"]


def s_bad():
    return st.fixed_dictionaries({"p": recipe(big=True, min_m=3, min_n=3, neg=True), "factors": wide(2, 4, 10, 12),
                                  "fault": st.sampled_from(FAULTS), "method": st.sampled_from(["ls-nmf", "ws-nmf"]),
                                  "i": st.integers(0, 10 ** 6), "j": st.integers(0, 10 ** 6), "trained": st.booleans()})


def c_bad(case, ctx):
    c = case["p"]
    V, U, rng = problem(c)
    m, n = V.shape
    f = min(case["factors"], n - 1)
    i, j = case["i"] % m, case["j"] % n
    H = rng.gamma(1, 1, (f, n)) + 0.01
    W = rng.gamma(1, 1, (m, f)) + 0.01
    fault = case["fault"]
    kw = {}
    if fault == "nan_V":
        V[i, j] = np.nan
    elif fault == "nan_U":
        U[i, j] = np.nan
    elif fault == "shape_rows":
        U = U[:-1]
    elif fault == "shape_cols":
        U = U[:, :-1]
    elif fault == "shape_T":
        if m == n:
            return
        U = U.T
    elif fault == "nan_H":
        H[i % f, j] = np.nan
        kw["H"] = H
    elif fault == "H_rows":
        kw["H"] = np.vstack([H, H[:1]])
    elif fault == "H_cols":
        kw["H"] = H[:, :-1]
    elif fault == "nan_W":
        W[i, j % f] = np.nan
        kw["W"] = W
    elif fault == "W_rows":
        kw["W"] = W[:-1]
    elif fault == "W_cols":
        kw["W"] = np.hstack([W, W[:, :1]])
    elif fault == "W_T":
        if m == f:
            return
        kw["W"] = W.T
    sa = None
    try:
        sa = SA(V=V, U=U, factors=f, method=case["method"])
        sa.initialize(**kw)
        before = (np.array(sa.W), np.array(sa.H))
        r = sa.train(max_iter=3, converge_delta=0.1, converge_n=5)
    except (ValueError, IndexError) as ex:
        expect(fault != "none", "valid input raised an error", error=repr(ex))
        expect(sa is None or (sa.WH is None and sa.Qtrue is None), "results exist after an error")
        ctx.label(fault, "raised")
        ctx.nontrivial()
        return
    if fault == "none":
        expect(r is None, "valid input was refused", returned=r)
        expect(sa.WH is not None and sa.WH.shape == (m, n) and sa.Qtrue is not None and len(sa.q_list) >= 1,
               "training valid input left no results")
        ctx.label("valid")
        ctx.nontrivial()
        return
    expect(r == -1, "invalid input was trained", fault=fault, returned=r)
    expect(sa.WH is None and sa.Qtrue is None and sa.Qrobust is None and sa.q_list is None,
           "results exist although the input was refused", fault=fault)
    expect(np.array_equal(sa.W, before[0], equal_nan=True) and np.array_equal(sa.H, before[1], equal_nan=True),
           "factors changed although the input was refused", fault=fault)
    expect(not sa.converged, "a refused model reports convergence")
    ctx.label(fault, "refused")
    ctx.nontrivial()


def s_small_u():
    return st.fixed_dictionaries({"p": recipe(big=True, min_m=3, min_n=3, u_kinds=["const", "random"]), "cells": st.integers(1, 4),
                                  "value": st.sampled_from([0.0, 1e-15, 1e-13]), "seed": seeds()})


def c_small_u(case, ctx):
    """Uncertainties that are zero (or too small) are raised to a positive floor: no infinite weights."""
    c = case["p"]
    V, U, rng = problem(c)
    pr = np.random.default_rng(case["seed"])
    for _ in range(case["cells"]):
        U[int(pr.integers(c["m"])), int(pr.integers(c["n"]))] = case["value"]
    keep = U.copy()
    sa = SA(V=V, U=U, factors=2)
    expect(np.array_equal(U, keep), "the caller's uncertainty was modified")
    expect(np.all(np.asarray(sa.U) > 0), "the model kept a zero uncertainty")
    expect(np.all(np.isfinite(np.asarray(sa.We))) and np.all(np.asarray(sa.We) > 0), "a weight is not positive and finite")
    expect(np.allclose(np.asarray(sa.We, float), 1.0 / np.asarray(sa.U, float) ** 2, rtol=1e-4), "weights are not 1/u^2")
    expect(np.array_equal(np.asarray(sa.U)[keep >= 1e-9], keep.astype(np.float32)[keep >= 1e-9]),
           "a regular uncertainty was changed")
    sa.initialize()
    r = sa.train(max_iter=1, converge_delta=0.1, converge_n=5)
    expect(r is None, "data with a zero uncertainty was refused", returned=r)
    ctx.nontrivial()


PROP = Prop("C08", [
    Sub("refuse", s_bad, c_bad, 4000, 80000, "valid problem with one injected fault (or none); every judged case is non-trivial"),
    Sub("floor", s_small_u, c_small_u, 1200, 20000, "zero / tiny uncertainties; every case is non-trivial"),
], assumptions=["an input may be refused by a ValueError/IndexError or by the documented return value -1"])
