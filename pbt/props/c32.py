"""C32: estimating the number of factors by cross-validation."""
from contextlib import contextmanager

import numpy as np
from hypothesis import strategies as st
from scipy.stats import binom

from ..core import Prop, Sub, expect
from ..gen import SEEDS, problem, recipe, seeds
from ..models import inline_pool, shown
from esat.estimator import FactorEstimator
from esat.model.sa import SA


@contextmanager
def trained():
    """Collects every model that is trained."""
    rec = []
    old = SA.train

    def train(self, *a, **k):
        r = old(self, *a, **k)
        rec.append(self)
        return r
    SA.train = train
    try:
        yield rec
    finally:
        SA.train = old


def s_table():
    return st.fixed_dictionaries({"p": recipe(min_m=5, max_m=14, min_n=4, max_n=8, zeros=False), "seed": seeds(), "test": st.sampled_from([0.1, 0.3, 0.5, 0.05]),
                                  "coef": st.sampled_from([1.0, 0.5, 2.0]), "lo": st.integers(1, 3), "span": st.integers(0, 3), "samples": st.sampled_from([1, 2, 5, 20, 60]),
                                  "iters": st.sampled_from([1, 3, 10, 10, 50]), "delta": st.sampled_from([1.0, 1e-3, 50.0]), "conv_n": st.sampled_from([2, 5, 10, 30]), "actual": st.sampled_from([None, 2]), "unit": st.sampled_from([1.0, 1e-3, 1e-6, 1e-8])})


def go(c, V, U):
    fe = FactorEstimator(V=V, U=U, seed=c["seed"], test_percent=c["test"], k_coef=c["coef"])
    with inline_pool(), trained() as rec, np.errstate(all="ignore"):
        df = fe.run(samples=c["samples"], min_factors=c["lo"], max_factors=c["lo"] + c["span"], max_iterations=c["iters"], converge_delta=c["delta"], converge_n=c["conv_n"])
    return fe, df, rec


def same(a, b, rtol=1e-6, atol=1e-9):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=atol, equal_nan=True)


def c_table(case, ctx):
    import warnings
    warnings.simplefilter("ignore")
    c = case
    V, U, _ = problem(c["p"])
    f = c["unit"] * 1e3 / max(V.mean(), 1e-9)
    V, U = V * f, U * f
    keep = V.copy(), U.copy()
    fe, df, rec = go(c, V, U)
    expect(np.array_equal(V, keep[0]) and np.array_equal(U, keep[1]), "the data were modified")
    counts = list(range(c["lo"], c["lo"] + c["span"] + 1))
    L = len(counts)
    expect(list(df["Factors"]) == counts, "the table does not have one row per number of factors", got=list(df["Factors"]), want=counts)
    expect(len(rec) == c["samples"], "not one model per sample was trained", got=len(rec))
    N = V.size
    groups = {k: [x for x in rec if x.factors == k] for k in counts}
    expect(sum(map(len, groups.values())) == c["samples"], "a model has a number of factors outside of the range", got=[x.factors for x in rec])
    if L > 1 and (1 - 1 / L) ** c["samples"] * L < 1e-8:
        expect(all(groups.values()), "a number of factors was never drawn", got={k: len(v) for k, v in groups.items()})
    if c["samples"] >= 20:
        expect(len({x.seed for x in rec}) > 1, "all samples have the same initialisation")
    test, train = df["Test MSE"].to_numpy(float), df["Train MSE"].to_numpy(float)
    q = c["unit"] ** 2
    expect((train[np.isfinite(train)] > 0).all(), "the error of noisy data is zero", train=train)
    for i, k in enumerate(counts):
        xs = groups[k]
        if not xs:
            expect(np.isnan(test[i]) and np.isnan(train[i]) and np.isnan(df["Q(True)"][i]), "values for a number of factors which was not drawn")
            continue
        expect(same(df["Q(True)"][i], np.mean([float(x.Qtrue) for x in xs])) and same(df["Q(Robust)"][i], np.mean([float(x.Qrobust) for x in xs])), "the losses are not the mean of the models",
               got=(df["Q(True)"][i], df["Q(Robust)"][i]))
        for x in xs:
            expect(x.converge_steps <= c["iters"] and x.method == "ls-nmf", "the training settings were not used", steps=x.converge_steps, limit=c["iters"])
            expect(x.metadata.get("max_iterations") == c["iters"] and x.metadata.get("converge_delta") == c["delta"] and x.metadata.get("converge_n") == c["conv_n"],
                   "the training settings were not used", got=x.metadata)
        S = [float(((V / c["unit"] - np.asarray(x.W, float) @ np.asarray(x.H, float) / c["unit"]) ** 2).sum()) for x in xs]
        if len(xs) == 1 and np.isfinite(test[i]) and np.isfinite(train[i]):
            # N cells, t of them test cells: (N - t) * train + t * test is the total squared error
            test_i, train_i = test[i] / q, train[i] / q
            d = test_i - train_i
            tol = (1e-3 * S[0] + 2e-5 * N) / max(abs(d), 1e-12)
            t = (S[0] - N * train_i) / d if abs(d) > 1e-9 else np.nan
            if tol < 0.2:
                expect(abs(t - round(t)) <= 0.2 + tol, "train and test cells do not make up the data", t=t, train=train_i, test=test_i, total=S[0])
            if tol < 3:
                a, b = binom.ppf(1e-9, N, c["test"]) - tol - 1, binom.ppf(1 - 1e-9, N, c["test"]) + tol + 1
                expect(a <= t <= b, "another share of the cells is used for testing", cells=N, test=t, share=c["test"])
                ctx.label("share judged")
    # where the held-out cells are those without weight, they are known cell by cell
    held = [np.asarray(x.We) == 0 for x in rec]
    if all(h.shape == V.shape for h in held) and any(h.any() for h in held):
        for h in held:
            expect(binom.ppf(1e-11, N, c["test"]) <= h.sum() <= binom.ppf(1 - 1e-11, N, c["test"]), "another share of the cells is held out", got=int(h.sum()), cells=N, share=c["test"])
        same_mask = c["test"] ** 2 + (1 - c["test"]) ** 2
        if len(held) > 1 and same_mask ** N * len(held) ** 2 < 1e-9:
            expect(len({h.tobytes() for h in held}) == len(held), "samples share the held-out cells", samples=len(held), different=len({h.tobytes() for h in held}))
            ctx.label("masks judged")
        per = np.sum(held, axis=0)
        expect(per.max() <= binom.ppf(1 - 1e-12, len(held), c["test"]) and per.min() >= binom.ppf(1e-12, len(held), c["test"]), "cells are not held out equally often", got=per.tolist())
        for i, k in enumerate(counts):
            xs = [(x, h) for x, h in zip(rec, held) if x.factors == k]
            if xs and all(h.any() and not h.all() for _, h in xs):
                R = [((V - np.asarray(x.WH, float)) ** 2, h) for x, h in xs]
                expect(same(test[i] / q, np.mean([e[h].mean() for e, h in R]) / q, rtol=1e-4, atol=1e-9), "the test error is not that of the held-out cells", factors=k)
                expect(same(train[i] / q, np.mean([e[~h].mean() for e, h in R]) / q, rtol=1e-4, atol=1e-9), "the train error is not that of the other cells", factors=k)
    lo, hi = np.fmin(test, train), np.fmax(test, train)
    for i, k in enumerate(counts):
        if groups[k] and np.isfinite(test[i]):
            m = np.mean([float(((V - np.asarray(x.W, float) @ np.asarray(x.H, float)) ** 2).mean()) for x in groups[k]])
            if len(groups[k]) == 1:
                expect(lo[i] * (1 - 1e-3) - 1e-4 * q <= m <= hi[i] * (1 + 1e-3) + 1e-4 * q, "the mean error of all cells is not between train and test error", got=m, want=(lo[i], hi[i]))
    # columns derived from the errors
    d = np.r_[np.nan, test[:-1] - test[1:]]
    expect(same(df["Delta MSE"], d, atol=1e-9 * q), "Delta MSE is not the decrease of the test error", got=list(df["Delta MSE"]), want=d)
    ratio = np.full(L, np.nan)
    if L > 2 and not np.all(np.isnan(d[1:])):
        with np.errstate(all="ignore"):
            ratio[1:-1] = 1.01 * np.nanmax(d[1:]) * d[1:-1] / d[2:]
    expect(same(df["Delta Ratio"], ratio), "Delta Ratio is not the scaled ratio of successive decreases", got=list(df["Delta Ratio"]), want=ratio)
    with np.errstate(all="ignore"):
        est = np.nanmin(test) / (test * np.power(np.array(counts, float), c["coef"])) if not np.isnan(test).all() else np.full(L, np.nan)
    expect(same(df["K Estimate"], est), "K Estimate is not min(MSE) / (MSE k^coef)", got=list(df["K Estimate"]), want=est)
    if np.isnan(est).all():
        expect(fe.estimated_factor == -1, "an estimate without data", got=fe.estimated_factor)
    else:
        s = np.sort(est[~np.isnan(est)])[::-1]
        if len(s) == 1 or s[0] - s[1] > 1e-12:
            expect(fe.estimated_factor == counts[int(np.nanargmax(est))], "the estimate is not the number of factors with the highest K Estimate", got=fe.estimated_factor, want=est)
    _, df2, _ = go(c, V, U)
    expect(df.equals(df2), "the same seed gives another table")
    with shown() as figs:
        fe.plot(actual_count=c["actual"])
    expect(len(figs) == 1, "no figure")
    tr = {t.name: np.asarray(t.y, float) for t in figs[0].data if t.y is not None}
    for name, col in (("Train MSE", "Train MSE"), ("Test MSE", "Test MSE"), ("Delta MSE", "Delta MSE"), ("Ratio Delta", "Delta Ratio"), ("K Estimate", "K Estimate"), ("Q(True)", "Q(True)")):
        expect(name in tr and same(tr[name], df[col]), f"the plot shows other values for {name}")
    lines = sorted(float(s.x0) for s in figs[0].layout.shapes)
    expect(lines == sorted(float(x) for x in ([fe.estimated_factor] + ([c["actual"]] if c["actual"] else []))), "the marked numbers of factors are wrong", got=lines)
    ctx.label(f"counts {L}", "gaps" if np.isnan(test).any() else "complete")
    ctx.nontrivial(L >= 2 and c["samples"] >= 5)


def s_hold():
    return st.fixed_dictionaries({"seed": SEEDS, "m": st.integers(16, 24), "n": st.integers(6, 8), "est": seeds(), "test": st.sampled_from([0.1, 0.2, 0.3])})


def c_hold(case, ctx):
    """Noise has nothing to generalise: a model of many factors fits the cells it has seen, not the ones held out."""
    c = case
    rng = np.random.default_rng(c["seed"])
    V = rng.lognormal(0.0, 0.5, (c["m"], c["n"])) * 100
    U = np.full(V.shape, 10.0)
    k = c["n"] - 2
    fe = FactorEstimator(V=V, U=U, seed=c["est"], test_percent=c["test"])
    with inline_pool():
        df = fe.run(samples=4, min_factors=k, max_factors=k, max_iterations=400, converge_delta=1e-3, converge_n=10)
    train, test = float(df["Train MSE"].iloc[0]), float(df["Test MSE"].iloc[0])
    expect(test > 1.5 * train, "held out cells are fitted as well as the others", train=train, test=test, factors=k)
    expect(fe.estimated_factor == k, "the only number of factors is not the estimate", got=fe.estimated_factor)
    ctx.nontrivial(True)




PROP = Prop("C32", [
    Sub("table", s_table, c_table, 300, 6000, "the result table against the trained models; non-trivial = several numbers of factors and five or more samples"),
    Sub("held-out", s_hold, c_hold, 48, 960, "test error against train error on noise; every case is non-trivial"),
], assumptions=["the process pool runs in process", "shares of random cells are judged by binomial limits with an error probability of 1e-9"])
