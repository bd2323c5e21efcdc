"""C16: the suggested bootstrap block size is the Politis-White optimal block length of the features."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import SEEDS, seldom
from esat.data.datahandler import DataHandler
from esat.model.recombinator import optimal_block_length


def s_case():
    return st.fixed_dictionaries({
        "m": seldom(st.integers(20, 160), st.integers(11, 19), 4), "n": st.integers(1, 4), "seed": SEEDS, "ar": st.sampled_from([0.0, 0.3, 0.6, 0.9, -0.5]),
        "kind": st.sampled_from(["ar", "ar", "season", "positive"]), "const": st.booleans(), "scale": st.sampled_from([1.0, 2.0 ** -10, 2.0 ** 7])})


def series(c):
    rng = np.random.default_rng(c["seed"])
    m, n = c["m"], c["n"]
    e = rng.standard_normal((m + 50, n))
    x = np.zeros_like(e)
    for t in range(1, m + 50):
        x[t] = c["ar"] * x[t - 1] + e[t]
    x = x[50:]
    if c["kind"] == "season":
        x = x + 2 * np.sin(2 * np.pi * np.arange(m) / 12)[:, None]
    if c["kind"] == "positive":
        x = np.exp(x / 2)
    return x


def reference(x):
    """(stationary, circular) optimal block length of one series, after Politis & White (2004), corrected 2007; plus the margin
    by which the choice of the cut-off lag was decided."""
    n = len(x)
    kn = int(max(5, np.sqrt(np.log10(n))))
    m_max = int(np.ceil(np.sqrt(n)) + kn)
    b_max = np.ceil(min(3 * np.sqrt(n), n / 3))
    crit = 2 * np.sqrt(np.log10(n) / n)
    base = x[m_max:]
    rho = []
    for k in range(1, m_max + 1):
        y = x[m_max - k:n - k]
        a, b = base - base.mean(), y - y.mean()
        rho.append((a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum()))
    rho = np.abs(np.array(rho))
    margin = np.abs(rho - crit).min()
    m_hat = None
    for s in range(0, m_max - kn + 1):
        if (rho[s:s + kn] < crit).all():
            m_hat = s + 1
            break
    if m_hat is None:
        sig = np.flatnonzero(rho > crit)
        if len(sig) == 0:
            return np.nan, np.nan, 0.0          # undefined correlations
        m_hat = 1 + int(sig.max())              # positions count from zero, lags from one
    m = m_max if 2 * m_hat > m_max else 2 * m_hat
    if m == 0:
        return 1.0, 1.0, margin
    head = x[m:]
    acv = []
    for k in range(0, m + 1):
        y = x[m - k:n - k]
        acv.append(((head - head.mean()) * (y - y.mean())).sum() / (len(head) - 1))
    def lam(t):
        t = abs(t)
        return 1.0 if t < 0.5 else (2 * (1 - t) if t <= 1 else 0.0)
    g = sum(lam(k / m) * abs(k) * acv[abs(k)] for k in range(-m, m + 1))
    s0 = sum(lam(k / m) * acv[abs(k)] for k in range(-m, m + 1))
    sb = (2 * g * g / (2 * s0 * s0)) ** (1 / 3) * n ** (1 / 3)
    cb = (2 * g * g / (4 / 3 * s0 * s0)) ** (1 / 3) * n ** (1 / 3)
    return min(sb, b_max), min(cb, b_max), margin


def c_formula(case, ctx):
    x = series(case) * case["scale"]
    res = optimal_block_length(x)
    expect(len(res) == x.shape[1], "one block length per feature", got=len(res))
    n = len(x)
    b_max = math.ceil(min(3 * math.sqrt(n), n / 3))
    for j, r in enumerate(res):
        sb, cb, margin = reference(x[:, j])
        expect(0 <= r.b_star_sb <= b_max and 0 <= r.b_star_cb <= b_max, "block length outside its range", got=tuple(r), limit=b_max)
        if margin > 1e-9:
            expect(abs(r.b_star_cb - cb) <= 1e-6 * max(1, cb) and abs(r.b_star_sb - sb) <= 1e-6 * max(1, sb),
                   "optimal block length differs from the Politis-White rule", feature=j, got=tuple(r), want=(sb, cb))
            ctx.label("capped" if cb == b_max else ("one" if cb == 1 else "inner"))
            ctx.nontrivial(cb not in (1.0, b_max))
        one = optimal_block_length(np.array(x[:, j]))[0]
        expect(abs(one.b_star_cb - r.b_star_cb) <= 1e-9 * max(1, cb), "the block length of a feature depends on the other features")


def c_handler(case, ctx):
    x = np.abs(series(case)) + 0.1
    if case["const"]:
        x[:, -1] = 1.5
    x = x * case["scale"]
    U = 0.1 * x + 0.01
    V, U = pd.DataFrame(x, columns=[f"S{j}" for j in range(x.shape[1])]), pd.DataFrame(U, columns=[f"S{j}" for j in range(x.shape[1])])
    dh = DataHandler.load_dataframe(input_df=V, uncertainty_df=U)

    def judge(X, got, what):
        expect(isinstance(got, (int, np.integer)) and got >= 1, f"{what}: the suggested block size is not a whole number of at least 1", got=got)
        if case["const"]:
            expect(got == max(1, int(len(X) / 5)), f"{what}: default block size is not a fifth of the samples", got=got, samples=len(X))
            return
        refs = [reference(X[:, j]) for j in range(X.shape[1])]
        if min(r[2] for r in refs) <= 1e-5:
            return
        mean = np.mean([r[1] for r in refs])
        if abs(mean - round(mean)) > 1e-3:
            expect(got == max(1, math.floor(mean)), f"{what}: suggested block size is not the mean optimal block length", got=got, mean=mean)

    judge(V.to_numpy(), dh.optimal_block, "loaded data")
    dh.get_data()
    judge(V.to_numpy(), dh.optimal_block, "processed data")
    if x.shape[1] > 1 and not case["const"]:
        dh.set_category("S0", "bad")
        dh.get_data()
        judge(V.to_numpy()[:, 1:], dh.optimal_block, "without a bad feature")
    ctx.nontrivial(dh.optimal_block > 1)


PROP = Prop("C16", [
    Sub("formula", s_case, c_formula, 500, 10000, "non-trivial = a block length that is neither 1 nor the upper limit"),
    Sub("handler", s_case, c_handler, 160, 3000, "non-trivial = a suggested block size above 1"),
], assumptions=["series whose autocorrelation lies within rounding of the significance limit are not judged"])
