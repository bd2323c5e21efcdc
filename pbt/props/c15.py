"""C15: imputation keeps every observed value and fills every missing one by the chosen rule."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import SEEDS
from sklearn.experimental import enable_iterative_imputer  # noqa: F401
from sklearn.impute import IterativeImputer

from esat.data.datahandler import DataHandler
from esat.data.impute import DataImputer

STRAT = ["mean", "median", "most_frequent", "knn", "iterative"]


def s_case():
    return st.fixed_dictionaries({
        "m": st.integers(8, 20), "n": st.integers(2, 5), "seed": SEEDS, "nan_v": st.sampled_from([0.0, 0.1, 0.25]),
        "nan_u": st.sampled_from([0.0, 0.1, 0.25]), "ints": st.booleans(), "strategy": st.sampled_from(STRAT),
        "marker": st.sampled_from(["nan", "nan", "none", "-999", "low", "zero"]), "gone": st.booleans(), "shared": st.sampled_from([False, False, True]), "it": st.sampled_from([None, 1, 3]), "tol": st.sampled_from([None, 0.5]), "k": st.sampled_from([None, 1, 2, 4]),
        "weights": st.sampled_from([None, "uniform", "distance"]), "rs": st.sampled_from([None, 7])})


def tables(c):
    rng = np.random.default_rng(c["seed"])
    m, n = c["m"], c["n"]
    f = rng.gamma(1, 1, (m, 2)) @ rng.gamma(1, 1, (2, n))
    V = rng.integers(0, 4, (m, n)).astype(float) if c["ints"] else f * rng.lognormal(0, 0.1, (m, n))
    U = rng.integers(1, 4, (m, n)) / 4.0 if c["ints"] else 0.1 * f + rng.uniform(0.01, 0.2, (m, n))
    out = []
    for X, p in ((V, c["nan_v"]), (U, c["nan_u"])):
        X = np.array(X)
        mask = rng.random((m, n)) < p
        mask[:3] = False
        mask[:, 0] &= ~mask.all(axis=1)
        X[mask] = np.nan
        out.append(X)
    return out


def nan_dist(a, b):
    ok = ~np.isnan(a) & ~np.isnan(b)
    if not ok.any():
        return np.nan
    return np.sqrt(len(a) / ok.sum() * ((a[ok] - b[ok]) ** 2).sum())


def oracle(X, strategy, k, weights):
    """Values for the missing cells, or None where the choice is ambiguous; iterative has no closed form."""
    out = np.array(X)
    for i, j in zip(*np.where(np.isnan(X))):
        obs = X[~np.isnan(X[:, j]), j]
        if strategy == "mean":
            out[i, j] = obs.sum() / len(obs)
        elif strategy == "median":
            s = np.sort(obs)
            out[i, j] = (s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2
        elif strategy == "most_frequent":
            vals, counts = np.unique(obs, return_counts=True)
            out[i, j] = vals[np.argmax(counts)]
        elif strategy == "knn":
            donors = [r for r in range(len(X)) if not np.isnan(X[r, j])]
            d = np.array([nan_dist(X[i], X[r]) for r in donors])
            ok = ~np.isnan(d)
            donors, d = np.array(donors)[ok], d[ok]
            if len(d) == 0:
                out[i, j] = obs.sum() / len(obs)
                continue
            o = np.argsort(d, kind="stable")
            if len(o) > k and d[o[k]] - d[o[k - 1]] <= 1e-9:
                out[i, j] = np.nan      # ambiguous neighbours
                continue
            o = o[:k]
            if weights == "distance":
                if (d[o] <= 1e-6).any():
                    out[i, j] = np.nan
                    continue
                w = 1 / d[o]
            else:
                w = np.ones(len(o))
            out[i, j] = (w * X[donors[o], j]).sum() / w.sum()
        else:
            out[i, j] = np.nan
    return out


def c_impute(case, ctx):
    V, U = tables(case)
    names = [f"S{j}" for j in range(case["n"])]
    idx = pd.date_range("2021-01-01", periods=case["m"], freq="D")
    kept = np.ones(case["m"], bool)
    if case["shared"]:
        # several samples of the same time
        idx = idx[np.arange(case["m"]) // 2]
    marker = {"nan": np.nan, "none": None, "-999": -999.0, "low": -1.0, "zero": 0.0}[case["marker"]]
    fill = marker if case["marker"] in ("-999", "low", "zero") else np.nan
    if case["marker"] == "low":
        # observed values on both sides of the marker
        V[0, 0], V[1, -1] = -3.5, -1.25
    raw = [pd.DataFrame(np.where(np.isnan(X), fill, X), index=idx, columns=names) for X in (V, U)]
    if case["marker"] == "-999" and case["seed"] % 2:
        # a true missing value beside the marker
        raw[0].iloc[3, 0] = raw[1].iloc[4, 1] = V[3, 0] = U[4, 1] = np.nan
    if case["gone"] and case["m"] > 10:
        # a sample without any value cannot be imputed from anything and is not loaded
        V[5] = np.nan
        raw[0].iloc[5] = np.nan
        kept[5] = False
        V, U, idx, raw = np.delete(V, 5, 0), np.delete(U, 5, 0), idx.delete(5), raw
    if case["marker"] == "zero":
        V[V == 0.0] = np.nan
        if any((~np.isnan(X)).sum(axis=0).min() < 2 for X in (V, U)):
            return ctx.label("empty-feature")
    dh = DataHandler.load_dataframe(input_df=raw[0].copy(), uncertainty_df=raw[1].copy())
    s = case["strategy"]
    args = None
    if s == "knn" and (case["k"] is not None or case["weights"] is not None):
        args = {k: v for k, v in (("n_neighbors", case["k"]), ("weights", case["weights"])) if v is not None}
    if s == "iterative" and (case["it"] is not None or case["tol"] is not None):
        args = {k: v for k, v in (("max_iter", case["it"]), ("tol", case["tol"])) if v is not None}
    kw = {} if case["rs"] is None else {"random_seed": case["rs"]}
    imp = DataImputer(dh, missing_value=marker, **kw)
    got = imp.impute(strategy=s, args=args)
    expect(got is not None and len(got) == 2, "imputing returns no data")
    miss = np.isnan(V) | np.isnan(U)
    expect(np.array_equal(np.asarray(imp.imputation_mask, bool), miss), "the mask does not mark the missing cells")
    for what, G, X, attr in (("data", got[0], V, imp.imputed_data), ("uncertainty", got[1], U, imp.imputed_uncertainty)):
        expect(isinstance(G, pd.DataFrame) and G.equals(attr), f"imputed {what} returned and stored differ")
        expect(list(G.columns) == names and list(G.index) == list(idx), f"labels of the imputed {what}", got=list(G.columns))
        g = G.to_numpy()
        obs = ~np.isnan(X)
        expect(np.array_equal(g[obs], X[obs]), f"observed {what} values are changed by imputation", strategy=s)
        expect(not np.isnan(g).any(), f"missing {what} values are left", strategy=s)
        want = oracle(X, s, case["k"] or 5, case["weights"] or "uniform")
        if s == "iterative":
            # reference: scikit-learn's iterative regression of this table alone with the settings and seed given
            ref = IterativeImputer(random_state=kw.get("random_seed", 42), **(args or {})).fit_transform(X)
            want = np.where(obs, X, ref)
        cmp = ~obs & ~np.isnan(want)
        expect(np.allclose(g[cmp], want[cmp], rtol=1e-6, atol=1e-9), f"imputed {what} values differ from the {s} rule", got=g[cmp][:4], want=want[cmp][:4])
    raw = [X[kept] for X in raw]
    expect(all(a.equals(b) for a, b in zip((dh.input_data, dh.uncertainty_data), raw)), "imputation changes the handler's data")
    again = DataImputer(dh, missing_value=marker, **kw).impute(strategy=s, args=args)
    expect(again[0].equals(got[0]) and again[1].equals(got[1]), "imputing again gives other values")
    if miss.any():
        # the uncertainty plays no part in imputing the data, and vice versa
        alone = DataImputer(DataHandler.load_dataframe(input_df=raw[0].copy(), uncertainty_df=pd.DataFrame(np.where(np.isnan(U), 1.0, np.abs(U) + 0.5), index=idx, columns=names)),
                            missing_value=marker, **kw).impute(strategy=s, args=args)
        expect(np.allclose(alone[0].to_numpy(), got[0].to_numpy()), "imputed data depend on the uncertainty")
    try:
        DataImputer(dh, missing_value=marker).impute(strategy="zero")
    except ValueError:
        pass
    else:
        expect(False, "an unknown strategy is accepted")
    ctx.label(s, case["marker"])
    ctx.nontrivial(miss.any())


PROP = Prop("C15", [Sub("impute", s_case, c_impute, 260, 5000, "non-trivial = at least one missing cell")],
            assumptions=["ties between nearest neighbours are not judged", "iterative imputation is judged against scikit-learn's imputer with the same settings"])
