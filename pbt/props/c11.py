"""C11: processed data are the input data of the kept samples and features, with categories applied."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import SEEDS
from ..models import scratch
from esat.data.datahandler import DataHandler

CATS = ["strong", "weak", "bad"]


def s_table(max_m=24, max_n=6, min_m=6):
    return st.fixed_dictionaries({
        "m": st.integers(min_m, max_m), "n": st.integers(2, max_n), "seed": SEEDS, "zero": st.sampled_from([0.0, 0.1, 0.3]),
        "nan_v": st.sampled_from([0.0, 0.0, 0.05, 0.2]), "nan_u": st.sampled_from([0.0, 0.0, 0.05, 0.2]),
        "scale": st.sampled_from([1.0, 1e-4, 1e4]), "neg": st.booleans(), "ints": st.booleans(),
        "index": st.sampled_from(["date", "hour", "int", "text", "shared"])})


def table(c):
    """Input and uncertainty frames of a case."""
    rng = np.random.default_rng(c["seed"])
    m, n = c["m"], c["n"]
    V = rng.integers(0, 9, (m, n)).astype(float) if c["ints"] else rng.lognormal(0, 1, (m, n))
    if c["neg"]:
        V = V - 1.0
    V = V * c["scale"]
    U = rng.uniform(0.05, 2.0, (m, n)) * c["scale"]
    V[rng.random((m, n)) < c["zero"]] = 0.0
    U[rng.random((m, n)) < c["zero"] / 3] = 0.0
    for X, p in ((V, c["nan_v"]), (U, c["nan_u"])):
        mask = rng.random((m, n)) < p
        # every feature keeps two values, every sample keeps one
        mask[:2] = False
        mask[:, 0] &= ~mask.all(axis=1)
        X[mask] = np.nan
    idx = {"date": pd.date_range("2020-02-25", periods=m, freq="D", name="Date"),
           "hour": pd.date_range("2020-02-25", periods=m, freq="h", name="Date"),
           "int": pd.RangeIndex(m, name="Date"),
           # samples of two sites, one below the other
           "shared": pd.date_range("2020-02-25", periods=m - m // 2, freq="D", name="Date")[np.arange(m) % (m - m // 2)],
           "text": pd.Index([f"s{(i * 7) % 100:03d}-{i}" for i in range(m)], name="Date")}[c["index"]]
    names = [["PM2.5", "Sulfate", "Org C", "Na+", "K", "x_1", "Zn"][j] for j in range(n)]
    return pd.DataFrame(V, index=idx, columns=names), pd.DataFrame(U, index=idx, columns=names)


def expected(V, U, cats, drop=(), drop_nans=True):
    keep = [f for f in V.columns if f not in drop and cats.get(f, "strong") != "bad"]
    v, u = V[keep].astype("float32"), U[keep].astype("float32").copy()
    for f in keep:
        if cats.get(f) == "weak":
            u[f] = u[f] * np.float32(3.0)
    if drop_nans:
        ok = ~(v.isna().any(axis=1) | u.isna().any(axis=1))
        v, u = v[ok], u[ok]
    return v, u


def compare(dh, V, U, cats, drop=(), drop_nans=True, what=""):
    got = dh.get_data()
    v, u = expected(V, U, cats, drop, drop_nans)
    expect(len(got) == 2 and all(isinstance(x, np.ndarray) and x.dtype == np.float32 for x in got), what + "processed data are not 32-bit arrays")
    gv, gu = got
    expect(gv.shape == v.shape and gu.shape == u.shape, what + "processed data have another shape", got=gv.shape, want=v.shape)
    expect(list(dh.features) == list(v.columns), what + "features of the processed data", got=list(dh.features), want=list(v.columns))
    for name, g, w, tol in (("data", gv, v.to_numpy(), 0), ("uncertainty", gu, u.to_numpy(), 2e-7)):
        zero = w == 0
        expect(np.array_equal(np.isnan(g), np.isnan(w)), what + f"processed {name}: missing values differ")
        expect((g[zero] > 0).all() and (g[zero] <= 1e-12).all(), what + f"zero values of the {name} are not replaced by a tiny positive value",
               got=g[zero][:3])
        rest = ~zero & ~np.isnan(w)
        expect((np.abs(g[rest] - w[rest]) <= tol * np.abs(w[rest])).all(), what + f"processed {name} differ from the input")
    expect(list(dh.input_data_df.index) == list(v.index) and list(dh.uncertainty_data_df.index) == list(u.index),
           what + "sample labels of the processed data differ")
    return gv, gu


def s_ops():
    return st.lists(st.tuples(st.integers(0, 6), st.sampled_from(CATS + ["good", "Strong", ""])), max_size=6)


def s_proc():
    return st.fixed_dictionaries({"t": s_table(), "ops": s_ops(), "ops2": s_ops()})


def apply(dh, cats, ops, names):
    for i, cat in ops:
        name = names[i] if i < len(names) else (None if i == 6 else "no such feature")
        before = dh.metrics.copy()
        r = dh.set_category(feature=name, category=cat)
        if name in names and cat in CATS:
            expect(r is True, "setting a valid category is refused", feature=name, category=cat)
            cats[name] = cat
        else:
            expect(r is False, "setting an unknown feature or category is reported as done", feature=name, category=cat)
            expect(dh.metrics.equals(before), "a refused category change modifies the metrics")
    got = dict(dh.metrics["Category"])
    expect(got == {f: cats.get(f, "strong") for f in names}, "feature categories", got=got, want=cats)


def c_proc(case, ctx):
    V, U = table(case["t"])
    V0, U0 = V.copy(deep=True), U.copy(deep=True)
    dh = DataHandler.load_dataframe(input_df=V, uncertainty_df=U)
    names, cats = list(V.columns), {}
    compare(dh, V0, U0, cats)
    for ops in (case["ops"], case["ops2"]):
        apply(dh, cats, ops, names)
        if all(cats.get(f) == "bad" for f in names):
            return ctx.label("all-bad")
        a = compare(dh, V0, U0, cats)
        b = compare(dh, V0, U0, cats, what="asked again: ")
        expect(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)), "asking for the data again gives other data")
    for f in names:
        dh.set_category(f, "strong")
    compare(dh, V0, U0, {}, what="back to strong: ")
    expect(V.equals(V0) and U.equals(U0), "the caller's data are modified")
    v, _ = expected(V0, U0, {})
    ctx.nontrivial(len(v) < len(V0) or any(c != "strong" for c in cats.values()) or bool((v == 0).any().any()))
    ctx.label("rows-dropped" if len(v) < len(V0) else "rows-kept", "cats" if cats else "no-cats")


def s_file():
    return st.fixed_dictionaries({"t": s_table(), "drop": st.sampled_from(["none", "first", "last", "two"]), "drop_nans": st.booleans(),
                                  "ops": s_ops()})


def c_file(case, ctx):
    V, U = table(case["t"])
    n = len(V.columns)
    drop = {"none": [], "first": [V.columns[0]], "last": [V.columns[-1]], "two": [V.columns[-1], V.columns[0]] if n > 2 else []}[case["drop"]]
    with scratch() as d:
        V.to_csv(os.path.join(d, "v.csv"))
        U.to_csv(os.path.join(d, "u.csv"))
        dh = DataHandler(input_path=os.path.join(d, "v.csv"), uncertainty_path=os.path.join(d, "u.csv"), index_col="Date",
                         drop_col=drop or None, drop_nans=case["drop_nans"])
    gone = V.isna().all(axis=1) | U.isna().all(axis=1)
    V, U = V[~gone], U[~gone]
    V.index, U.index = [list(dh.input_data.index)] * 2 if len(dh.input_data) == len(V) else (V.index, U.index)
    compare(dh, V, U, {}, drop, case["drop_nans"])
    cats = {}
    for i, cat in case["ops"]:
        if i < n and V.columns[i] not in drop and cat in CATS:
            expect(dh.set_category(V.columns[i], cat) is True, "setting a valid category is refused")
            cats[V.columns[i]] = cat
    if all(cats.get(f) == "bad" or f in drop for f in V.columns):
        return ctx.label("all-bad")
    compare(dh, V, U, cats, drop, case["drop_nans"], what="with categories: ")
    ctx.nontrivial(bool(drop) or bool(cats) or not case["drop_nans"])


PROP = Prop("C11", [
    Sub("process", s_proc, c_proc, 500, 12000, "non-trivial = samples dropped, zeros replaced, or a category other than strong"),
    Sub("file", s_file, c_file, 160, 3000, "non-trivial = dropped columns, categories, or missing values kept"),
])
