"""C13: data loaded from files equals the same data loaded from DataFrames."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..models import scratch
from .c11 import s_table, table
from esat.data.datahandler import DataHandler


def s_case():
    return st.fixed_dictionaries({
        "t": s_table(), "sep": st.sampled_from(["comma", "tab"]), "ext": st.sampled_from(["csv", "txt"]),
        "index_col": st.sampled_from(["name", "none", "zero", "later"]), "cats": st.lists(st.integers(0, 2), min_size=7, max_size=7),
        "max_plot": st.sampled_from([10000, 10000, 5]), "gone": st.sampled_from([None, None, "input", "uncertainty", "both"])})


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True)


def c_load(case, ctx):
    V, U = table(case["t"])
    if case["gone"] in ("input", "both"):
        V.iloc[3] = np.nan
    if case["gone"] in ("uncertainty", "both"):
        U.iloc[[4, -1]] = np.nan
    sep = {"comma": ",", "tab": "\t"}[case["sep"]]
    with scratch() as d:
        paths = [os.path.join(d, f"{n}.{case['ext']}") for n in ("con", "unc")]
        for X, p in zip((V, U), paths):
            Y = X.reset_index()
            if case["index_col"] == "later":
                Y = Y[[*list(X.columns), "Date"]]
            Y.to_csv(p, sep=sep, index=False)
        col = {"name": "Date", "none": None, "zero": 0, "later": "Date"}[case["index_col"]]
        before = [open(p, "rb").read() for p in paths]
        f = DataHandler(input_path=paths[0], uncertainty_path=paths[1], index_col=col, max_plotting_n=case["max_plot"])
        expect([open(p, "rb").read() for p in paths] == before, "loading changed the files")
    g = DataHandler.load_dataframe(input_df=V, uncertainty_df=U)
    names = list(V.columns)
    expect(list(f.input_data.columns) == names and list(f.uncertainty_data.columns) == names and list(f.features) == names
           and list(g.features) == names, "features of the loaded file", got=list(f.input_data.columns), want=names)
    gone = V.isna().all(axis=1) | U.isna().all(axis=1)
    expect(list(g.input_data.index) == list(V.index[~gone]) and list(g.uncertainty_data.index) == list(V.index[~gone]), "samples loaded from a DataFrame")
    want = [str(x) for x in V.reset_index()["Date"][list(~gone)]]
    got = [str(x) for x in f.input_data.index]
    if case["t"]["index"] in ("date", "hour", "shared"):
        want, got = list(pd.to_datetime(want)), list(pd.to_datetime(got))
    expect(got == want, "sample labels of the loaded file", got=got[:3], want=want[:3])
    expect(list(f.metrics.columns) == list(g.metrics.columns) and list(f.metrics.index) == list(g.metrics.index), "metric tables differ")
    for c in f.metrics.columns[1:]:
        a, b = f.metrics[c].to_numpy(float), g.metrics[c].to_numpy(float)
        big = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0.0
        expect(np.allclose(a, b, rtol=1e-9, atol=1e-9 * big, equal_nan=True), f"metric {c} differs", file=a, frame=b)
    expect(f.optimal_block == g.optimal_block, "suggested block sizes differ", file=f.optimal_block, frame=g.optimal_block)
    for step in range(2):
        a, b = f.get_data(), g.get_data()
        expect(len(a) == len(b) == 2 and same(a[0], b[0]), "data loaded from a file and from a DataFrame differ")
        expect(same(a[1], b[1]), "uncertainty loaded from a file and from a DataFrame differs")
        for n, k in zip(names, case["cats"]):
            if not (k == 2 and n == names[0]):
                f.set_category(n, ["strong", "weak", "bad"][k])
                g.set_category(n, ["strong", "weak", "bad"][k])
    if len(f.input_data) <= case["max_plot"]:
        expect(same(f.input_data_plot.to_numpy(), g.input_data_plot.to_numpy()), "plotting data differ")
    ctx.label(case["index_col"], case["sep"])
    ctx.nontrivial(case["sep"] != "comma" or case["index_col"] != "name")


def c_missing(case, ctx):
    V, U = table(case["t"])
    with scratch() as d:
        p, q = os.path.join(d, "v.csv"), os.path.join(d, "u.csv")
        if case["which"] != "input":
            V.to_csv(p)
        if case["which"] == "input":
            U.to_csv(q)
        try:
            DataHandler(input_path=p, uncertainty_path=q, index_col="Date")
        except SystemExit:
            ctx.nontrivial()
        except Exception as ex:
            expect(False, "a missing file is not reported as such", error=repr(ex))
        else:
            expect(False, "a missing file is not reported", missing=case["which"])


def c_agg(case, ctx):
    """More samples than can be plotted: every feature is shown as the means of (at most) that many quantile bins."""
    V, U = table(case["t"])
    V, U = V.fillna(1.0), U.fillna(1.0)
    k = case["k"]
    with scratch() as d:
        V.to_csv(os.path.join(d, "v.csv"))
        U.to_csv(os.path.join(d, "u.csv"))
        f = DataHandler(input_path=os.path.join(d, "v.csv"), uncertainty_path=os.path.join(d, "u.csv"), index_col="Date", max_plotting_n=k)
    vp, up = f.input_data_plot, f.uncertainty_data_plot
    expect(vp is not None and up is not None and list(vp.columns) == list(V.columns), "no plotting data for many samples")
    if len(V) <= k:
        return expect(same(vp.to_numpy(), V.to_numpy()) and same(up.to_numpy(), U.to_numpy()), "plotting data of few samples are not the data")
    expect(len(vp) <= k and len(up) <= k, "more plotting samples than requested", got=len(vp), limit=k)
    for c in V.columns:
        edges = np.unique(np.quantile(V[c].to_numpy(), np.linspace(0, 1, k + 1)))
        x = V[c].to_numpy()
        at = np.abs(x[:, None] - edges[None, :]).min(axis=1) <= 1e-9 * np.abs(edges).max()
        inner = at & (x > x.min()) & (x < x.max())
        which = np.clip(np.searchsorted(edges, x, side="left"), 1, len(edges) - 1) if len(edges) > 1 else None
        if which is None:
            continue
        got = vp[c].dropna().to_numpy()
        expect((got >= x.min() - 1e-12 * abs(x.min())).all() and (got <= x.max() + 1e-12 * abs(x.max())).all(), "plotting data outside the range of the data")
        if inner.any() and not case["t"]["ints"]:
            continue    # a value on an edge may fall on either side, up to rounding of the edge
        if case["t"]["ints"]:
            continue
        want_v = [x[which == b].mean() for b in np.unique(which)]
        want_u = [U[c].to_numpy()[which == b].mean() for b in np.unique(which)]
        expect(len(got) == len(want_v) and np.allclose(got, want_v), "plotting data are not the bin means of the data", feature=c)
        expect(np.allclose(up[c].dropna().to_numpy(), want_u), "plotting uncertainties are not the bin means", feature=c)
        ctx.nontrivial()
    dh_fig = f.plot_data_uncertainty(show=False)
    expect(len(dh_fig.data) == len(V.columns), "aggregated data are not plotted")


def s_agg():
    return st.fixed_dictionaries({"t": s_table(max_m=40, min_m=10), "k": st.integers(2, 12)})


def s_missing():
    return st.fixed_dictionaries({"t": s_table(max_m=8), "which": st.sampled_from(["input", "uncertainty"])})


PROP = Prop("C13", [
    Sub("load", s_case, c_load, 300, 6000, "non-trivial = tab separated, or index not given as the name of the first column"),
    Sub("missing", s_missing, c_missing, 20, 60, "every case is non-trivial"),
    Sub("aggregate", s_agg, c_agg, 80, 2000, "non-trivial = at least one feature with unambiguous bins compared"),
])
