"""C12: signal-to-noise, summary metrics and input plots describe the input data."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..models import shown
from .c11 import s_table, table
from esat.data.datahandler import DataHandler


def quantile(x, q):
    x = np.sort(x)
    pos = q * (len(x) - 1)
    lo = int(np.floor(pos))
    hi = min(lo + 1, len(x) - 1)
    return x[lo] + (x[hi] - x[lo]) * (pos - lo)


def c_metrics(case, ctx):
    c = dict(case["t"])
    V, U = table(c)
    if case["exact"]:
        # uncertainty equal to the data in some cells: no signal
        U = U.where(np.random.default_rng(c["seed"]).random(U.shape) > 0.3, V.abs())
    U = U.mask(U == 0, 0.5 * c["scale"])
    dh = DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
    met = dh.metrics
    expect(list(met.index) == list(V.columns), "metrics do not list the features in order", got=list(met.index))
    gone = V.isna().all(axis=1) | U.isna().all(axis=1)
    V, U = V[~gone], U[~gone]
    N = len(V)
    some = False
    for f in V.columns:
        v, u = V[f].to_numpy(), U[f].to_numpy()
        total = 0.0
        for a, b in zip(v, u):
            if not (np.isnan(a) or np.isnan(b)) and a > b:
                total += (a - b) / b
                some = True
        row = met.loc[f]
        expect(abs(row["S/N"] - total / N) <= 1e-9 * max(1e-300, abs(total / N)), "signal to noise", feature=f, got=row["S/N"], want=total / N)
        ok = v[~np.isnan(v)]
        for col, q in (("Min", 0), ("25th", 0.25), ("50th", 0.5), ("75th", 0.75), ("Max", 1)):
            w = quantile(ok, q)
            expect(abs(row[col] - w) <= 1e-9 * np.abs(ok).max() + 1e-300, f"metric {col}", feature=f, got=row[col], want=w)
        expect(row["Category"] == "strong", "the initial category is not strong", got=row["Category"])
        expect(dh.min_values[f] == ok.min() and dh.max_values[f] == ok.max(), "recorded smallest or largest value", feature=f)
    # another measuring unit gives the same signal to noise
    dh2 = DataHandler.load_dataframe(input_df=V * 8.0, uncertainty_df=U * 8.0)
    expect(np.allclose(dh2.metrics["S/N"], met["S/N"], rtol=1e-9), "signal to noise depends on the measuring unit")
    ctx.nontrivial(some)


def s_metrics():
    return st.fixed_dictionaries({"t": s_table(), "exact": st.booleans()})


def xy(trace):
    return np.asarray(trace.x), np.asarray(trace.y)


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9 * max(1e-12, np.nanmax(np.abs(b)) if b.size else 0), equal_nan=True)


def menu(fig, names):
    """One feature is visible, and every entry of the menu shows the feature it names."""
    hidden = [t.visible is False for t in fig.data]
    expect(hidden == [i > 0 for i in range(len(names))], "not the first feature is visible", got=hidden)
    for m in fig.layout.updatemenus:
        expect([b.label for b in m.buttons] == names, "the menu does not list the features")
        for i, b in enumerate(m.buttons):
            v = b.args[0].get("visible")
            expect(v is None or list(v) == [j == i for j in range(len(names))], "an entry of the menu shows another feature", feature=b.label)


def c_plots(case, ctx):
    c = dict(case["t"], index=case["idx"])
    V, U = table(c)
    if case["gaps"] and len(V) > 4:     # samples at uneven times
        keep = np.sort(np.random.default_rng(c["seed"]).choice(len(V), len(V) * 2 // 3, replace=False))
        V, U = V.iloc[keep], U.iloc[keep]
        U.index = V.index = V.index + pd.Timedelta(case["offset"])
    gone = V.isna().all(axis=1) | U.isna().all(axis=1)
    dh = DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
    V, U = V[~gone], U[~gone]
    names = list(V.columns)
    a, b = case["a"] % len(names), case["b"] % len(names)
    fig = dh.plot_data_uncertainty(show=False)
    expect([t.name for t in fig.data] == names, "data/uncertainty plot does not list the features", got=[t.name for t in fig.data])
    for t in fig.data:
        expect(near(t.x, V[t.name]) and near(t.y, U[t.name]), "data/uncertainty plot shows other values", feature=t.name)
    menu(fig, names)
    one = dh.plot_data_uncertainty(show=False, include_menu=False, feature_idx=a)
    expect(len(one.data) == 1 and one.data[0].name == names[a] and near(one.data[0].x, V[names[a]]) and near(one.data[0].y, U[names[a]]),
           "data/uncertainty plot of one feature shows another", feature=names[a])
    both = ~(V[names[a]].isna() | V[names[b]].isna())
    x, y = V[names[a]][both].to_numpy(), V[names[b]][both].to_numpy()
    fig = dh.plot_feature_data(a, b, show=False)
    pts = [t for t in fig.data if t.mode == "markers"]
    expect(len(pts) == 1 and near(pts[0].x, x) and near(pts[0].y, y), "feature/feature plot shows other values", x=names[a], y=names[b])
    cd = pts[0].customdata
    if cd is not None:
        expect([pd.Timestamp(v) for v in np.asarray(cd)[:, 0]] == [pd.Timestamp(v) for v in V.index[both]], "the points are labelled with other times")
    for t in fig.data:
        if t.name == "One-to-One":
            expect(np.allclose(t.y, x, atol=1e-6 * np.abs(x).max(initial=0)) and near(t.x, x), "the one-to-one line is another line")
    reg = [t for t in fig.data if t.name == "Regression"]
    if reg and len(x) > 2 and np.ptp(x) > 1e-3 * np.abs(x).max():
        s = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
        w = y.mean() + s * (x - x.mean())
        expect(np.allclose(reg[0].y, w, atol=1e-6 * np.abs(y).max()), "the regression line is not the least-squares line")
    with shown() as figs:
        expect(dh.plot_feature_data(len(names), 0) is None and dh.plot_feature_data(0, -1) is None and not figs, "an unknown feature is plotted")
        dh.plot_data_uncertainty(show=True)
        expect(len(figs) == 1, "the plot is not shown")
    sel = [a] if a == b else [a, b]
    full = V.dropna()
    if len(full) > 1:
        fig = dh.plot_feature_timeseries(sel if case["list"] else sel[0], show=False)
        for t, j in zip(fig.data, sel):
            s = pd.Series(np.asarray(t.y, float), index=pd.to_datetime(np.asarray(t.x))).dropna()
            expect(t.name == names[j], "time series of another feature", got=t.name, want=names[j])
            w = full[names[j]].groupby(level=0).mean()      # samples of the same time: their average
            expect(list(s.index) == list(w.index) and near(s.to_numpy(), w.to_numpy()), "time series shows other values", feature=names[j])
        expect(len(fig.data) == (len(sel) if case["list"] else 1), "number of plotted time series")
        for how in ("pearson", "spearman"):
            corr = (dh.plot_feature_correlation_heatmap(show=False) if how == "pearson" else dh.plot_feature_correlation_heatmap(method=how, show=False)).data[0]
            expect(list(corr.x) == names and list(corr.y) == names and near(np.array(corr.z, float), V.corr(method=how).to_numpy()), "correlation heatmap", method=how)
    ctx.nontrivial(a != b)


def s_plots():
    return st.fixed_dictionaries({"t": s_table(), "idx": st.sampled_from(["date", "hour", "shared"]), "a": st.integers(0, 6), "b": st.integers(0, 6), "gaps": st.booleans(), "offset": st.sampled_from(["0h", "12h", "17min"]),
                                  "list": st.booleans()})


def density(values, at):
    """Gaussian kernel density with Scott's bandwidth."""
    h = values.std(ddof=1) * len(values) ** -0.2
    return np.exp(-0.5 * ((at[:, None] - values[None, :]) / h) ** 2).mean(axis=1) / (h * np.sqrt(2 * np.pi))


def c_dist(case, ctx):
    c = case
    V, U = table(c["t"])
    names = list(V.columns)
    r = np.random.default_rng(c["t"]["seed"])
    if c["odd"] != "none":      # a feature without a distribution
        f = names[c["a"] % len(names)]
        V[f] = {"constant": 2.5 * c["t"]["scale"], "single": np.where(np.arange(len(V)) == 1, 1.0, np.nan), "negative": -V[f].abs() - c["t"]["scale"],
                "zeros": np.where(r.random(len(V)) < 0.5, 0.0, V[f])}[c["odd"]]
    gone = V.isna().all(axis=1) | U.isna().all(axis=1)
    dh = DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
    V = V[~gone]
    a, b = names[c["a"] % len(names)], names[c["b"] % len(names)]
    how = {} if c["bins"] is None else {"nbins": c["bins"]}
    fig = dh.plot_superimposed_histograms(show=False, **how)
    expect([t.name for t in fig.data] == names, "the histograms are not those of the features", got=[t.name for t in fig.data])
    for t in fig.data:
        expect(near(t.x, V[t.name]) and t.nbinsx == (c["bins"] or 50), "a histogram shows other values", feature=t.name)
    t = dh.plot_2d_histogram(a, b, show=False, **how).data[0]
    expect(near(t.x, V[a]) and near(t.y, V[b]) and t.nbinsx == t.nbinsy == (c["bins"] or 100), "the 2D histogram shows other values", x=a, y=b)
    kw = {} if c["log"] is None else {"log_x": c["log"]}
    log = c["log"] is not False
    fig = dh.plot_ridgeline(show=False, **how, **kw)
    ticks = dict(zip(fig.layout.yaxis.ticktext or (), fig.layout.yaxis.tickvals or ()))
    want = {}
    for f in names:
        x = V[f].dropna().to_numpy(float)
        x = np.log10(x[x > 0]) if log else x
        if len(x) > 1 and np.ptp(x) > 0:
            want[f] = x
    expect([t.name for t in fig.data] == list(want) and list(ticks) == list(want), "the ridgeline plot shows other features", got=[t.name for t in fig.data], want=list(want))
    for t in fig.data:
        x = want[t.name]
        if np.ptp(x) < 1e-9 * np.abs(x).max():
            continue
        at, y = np.asarray(t.x, float), np.asarray(t.y, float) - ticks[t.name]
        expect(len(at) == (c["bins"] or 500) and np.allclose([at[0], at[-1]], [x.min(), x.max()], rtol=1e-9, atol=1e-12), "a ridgeline spans another range", feature=t.name)
        d = density(x, at)
        expect(np.allclose(y, d, rtol=1e-6, atol=1e-9 * (d.max() + ticks[t.name])), "a ridgeline is not the density of the feature", feature=t.name)
        if len(t.customdata):
            cd = np.asarray(t.customdata)
            expect(set(cd[:, 2]) == {t.name} and np.allclose(cd[:, 0].astype(float), 10 ** at if log else at, rtol=1e-6), "a ridgeline is labelled with other values")
    with shown() as figs:
        dh.plot_ridgeline(**kw)
        dh.plot_superimposed_histograms()
        dh.plot_2d_histogram(a, b)
    expect(len(figs) == 3, "the plots are not shown", n=len(figs))
    expect(np.array_equal(dh.input_data.to_numpy(float), V.to_numpy(float), equal_nan=True), "plotting changes the data")
    ctx.label(c["odd"], "log" if log else "linear")
    ctx.nontrivial(len(want) > 1)


def s_dist():
    return st.fixed_dictionaries({"t": s_table(), "a": st.integers(0, 6), "b": st.integers(0, 6), "odd": st.sampled_from(["none", "none", "none", "constant", "single", "negative", "zeros"]),
                                  "bins": st.sampled_from([None, 50, 7, 20]), "log": st.sampled_from([None, True, False])})


PROP = Prop("C12", [
    Sub("distributions", s_dist, c_dist, 300, 5000, "histograms, 2D histogram and ridgelines against the values and a kernel density; non-trivial = several features with a density"),
    Sub("metrics", s_metrics, c_metrics, 400, 10000, "non-trivial = some value above its uncertainty"),
    Sub("plots", s_plots, c_plots, 120, 2000, "non-trivial = two different features selected"),
])
