"""C34: statistics and plots of models and batches show what the models hold."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

from ..core import Prop, Sub, expect
from ..gen import SEEDS, wide
from ..models import labels, scratch, shown, usable
from esat.data.analysis import BatchAnalysis, ModelAnalysis
from esat.data.datahandler import DataHandler
from esat.model.batch_sa import BatchSA
from esat.model.sa import SA


def s_data(max_m=16):
    return {"seed": SEEDS, "m": st.integers(8, max_m), "n": wide(3, 6, 12, 14, 6), "k": wide(1, 4, 10, 11, 3), "iters": st.sampled_from([2, 10, 40]),
            "cats": st.lists(st.sampled_from(["strong", "strong", "weak", "bad"]), min_size=14, max_size=14), "miss": st.integers(0, 3),
            "order": st.sampled_from(["sorted", "shuffled"]), "gaps": st.booleans(), "shared": st.sampled_from([0, 0, 0, 0, 2, 3]), "step": st.sampled_from(["1D", "1h", "90min", "36h", "15s"]), "start": st.sampled_from(["", " 12:00", " 07:41:13"]), "loc": st.sampled_from([None, None, "site"]), "override": st.booleans(), "ovW": st.booleans(), "ovH": st.booleans(), "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]),
            "selected": st.sampled_from([None, 0, 3])}


def table(c):
    rng = np.random.default_rng(c["seed"])
    m, n = c["m"], c["n"]
    V = rng.gamma(1.0, 1.0, (m, 2)) @ rng.gamma(1.0, 1.0, (2, n)) * rng.lognormal(0, 0.3, (m, n)) + 0.05
    U = 0.1 * V + rng.uniform(0.05, 0.3, (m, n))
    days = pd.date_range("2021-03-01" + c["start"], periods=m + (5 if c["gaps"] else 0), freq=c["step"])
    if c["gaps"]:
        days = days[np.r_[[0, 1], np.sort(rng.choice(np.arange(2, len(days)), m - 2, replace=False))]]
    if c["order"] == "shuffled":
        days = days[rng.permutation(m)]
    if c["shared"]:
        # samples of several sites, one below the other
        days = days[np.arange(m) % (m // c["shared"])]
    days.name = "Date"
    names = labels(n)
    for _ in range(c["miss"]):
        (V if rng.random() < 0.5 else U)[int(rng.integers(m)), int(rng.integers(n))] = np.nan
    return pd.DataFrame(V, index=days, columns=names), pd.DataFrame(U, index=days, columns=names)


class Case:
    """A trained model on generated data, with what an analysis of it should see."""

    def __init__(self, c, **kw):
        self.V_df, self.U_df = table(c)
        self.names = list(self.V_df.columns)
        self.cats = list(c["cats"][:c["n"]])
        if sum(x != "bad" for x in self.cats) < 2:
            self.cats[0] = self.cats[1] = "strong"
        i, u = self.V_df.copy(), self.U_df.copy()
        loc = {}
        if c["loc"]:
            i[c["loc"]], u[c["loc"]] = "here", "here"
            loc = {"loc_cols": [c["loc"]]}
        if kw.get("plotting"):
            with scratch() as d:
                i.to_csv(os.path.join(d, "v.csv"))
                u.to_csv(os.path.join(d, "u.csv"))
                self.dh = DataHandler(input_path=os.path.join(d, "v.csv"), uncertainty_path=os.path.join(d, "u.csv"), index_col="Date", max_plotting_n=kw["plotting"], **loc)
        else:
            self.dh = DataHandler.load_dataframe(input_df=i, uncertainty_df=u, **loc)
        for name, cat in zip(self.names, self.cats):
            expect(self.dh.set_category(name, cat), "a category was not accepted")
        V, U = self.dh.get_data()
        self.keep = [j for j, x in enumerate(self.cats) if x != "bad"]
        self.features = [self.names[j] for j in self.keep]
        self.rows = ~(self.V_df.isna().any(axis=1) | self.U_df.isna().any(axis=1)).to_numpy() if not self.bad_missing() else \
            ~(self.V_df[self.features].isna().any(axis=1) | self.U_df[self.features].isna().any(axis=1)).to_numpy()
        self.V = self.V_df[self.features].to_numpy()[self.rows]
        w = np.array([3.0 if self.cats[j] == "weak" else 1.0 for j in self.keep])
        self.U = self.U_df[self.features].to_numpy()[self.rows] * w
        self.days = self.V_df.index[self.rows]
        expect(np.allclose(V, self.V, rtol=1e-5) and np.allclose(U, self.U, rtol=1e-5), "the processed data are not the complete samples of the features in use")
        self.k = min(c["k"], len(self.features), len(self.V))
        self.c = c

    def bad_missing(self):
        return True

    def train(self, seed=1):
        sa = SA(V=self.dh.input_data_processed, U=self.dh.uncertainty_data_processed, factors=self.k, seed=seed, method=self.c["method"])
        sa.initialize()
        sa.train(max_iter=self.c["iters"], converge_n=5)
        return sa


def good(sa):
    """Factors whose shares are defined: no vanishing factor or feature."""
    W, H = np.asarray(sa.W, float), np.asarray(sa.H, float)
    return usable(sa) and (H.sum(axis=0) > 1e-9).all() and (W.mean(axis=0) > 1e-9).all() and (W.mean(axis=0) > 0.05 * np.abs(W).mean(axis=0)).all()


def near(a, b, rtol=1e-4, atol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def out(fn, count=1):
    """What a plot method returns when not shown, after checking that it shows the same otherwise."""
    with shown() as figs:
        r = fn(show=False)
        expect(not figs, "a figure was shown although show=False")
        fn()
        expect(len(figs) == count, "the figures were not shown", got=len(figs), want=count)
        shown_figs = list(figs)
    rs = list(r) if isinstance(r, tuple) else [r]
    rs = [x for x in rs if hasattr(x, "data")]
    expect(len(rs) == count, "the figures were not returned")
    for a, b in zip(rs, shown_figs):
        expect(len(a.data) == len(b.data), "the shown figure differs from the returned one")
    return r


def s_stats():
    return st.fixed_dictionaries(s_data(max_m=30))


def c_stats(case, ctx):
    c = case
    x = Case(c)
    if len(x.V) < 6:
        ctx.skipped = True
        return
    sa = x.train()
    if not good(sa):
        ctx.skipped = True
        return
    ma = ModelAnalysis(datahandler=x.dh, model=sa, selected_model=c["selected"])
    est = np.asarray(sa.WH, float)
    kw, kw2 = {}, {}
    if c["override"]:
        est = est * np.random.default_rng(3).uniform(0.5, 1.5, est.shape)
        kw, kw2 = {"est_V": est}, {"results": est}
    df = ma.features_metrics(**kw)
    expect(df is ma.residual_metrics and list(df["Feature"]) == x.features, "the feature table has other features", got=list(df["Feature"]), want=x.features)
    for col, want in (("Input Mean", x.V.mean(axis=0)), ("Input Var", x.V.var(axis=0)), ("Est Mean", est.mean(axis=0)), ("Est Var", est.var(axis=0)),
                      ("RMSE", np.sqrt(((x.V - est) ** 2).mean(axis=0)))):
        expect(near(df[col], want, rtol=1e-3, atol=1.5e-4), f"wrong {col}", got=list(df[col]), want=want)
    res = x.V - est
    sres = res / x.U
    if (np.std(res, axis=0) < 1e-4 * np.abs(x.V).max(axis=0)).any() or (np.std(est, axis=0) < 1e-6 * np.abs(est).max(axis=0)).any():
        ctx.label("degenerate")
        return
    ma.calculate_statistics(**kw2)
    t = ma.statistics
    expect(list(t["Features"]) == x.features and list(t["Category"]) == [x.cats[j] for j in x.keep], "the statistics are of other features or categories")
    n = len(x.V)
    for j in range(len(x.features)):
        o, p, r, s = x.V[:, j], est[:, j], res[:, j], sres[:, j]
        row = t.iloc[j]
        so, sp = o - o.mean(), p - p.mean()
        slope = (so @ sp) / (so @ so)
        icept = p.mean() - slope * o.mean()
        r2 = (so @ sp) ** 2 / ((so @ so) * (sp @ sp))
        sse = ((p - icept - slope * o) ** 2).sum()
        sl_se = np.sqrt(sse / (n - 2) / (so @ so))
        ic_se = sl_se * np.sqrt((o ** 2).mean())
        scale = np.abs(p).max()
        for col, want, atol in (("r2", r2, 1e-4), ("Slope", slope, 1e-4), ("Intercept", icept, 1e-4 * scale), ("SE", r.std() / np.sqrt(n), 1e-5 * scale), ("SE Regression", np.sqrt(max(0, 1 - r2)) * p.std(), 1e-2 * p.std()),
                                ("Slope SE", sl_se, 1e-4 + 1e-3 * abs(slope)), ("Intercept SE", ic_se, 1e-3 * scale)):
            expect(abs(row[col] - want) <= atol + 1e-3 * abs(want), f"wrong {col}", feature=x.features[j], got=row[col], want=want)
        sh, an = stats.shapiro(s)[1], stats.anderson(s, dist="norm")
        ks = stats.ks_1samp(s, stats.norm(s.mean(), s.std(ddof=1)).cdf)
        for col, want in (("Shapiro PValue", sh), ("KS PValue", ks.pvalue), ("KS Statistic", ks.statistic), ("Anderson Statistic", an.statistic)):
            expect(abs(row[col] - want) <= 1e-2 * abs(want) + 1e-4, f"wrong {col}", feature=x.features[j], got=row[col], want=want)
        for col, p_ in (("Shapiro Normal Residuals", sh), ("KS Normal Residuals", ks.pvalue)):
            if abs(p_ - 0.05) > 1e-3:
                expect(row[col] == ("Yes" if p_ >= 0.05 else "No"), f"wrong verdict {col}", got=row[col], p=p_)
        if np.abs(an.statistic - an.critical_values).min() > 0.02:
            lev = [str(l) for l, cv in zip(an.significance_level, an.critical_values) if an.statistic < cv]
            expect(row["Anderson Normal Residual"] == (lev[0] if lev else "No"), "wrong Anderson verdict", got=row["Anderson Normal Residual"], want=lev)
    ctx.label("bad" if "bad" in x.cats else "all", "weak" if "weak" in x.cats else "", "incomplete" if not x.rows.all() else "complete")
    ctx.nontrivial(len(set(x.cats)) > 1 or not x.rows.all() or c["loc"] is not None)


def s_plots():
    return st.fixed_dictionaries(dict(s_data(), pick=st.integers(0, 13), thr=st.sampled_from([0.05, 0.0, 20.0, 49.0]), kind=st.sampled_from(["profile", "conc", "both"]),
                                      limit=st.sampled_from([3.0, 0.5, -1]), byname=st.booleans()))


def c_plots(case, ctx):
    c = case
    x = Case(c)
    if len(x.V) < 6:
        ctx.skipped = True
        return
    sa = x.train()
    if not good(sa):
        ctx.skipped = True
        return
    ma = ModelAnalysis(datahandler=x.dh, model=sa, selected_model=c["selected"])
    W, H = np.array(sa.W, float), np.array(sa.H, float)
    W0, H0 = np.array(sa.W), np.array(sa.H)
    n = len(x.features)
    j = c["pick"] % n
    by = {"feature_name": x.features[j]} if c["byname"] else {"feature_idx": j}
    days = np.unique(x.days.values)
    est = W @ H

    def over_time(values, times=x.days):
        """By time, the average of the samples of a time."""
        return pd.Series(np.asarray(values, float), index=pd.DatetimeIndex(times)).groupby(level=0).mean()

    def series(t, values, what):
        y = pd.Series(np.asarray(t.y, float), index=pd.to_datetime(list(t.x))).dropna()
        expect(list(y.index.values) == list(days) and near(y.to_numpy(), over_time(values).to_numpy(), rtol=1e-3, atol=1e-5), f"{what}: other values or times are shown", got=y.to_numpy()[:5],
               want=over_time(values).to_numpy()[:5])
    # observed and estimated values of a feature
    f = out(lambda **k: ma.plot_estimated_observed(**by, **k))
    d = {t.name: t for t in f.data}
    xs, ys = np.asarray(d["Data"].x, float), np.asarray(d["Data"].y, float)
    expect(near(xs, x.V[:, j], rtol=1e-3) and near(ys, est[:, j], rtol=1e-3, atol=1e-5), "the scatter plot shows other values")
    if np.ptp(xs) > 1e-3 * np.abs(xs).max():
        A = np.vstack([xs, np.ones(len(xs))]).T
        m_, b_ = np.linalg.lstsq(A, ys, rcond=None)[0]
        expect(near(d["Regression"].y, m_ * xs + b_, rtol=1e-3, atol=1e-3 * np.abs(ys).max()) and near(d["One-to-One"].y, xs, rtol=1e-3, atol=1e-3 * np.abs(xs).max()), "wrong regression or identity line")
    expect(x.features[j] in f.layout.title.text, "the plot is labelled as another feature", got=f.layout.title.text)
    f = out(lambda **k: ma.plot_estimated_timeseries(**by, **k))
    d = {t.name: t for t in f.data}
    obs = pd.Series(np.asarray(d["Observed Concentrations"].y, float), index=pd.to_datetime(list(d["Observed Concentrations"].x))).dropna()
    full = over_time(x.V_df[x.features[j]], x.V_df.index).dropna()
    shown_V = over_time(x.V[:, j])
    expect(set(days) <= set(obs.index.values) <= set(full.index.values) and (near(obs.to_numpy(), full.loc[obs.index].to_numpy(), rtol=1e-4) or
           list(obs.index) == list(shown_V.index) and near(obs.to_numpy(), shown_V.to_numpy(), rtol=1e-4)), "the time series shows other observations")
    series(d["Predicted Concentrations"], est[:, j], "estimated time series")
    series(d["Residuals"], x.V[:, j] - est[:, j], "residual time series") if np.abs(est).max() < 1e4 else None
    label = f"Model {(c['selected'] or 0) + 1}"
    expect(label in f.layout.title.text and x.features[j] in f.layout.title.text, "the time series is labelled as another feature or model", got=f.layout.title.text)
    # residuals
    o2 = est * 1.1 if c["override"] else est
    kw = {"est_V": o2} if c["override"] else {}
    res = (x.V - o2) / x.U
    if np.std(res[:, j]) > 1e-3:
        f, rdf = out(lambda **k: ma.plot_residual_histogram(**by, abs_threshold=c["limit"], **kw, **k))
        hist = [t for t in f.data if t.type == "histogram"]
        box = [t for t in f.data if t.type == "box"]
        expect(len(hist) == 1 and len(box) == 1 and near(hist[0].x, res[:, j], rtol=1e-3, atol=1e-3) and near(box[0].x, res[:, j], rtol=1e-3, atol=1e-3), "the residual plot shows other residuals")
        far = np.abs(res[:, j]) > c["limit"] if c["limit"] != -1 else np.ones(len(res), bool)
        if np.abs(np.abs(res[:, j]) - c["limit"]).min() > 1e-3:
            expect(list(rdf.index) == list(x.days[far]) and near(rdf[x.features[j]], res[far, j], rtol=1e-3, atol=1e-3), "the listed residuals are not those beyond the threshold", got=rdf, limit=c["limit"])
        ctx.label("histogram")
    # factors
    rng = np.random.default_rng(c["seed"] + 1)
    kw = {}
    if c["ovW"]:
        kw["W"] = rng.gamma(1.0, 1.0, W.shape) * np.where(rng.random(W.shape) < 0.15, -0.3, 1.0) + 0.1
    if c["ovH"]:
        kw["H"] = rng.gamma(1.0, 1.0, H.shape) + 0.01
    oW, oH = kw.get("W", W), kw.get("H", H)
    if not (oW.mean(axis=0) > 0.1 * np.abs(oW).mean(axis=0)).all():
        ctx.skipped = True
        return
    share = 100 * oH / oH.sum(axis=0)
    mass = np.array([np.outer(oW[:, i], oH[i]).sum(axis=0) for i in range(x.k)])
    mass_p = np.where(mass == 0, 1e-12, mass)
    i = c["pick"] % x.k
    a, b = out(lambda **k: ma.plot_factor_profile(i + 1, **kw, **k), count=2)
    t = {q.type: q for q in a.data}
    expect(list(t["scatter"].x) == x.features and near(t["scatter"].y, share[i], rtol=1e-3, atol=1e-3) and list(t["bar"].x) == x.features and near(t["bar"].y, mass_p[i], rtol=1e-3),
           "the profile plot shows other values", got=(list(t["scatter"].y), list(t["bar"].y)), want=(share[i], mass_p[i]))
    series(b.data[0], oW[:, i] / oW[:, i].mean(), "factor contribution")
    expect(all(label in q.layout.title.text and f"Factor {i + 1}" in q.layout.title.text for q in (a, b)), "the profile plot is labelled as another factor or model")
    f = out(lambda **k: ma.plot_all_factors(**kw, **k))
    bars, dots = [t for t in f.data if t.type == "bar"], [t for t in f.data if t.type == "scatter"]
    expect(len(bars) == x.k == len(dots) and all(near(bars[q].y, mass_p[q], rtol=1e-3) and near(dots[q].y, share[q], rtol=1e-3, atol=1e-3) for q in range(x.k)), "the plot of all factors shows other values")
    f = out(lambda **k: ma.plot_all_factors_3d(plot_type=c["kind"], **kw, **k))
    want = {"conc": [np.log10(mass_p + 1)], "profile": [share], "both": [np.log10(mass_p + 1), share]}[c["kind"]]
    expect(len(f.data) == len(want), "the 3d plot has another number of layers", got=len(f.data), kind=c["kind"])
    for t, w in zip(f.data, want):
        z = np.asarray(t.z, float).reshape(x.k * n, 8).max(axis=1).reshape(x.k, n)
        expect(near(z, np.maximum(w, 0), rtol=1e-3, atol=1e-3), "the 3d plot shows other heights", kind=c["kind"])
    share, mass = 100 * H / H.sum(axis=0), np.array([np.outer(W[:, q], H[q]).sum(axis=0) for q in range(x.k)])
    f = out(lambda **k: ma.plot_factor_fingerprints(grouped=c["byname"], **k))
    d = {t.name: t for t in f.data}
    expect(set(d) == {f"Factor {q + 1}" for q in range(x.k)} and all(near(d[f"Factor {q + 1}"].y, share[q], rtol=1e-3, atol=1e-3) and list(d[f"Factor {q + 1}"].x) == x.features for q in range(x.k)),
           "the fingerprints show other values")
    nW = W / W.mean(axis=0)
    g = (i + 1) % x.k
    f = out(lambda **k: ma.plot_g_space(i + 1, g + 1, **k))
    expect(near(f.data[0].x, nW[:, i], rtol=1e-3) and near(f.data[0].y, nW[:, g], rtol=1e-3), "the G-space plot shows other values")
    pie, con = out(lambda **k: ma.plot_factor_contributions(j, contribution_threshold=c["thr"], **k), count=2)
    got = dict(zip(pie.data[0].labels or [], pie.data[0].values if pie.data[0].values is not None else []))
    sure = np.abs(share[:, j] - c["thr"]) > 1e-4
    want = {f"Factor {q + 1}": share[q, j] for q in range(x.k) if share[q, j] > c["thr"]}
    if sure.all():
        expect(set(got) == set(want) and all(abs(got[q] - want[q]) <= 1e-2 for q in want), "the feature's contributions are wrong", got=got, want=want)
    for q, t in enumerate(con.data):
        expect(t.name == f"Factor {q + 1}", "the factors are named otherwise")
        series(t, nW[:, q], "contribution series")
    expect(len(con.data) == x.k and x.features[j] in pie.layout.title.text, "the contribution plot is of another feature or lacks factors")
    with shown() as figs:
        ma.plot_factor_composition()
        expect(len(figs) == 1 and len(figs[0].data) == x.k and all(near(t.r, H[q] / H.sum(axis=0), rtol=1e-3, atol=1e-5) and list(t.theta) == x.features for q, t in enumerate(figs[0].data)),
               "the composition shows other values")
        figs.clear()
        for pc in (True, False):
            z = np.array([np.outer(W[:, q], H[q]) for q in range(x.k)])
            if pc and (np.abs(z.sum(axis=0)) < 1e-3 * np.abs(z).sum(axis=0)).any():
                ma.plot_factor_surface(factor_idx=1), ma.plot_factor_surface(factor_idx=1)
                continue
            z = 100 * z / z.sum(axis=0) if pc else z
            ma.plot_factor_surface(factor_idx=i + 1, percentage=pc, zero_threshold=1e-4)
            got = np.asarray(figs[-1].data[0].z, float)
            edge = np.abs(z[i] - 1e-4) < 1e-6
            expect(near(np.where(edge, 0, got), np.where(edge, 0, np.where(z[i] < 1e-4, np.nan, z[i])), rtol=1e-3, atol=1e-5), "the factor surface shows other values", percentage=pc)
            expect(list(figs[-1].data[0].x) == x.features, "the factor surface has other features")
            ma.plot_factor_surface(factor_idx=None, feature_idx=j + 1, percentage=pc)
            got = np.asarray(figs[-1].data[0].z, float)
            expect(near(np.nan_to_num(got), np.nan_to_num(z[:, :, j].T), rtol=1e-3, atol=1e-3), "the feature surface shows other values", percentage=pc)
        expect(len(figs) == 4, "a surface is missing")
        # what does not exist is not plotted
        figs.clear()
        for fn in (lambda: ma.plot_factor_profile(0), lambda: ma.plot_factor_profile(x.k + 1), lambda: ma.plot_g_space(0, 1), lambda: ma.plot_g_space(1, x.k + 1),
                   lambda: ma.plot_factor_contributions(n), lambda: ma.plot_factor_contributions(-1), lambda: ma.plot_factor_contributions(0, contribution_threshold=-0.1),
                   lambda: ma.plot_factor_contributions(0, contribution_threshold=50.1), lambda: ma.plot_estimated_observed(feature_idx=n), lambda: ma.plot_estimated_timeseries(feature_idx=-1),
                   lambda: ma.plot_residual_histogram(feature_idx=n), lambda: ma.plot_estimated_observed(feature_name="?"), lambda: ma.plot_estimated_timeseries(feature_name="?"),
                   lambda: ma.plot_residual_histogram(feature_name="?"), lambda: ma.plot_estimated_observed(), lambda: ma.plot_estimated_timeseries(), lambda: ma.plot_residual_histogram(),
                   lambda: ma.plot_factor_surface(factor_idx=x.k + 1), lambda: ma.plot_factor_surface(factor_idx=0), lambda: ma.plot_factor_surface(factor_idx=None, feature_idx=n + 1),
                   lambda: ma.plot_factor_surface(factor_idx=None)):
            expect(fn() is None and not figs, "something that does not exist was plotted")
    expect(np.array_equal(sa.W, W0) and np.array_equal(sa.H, H0), "plotting changed the model")
    ctx.label(f"k={x.k}", "bad" if "bad" in x.cats else "all", c["kind"], c["method"], "negative" if (W < 0).any() else "", "shared times" if c["shared"] else "")
    ctx.nontrivial(x.k >= 2)


def s_agg():
    return st.fixed_dictionaries(dict(s_data(max_m=40), plotting=st.integers(3, 12), repeated=st.booleans(), pick=st.integers(0, 13)))


def c_agg(case, ctx):
    """More samples than can be plotted: bins of the input are averaged, of the estimate the same samples."""
    c = dict(case, m=max(case["m"], case["plotting"] + 4))
    x = Case(c, plotting=c["plotting"])
    sa = x.train()
    if not good(sa):
        ctx.skipped = True
        return
    ma = ModelAnalysis(datahandler=x.dh, model=sa)
    parts, total = ma.aggregate_factors_for_plotting()
    est = np.asarray(sa.WH, float)
    full = x.V_df[x.rows]
    judged = 0
    for j, name in enumerate(x.features):
        v = x.V_df[name].to_numpy()
        edges = np.nanquantile(v, np.linspace(0, 1, c["plotting"] + 1))
        if len(np.unique(edges)) < len(edges):
            continue
        inner = (np.abs(v[:, None] - edges[None, 1:-1]) <= 1e-9 * np.abs(edges).max()).any()
        if inner:
            continue
        w = full[name].to_numpy()
        at = np.clip(np.searchsorted(edges, w, side="left"), 1, len(edges) - 1)
        bins = np.unique(np.clip(np.searchsorted(edges, v[~np.isnan(v)], side="left"), 1, len(edges) - 1))
        if set(np.unique(at)) != set(bins):
            ctx.label("empty bin")
        want = [est[at == b, j].mean() for b in np.unique(at)]
        got = total[name].dropna().to_numpy()
        expect(near(got, want, rtol=1e-3, atol=1e-5), "the aggregated estimate is not the mean over the samples of each bin", feature=name, got=got, want=want)
        for q in range(x.k):
            e = np.outer(sa.W[:, q], sa.H[q])[:, j]
            expect(near(parts[q][name].dropna().to_numpy(), [e[at == b].mean() for b in np.unique(at)], rtol=1e-3, atol=1e-5), "an aggregated factor is not the mean over the samples of each bin", feature=name)
        judged += 1
    j = c["pick"] % len(x.features)
    f = out(lambda **k: ma.plot_estimated_observed(feature_idx=j, **k))
    expect(len(f.data[0].x) == len(f.data[0].y) and 0 < len(f.data[0].x) <= c["plotting"], "more samples than allowed are plotted", got=len(f.data[0].x), limit=c["plotting"])
    ctx.nontrivial(judged >= 1)


def s_batch():
    return st.fixed_dictionaries(dict(s_data(), models=wide(1, 4, 11, 12), gap=st.integers(0, 10), best=st.integers(0, 10), handler=st.booleans(), pick=st.integers(0, 13)))


def c_batch(case, ctx):
    c = case
    x = Case(c)
    if len(x.V) < 6:
        ctx.skipped = True
        return
    results = [x.train(seed=s) for s in range(c["models"])]
    if not all(good(r) for r in results):
        ctx.skipped = True
        return
    if c["gap"] < c["models"] and c["models"] > 1:
        results[c["gap"]] = None
    b = BatchSA(V=x.dh.input_data_processed, U=x.dh.uncertainty_data_processed, factors=x.k, models=c["models"], verbose=False)
    b.results = results
    valid = [i for i, r in enumerate(results) if r is not None]
    b.best_model = valid[c["best"] % len(valid)]
    ba = BatchAnalysis(b, data_handler=x.dh if c["handler"] else None)
    f = out(ba.plot_loss)
    expect([t.name for t in f.data] == [f"Model {i + 1}" for i in valid] and all(near(t.y, results[i].q_list) and list(t.x) == list(range(len(results[i].q_list))) for i, t in zip(valid, f.data)),
           "the loss plot shows other histories")
    f = out(ba.plot_loss_distribution)
    d = {t.name: t for t in f.data}
    expect(near(d["Q(True)"].y, [results[i].Qtrue for i in valid]) and near(d["Q(Robust)"].y, [results[i].Qrobust for i in valid]) and [int(q) for q in d["Q(True)"].text] == valid,
           "the loss distribution shows other losses")
    j = c["pick"] % len(x.features)
    f = out(lambda **k: ba.plot_temporal_residuals(feature_idx=j, **k))
    expect(near(f.data[0].y, x.V[:, j], rtol=1e-4), "the input shown is not that of the feature", got=list(f.data[0].y)[:4], want=x.V[:4, j])
    expect([t.name for t in f.data[1:]] == [f"Model {i + 1}" for i in valid], "the residuals are named as other models", got=[t.name for t in f.data[1:]], want=valid)
    expect(list(f.data[0].x) == (list(x.days) if c["handler"] else list(range(1, len(x.V) + 1))), "the samples are labelled otherwise")
    for i, t in zip(valid, f.data[1:]):
        expect(near(t.y, x.V[:, j] - np.asarray(results[i].WH, float)[:, j], rtol=1e-3, atol=1e-4 * np.abs(x.V).max()), "the residuals are those of another model or feature", model=i)
        expect((t.visible is True) == (i == b.best_model), "another model than the best is shown first")
    ctx.label("gap" if None in results else "complete", "handler" if c["handler"] else "plain", "bad" if "bad" in x.cats else "")
    ctx.nontrivial(len(valid) >= 2)


PROP = Prop("C34", [
    Sub("statistics", s_stats, c_stats, 300, 6000, "feature metrics and residual statistics; non-trivial = weak or bad features, dropped samples or location columns"),
    Sub("plots", s_plots, c_plots, 200, 4000, "every plot of a model against its factors; non-trivial = two or more factors"),
    Sub("aggregate", s_agg, c_agg, 120, 2400, "estimates of more samples than are plotted; non-trivial = a feature with unambiguous bins"),
    Sub("batch", s_batch, c_batch, 150, 3000, "plots of a batch; non-trivial = two or more models"),
], assumptions=["figures are intercepted instead of rendered", "shares of vanishing factors or features are not defined, such models are not judged",
                "statistics of residuals close to zero are not judged", "model statistics are float32, compared to 0.1 %"])
