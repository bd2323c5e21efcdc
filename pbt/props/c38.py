"""C38: the comparison with PMF5 output shows the solutions it is given."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import KnownFinding, Prop, Sub, expect
from ..gen import SEEDS, wide
from ..models import labels, shown
from esat.data.test_tools import CompareAnalyzer

NAMES = ["PMF", "LS", "WS"]


def s_case():
    return st.fixed_dictionaries({"m": st.integers(2, 30), "n": wide(1, 6, 11, 14), "k": st.one_of(st.integers(1, 5), st.integers(6, 9)), "seed": SEEDS, "step": st.sampled_from(["1h", "6h", "1D", "2D", "7h"]),
                                  "gap": st.booleans(), "feature": st.integers(0, 20), "by": st.sampled_from(["name", "index", "unknown"]), "factor": st.integers(0, 8),
                                  "r2": st.sampled_from([-1, 0.8, 0.12345]), "threshold": st.sampled_from([3.0, 0.5, 0.0, 10.0]), "norm": st.booleans(), "which": st.sampled_from(["one", "list", "all"]),
                                  "input": st.booleans(), "scale": st.sampled_from([1.0, 50.0])})


def build(c):
    rng = np.random.default_rng(c["seed"])
    m, n, k = c["m"], c["n"], c["k"]
    times = pd.date_range("2006-01-01 00:00", periods=m + 3, freq=c["step"])
    times = times[[i for i in range(m + 3) if not (c["gap"] and 1 <= i <= 3)][:m]]
    stamps = [t.strftime("%m/%d/%y %H:%M") for t in times]
    feats = np.array(labels(n))
    cols = [f"Factor {i + 1}" for i in range(k)]
    P, C = {}, {}
    for s in NAMES:
        P[s] = pd.DataFrame(rng.gamma(1, 1, (n, k)), columns=cols)
        P[s].insert(0, "species", feats)
        C[s] = pd.DataFrame(rng.gamma(1, 1, (m, k)) * c["scale"], columns=cols)
    V = pd.DataFrame(rng.gamma(1, c["scale"], (m, n)), columns=feats, index=pd.DatetimeIndex(times, name="Date"))
    mapping = {"PMF": cols, "LS": [cols[i] for i in rng.permutation(k)], "WS": [cols[i] for i in rng.permutation(k)]}
    an = CompareAnalyzer(input_df=V, pmf_profile_df=P["PMF"], pmf_contributions_df=C["PMF"], ls_profile_df=P["LS"], ws_profile_df=P["WS"], ls_mapping=mapping["LS"], ws_mapping=mapping["WS"],
                         ls_contributions_df=C["LS"], ws_contributions_df=C["WS"], features=feats, datetimestamps=stamps)
    return an, P, C, V, mapping, feats, cols, times


def near(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=1e-12, equal_nan=True)


def share(P, cols):
    X = P[cols].to_numpy(float)
    return pd.DataFrame(X / X.sum(axis=1, keepdims=True), columns=cols)


def figures(f, *a, **k):
    with shown() as figs:
        f(*a, **k)
    return figs


def solution(trace):
    for s in NAMES:
        if str(trace.name).startswith(s) or str(trace.legendgroup or "").startswith(s):
            return s
    return "Input"


def pick(c, feats):
    j = c["feature"] % len(feats)
    kw = {"name": {"feature": feats[j]}, "index": {"feature_i": j}, "unknown": {"feature": "nothing", "feature_i": j}}[c["by"]]
    return j, str(feats[j]), kw


def c_compare(case, ctx):
    c = case
    an, P, C, V, mapping, feats, cols, times = build(c)
    keep = {s: (P[s].copy(), C[s].copy()) for s in NAMES}, V.copy()
    k, n = c["k"], c["n"]
    j, name, kw = pick(c, feats)
    S = {s: share(P[s], cols) for s in NAMES}
    # shares of the factors in a feature
    figs = figures(an.plot_factor_contribution, **kw)
    expect(len(figs) == 1 and name in figs[0].layout.title.text, "not one figure of the feature")
    pies = {solution(t): t for t in figs[0].data}
    expect(len(figs[0].data) == 3 and set(pies) == set(NAMES) and all(t.type == "pie" for t in figs[0].data), "not one pie per solution")
    for s, t in pies.items():
        expect(list(t.labels) == cols and near(t["values"], S[s].loc[j]), "other shares of the factors", solution=s, got=list(t["values"]), want=list(S[s].loc[j]))
    # fingerprints
    figs = figures(an.plot_fingerprints, c["r2"], c["r2"])
    expect(len(figs) == 3, "not one fingerprint figure per solution", got=len(figs))
    for s, f in zip(NAMES, figs):
        expect(f.layout.title.text.startswith(s) and f.layout.barmode == "stack" and len(f.data) == k, "another fingerprint figure", solution=s, got=f.layout.title.text)
        if s != "PMF":
            expect((str(round(c["r2"], 3)) in f.layout.title.text) == (c["r2"] > 0), "another correlation in the title", got=f.layout.title.text)
        expect(sorted(t.name for t in f.data) == sorted(cols), "not every factor is in the fingerprints", got=[t.name for t in f.data])
        expect([t.name for t in f.data] == mapping[s][::-1], "the fingerprints are not in the order of the mapped factors", solution=s, got=[t.name for t in f.data], want=mapping[s][::-1])
        for t in f.data:
            expect(list(t.x) == list(feats) and near(t.y, 100 * S[s][t.name]), "another fingerprint", solution=s, factor=t.name)
    # profiles
    known = False
    try:
        figs = figures(an.plot_factors)
    except Exception:
        if k <= 6:
            raise
        known, figs = True, []      # the grid of profiles has six rows
    expect(known or len(figs) == 1 and len(figs[0].data) == 3 * k, "not every profile is shown", got=[len(f.data) for f in figs])
    seen = set()
    for t in figs[0].data if figs else ():
        s = solution(t)
        fac = "Factor " + t.name.split("Factor ")[1]
        i = mapping[s].index(fac)
        seen.add((s, fac))
        expect(list(t.x) == list(feats) and near(t.y, S[s][fac]), "another profile", solution=s, factor=fac)
        expect(t.legendgroup == str(i + 1) and (t.yaxis or "y") == ("y" if i == 0 else f"y{i + 1}"), "a profile is not shown with the factor it is mapped to", solution=s, factor=fac)
    expect(known or len(seen) == 3 * k, "a profile is shown twice")
    # time series of a factor
    f0 = c["factor"] % k
    want = {"one": [j], "list": sorted({0, j}), "all": list(range(n))}[c["which"]]
    arg = {"one": j, "list": want, "all": "all"}[c["which"]]
    figs = figures(an.plot_feature_timeseries, f0, arg, c["input"])
    expect(len(figs) == len(want), "not one time series per feature", got=len(figs), want=len(want))
    for q, f in zip(want, figs):
        expect(f"Factor {f0 + 1} " in f.layout.title.text and f.layout.title.text.endswith(str(feats[q])), "another title", got=f.layout.title.text)
        expect(sorted(solution(t) for t in f.data) == sorted(NAMES + (["Input"] if c["input"] else [])), "other series", got=[t.name for t in f.data])
        for t in f.data:
            s = solution(t)
            y = V.iloc[:, q] if s == "Input" else C[s][mapping[s][f0]].to_numpy() * P[s][mapping[s][f0]].to_numpy()[q]
            expect(near(t.y, y), "another time series of the factor", solution=s, feature=str(feats[q]), got=list(t.y)[:4], want=list(y)[:4])
            expect(list(pd.to_datetime(pd.Series(list(t.x)), format="%m/%d/%y %H:%M")) == list(times), "other times", got=list(t.x)[:4])
    # daily means of a feature
    est = {s: pd.Series(C[s].to_numpy() @ P[s][cols].to_numpy().T[:, j], index=times) for s in NAMES}
    est["Input"] = V.iloc[:, j]
    figs = figures(an.timeseries_plot, **kw)
    expect(len(figs) == 1 and len(figs[0].data) == 4 and figs[0].layout.title.text.endswith(name), "not one figure with four series")
    for t in figs[0].data:
        d = est[solution(t)]
        days = d.groupby(d.index.normalize()).mean()
        got = pd.Series(list(t.y), index=pd.to_datetime(list(t.x)), dtype=float).dropna()
        expect(list(got.index) == list(days.index) and near(got, days), "not the daily means", series=t.name, got=list(got)[:4], want=list(days)[:4])
    # residuals
    figs = figures(an.feature_histogram, normalized=c["norm"], threshold=c["threshold"], **kw)
    expect(len(figs) == 1 and figs[0].layout.title.text.endswith(name), "not one figure of the residuals")
    hist = {solution(t): t for t in figs[0].data if t.type == "histogram"}
    table = [t for t in figs[0].data if t.type == "table"]
    expect(set(hist) == set(NAMES) and len(table) == 1, "not one histogram per solution and a table")
    for i, s in enumerate(NAMES):
        r = (V.iloc[:, j] - est[s]).to_numpy(float)
        expect(near(hist[s].x, r, 1e-7) and (hist[s].histnorm == "probability") == c["norm"], "other residuals", solution=s)
        row = table[0].cells["values"][i + 1]
        over = np.abs(r) >= c["threshold"]
        expect(near(row[:3], [r.min(), r.mean(), r.max()], 1e-7) and int(row[3]) == over.sum(), "other residual statistics", solution=s, got=list(row), want=[r.min(), r.mean(), r.max(), over.sum()])
    for s in NAMES:
        expect(P[s].equals(keep[0][s][0]) and C[s].equals(keep[0][s][1]), "a given table was changed", solution=s)
    expect(V.equals(keep[1]), "the data were changed")
    ctx.label("many-factors" if k > 6 else "few-factors", c["by"])
    ctx.nontrivial(k > 1 and n > 1)
    if known:
        raise KnownFinding("C38-more-than-six", "no figure of the profiles of more than six factors")


PROP = Prop("C38", [Sub("compare", s_case, c_compare, 100, 3000, "all figures of a comparison against its tables; non-trivial = several factors and features")])
