"""C36: tables and plots of the error estimates show the results they name."""
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import recipe
from ..models import labels, log_lines, shown
from .c17 import base, boot, s_boot
from .c20 import DQ, disp, s_disp
from .c22 import DQ as BDQ, build, runs_usable, s_bsd
from esat.error.bootstrap import Bootstrap
from esat.error.displacement import Displacement
from esat.error.error import Error

FLOOR = 1e-4


def near(a, b, rtol=1e-5, atol=2e-6):
    a, b = np.asarray([np.nan if x is None else x for x in a], float), np.asarray(b, float)
    size = np.nanmax(np.abs(b)) if b.size and np.isfinite(b).any() else 0.0
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol * min(1.0, max(size, 1e-3)), equal_nan=True))


def conc(W, H, i):
    return np.asarray(W, np.float64)[:, i].sum() * np.asarray(H, np.float64)[i]


def one(fn, *a, **kw):
    with shown() as figs:
        expect(fn(*a, **kw) is None, "a plot method returned something")
    expect(len(figs) == 1, "the plot was not shown", got=len(figs))
    return figs[0]


def nothing(fn, *a, **kw):
    with shown() as figs:
        fn(*a, **kw)
    expect(not figs, "a factor that does not exist is shown", args=a)


def titled(fig, factor, model):
    t = fig.layout.title.text
    expect(re.search(rf"\bFactor {factor}\b", t) is not None and (model is None or re.search(rf"\bModel {model}\b", t) is not None), "the plot is labelled as another factor or model", got=t,
           factor=factor, model=model)
    return t


# --- bootstrap ---

def s_bs():
    return st.builds(lambda c, x: dict(c, **x), s_boot(), st.fixed_dictionaries({"pick": st.integers(0, 11), "model": st.sampled_from([-1, 0, 4])}))


def c_bs(case, ctx):
    sa = base(case)
    if sa is None:
        return ctx.label("degenerate-base")
    o = boot(case, sa, model_selected=case["model"])
    runs = [r["model"] for r in o.bs_results.values()]
    if not all(np.isfinite(m.W).all() and np.isfinite(m.H).all() and (np.asarray(m.H).sum(axis=0) > 1e-6).all() and np.abs(m.W).max() < 1e6 and np.abs(m.H).max() < 1e6
               and np.abs(np.asarray(m.V, float)).max() < 1e6 for m in runs + [sa]):
        return ctx.label("degenerate-run")
    k, n = sa.factors, case["p"]["n"]
    i = case["pick"] % k
    lab = labels(n)
    keep = [np.array(x, copy=True) for x in (sa.W, sa.H)] + [np.array(m.H, copy=True) for m in runs]
    H, W = np.asarray(sa.H, float), np.asarray(sa.W, float)
    # profile shares
    f = one(o.plot_factor, i + 1)
    titled(f, i + 1, case["model"])
    boxes = [t for t in f.data if t.type == "box"]
    dots = [t for t in f.data if t.type == "scatter"]
    expect([t.name for t in boxes] == lab and len(dots) == 1 and list(dots[0].x) == lab, "the profile plot does not show every feature once", got=[t.name for t in boxes])
    for j, t in enumerate(boxes):
        want = [100 * float(m.H[i, j]) / float(np.asarray(m.H)[:, j].sum()) for m in runs]
        expect(np.allclose(np.asarray(t.y, float), want, rtol=1e-5, atol=6e-3), "the profile plot shows other shares", feature=j, got=list(t.y), want=want)
    expect(near(dots[0].y, 100 * H[i] / H.sum(axis=0)), "the profile plot shows another base profile")
    # concentrations
    f = one(o.plot_contribution, i + 1)
    titled(f, i + 1, case["model"])
    boxes = [t for t in f.data if t.type == "box"]
    dots = [t for t in f.data if t.type == "scatter"]
    expect([t.name for t in boxes] == lab and len(dots) == 1 and list(dots[0].x) == lab, "the contribution plot does not show every feature once")
    C = np.array([conc(m.W, m.H, i) for m in runs])
    size = max(np.abs(np.asarray(m.W)[:, i]).sum() * np.abs(m.H[i]).max() for m in runs + [sa])
    tol = 6e-5 + 2e-6 * size
    for j, t in enumerate(boxes):
        want = np.maximum(C[:, j], FLOOR)
        expect(np.allclose(np.asarray(t.y, float), want, rtol=1e-5, atol=tol + 1e-4), "the contribution plot shows other concentrations", feature=j, got=list(t.y), want=want)
    expect(np.allclose(np.asarray(dots[0].y, float), np.maximum(conc(W, H, i), FLOOR), rtol=1e-5, atol=tol), "the contribution plot shows another base concentration")
    with shown() as figs:
        o.plot_results(i + 1)
    expect(len(figs) == 2 and "Percentage" in figs[0].layout.title.text and "Concentration" in figs[1].layout.title.text and all(f"Factor {i + 1}" in q.layout.title.text for q in figs),
           "the results are not the profile and the contribution plot of the factor")
    # tables
    t = one(o.show_mapping_table).data[0]
    cols = [list(x) for x in t.cells.values]
    expect(list(t.header["values"]) == list(o.mapping_df.columns) and all(list(map(str, c)) == list(map(str, o.mapping_df[name])) for c, name in zip(cols, o.mapping_df.columns)) and len(cols) == k + 2,
           "the mapping table shows other counts")
    q = np.array([float(m.Qrobust) for m in runs])
    if np.isfinite(q).all() and np.abs(q).max() < 1e9:
        t = one(o.show_q_table).data[0]
        vals = [float(np.asarray(x, float).ravel()[0]) for x in t.cells.values]
        want = [float(sa.Qrobust), q.min(), np.quantile(q, 0.25), np.median(q), np.quantile(q, 0.75), q.max()]
        expect(list(t.header["values"]) == ["Base", "Min", "25th", "Median", "75th", "Max"] and all(abs(a - b) <= 0.5 + 1e-5 * abs(b) for a, b in zip(vals, want)), "the loss table shows other losses",
               got=vals, want=want)
    f = one(o.show_factor_results, i + 1)
    expect(f"Factor {i + 1}" in f.layout.title.text, "the factor table is labelled as another factor")
    t = f.data[0]
    tab = dict(zip(t.header["values"], [list(x) for x in t.cells.values]))
    P = np.array([np.asarray(m.H[i], float) for m in runs])
    expect(tab["features"] == lab and np.allclose(tab["Base Run Profile"], H[i], rtol=1e-5, atol=2e-5), "the factor table shows another base profile", got=tab["Base Run Profile"], want=H[i])
    for name, want in (("BS Mean", P.mean(axis=0)), ("BS 5th", np.quantile(P, 0.05, axis=0)), ("BS 25th", np.quantile(P, 0.25, axis=0)), ("BS Median", np.median(P, axis=0)),
                       ("BS 75th", np.quantile(P, 0.75, axis=0)), ("BS 95th", np.quantile(P, 0.95, axis=0))):
        expect(np.allclose(np.asarray(tab[name], float), want, rtol=1e-5, atol=1.2e-4), f"the factor table shows another {name}", got=tab[name], want=want)
    if len(runs) > 1:
        expect(np.allclose(np.asarray(tab["BS Std. Dev."], float), P.std(axis=0, ddof=1), rtol=1e-4, atol=2e-4), "the factor table shows another deviation", got=tab["BS Std. Dev."])
    lo, hi = np.quantile(P, 0.25, axis=0), np.quantile(P, 0.75, axis=0)
    clear = (np.abs(H[i] - lo) > 2e-4 + 1e-5 * np.abs(lo)) & (np.abs(H[i] - hi) > 2e-4 + 1e-5 * np.abs(hi))
    got = np.array([bool(x) for x in tab["Within IQR"]])
    want = (H[i] >= lo) & (H[i] <= hi)
    expect(np.array_equal(got[clear], want[clear]), "the factor table is wrong about the base profile being within the quartiles", got=got, want=want)
    with log_lines() as out, shown() as figs:
        o.summary()
    expect(len(figs) == 2 + k and all(f"Factor {a + 1}" in q.layout.title.text for a, q in enumerate(figs[2:])), "the summary does not show mapping, losses and every factor")
    text = "\n".join(out)
    expect(all(re.search(rf"{what}: {re.escape(str(v))}$", text, re.M) for what, v in (("Base model run number", case["model"]), ("Number of bootstrap runs", case["runs"]),
           ("R-Value", case["threshold"]), ("Number of Factors", k))), "the summary lists other settings", got=text)
    for fn in (o.plot_factor, o.plot_contribution, o.plot_results, o.show_factor_results):
        nothing(fn, 0)
        nothing(fn, k + 1)
    expect(all(np.array_equal(a, b) for a, b in zip(keep, [sa.W, sa.H] + [m.H for m in runs])), "a plot changed a model")
    ctx.nontrivial(len(runs) > 1 and k > 1)


# --- displacement and BS-DISP ---

def check_ranges(o, dqs, default, model, case, name):
    t = o.compiled_results
    before = t.copy(deep=True)
    k = o.factors
    i = case["pick"] % k
    for dq in list(dqs) + [7, None]:
        kw = {} if dq is None else {"dQ": dq}
        level = dq if dq in dqs else default
        rows = t[(t["factor"] == i) & (t["dQ"] == level)]
        n = len(rows)
        figs = []
        for fn, base_, lo, hi, scale, word in ((o.plot_profile, rows["profile"], rows["profile_min"], rows["profile_max"], 100.0, "Percentage"),
                                               (o.plot_contribution, np.maximum(rows["conc"], FLOOR), rows["conc_min"], rows["conc_max"], 1.0, "Concentration")):
            f = one(fn, i + 1, **kw)
            figs.append(f)
            text = titled(f, i + 1, model)
            expect(re.search(rf"\bdQ {re.escape(str(level))}$", text.strip()) is not None and word in text, "the plot is labelled with another loss change", got=text, want=level, asked=dq)
            dots = [x for x in f.data if x.type == "scatter"]
            bars = [x for x in f.data if x.type == "bar"]
            expect(len(dots) == len(bars) == 1 and list(dots[0].x) == list(bars[0].x) == list(rows["feature"]) and n == case["p"]["n"], "the plot does not show every feature once")
            expect(near(dots[0].y, scale * np.asarray(base_, float)), "the plot shows other base values", kind=word, got=list(dots[0].y), want=list(base_))
            expect(near(bars[0].base, scale * np.asarray(lo, float)) and near(bars[0].y, scale * (np.asarray(hi, float) - np.asarray(lo, float))), "the plot shows another range", kind=word,
                   dQ=dq, got=(list(bars[0].base), list(bars[0].y)), want=(list(lo), list(hi)))
        with shown() as both:
            o.plot_results(i + 1, **kw)
        expect([q.layout.title.text for q in both] == [q.layout.title.text for q in figs], "the results are not the profile and contribution plots", got=[q.layout.title.text for q in both], asked=dq)
    for fn in (o.plot_profile, o.plot_contribution, o.plot_results):
        nothing(fn, 0)
        nothing(fn, k + 1)
    with log_lines() as out, shown() as figs:
        o.summary()
    expect(len(figs) == 1, "the summary does not show one table")
    tab = figs[0].data[0]
    cols = [[float(v) for v in x] for x in tab.cells.values]
    expect(list(tab.header["values"]) == ["dQ Max"] + [f"Factor {a + 1}" for a in range(k)] and sorted(cols[0]) == sorted(map(float, dqs)), "the swap table is labelled otherwise", got=cols[0])
    want = 100 * o.swap_table / o.count_table
    for r, dq in enumerate(cols[0]):
        expect(np.allclose([c[r] for c in cols[1:]], want[list(dqs).index(dq)], atol=0.006), "the swap table shows other shares", dQ=dq)
    drop = float(t["dQ_drop"].min())
    text = "\n".join(out)
    if np.isfinite(drop):
        m = re.search(r"dQ [dD]ecrease: (-?[\d.]+(?:e[-+]?\d+)?)", text)
        expect(m is not None and abs(float(m.group(1)) - drop) <= 0.006 + 1e-5 * abs(drop), "the summary reports another loss drop", got=text, want=drop)
    if name == "BS-DISP":
        nums = [int(x) for x in re.findall(r"(?:drops|fit swaps|DISP swaps): (\d+)", text)]
        expect(nums == [o.n_drops, o.fit_swaps, o.disp_swap], "the summary reports other counts", got=text)
    expect(t.equals(before) and o.compiled_results is t, "a plot changed the results")


def s_ranges():
    return st.builds(lambda c, x: dict(c, **x), s_disp(), st.fixed_dictionaries({"pick": st.integers(0, 11), "model": st.sampled_from([-1, 0, 4])}))


def c_ranges(case, ctx):
    sa = base(case)
    if sa is None:
        return ctx.label("degenerate-base")
    d = disp(case, sa)
    d.selected_model = case["model"]
    check_ranges(d, DQ, 4, case["model"], case, "DISP")
    ctx.nontrivial(sa.factors > 1)


def s_all():
    return st.builds(lambda c, x: dict(c, **x, par=False, given=True), s_bsd(), st.fixed_dictionaries({"pick": st.integers(0, 11), "use": st.lists(st.booleans(), min_size=3, max_size=3),
                                                                                                   "model": st.sampled_from([0, 4])}))


def c_all(case, ctx):
    sa = base(case)
    if sa is None or not runs_usable(case, sa):
        return ctx.label("degenerate")
    n, k = case["p"]["n"], sa.factors
    b, feats = build(case, sa, False)
    check_ranges(b, BDQ, 0.5, -1, case, "BS-DISP")
    lab = labels(n)
    boots = Bootstrap(sa=sa, feature_labels=lab, bootstrap_n=case["runs"], block_size=case["block_size"], parallel=False, seed=case["bs_seed"] + 1, model_selected=case["model"])
    boots.run(keep_H=case["keep_H"])
    d = Displacement(sa=sa, feature_labels=lab, features=feats, max_search=case["search"], threshold_dQ=case["thr"], parallel=False, model_selected=case["model"])
    d.run()
    b.model_selected = case["model"]
    use = case["use"]
    tables = [d.compiled_results.copy(deep=True), b.compiled_results.copy(deep=True)]
    e = Error(bs=boots if use[0] else None, disp=d if use[1] else None, bsdisp=b if use[2] else None)
    if not (use[0] or use[1]):
        nothing(e.plot_summary, 1)
        return ctx.label("nothing")
    i = case["pick"] % k
    nothing(e.plot_summary, 0)
    nothing(e.plot_summary, k + 1)
    f = one(e.plot_summary, i + 1)
    titled(f, i + 1, case["model"])
    C = np.array([conc(r["model"].W, r["model"].H, i) for r in boots.bs_results.values()])
    size = max(np.abs(np.asarray(m.W)[:, i]).sum() * np.abs(m.H[i]).max() for m in [sa] + [r["model"] for r in boots.bs_results.values()])
    tol = 1.5e-4 + 4e-6 * size
    want = {}
    if use[0]:
        want["BS"] = (np.maximum(C, FLOOR).min(axis=0), np.maximum(C, FLOOR).max(axis=0))
    for flag, name, o in ((use[1], "Disp", d), (use[2], "BS-Disp", b)):
        if flag:
            t = o.compiled_results
            rows = t[(t["factor"] == i) & (t["dQ"] == 4)]
            want[name] = (rows["conc_min"].to_numpy(float), rows["conc_max"].to_numpy(float))
    bars = {t.name: t for t in f.data if t.type == "bar"}
    dots = [t for t in f.data if t.type == "scatter"]
    expect(sorted(bars) == sorted(want) and len(f.data) == len(want) + 1, "the summary does not show exactly the given estimates", got=sorted(bars), want=sorted(want))
    for name, (lo, hi) in want.items():
        t = bars[name]
        expect(list(t.x) == lab, "the summary shows other features")
        tl = tol if name == "BS" else 1e-9 + 1e-6 * np.nanmax(np.abs(hi))
        expect(np.allclose(np.asarray(t.base, float), lo, rtol=1e-5, atol=tl, equal_nan=True) and np.allclose(np.asarray(t.base, float) + np.asarray(t.y, float), hi, rtol=1e-5, atol=tl, equal_nan=True),
               "the summary shows another range", estimate=name, got=(list(t.base), list(t.y)), want=(lo, hi))
    expect(len(dots) == 1 and list(dots[0].x) == lab and np.allclose(np.asarray(dots[0].y, float), np.maximum(conc(sa.W, sa.H, i), FLOOR), rtol=1e-5, atol=tol), "the summary shows another base value",
           got=list(dots[0].y), want=conc(sa.W, sa.H, i))
    expect(d.compiled_results.equals(tables[0]) and b.compiled_results.equals(tables[1]), "the summary changed the results")
    ctx.label("+".join(sorted(want)))
    ctx.nontrivial(len(want) >= 2 and k > 1)


PROP = Prop("C36", [
    Sub("bootstrap", s_bs, c_bs, 150, 4000, "tables and plots of a bootstrap against its models; non-trivial = several runs and factors"),
    Sub("displacement", s_ranges, c_ranges, 80, 2500, "plots and summary of a displacement, every loss change; non-trivial = several factors"),
    Sub("summary", s_all, c_all, 60, 1500, "BS-DISP plots and the summary of any of the estimates; non-trivial = two or more estimates and factors"),
], assumptions=["bootstrap statistics are stored rounded to four decimals", "concentrations below 1e-4 are shown as 1e-4"])
