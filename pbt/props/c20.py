"""C20: displacement bounds bracket the base profile, at the loss change they claim."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import fast_q, many, recipe, seeds
from ..models import labels, trained_sa, usable
from esat.error.displacement import Displacement

DQ = [32, 16, 8, 4]


def s_bounds():
    """Now and then no feature at all is displaced."""
    return st.tuples(s_disp(), st.integers(0, 29)).map(lambda x: dict(x[0], features="none") if x[1] == 17 else x[0])


def s_disp():
    return many(st.fixed_dictionaries({
        "p": st.one_of(recipe(min_m=4, min_n=3, max_m=10, max_n=4), recipe(min_m=4, min_n=3, max_m=10, max_n=4),
                       recipe(min_m=4, min_n=3, max_m=10, max_n=4, neg=True)),
        "factors": st.integers(1, 3), "seed": seeds(), "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]),
        "iters": st.sampled_from([1, 3, 10, 40]), "delta": st.sampled_from([1e-6, 1e-6, 0.5, 20.0]), "conv": st.sampled_from([2, 4, 8, 30]), "features": st.sampled_from(["all", "all", "first", "last", "two", "swapped"]),
        "thr": st.sampled_from([0.1, 0.1, 0.01, 1.0]), "search": st.sampled_from([50, 50, 50, 35, 6, 1])}),
        lambda c: {"features": c["features"] if c["features"] != "all" else "two", "iters": 3, "delta": 1e-6}, every=30)


def base(case):
    sa = trained_sa(case["p"], factors=case["factors"], seed=case["seed"], iters=case["iters"], method=case["method"],
                    delta=case.get("delta", 1e-6), conv_n=case.get("conv", 8))
    return sa if usable(sa) else None


def features(case):
    n = case["p"]["n"]
    return {"all": None, "first": [0], "last": [n - 1], "two": [0, n - 1], "swapped": [n - 1, 0], "none": []}[case["features"]]


def disp(case, sa, parallel=False):
    d = Displacement(sa=sa, feature_labels=labels(case["p"]["n"]), features=features(case), max_search=case["search"],
                     threshold_dQ=case["thr"], parallel=parallel, cores=2)
    d.run()
    return d


def rounding(V, U, W, H):
    """Bound on the float32 rounding error of a loss."""
    a = (np.abs(V) + np.abs(W) @ np.abs(H)) / U
    s = np.abs(V - W @ H) / U
    return float(5e-7 * np.sum(s * a) + 1e-12 * np.sum(a * a) + 5e-7 * np.sum(s * s)) + 1e-6


def profile(sa):
    """The base profile as displaced: zeros are lifted to a tiny positive value so that they can be scaled."""
    return np.array(sa.H) + 1e-12


def judge(d, sa, f, j, dq, up, r, case, thr):
    """One displacement. Returns (signed loss change, judged)."""
    V, U, W = (np.asarray(x, np.float64) for x in (sa.V, sa.U, sa.W))
    H = np.asarray(profile(sa), np.float64)
    h, v = float(H[f, j]), float(r["value"])
    H2 = H.copy()
    H2[f, j] = v
    # lifting zeros can itself change the loss when a factor has degenerated
    noise = max(rounding(V, U, W, H), rounding(V, U, W, H2), abs(fast_q(V, U, W, H) - float(sa.Qtrue)))
    change = fast_q(V, U, W, H2) - float(sa.Qtrue)
    if up:
        expect(v >= h * (1 - 1e-6) - 3e-12, "the upper bound is below the base profile", factor=f, feature=j, dQ=dq, value=v, base=h)
    else:
        expect(v <= h * (1 + 1e-6) + 3e-12 and v >= 0, "the lower bound is above the base profile (or negative)", factor=f, feature=j,
               dQ=dq, value=v, base=h)
    got = float(r["dQ"])
    want = change if up else abs(change)
    judged = noise < 1e6
    if judged:
        expect(abs(got - want) <= noise + 1e-5 * abs(want), "the recorded loss change is not the one of the recorded value",
               factor=f, feature=j, dQ=dq, up=up, got=got, want=want)
    if noise < thr / 20 and case["search"] >= 35:
        inside = dq - thr - noise - 1e-4 <= want <= dq + noise + 1e-4
        if up:
            reach = abs(W[:, f]).max() > 1e-6 and h > 1e-9
        else:
            z = H.copy()
            z[f, j] = 0.0
            reach = abs(fast_q(V, U, W, z) - float(sa.Qtrue)) >= dq + 2 * noise
        if reach:
            expect(inside, "the displaced value does not give the requested loss change", factor=f, feature=j, dQ=dq, up=up,
                   change=want, threshold=thr)
        elif not up:
            expect(inside or v <= 3e-8 * h + 1e-30, "a lower bound which cannot reach the loss change is not zero", factor=f,
                   feature=j, dQ=dq, value=v, base=h)
        else:
            judged = False
    else:
        judged = False
    colsum = H[:, j].sum()
    expect(abs(float(r["percent"]) - v / (colsum - h + v)) <= 1e-4 if colsum - h + v > 1e-30 else True,
           "wrong percentage of the displaced value", got=float(r["percent"]), want=v / (colsum - h + v) if colsum - h + v else None)
    cw = W[:, f].sum()
    expect(abs(float(r["conc"]) - v * cw) <= 1e-4 * v * np.abs(W[:, f]).sum() + 3e-12 * np.abs(W[:, f]).sum(), "wrong concentration of the displaced value",
           got=float(r["conc"]), want=v * cw)
    return change, judged


def check_disp(d, sa, case, dqs, thr, feats):
    """All recorded displacements and the compiled table of one displacement run. Returns number of judged ones."""
    n, k = case["p"]["n"], sa.factors
    H = np.asarray(profile(sa), np.float64)
    W = np.asarray(sa.W, np.float64)
    used = list(range(n)) if feats is None else feats
    judged = 0
    for name, res, up in (("increase", d.increase_results, True), ("decrease", d.decrease_results, False)):
        expect(sorted(res) == sorted(f"factor-{f + 1}" for f in range(k)), f"{name}: other factors", got=sorted(res))
        for f in range(k):
            cell = res[f"factor-{f + 1}"]
            expect(sorted(cell) == sorted(f"feature-{j}" for j in used), f"{name}: other features", got=sorted(cell))
            for j in used:
                expect(sorted(cell[f"feature-{j}"]) == sorted(dqs), f"{name}: other dQ values")
                last = None
                for dq in sorted(dqs):
                    r = cell[f"feature-{j}"][dq]
                    change, ok = judge(d, sa, f, j, dq, up, r, case, thr)
                    judged += ok
                    if up and ok:
                        v = float(r["value"])
                        expect(last is None or v >= last * (1 - 1e-6), "the upper bound is smaller for a larger loss change",
                               factor=f, feature=j, dQ=dq)
                        last = v
    t = d.compiled_results
    expect(len(t) == len(dqs) * k * n, "the result table does not have one row per dQ, factor and feature", rows=len(t))
    lab = labels(n)
    seen = set()
    with np.errstate(all="ignore"):
        share = H / H.sum(axis=0)
    conc = W.sum(axis=0)[:, None] * H
    for row in t.itertuples():
        f, j, dq = int(row.factor), lab.index(row.feature), row.dQ
        seen.add((f, j, dq))
        if H[:, j].sum() < 1e-9:
            continue
        expect(abs(row.profile - share[f, j]) <= 1e-4, "wrong base percentage", got=row.profile, want=share[f, j])
        slack = 1e-4 * np.abs(W[:, f]).sum() * (H[f, j] + 3e-8)
        expect(abs(row.conc - conc[f, j]) <= slack, "wrong base concentration", got=row.conc, want=conc[f, j])
        expect(row.profile_min <= row.profile + 1e-5 and row.profile_max >= row.profile - 1e-5,
               "the bounds do not bracket the base percentage", row=str(row))
        if W[:, f].sum() > 0.05 * np.abs(W[:, f]).sum() and conc[f, j] > 1e-3:
            expect(row.conc_min <= row.conc + slack and row.conc_max >= row.conc - slack,
                   "the bounds do not bracket the base concentration", row=str(row))
        if j not in used:
            expect(row.profile_min == row.profile and row.profile_max == row.profile and row.dQ_drop == 0,
                   "a feature which was not displaced has bounds", row=str(row))
            lo = hi = float(conc[f, j])
        else:
            inc, dec = d.increase_results[f"factor-{f + 1}"][f"feature-{j}"][dq], d.decrease_results[f"factor-{f + 1}"][f"feature-{j}"][dq]
            expect(row.profile_max == inc["percent"] and row.profile_min == dec["percent"], "the table does not hold the found bounds",
                   row=str(row))
            hi, lo = float(inc["conc"]), float(dec["conc"])
            drops = [float(inc["Q_drop"]), float(dec["Q_drop"])]
            drop = min(drops + [0.0])
            expect(not np.isfinite(drops).all() or abs(row.dQ_drop - drop) <= 1e-9 + 1e-6 * abs(drop), "wrong loss drop in the table",
                   got=row.dQ_drop, want=drop)
        for got, want in ((row.conc_max, hi), (row.conc_min, lo)):
            expect(abs(got - max(want, 1e-4)) <= 1e-4 * abs(want) + slack + 1e-9, "wrong concentration bound in the table", got=got, want=want)
    expect(len(seen) == len(t), "a row of the result table is repeated")
    return judged


def c_disp(case, ctx):
    sa = base(case)
    if sa is None:
        return ctx.label("degenerate-base")
    keep = [np.array(x, copy=True) for x in (sa.V, sa.U, sa.W, sa.H)]
    q = sa.Qtrue
    d = disp(case, sa)
    expect(all(np.array_equal(a, b) for a, b in zip(keep, (sa.V, sa.U, sa.W, sa.H))) and sa.Qtrue == q,
           "displacement changed the base model")
    judged = check_disp(d, sa, case, DQ, case["thr"], features(case))
    ctx.label(case["method"], f"search{case['search']}", "judged" if judged else "noisy")
    ctx.nontrivial(judged >= 4)


def same_disp(a, b, what):
    for name in ("increase_results", "decrease_results"):
        x, y = getattr(a, name), getattr(b, name)
        expect(sorted(x) == sorted(y), f"{what}: other factors")
        for f in x:
            expect(sorted(x[f]) == sorted(y[f]), f"{what}: other features")
            for s in x[f]:
                for dq in x[f][s]:
                    p, r = x[f][s][dq], y[f][s][dq]
                    for key in ("dQ", "value", "percent", "swap", "conc", "Q_drop"):
                        u, w = float(p[key]), float(r[key])
                        expect(u == w or (np.isnan(u) and np.isnan(w)), f"{what}: {key} differs", factor=f, feature=s, dQ=dq)
    expect(a.compiled_results.equals(b.compiled_results), f"{what}: result tables differ")
    expect(np.array_equal(a.swap_table, b.swap_table) and np.array_equal(a.count_table, b.count_table), f"{what}: swap tables differ")


def c_par(case, ctx):
    sa = base(case)
    if sa is None:
        return ctx.label("degenerate-base")
    a = disp(case, sa)
    same_disp(a, disp(case, sa), "the same displacement again")
    same_disp(a, disp(case, base(case), parallel=True), "sequential and parallel displacement")
    # a subset gives the bounds of the complete run
    if features(case) is not None:
        whole = disp(dict(case, features="all"), sa)
        for name in ("increase_results", "decrease_results"):
            for f, cells in getattr(a, name).items():
                for s, c in cells.items():
                    w = getattr(whole, name)[f][s]
                    expect(all(float(c[q]["value"]) == float(w[q]["value"]) for q in c),
                           "the bounds of a feature depend on which other features are displaced", factor=f, feature=s)
    ctx.label(case["features"])
    ctx.nontrivial(sa.factors > 1)


PROP = Prop("C20", [
    Sub("bounds", s_bounds, c_disp, 400, 8000, "every displacement recomputed from its value; non-trivial = at least four of them are "
        "well above rounding noise and searched far enough to be judged"),
    Sub("agree", s_disp, c_par, 120, 2500, "again, in parallel, with other features; non-trivial = several factors"),
], assumptions=["loss changes are judged to within float32 rounding of the loss; windows narrower than 20 times that are not judged"])
