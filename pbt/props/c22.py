"""C22: BS-DISP is the displacement of every bootstrap model, combined into an envelope."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import many, recipe, seeds
from ..models import labels, trained_sa, usable
from .c20 import check_disp, same_disp
from .c21 import check_summary, check_swaps
from esat.error.bootstrap import Bootstrap
from esat.error.bs_disp import BSDISP
from esat.error.displacement import Displacement

DQ = [4, 2, 1, 0.5]


def s_bsd():
    return many(st.fixed_dictionaries({
        "p": recipe(min_m=6, min_n=3, max_m=10, max_n=4), "factors": st.integers(1, 3), "seed": seeds(),
        "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]), "iters": st.sampled_from([2, 8, 25]), "delta": st.sampled_from([1e-6, 1e-6, 0.5, 20.0]), "conv": st.sampled_from([2, 4, 8, 22]),
        "features": st.sampled_from(["all", "first", "last", "two", "swapped"]), "runs": st.integers(1, 4), "block_size": st.integers(1, 4),
        "bs_seed": seeds(), "given": st.booleans(), "par": st.booleans(), "search": st.sampled_from([50, 50, 8]),
        "thr": st.sampled_from([0.1, 0.02]), "keep_H": st.booleans(), "reuse_seed": st.booleans(), "block": st.sampled_from([True, True, True, False]), "overlapping": st.booleans(),
        "threshold": st.sampled_from([0.6, 0.6, 0.3, 0.95])}), lambda c: {"features": "first" if c["features"] == "all" else c["features"], "runs": 1 + c["runs"] % 2, "iters": 2}, every=40)


def build(case, sa, par):
    n = case["p"]["n"]
    feats = {"all": None, "first": [0], "last": [n - 1], "two": [0, n - 1], "swapped": [n - 1, 0]}[case["features"]]
    boot = bootstrap(case, sa) if case["given"] else None
    how = {} if boot is not None else settings(case)
    o = BSDISP(sa=sa, feature_labels=labels(n), bootstrap=boot, bootstrap_n=case["runs"], block_size=case["block_size"], threshold=case["threshold"],
               seed=case["bs_seed"], features=feats, max_search=case["search"], threshold_dQ=case["thr"], cores=2)
    o.run(parallel=par, **how)
    return o, feats


def settings(case):
    return {x: case[x] for x in ("keep_H", "reuse_seed", "block", "overlapping")}


def bootstrap(case, sa):
    b = Bootstrap(sa=sa, feature_labels=labels(case["p"]["n"]), bootstrap_n=case["runs"], block_size=case["block_size"], parallel=False,
                  seed=case["bs_seed"], threshold=case["threshold"])
    b.run(**settings(case))
    return b


def runs_usable(case, sa):
    b = bootstrap(case, sa)
    return all(usable(r["model"]) for r in b.bs_results.values())


def c_env(case, ctx):
    sa = trained_sa(case["p"], factors=case["factors"], seed=case["seed"], iters=case["iters"], method=case["method"],
                    delta=case.get("delta", 1e-6), conv_n=case.get("conv", 8))
    if not usable(sa):
        return ctx.label("degenerate-base")
    n = case["p"]["n"]
    if not runs_usable(case, sa):
        return ctx.label("degenerate-run")
    o, feats = build(case, sa, case["par"])
    runs = o.bootstrap.bs_results
    expect(list(o.disp_results) == list(runs) and len(runs) == case["runs"], "not one displacement per bootstrap run in order",
           got=list(o.disp_results), want=list(runs))
    kinds = set()
    tables = []
    swap = count = 0
    for k, d in o.disp_results.items():
        m = runs[k]["model"]
        ref = Displacement(sa=m, feature_labels=labels(n), features=feats, max_search=case["search"], threshold_dQ=case["thr"],
                           parallel=False)
        ref.dQmax = DQ
        ref.run()
        same_disp(d, ref, "BS-DISP run and the displacement of that bootstrap model")
        check_disp(d, m, case, DQ, case["thr"], feats)
        kinds |= check_swaps(d, m, n, DQ, feats)
        tables.append(d.compiled_results)
        swap, count = swap + d.swap_table, count + d.count_table
    t = o.compiled_results
    key = ["dQ", "factor", "feature"]
    expect(all(list(map(tuple, x[key].values)) == list(map(tuple, t[key].values)) for x in tables), "BS-DISP rows are not those of the runs")
    moved = False
    for col, fn in (("profile_max", np.max), ("profile_min", np.min), ("conc_max", np.max), ("conc_min", np.min), ("profile", np.mean),
                    ("conc", np.mean), ("dQ_drop", np.min)):
        x = np.array([tab[col].to_numpy(float) for tab in tables])
        want = fn(x, axis=0)
        got = t[col].to_numpy(float)
        expect(np.allclose(got, want, rtol=1e-5, atol=1e-9, equal_nan=True), f"BS-DISP {col} does not combine all the runs",
               got=got[:6].tolist(), want=want[:6].tolist())
        moved = moved or not np.allclose(want, x[0], rtol=1e-3, equal_nan=True)
    expect(np.array_equal(o.swap_table, swap) and np.array_equal(o.count_table, count), "BS-DISP swap tables are not the sums over the runs")
    expect(o.n_drops == sum(bool((tab["dQ_drop"] < 0).any()) for tab in tables), "wrong number of runs with a loss drop", got=o.n_drops)
    expect(o.disp_swap == sum(bool(d.swap_table.any()) for d in o.disp_results.values()), "wrong number of runs with a swap",
           got=o.disp_swap)
    mp = o.bootstrap.mapping_df
    diag = [mp[f"Base Factor {i + 1}"].iloc[i] for i in range(sa.factors)]
    expect(o.fit_swaps == sum(x < case["runs"] for x in diag), "wrong number of best fit swaps", got=o.fit_swaps, diagonal=diag)
    check_summary(o, DQ)
    ctx.label("par" if case["par"] else "seq", "given" if case["given"] else "own", case["features"])
    ctx.nontrivial(case["runs"] > 1 and moved)


def c_agree(case, ctx):
    sa = trained_sa(case["p"], factors=case["factors"], seed=case["seed"], iters=case["iters"], method=case["method"],
                    delta=case.get("delta", 1e-6), conv_n=case.get("conv", 8))
    if not usable(sa):
        return ctx.label("degenerate-base")
    if not runs_usable(case, sa):
        return ctx.label("degenerate-run")
    a, _ = build(dict(case, given=True), sa, False)
    b, _ = build(dict(case, given=False), sa, True)
    expect(a.compiled_results.equals(b.compiled_results), "BS-DISP depends on how it is parallelised or on who runs the bootstrap")
    expect(np.array_equal(a.swap_table, b.swap_table) and (a.n_drops, a.disp_swap, a.fit_swaps) == (b.n_drops, b.disp_swap, b.fit_swaps),
           "BS-DISP counts depend on how it is parallelised")
    if case["seed"] is not None and case["seed"] % 4 == 1:
        was = a.compiled_results.copy(), a.swap_table.copy(), a.count_table.copy(), (a.n_drops, a.disp_swap, a.fit_swaps)
        a.run()
        expect(a.compiled_results.equals(was[0]), "running BS-DISP again gives other results")
        expect(np.array_equal(a.swap_table, was[1]) and np.array_equal(a.count_table, was[2]) and (a.n_drops, a.disp_swap, a.fit_swaps) == was[3],
               "a second run of BS-DISP counts the first one again", got=(a.n_drops, a.disp_swap, a.fit_swaps), want=was[3])
        ctx.label("again")
    for k in a.disp_results:
        same_disp(a.disp_results[k], b.disp_results[k], "BS-DISP parallel over runs and over features")
        x, y = a.bootstrap.bs_results[k], b.bootstrap.bs_results[k]
        expect(list(x["index"]) == list(y["index"]) and np.array_equal(x["model"].H, y["model"].H) and np.array_equal(x["model"].W, y["model"].W),
               "the bootstrap run by BS-DISP differs from one run before with the same settings", run=k)
    expect(a.bootstrap.mapping_df.equals(b.bootstrap.mapping_df), "the mapping of the bootstrap run by BS-DISP differs from one run before")
    ctx.nontrivial(case["runs"] > 1)


PROP = Prop("C22", [
    Sub("envelope", s_bsd, c_env, 120, 3000, "every run displaced alone and combined; non-trivial = several runs which differ"),
    Sub("agree", s_bsd, c_agree, 60, 1200, "given bootstrap and sequential runs against own bootstrap and parallel runs; non-trivial = "
        "several runs"),
])
