"""C18: bootstrap mapping: best correlated base factor, counted once per run, statistics taken from the runs."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import SEEDS
from .c17 import base, boot, s_boot
from esat.model.sa import SA
from esat.error.bootstrap import Bootstrap


def r2(a, b):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    a, b = a - a.mean(), b - b.mean()
    d = float(a @ a) * float(b @ b)
    return float(a @ b) ** 2 / d if d > 0 else float("nan")


def cancels(W):
    """The summed contributions of a factor are the small difference of large numbers."""
    W = np.asarray(W, np.float64)
    return bool(np.any(np.abs(W).sum(axis=0) > 20 * np.abs(W.sum(axis=0))))


def conc(W, H, i):
    return np.asarray(W, np.float64)[:, i].sum() * np.asarray(H, np.float64)[i]


def check_mapping(mapping, X, Y, threshold, what):
    """mapping of rows of X to rows of Y by squared correlation."""
    k = len(X)
    expect(sorted(mapping) == list(range(k)), f"{what}: a factor is not mapped exactly once", got=sorted(mapping))
    if not all(np.all(np.isfinite(v)) for v in list(X) + list(Y)):
        return False
    flat = [np.ptp(v) <= 1e-3 * max(1e-30, float(np.max(np.abs(v)))) for v in list(X) + list(Y)]
    if any(flat):
        return False
    for i in range(k):
        rs = np.array([r2(X[i], Y[j]) for j in range(len(Y))])
        m = mapping[i]
        best = float(np.max(rs))
        expect(0 <= m["match"] < len(Y) and rs[m["match"]] >= best - 1e-4, f"{what}: not the best correlated factor", factor=i,
               match=m["match"], r2=rs.tolist())
        expect(abs(float(m["r2"]) - best) <= 1e-4, f"{what}: wrong correlation", got=float(m["r2"]), want=best)
        expect(bool(m["mapped"]) == bool(float(m["r2"]) >= threshold), f"{what}: mapped does not follow the reported correlation", r2=float(m["r2"]), threshold=threshold)
        if abs(best - threshold) > 1e-4:
            expect(bool(m["mapped"]) == (best > threshold), f"{what}: mapped does not follow the threshold", r2=best,
                   threshold=threshold, mapped=m["mapped"])
    return True


def clean(x):
    x = np.array(x, dtype=np.float64)
    x[x < 1e-8] = 0.0
    return x


def c_map(case, ctx):
    sa = base(case)
    if sa is None:
        return ctx.label("degenerate-base")
    o = boot(case, sa)
    k = sa.factors
    judged = 0
    moved = 0
    table, unmapped = np.zeros((k, k)), np.zeros(k)
    tables = {"H": [[] for _ in range(k)], "P": [[] for _ in range(k)], "C": [[] for _ in range(k)]}
    qs = []
    Y = [conc(sa.W, sa.H, j) for j in range(k)]
    for run, r in o.bs_results.items():
        m = r["model"]
        X = [conc(m.W, m.H, i) for i in range(k)]
        judged += not (cancels(m.W) or cancels(sa.W)) and check_mapping(r["mapping"], X, Y, case["threshold"], "bootstrap mapping")
        for i, e in r["mapping"].items():
            if e["mapped"]:
                table[i, e["match"]] += 1
            else:
                unmapped[i] += 1
            moved += e["match"] != i
        qs.append(float(m.Qrobust))
        H = np.asarray(m.H, np.float64)
        W = np.asarray(m.W, np.float64)
        for i in range(k):
            tables["H"][i].append(clean(H[i]))
            with np.errstate(all="ignore"):
                tables["P"][i].append(clean(H[i] / H.sum(axis=0)))
            tables["C"][i].append(clean(np.outer(W[:, i], H[i]).sum(axis=0)))
        # the statistics leave the models as they were trained
        back = SA(V=m.V, U=m.U, factors=k, method=m.method, seed=int(sa.seed if case["reuse"] else m.seed))
        back.initialize(H=np.array(sa.H) if case["keep_H"] else None)
        back.train(max_iter=sa.metadata["max_iterations"], converge_delta=sa.metadata["converge_delta"],
                   converge_n=sa.metadata["converge_n"])
        expect(np.array_equal(back.H, m.H, equal_nan=True) and np.array_equal(back.W, m.W, equal_nan=True),
               "compiling the results changed the model of a run", run=run)
    df = o.mapping_df
    expect(list(df.columns) == ["Boot Factors"] + [f"Base Factor {i + 1}" for i in range(k)] + ["Unmapped"]
           and list(df["Boot Factors"]) == [f"Boot Factor {i + 1}" for i in range(k)], "mapping table has wrong labels")
    got = df[[f"Base Factor {i + 1}" for i in range(k)]].to_numpy(float)
    un = df["Unmapped"].to_numpy(float)
    expect(np.all(got.sum(axis=1) + un == case["runs"]), "mapped and unmapped runs do not add up to the number of runs",
           table=got.tolist(), unmapped=un.tolist(), runs=case["runs"])
    expect(np.array_equal(got, table) and np.array_equal(un, unmapped), "mapping table does not count the mappings of the runs",
           got=got.tolist(), want=table.tolist())
    expect(np.array_equal(o.q_results["Q(robust)"].to_numpy(float), np.array(qs), equal_nan=True),
           "the loss table does not list the robust losses of the runs in order")
    for name, attr in (("H", o.factor_tables), ("P", o.bs_profiles), ("C", o.bs_factor_contributions)):
        expect(sorted(attr) == list(range(k)), "a statistics table has other factors")
        for i in range(k):
            want = np.array(tables[name][i])
            g = np.asarray(attr[i], float)
            expect(g.shape == want.shape, "a statistics table has the wrong shape", table=name)
            tol = 6e-5 + 2e-5 * np.abs(np.nan_to_num(want)) + (1e-4 * np.abs(want).max() if name == "C" and want.size and np.isfinite(want).all() else 0)
            ok = np.isnan(g) & np.isnan(want) | (np.abs(g - want) <= tol) | ~np.isfinite(want)
            expect(bool(np.all(ok)), "a statistics table does not hold the values of the runs", table=name, factor=i)
    ctx.label("moved" if moved else "stay", "unmapped" if unmapped.any() else "all-mapped", "judged" if judged else "flat")
    ctx.nontrivial(judged > 0 and (moved > 0 or unmapped.any()))


def s_direct():
    return st.fixed_dictionaries({"k": st.integers(1, 5), "n": st.integers(4, 9), "m": st.integers(3, 8), "seed": SEEDS,
                                  "noise": st.sampled_from([0.0, 0.05, 0.5, 3.0]), "threshold": st.sampled_from([0.0, 0.3, 0.6, 0.9]),
                                  "perm": st.integers(0, 10 ** 6), "flip": st.booleans()})


def c_direct(case, ctx):
    rng = np.random.default_rng(case["seed"])
    k = case["k"]
    H1 = rng.gamma(1, 1, (k, case["n"])) + 0.01
    perm = np.random.default_rng(case["perm"]).permutation(k)
    H2 = H1[perm] * (1 + case["noise"] * rng.random((k, case["n"])))
    if case["flip"]:
        H2[0] = H2[0].max() - H2[0]
    W1, W2 = rng.gamma(1, 1, (case["m"], k)) + 0.01, rng.gamma(1, 1, (case["m"], k)) + 0.01
    V = W1 @ H1
    sa = SA(V=V, U=0.1 * V + 0.1, factors=k, seed=1)
    sa.initialize(H=H1, W=W1)
    sa.train(max_iter=1)
    o = Bootstrap(sa=sa, feature_labels=[f"f{i}" for i in range(case["n"])], bootstrap_n=1, parallel=False)
    keep = [x.copy() for x in (H1, H2, W1, W2)]
    a = o.map_factors(H1=H1, H2=H2, threshold=case["threshold"])
    b = o.map_contributions(W1=W1, H1=H1, W2=W2, H2=H2, threshold=case["threshold"])
    expect(all(np.array_equal(x, y) for x, y in zip((H1, H2, W1, W2), keep)), "mapping modified its inputs")
    # a threshold that a correlation just reaches, or just does not
    i = case["perm"] % k
    for fn, m in ((lambda t: o.map_factors(H1=H1, H2=H2, threshold=t), a), (lambda t: o.map_contributions(W1=W1, H1=H1, W2=W2, H2=H2, threshold=t), b)):
        t = float(m[i]["r2"])
        if np.isfinite(t):
            expect(fn(t)[i]["mapped"] and not fn(float(np.nextafter(t, 2)))[i]["mapped"], "a correlation that reaches the threshold exactly", r2=t)
    j1 = check_mapping(a, list(H1), list(H2), case["threshold"], "map_factors")
    j2 = check_mapping(b, [conc(W1, H1, i) for i in range(k)], [conc(W2, H2, i) for i in range(k)], case["threshold"],
                       "map_contributions")
    ctx.label("judged" if j1 and j2 else "flat")
    ctx.nontrivial(j1 and j2 and k > 1 and list(perm) != list(range(k)))


PROP = Prop("C18", [
    Sub("map", s_boot, c_map, 700, 15000, "mapping and statistics recomputed from the models of the runs; non-trivial = some factor "
        "maps to another one or to none"),
    Sub("direct", s_direct, c_direct, 800, 20000, "factor sets that are noisy permutations of each other; non-trivial = not in order"),
], assumptions=["correlations within 1e-4 of the best or of the threshold are not judged; constant profiles have no correlation"])
