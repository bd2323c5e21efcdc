"""C28: comparing the factors of a batch with known factors."""
import itertools
import os
import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import SEEDS, fast_q, seldom, wide
from ..models import inline_pool, labels, log_lines, scratch, shown
from esat.model.batch_sa import BatchSA
from esat.model.sa import SA
from esat_eval.factor_comparison import FactorCompare
from esat_eval.simulator import Simulator


def r2(a, b):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    a, b = a - a.mean(), b - b.mean()
    return float((a @ b) ** 2 / ((a @ a) * (b @ b)))


KIND = st.sampled_from(["near", "shuffled", "random", "none", "near-h", "near-w"])


def sized(s):
    """Ten or more factors on one side (every mapping is enumerated, so the other side stays small)."""
    def grow(c):
        if c["large"] is None:
            return c
        other = "ks" if c["large"] == "kb" else "kb"
        return {**c, c["large"]: 9 + c[c["large"]], other: min(2, c[other]), "m": c["m"] + 8}
    return s.map(grow)


def s_case():
    return {"seed": SEEDS, "m": st.integers(3, 8), "n": wide(3, 6, 11, 13), "kb": st.integers(1, 4), "ks": st.integers(1, 4), "large": st.sampled_from([None] * 8 + ["kb", "ks"]),
            "models": seldom(st.lists(KIND, min_size=1, max_size=4), st.lists(KIND, min_size=11, max_size=12), 9),
            "noise": st.sampled_from([0.05, 0.3])}


def make(c):
    rng = np.random.default_rng(c["seed"])
    kb, ks, m, n = c["kb"], c["ks"], c["m"], c["n"]
    WB, HB = rng.gamma(1.0, 1.0, (m, kb)) + 0.01, rng.gamma(1.0, 1.0, (kb, n)) + 0.01
    V = WB @ HB * (1 + 0.05 * rng.standard_normal((m, n)))
    U = rng.uniform(0.1, 1.0, (m, n))
    kinds = list(c["models"])
    if all(x == "none" for x in kinds):
        kinds[-1] = "random"
    results = []
    for kind in kinds:
        if kind == "none":
            results.append(None)
            continue
        W, H = rng.gamma(1.0, 1.0, (m, ks)) + 0.01, rng.gamma(1.0, 1.0, (ks, n)) + 0.01
        k = min(kb, ks)
        order = rng.permutation(kb)[:k]
        at = np.arange(k) if kind == "near" else rng.permutation(ks)[:k]
        if kind in ("near", "shuffled", "near-w"):
            W[:, at] = WB[:, order] * (1 + c["noise"] * rng.uniform(-1, 1, (m, k)))
        if kind in ("near", "shuffled", "near-h"):
            H[at] = HB[order] * (1 + c["noise"] * rng.uniform(-1, 1, (k, n)))
        sa = SA(V=V, U=U, factors=ks, seed=1)
        sa.initialize(H=H, W=W)
        sa.train(max_iter=2)
        sa.W, sa.H, sa.WH = W, H, W @ H
        sa.Qtrue = fast_q(V, U, W, H)
        results.append(sa)
    batch = BatchSA(V=V, U=U, factors=ks, models=len(results), verbose=False)
    batch.results = results
    batch.best_model = min((i for i, r in enumerate(results) if r is not None), key=lambda i: results[i].Qtrue)
    return V, U, WB, HB, batch


def tables(WB, HB, fn, en):
    return pd.DataFrame(HB.T, index=fn, columns=en), pd.DataFrame(WB, columns=en)


def candidates(WB, HB, sa):
    """Every mapping as a list of (base factor, model factor), with the R2 of profiles, contributions and both."""
    kb, ks = WB.shape[1], sa.W.shape[1]
    one = {}
    for b in range(kb):
        for s in range(ks):
            one[b, s] = (r2(HB[b], sa.H[s]), r2(WB[:, b], sa.W[:, s]), r2(np.outer(WB[:, b], HB[b]), np.outer(sa.W[:, s], sa.H[s])))
    out = []
    if kb >= ks:
        for p in itertools.permutations(range(kb), ks):
            out.append((p, [one[b, s] for s, b in enumerate(p)]))
    else:
        for p in itertools.permutations(range(ks), kb):
            out.append((p, [one[b, s] for b, s in enumerate(p)]))
    return out


def score(values, method):
    h, w, wh = np.mean(np.array(values), axis=0)
    return {"all": (h + w + wh) / 3, "H": h, "W": w, "WH": wh}[method]


TOL = 1e-9


def judge(fc, WB, HB, batch, method, names):
    kb, ks = WB.shape[1], batch.factors
    base_k = kb >= ks
    expect(fc.base_k is base_k or fc.base_k == base_k, "the direction of the mapping is wrong")
    valid = {i: r for i, r in enumerate(batch.results) if r is not None}
    expect(set(fc.model_results) == set(valid), "not every model with a result was compared, or others were", got=sorted(fc.model_results), want=sorted(valid))
    best = {}
    for i, sa in valid.items():
        cs = candidates(WB, HB, sa)
        want = max(score(v, method) for _, v in cs)
        res = fc.model_results[i]
        fm = list(res["factor_map"])
        pos = names if base_k else [f"Factor {j + 1}" for j in range(ks)]
        expect(len(fm) == min(kb, ks) and len(set(fm)) == len(fm) and all(f in pos for f in fm), "the mapping is not one to one", got=fm)
        key = tuple(pos.index(f) for f in fm)
        values = dict(cs)[key]
        got = score(values, method)
        expect(abs(got - want) <= TOL, "another mapping has a higher average R2", got=got, want=want, method=method, model=i)
        expect(abs(res["best_avg_r"] - got) <= TOL, "the reported average R2 is not that of the mapping", got=res["best_avg_r"], want=got)
        for j, (a, b) in enumerate((("best_factor_r", "best_factor_r_avg"), ("best_contribution_r", "best_contribution_r_avg"), ("best_wh_r", "best_wh_r_avg"))):
            col = [v[j] for v in values]
            expect(np.allclose(res[a], col, atol=TOL) and abs(res[b] - np.mean(col)) <= TOL, f"{a} does not match the mapping", got=res[a], want=col)
        best[i] = want
    top = max(best.values())
    expect(fc.best_model in best and abs(best[fc.best_model] - top) <= TOL, "the best model does not have the highest average R2", got=fc.best_model, want=best)
    r = fc.model_results[fc.best_model]
    expect(list(fc.factor_map) == list(r["factor_map"]) and fc.best_avg_r == r["best_avg_r"] and fc.best_factor_r == r["best_factor_r"]
           and fc.best_contribution_r == r["best_contribution_r"] and fc.best_wh_r == r["best_wh_r"] and fc.best_factor_r_avg == r["best_factor_r_avg"]
           and fc.best_contribution_r_avg == r["best_contribution_r_avg"] and fc.best_wh_r_avg == r["best_wh_r_avg"], "the overall result is not that of the best model")
    return best


def s_compare():
    return sized(st.fixed_dictionaries(dict(s_case(), method=st.sampled_from(["all", "all", "H", "W", "WH", "other"]), names=st.sampled_from(["Factor", "Source"]), show=st.integers(0, 3))))


def c_compare(case, ctx):
    c = case
    V, U, WB, HB, batch = make(c)
    fn = labels(c["n"])
    en = [f"{c['names']} {i + 1}" for i in range(c["kb"])]
    P, C = tables(WB, HB, fn, en)
    iv, uv = pd.DataFrame(V, columns=fn), pd.DataFrame(U, columns=fn)
    before = [None if r is None else (r.W.copy(), r.H.copy()) for r in batch.results]
    with inline_pool():
        fc = FactorCompare(input_df=iv, uncertainty_df=uv, base_profile_df=P, base_contribution_df=C, batch_sa=batch, method=c["method"])
        method = c["method"] if c["method"] != "other" else "all"
        with log_lines() as lines:
            fc.compare(verbose=True)
        best = judge(fc, WB, HB, batch, method, en)
    expect(all(b is None or (np.array_equal(b[0], r.W) and np.array_equal(b[1], r.H)) for b, r in zip(before, batch.results)), "the models were modified")
    text = "\n".join(lines)
    q = fast_q(V, U, WB, HB)
    m = re.search(r"Base Q\(true\): (\S+), SA Model (\d+) Q\(true\): (\S+)", text)
    if m:  # the report names the losses of both
        expect(abs(float(m.group(1)) - q) <= 1e-3 * q + 1e-6, "the reported loss of the base factors is wrong", got=m.group(1), want=q)
        expect(int(m.group(2)) == fc.best_model + 1 and abs(float(m.group(3)) - batch.results[fc.best_model].Qtrue) <= 1e-3 * batch.results[fc.best_model].Qtrue,
               "the report is not about the best model", got=m.groups())
    pick = sorted(best)[c["show"] % len(best)]
    with log_lines() as lines:
        fc.print_results(model=pick)
    text = "\n".join(lines)
    r = fc.model_results[pick]
    expect(f"{pick + 1}" in text and str(r["factor_map"]) in text and str(r["best_avg_r"]) in text, "the report of a chosen model does not hold its mapping", got=text[:300], want=r)
    for i, sa in enumerate(batch.results):
        if sa is None:
            continue
        d = fc.sa_model_dfs[i]
        expect(np.allclose(d["WH"].to_numpy(), sa.W @ sa.H) and list(d["WH"].columns) == fn and np.array_equal(d["W"].to_numpy(), sa.W) and np.array_equal(d["H"].to_numpy(), sa.H),
               "the tables of the compared models are not their factors and estimates")
    expect(np.allclose(fc.base_V_estimate, WB @ HB), "the base estimate is not the product of its factors")
    if c["show"] == 0:      # the batch as its saved file
        with scratch() as d, inline_pool():
            expect(batch.save(batch_name="b", output_directory=d, pickle_batch=True), "the harness expects the batch to be saved")
            file = FactorCompare(input_df=iv, uncertainty_df=uv, base_profile_df=P, base_contribution_df=C, batch_sa=None, sa_output_file=os.path.join(d, "b.pkl"), method=c["method"])
            file.compare(verbose=False)
            judge(file, WB, HB, batch, method, en)
            expect(file.best_model == fc.best_model and file.model_results == fc.model_results, "the comparison with the saved batch differs")
    ctx.label("more base" if c["kb"] > c["ks"] else "more model" if c["kb"] < c["ks"] else "same", c["method"], "gap" if None in batch.results else "complete")
    ctx.nontrivial(min(c["kb"], c["ks"]) >= 2 and len(best) >= 2)


def s_pmf():
    return sized(st.fixed_dictionaries(dict(s_case(), blocks=st.sampled_from([1, 3]), method=st.just("all"))))


def c_pmf(case, ctx):
    """The text files of PMF5 hold the same as the tables."""
    c = case
    V, U, WB, HB, batch = make(c)
    fn = labels(c["n"])
    en = [f"Factor {i + 1}" for i in range(c["kb"])]
    iv, uv = pd.DataFrame(V, columns=fn), pd.DataFrame(U, columns=fn)
    with scratch() as d:
        pf, cf = os.path.join(d, "profiles.txt"), os.path.join(d, "contributions.txt")
        with open(pf, "w") as f:
            f.write("Factor Profiles\n\n")
            for b in range(c["blocks"]):
                f.write(f"Block {b}\n" + "\t".join(["", ""] + en) + "\n")
                for j, name in enumerate(fn):
                    f.write("\t".join(["1", name] + [repr(float(x) * (1, 7, 3)[b]) for x in HB[:, j]]) + "\n")
                f.write("\n")
        with open(cf, "w") as f:
            f.write("Factor Contributions\n\n\n" + "\t".join(["", ""] + en) + "\n")
            for i in range(c["m"]):
                f.write("\t".join(["1", f"2020-01-{i + 1:02d}"] + [repr(float(x)) for x in WB[i]]) + "\n")
            f.write("\n")
        with inline_pool():
            fc = FactorCompare.load_pmf_output(factors=c["kb"], input_df=iv, uncertainty_df=uv, pmf_profile_file=pf, pmf_contribution_file=cf, batch_sa=batch)
            expect(fc is not None, "existing files were not loaded")
            fc.compare(verbose=False)
            judge(fc, WB, HB, batch, "all", en)
        expect(np.allclose(fc.base_V_estimate, WB @ HB), "the loaded solution is not the one in the files")
        for a, b in ((pf + "x", cf), (pf, cf + "x")):
            expect(FactorCompare.load_pmf_output(factors=c["kb"], input_df=iv, uncertainty_df=uv, pmf_profile_file=a, pmf_contribution_file=b, batch_sa=batch) is None,
                   "a missing file was accepted")
    ctx.nontrivial(c["kb"] >= 2)


def s_sim():
    return sized(st.fixed_dictionaries(dict(s_case(), pick=st.integers(0, 11))))


def c_sim(case, ctx):
    c = case
    sim = Simulator(seed=c["seed"] % 2 ** 31, factors_n=c["kb"], features_n=c["n"], samples_n=c["m"], outliers=False, verbose=False)
    data, unc = sim.get_data()
    WB, HB = np.asarray(sim.syn_contributions, float), np.asarray(sim.syn_profiles, float)
    _, _, _, _, batch = make(c)
    if min(np.ptp(HB, axis=1).min(), np.ptp(WB, axis=0).min()) < 1e-6:
        ctx.skipped = True  # constant factors have no correlation
        return
    with inline_pool(), log_lines() as lines:
        sim.compare(batch)
        fc = sim.factor_compare
        names = list(sim.syn_profiles_df.columns)
        best = judge(fc, WB, HB, batch, "all", names)
        pick = sorted(best)[c["pick"] % len(best)]
        lines.clear()
        sim.compare(batch, selected_model=pick)
        r = fc.model_results[pick]
        expect(str(r["factor_map"]) in "\n".join(lines), "the report of the selected model does not hold its mapping")
        for i in (None, pick):
            idx = fc.best_model if i is None else i
            sa, r = batch.results[idx], fc.model_results[idx]
            nb, ns = 100 * HB / HB.sum(axis=0), 100 * sa.H / sa.H.sum(axis=0)
            wb, ws = 100 * WB / WB.sum(axis=0), 100 * sa.W / sa.W.sum(axis=0)
            k = min(c["kb"], c["ks"])
            with shown() as figs:
                sim.plot_comparison(model_i=i)
                a = list(figs)
                figs.clear()
                sim.plot_profile_comparison(model_i=i)
                b = list(figs)
            expect(len(a) == k and len(b) == k, "not one figure per mapped factor", got=(len(a), len(b)))
            for j in range(k):
                o = int(r["factor_map"][j].split(" ")[1]) - 1
                bi, si = (o, j) if fc.base_k else (j, o)
                ys = [np.asarray(t.y, float) for t in a[j].data]
                pair = f"Modelled Factor {si + 1} : Synthetic {r['factor_map'][j]}" if fc.base_k else f"Synthetic Factor {bi + 1} : Modelled {r['factor_map'][j]}"
                said = [x.text for x in a[j].layout.annotations]
                expect(said[:2] == [f"{pair} - R2: {round(r['best_factor_r'][j], 4)}", f"{pair} - R2: {round(r['best_contribution_r'][j], 4)}"], "the comparison plot names another pair or R2", got=said[:2], want=pair)
                said = [x.text for x in b[j].layout.annotations]
                expect(len(said) > 0 and said[0].startswith(pair + " - Residual: "), "the profile plot names another pair", got=said, want=pair)
                expect(abs(float(said[0].split(": ")[-1]) - np.abs(nb[bi] - ns[si]).sum()) <= 0.006 + 1e-5 * c["n"], "the profile plot names another residual", got=said[0])
                for f in (a[j], b[j]):
                    expect(f.layout.title.text.endswith(f"Model: {idx + 1}"), "the plot names another model", got=f.layout.title.text)
                names_f = [t.name for t in a[j].data if t.name] + [t.name for t in b[j].data if t.name and t.orientation != "h"]
                want_f = [f"Synthetic Profile f{bi + 1}", f"Modelled Profile f{si + 1}", f"Synthetic Contribution f{bi + 1}", f"Model Contribution f{si + 1}", f"Syn Factor {bi + 1}", f"Modelled Factor {si + 1}"]
                expect(names_f == want_f, "the series are named after other factors", got=names_f, want=want_f)
                for t in [t for t in [*a[j].data, *b[j].data] if t.orientation != "h"]:
                    along = list(sim.syn_columns) if len(t.y) == c["n"] and t.type == "bar" else list(data.index)
                    expect(list(t.x) == along, "a series is not along the features or samples", name=t.name, got=list(t.x)[:3])
                want = [nb[bi], ns[si], nb[bi] - ns[si], wb[:, bi], ws[:, si], wb[:, bi] - ws[:, si]]
                expect(len(ys) == 6 and all(np.allclose(x, y, atol=1e-6) for x, y in zip(ys, want)), "the comparison plot shows other values", model=i, factor=j)
                bars = [t for t in b[j].data if t.orientation != "h"]
                expect(len(bars) == 3 and all(np.allclose(np.asarray(t.y, float), y, atol=1e-6) for t, y in zip(bars, want)), "the profile plot shows other values", model=i, factor=j)
                h = [t for t in b[j].data if t.orientation == "h"]
                expect(len(h) == 1 and abs(float(h[0].x[0]) - r["best_factor_r"][j]) <= 1e-9, "the profile plot shows another R2")
    ctx.nontrivial(min(c["kb"], c["ks"]) >= 2)


PROP = Prop("C28", [
    Sub("compare", s_compare, c_compare, 500, 10000, "every mapping enumerated; non-trivial = two or more factors on both sides and two or more models"),
    Sub("pmf-files", s_pmf, c_pmf, 200, 4000, "comparison with the text files of PMF5; non-trivial = two or more base factors"),
    Sub("simulator", s_sim, c_sim, 200, 4000, "Simulator.compare and its plots; non-trivial = two or more factors on both sides"),
], assumptions=["factors are not constant (a constant factor has no correlation)", "the process pool of the comparison runs in process"])
