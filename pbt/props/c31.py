"""C31: models of a perturbed uncertainty."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st
from scipy.stats import binom

from ..core import Prop, Sub, expect
from ..gen import SEEDS, many, problem, recipe, wide, seeds
from ..models import inline_pool, shown, trained_sa, usable
from .c28 import r2
from esat.model.sa import SA
from esat_eval.perturbation import Perturbation


def s_perturb():
    return st.fixed_dictionaries({"seed": SEEDS, "m": st.integers(1, 200), "n": st.integers(1, 6), "run": seeds(10 ** 5), "zero": st.booleans(),
                                  "p": st.one_of(st.sampled_from([1.0, 1, 0, 0.0, 0.5, 0.1, 0.9]), st.lists(st.sampled_from([1.0, 0.0, 0.5, 0.2]), min_size=1, max_size=6)),
                                  "sigma": st.one_of(st.sampled_from([0.33, 1, 0.01, 2.0, 0.0]), st.lists(st.sampled_from([0.33, 0.05, 1.0]), min_size=1, max_size=6))})


def column(x, n):
    if isinstance(x, list):
        return [float(v) for v in x] if len(x) == n else [float(x[0])] * n
    return [float(x)] * n


def c_perturb(case, ctx):
    c = case
    rng = np.random.default_rng(c["seed"])
    m, n = c["m"], c["n"]
    V, U = rng.gamma(1.0, 1.0, (m, n)), rng.uniform(0.1, 1.0, (m, n))
    if c["zero"]:
        U[rng.random((m, n)) < 0.1] = 0.0
    keep = U.copy()
    p = Perturbation(V=V, U=U, factors=1, perturb_percent=c["p"], sigma=c["sigma"], models=1)
    u, mult = p.perturb(c["run"])
    u2, mult2 = p.perturb(c["run"])
    other, mult3 = p.perturb(0 if c["run"] % 2 else p.random_seed)
    if c["run"] != (0 if c["run"] % 2 else p.random_seed) and any(q > 0 for q in column(c["p"], n)) and m >= 60 and min(column(c["sigma"], n)) > 0 \
            and (mult != 1.0).sum() >= 10:
        expect(not np.array_equal(mult, mult3), "another seed gives the same perturbation", seed=c["run"])
    expect(np.array_equal(U, keep), "the given uncertainty was modified")
    expect(u.shape == (m, n) and mult.shape == (m, n), "other shapes than the uncertainty")
    expect(np.array_equal(u, u2) and np.array_equal(mult, mult2), "the same seed gives another perturbation")
    expect((mult > 0).all() and (u > 0).all(), "a multiplier or a perturbed uncertainty is not positive")
    expect(np.allclose(u, np.where(U > 0, U * mult, 1e-12), rtol=1e-12, atol=0), "the perturbed uncertainty is not the uncertainty times the multiplier")
    ps, ss = column(c["p"], n), column(c["sigma"], n)
    for j in range(n):
        x = mult[:, j]
        if ss[j] > 0:
            count = int((x != 1.0).sum())
            a, b = binom.ppf(1e-9, m, ps[j]), binom.ppf(1 - 1e-9, m, ps[j])
            expect(a <= count <= b, "another share of the cells is perturbed", feature=j, perturbed=count, cells=m, share=ps[j])
            z = np.log(x[x != 1.0])
            if len(z) >= 60:
                # normal: standard error of the mean is s/sqrt(n), of the deviation about s/sqrt(2n)
                expect(abs(z.mean()) <= 6.5 * ss[j] / np.sqrt(len(z)), "the multipliers are not centred at 1", mean=z.mean(), sigma=ss[j])
                expect(abs(z.std() / ss[j] - 1) <= 6.5 / np.sqrt(2 * len(z)), "the multipliers have another spread", got=z.std(), sigma=ss[j])
        else:
            expect((x == 1.0).all(), "perturbed although sigma is zero")
    ctx.label("list" if isinstance(c["p"], list) or isinstance(c["sigma"], list) else "number")
    ctx.nontrivial(m >= 60 and any(0 < q < 1 for q in ps))


def s_run():
    return many(st.fixed_dictionaries({"p": recipe(min_m=5, max_m=9, min_n=3, max_n=5, zeros=False, u_kinds=["prop", "const", "random"]), "factors": st.integers(1, 3), "seed": seeds(), "models": wide(1, 4, 10, 12),
                                  "share": st.sampled_from([1.0, 0.5, 0]), "sigma": st.sampled_from([0.33, 1, 0.05]), "own": st.booleans(),
                                  "iters": st.sampled_from([1, 5, 30]), "delta": st.sampled_from([1e-3, 1.0, 1e-9]), "conv_n": st.sampled_from([2, 10, 25]),
                                  "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]), "compare": st.sampled_from(["raae", "corr", "emc", "EMC", "other", None]),
                                  "default": st.sampled_from(["raae", "corr", "emc"]), "turn": st.integers(0, 5)}), lambda c: {"models": min(c["models"], 3), "iters": 5})


def run(c, V, U):
    base = None
    if c["own"]:
        base = trained_sa(c["p"], factors=c["factors"], seed=c["seed"], iters=12, method=c["method"])
        k = base.factors
    else:
        k = max(1, min(c["factors"], c["p"]["m"], c["p"]["n"] - 1))
    pt = Perturbation(V=V, U=U, factors=k, base_model=base, method="ls-nmf" if c["own"] else c["method"], random_seed=c["seed"], perturb_percent=c["share"],
                      sigma=c["sigma"], models=c["models"], max_iterations=c["iters"], converge_n=c["conv_n"], converge_delta=c["delta"], compare_method=c["default"])
    with inline_pool(), contextlib.redirect_stdout(io.StringIO()):
        pt.run()
    return base, k, pt


def c_run(case, ctx):
    c = case
    V, U, _ = problem(c["p"])
    keep = V.copy(), U.copy()
    base, k, pt = run(c, V, U)
    expect(np.array_equal(V, keep[0]) and np.array_equal(U, keep[1]), "the given data were modified")
    if base is not None:
        expect(pt.base_model is base, "the given base model was replaced")
        plain = trained_sa(c["p"], factors=c["factors"], seed=c["seed"], iters=12, method=c["method"])
    else:
        plain = SA(V=V, U=U, factors=k, method=c["method"], seed=c["seed"])
        plain.initialize()
        plain.train(max_iter=c["iters"], converge_delta=c["delta"], converge_n=c["conv_n"])
    b = pt.base_model
    if not usable(plain):
        ctx.skipped = True
        return
    expect(np.array_equal(b.W, plain.W) and np.array_equal(b.H, plain.H), "the base model is not the one given or trained with the settings")
    expect(len(pt.perturbed_models) == c["models"] == len(pt.perturbed_multipliers), "not one model per perturbation")
    for i, (x, mult) in enumerate(zip(pt.perturbed_models, pt.perturbed_multipliers)):
        expect(np.allclose(np.asarray(x.U, float), U * mult, rtol=1e-5), "a model does not use its perturbed uncertainty", model=i)
        expect(np.allclose(np.asarray(x.V, float), V, rtol=1e-5), "a model uses other data", model=i)
        ref = SA(V=V, U=U * mult, factors=k, method=c["method"], seed=1)
        ref.initialize(H=b.H, W=b.W)
        ref.train(max_iter=c["iters"], converge_delta=c["delta"], converge_n=c["conv_n"])
        if not usable(ref):
            ctx.skipped = True
            return
        expect(x.method == c["method"] and x.factors == k and x.converge_steps == ref.converge_steps and np.allclose(x.W, ref.W, rtol=1e-6, atol=1e-12)
               and np.allclose(x.H, ref.H, rtol=1e-6, atol=1e-12), "a model was not trained from the base factors with the given settings", model=i, steps=(x.converge_steps, ref.converge_steps))
    if c["models"] > 1 and c["share"] > 0:
        mults = pt.perturbed_multipliers
        expect(any(not np.array_equal(mults[0], y) for y in mults[1:]), "all models have the same perturbation")
    _, _, again = run(c, V, U)
    expect(all(np.array_equal(p, q) for p, q in zip(pt.perturbed_multipliers, again.perturbed_multipliers)) and
           all(np.array_equal(p.W, q.W) and np.array_equal(p.H, q.H) for p, q in zip(pt.perturbed_models, again.perturbed_models)), "the same seed gives other models")
    for f in (pt.plot_norm_perturb_contributions, pt.plot_average_source_contributions, pt.plot_correlation_metrics, lambda **kw: pt.plot_perturbed_factor(0, **kw)):
        with shown() as figs:
            expect(f(return_figure=True) is None and not figs, "something was plotted before comparing")
    every = [b] + list(pt.perturbed_models)
    if any(np.ptp(x.W, axis=0).min() <= 1e-5 * np.abs(x.W).max() or np.ptp(x.H, axis=1).min() <= 1e-5 * np.abs(x.H).max() for x in every) \
            or min(np.abs(x.W.sum(axis=0)).min() for x in every) < 1e-6 or min(np.abs(x.W.sum(axis=1)).min() for x in every) < 1e-6 or min(np.abs(x.H.sum(axis=0)).min() for x in every) < 1e-6:
        ctx.label("degenerate")
        return
    pt.compare(compare_method=c["compare"])
    method = c["compare"].lower() if c["compare"] in ("raae", "corr", "emc", "EMC") else c["default"]
    expect(pt.compare_method == method, "another measure than the requested was used", got=pt.compare_method, want=method)
    judge(pt, b, k, method)
    if k >= 2 and c["turn"]:        # the same models with their factors in another order
        for i, x in enumerate(pt.perturbed_models):
            o = np.random.default_rng([c["turn"], i]).permutation(k)
            x.W, x.H = x.W[:, o], x.H[o]
        pt.compare(compare_method=method)
        judge(pt, b, k, method)
        ctx.label("reordered")
    ctx.label(method, f"k={k}")
    ctx.nontrivial(k >= 2 and c["models"] >= 2 and c["share"] > 0)


def judge(pt, b, k, method):
    models = pt.perturbed_models
    nb_h, nb_w = b.H / b.H.sum(axis=0), b.W / b.W.sum(axis=1)[:, None]
    n = b.H.shape[1]
    PH, PW = np.zeros((k, n, len(models))), np.zeros((k, b.W.shape[0], len(models)))
    metric = np.zeros((len(models), k))
    for i, x in enumerate(models):
        p = [int(v) for v in pt.perturb_mapping[i]]
        expect(sorted(p) == list(range(k)), "the mapping is not one to one", got=p)
        h, w = x.H / x.H.sum(axis=0), x.W / x.W.sum(axis=1)[:, None]
        for f in range(k):
            g = p[f]
            PH[f, :, i], PW[f, :, i] = h[g], w[:, g]
            if method == "raae":
                metric[i, f] = np.abs(x.W[:, g] - b.W[:, f]).sum() / b.W[:, f].sum()
            elif method == "corr":
                metric[i, f] = r2(x.W[:, g], b.W[:, f])
            else:
                metric[i, f] = r2(x.H[g], b.H[f])
        expect(np.allclose(pt.perturb_correlations[i], metric[i], atol=6e-5, rtol=1e-3), "the similarities are not those of the mapped factors", got=pt.perturb_correlations[i], want=metric[i])
    expect(np.allclose(pt.perturb_H, PH, rtol=1e-4, atol=1e-7) and np.allclose(pt.perturb_W, PW, rtol=1e-4, atol=1e-7), "the normalised perturbed factors are not those of the mapped factors")
    s = np.mean([np.percentile(x, [1, 25, 50, 75, 99]) for x in pt.perturbed_multipliers], axis=0)
    expect(np.allclose([pt.multiplier_stats[q] for q in ("first", "25th", "50th", "75th", "99th")], s, rtol=1e-6), "wrong percentiles of the multipliers", got=pt.multiplier_stats, want=s)
    df = pt.perturbed_H_df
    f = min(1, k - 1)
    for name, want in (("Base", nb_h[f]), ("Mean Perturb", PH[f].mean(axis=1)), ("STD Perturb", PH[f].std(axis=1)), ("Min Perturb", PH[f].min(axis=1)), ("Max Perturb", PH[f].max(axis=1))):
        expect(np.allclose(df[name].to_numpy(float), want, atol=1e-6), f"the profile table has wrong values for {name}", got=df[name].to_numpy(), want=want)
    mean = PH[f].mean(axis=1)
    d = np.where(mean < 1e-6, 0.0, 100 * (mean - nb_h[f]) / np.where(mean + nb_h[f] == 0, 1, (mean + nb_h[f]) / 2))
    sure = (np.abs(mean - 1e-6) > 1e-9)
    expect(np.allclose(df["% diff"].to_numpy(float)[sure], d[sure], atol=2e-2), "the profile table has wrong differences", got=df["% diff"].to_numpy(), want=d)
    names = [f"Factor {i + 1}" for i in range(k)]
    feats = [f"Feature {j + 1}" for j in range(n)]
    expect(list(df.index) == feats, "the profile table names other features", got=list(df.index))

    def fig(fn):
        with shown() as figs:
            r = fn(return_figure=True)
            expect(not figs and r is not None, "the figure was not returned")
            fn()
            expect(len(figs) == 1 and len(figs[0].data) == len(r.data), "the figure was not shown")
        return r.data
    t = fig(pt.plot_norm_perturb_contributions)
    expect(len(t) == 2 and np.allclose(np.asarray(t[0].y, float), 100 * PW.mean(axis=(1, 2)), rtol=1e-4, atol=1e-6) and np.allclose(np.asarray(t[1].y, float), 100 * nb_w.mean(axis=0), rtol=1e-4, atol=1e-6),
           "the contribution plot shows other values")
    expect(list(t[0].x) == names and list(t[1].x) == names, "the contribution plot names other factors", got=(list(t[0].x), list(t[1].x)))
    t = fig(pt.plot_average_source_contributions)
    expect(len(t) == k + 1 and all(np.allclose(np.asarray(t[i].y, float), PW[i].mean(axis=0), rtol=1e-4, atol=1e-6) and t[i].name == names[i] for i in range(k))
           and list(t[k].x) == names and np.allclose(np.asarray(t[k].y, float), nb_w.mean(axis=0), rtol=1e-4, atol=1e-6), "the average contribution plot shows other values")
    t = fig(pt.plot_correlation_metrics)
    expect(len(t) == k and all(np.allclose(np.asarray(t[i].y, float), metric[:, i], atol=6e-5, rtol=1e-3) for i in range(k)), "the similarity plot shows other values",
           got=[list(x.y) for x in t], want=metric.T)
    expect([x.name for x in t] == names, "the similarity plot names other factors", got=[x.name for x in t])
    for i in range(k):
        t = fig(lambda **kw: pt.plot_perturbed_factor(i, **kw))
        expect(len(t) == n + 1 and all(np.allclose(np.asarray(t[j].y, float), PH[i, j], rtol=1e-4, atol=1e-6) for j in range(n)) and np.allclose(np.asarray(t[n].y, float), nb_h[i], rtol=1e-4, atol=1e-6),
               "the profile plot shows other values", factor=i)
        expect([b.name for b in t[:n]] == feats and list(t[n].x) == feats, "the profile plot names other features", got=[b.name for b in t[:n]], base=list(t[n].x))
    with shown() as figs:
        expect(pt.plot_perturbed_factor(k, return_figure=True) is None and not figs, "a factor which does not exist was plotted")


PROP = Prop("C31", [
    Sub("uncertainty", s_perturb, c_perturb, 600, 12000, "perturbed uncertainties; non-trivial = 60 or more samples and a share between 0 and 1"),
    Sub("models", s_run, c_run, 240, 4800, "perturbed models, their comparison and plots; non-trivial = two or more factors and models, with a perturbation"),
], assumptions=["random shares and spreads are judged by limits with an error probability below 1e-8", "degenerate factors (constant, vanishing) are not compared",
                "the process pool runs in process"])
