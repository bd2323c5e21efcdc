"""C09: batch training: independent reproducible models, in order, and the best one is the best one."""
import itertools
import time
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import kmeans_problem, problem, recipe, seldom, wide, seeds
from esat.model.batch_sa import BatchSA
from esat.model.sa import SA


def s_batch():
    s = {
        "p": st.one_of(recipe(big=True, min_m=3, min_n=3, max_m=10), recipe(min_m=3, min_n=3, max_m=10, neg=True)),
        "factors": wide(1, 3, 10, 12), "models": st.sampled_from([3, 4, 2, 5, 1, 3, 4, 2, 5, 1, 11]), "seed": seeds(),
        "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]), "iters": seldom(st.integers(1, 25), st.sampled_from([60, 120]), 6),
        "delta": st.sampled_from([1e-9, 1e-3, 0.1, 10.0]), "conv_n": st.sampled_from([2, 3, 5, 8, 10, 40]), "best_robust": st.sampled_from([True, False]),
        "user": st.sampled_from(["none", "none", "H2", "H3", "W2", "W3", "H3W3"]), "hold": st.booleans(),
        "delay": st.sampled_from([-1, -1, 1, 3]), "norm": st.booleans(), "cores": st.integers(1, 4),
        "outlier": st.booleans(), "init": st.just("column_mean")}
    # k-means starts where they are defined: more samples than features, few clusters
    km = {**s, "p": kmeans_problem(), "init": st.just("kmeans"), "factors": st.integers(1, 3), "user": st.just("none"), "outlier": st.just(False)}
    return seldom(st.fixed_dictionaries(s), st.fixed_dictionaries(km))


def build(case, parallel, models=None):
    c = case["p"]
    V, U, rng = problem(c)
    if case["outlier"]:
        V[0, 0] += 60 * U[0, 0]
    m, n = V.shape
    f = max(1, min(case["factors"], m, n - 1))
    k = case["models"]
    kw = {"init_method": case["init"]} if case["init"] != "column_mean" else {}
    H3, W3 = rng.gamma(1, 1, (k, f, n)) + 0.01, rng.gamma(1, 1, (k, m, f)) + 0.01
    if "H2" in case["user"]:
        kw["H"] = H3[0]
    elif "H3" in case["user"]:
        kw["H"] = H3
    if "W2" in case["user"]:
        kw["W"] = W3[0]
    elif "W3" in case["user"]:
        kw["W"] = W3
    keep = [V.copy(), U.copy()] + [np.copy(kw[x]) for x in sorted(kw)]
    b = BatchSA(V=V, U=U, factors=f, models=models or k, method=case["method"], seed=case["seed"],
                max_iter=case["iters"], converge_delta=case["delta"], converge_n=case["conv_n"],
                best_robust=case["best_robust"], parallel=parallel, cores=case["cores"], hold_h=case["hold"],
                delay_h=case["delay"], init_norm=case["norm"], verbose=False, **kw)
    ok = b.train()
    for x, y in zip([V, U] + [kw[x] for x in sorted(kw)], keep):
        expect(np.array_equal(x, y), "the caller's matrices were modified by batch training")
    return b, ok, V, U, f, kw


def same(a, b, what, i):
    for name in ("W", "H", "WH"):
        expect(np.array_equal(getattr(a, name), getattr(b, name), equal_nan=True), f"{what}: {name} differs", model=i)
    for name in ("Qtrue", "Qrobust"):
        x, y = float(getattr(a, name)), float(getattr(b, name))
        expect(x == y or (np.isnan(x) and np.isnan(y)), f"{what}: {name} differs", model=i, a=x, b=y)
    expect(a.converged == b.converged and a.converge_steps == b.converge_steps, f"{what}: convergence differs", model=i)
    expect(np.array_equal(np.asarray(a.q_list, float), np.asarray(b.q_list, float), equal_nan=True),
           f"{what}: loss history differs", model=i)


def c_batch(case, ctx):
    b, (ok, msg), V, U, f, kw = build(case, False)
    k = case["models"]
    p, (okp, msgp), *_ = build(case, True)
    expect(ok == okp, "parallel and sequential batch runs disagree about success", seq=(ok, msg), par=(okp, msgp))
    qs = [float(r.Qrobust if case["best_robust"] else r.Qtrue) for r in b.results]
    if not any(np.isfinite(q) for q in qs):
        expect(not ok and msg, "a batch without any valid model reports success")
        ctx.label("all-invalid")
        return
    expect(ok is True and msg == "", "training a valid batch failed", ok=ok, msg=msg)
    expect(len(b.results) == k and len(p.results) == k, "number of results is not the number of models",
           seq=len(b.results), par=len(p.results))
    best = min((q for q in qs if np.isfinite(q)))
    for name, x in (("sequential", b), ("parallel", p)):
        expect(0 <= x.best_model < k, f"{name}: best model is not an index of a model", best_model=x.best_model)
        q = qs[x.best_model]
        expect(q == best, f"{name}: the best model does not have the smallest selected loss", losses=qs,
               best_model=x.best_model, robust=case["best_robust"])
    for i in range(k):
        same(b.results[i], p.results[i], "parallel and sequential runs", i)
        expect(int(b.results[i].seed) == int(p.results[i].seed), "parallel and sequential seeds differ")
        expect(b.results[i].model_i == i + 1 and p.results[i].model_i == i + 1, "results are not in model order",
               at=i, seq=b.results[i].model_i, par=p.results[i].model_i)
        r = b.results[i]
        sa = SA(V=V, U=U, factors=f, method=case["method"], seed=int(r.seed))
        h, w = kw.get("H"), kw.get("W")
        sa.initialize(H=h[i] if h is not None and h.ndim == 3 else h, W=w[i] if w is not None and w.ndim == 3 else w,
                      init_norm=case["norm"], init_method=case["init"])
        sa.train(max_iter=case["iters"], converge_delta=case["delta"], converge_n=case["conv_n"], hold_h=case["hold"],
                 delay_h=case["delay"])
        same(r, sa, "a batch model and the same model trained alone", i)
    ctx.label(case["init"])
    if k > 1 and not kw:
        expect(not all(np.array_equal(b.results[0].H, r.H) for r in b.results[1:]) or case["iters"] > 20 or f == 1,
               "all models of the batch are the same")
    if "H3" not in case["user"] and "W3" not in case["user"]:
        s, _, *_ = build(case, False, models=k + 2)
        for i in range(k):
            same(b.results[i], s.results[i], "models of a smaller and of a larger batch", i)
    ctx.label(case["method"], case["user"], "robust" if case["best_robust"] else "true", f"models{k}")
    rq, tq = [float(r.Qrobust) for r in b.results], [float(r.Qtrue) for r in b.results]
    if int(np.argmin(rq)) != int(np.argmin(tq)):
        ctx.label("selections-differ")
    ctx.nontrivial(k > 1 and b.best_model != k - 1)


def s_fail():
    return st.fixed_dictionaries({"p": recipe(min_m=4, min_n=3, max_m=8), "fault": st.sampled_from(["nan", "shape", "H"]),
                                  "parallel": st.booleans(), "models": st.integers(1, 3)})


def c_fail(case, ctx):
    V, U, rng = problem(case["p"])
    kw = {}
    if case["fault"] == "nan":
        V[0, 0] = np.nan
    elif case["fault"] == "shape":
        U = U[:-1]
    else:
        kw["H"] = rng.gamma(1, 1, (2, V.shape[1] + 1))
    b = None
    try:
        b = BatchSA(V=V, U=U, factors=2, models=case["models"], max_iter=3, parallel=case["parallel"], cores=2,
                    verbose=False, **kw)
        ok, msg = b.train()
    except (ValueError, IndexError):
        ctx.label("raised")
        ctx.nontrivial()
        return
    expect(ok is False and isinstance(msg, str) and msg, "an invalid batch reports success", ok=ok, msg=msg, fault=case["fault"])
    expect(b.best_model is None, "an invalid batch has a best model")
    ctx.label("refused", case["fault"])
    ctx.nontrivial()


def s_limit():
    return st.fixed_dictionaries({"p": recipe(min_m=4, min_n=3, max_m=6, zeros=False), "models": st.integers(1, 4), "seed": seeds(), "limit": st.sampled_from([None, 1, 5, 60, 2000]),
                                  "late": st.lists(st.sampled_from(["none", "none", "below", "above", "day", "days"]), min_size=4, max_size=4)})


def c_limit(case, ctx):
    """The clock of the process advances while a model is trained, as if training it took that long."""
    V, U, _ = problem(case["p"])
    limit = (case["limit"] or 60) * 60
    spent = [{"none": 0, "below": limit - 40, "above": limit + 40, "day": 86400 * (1 + limit // 86400) + 30, "days": 5 * 86400 + 20}[x] for x in case["late"]]
    ahead, calls, real, train = [0.0], itertools.count(), {x: getattr(time, x) for x in ("time", "monotonic", "perf_counter")}, SA.train

    def slow(self, *a, **kw):
        out = train(self, *a, **kw)
        ahead[0] += spent[next(calls)]
        return out

    def new():
        return BatchSA(V=V, U=U, factors=2, models=case["models"], seed=case["seed"], max_iter=5, parallel=False, verbose=False)

    plain = new()
    expect(plain.train()[0] is True, "training a valid batch failed")
    b = new()
    with mock.patch.object(SA, "train", slow), mock.patch.multiple(time, **{x: (lambda f=f: f() + ahead[0]) for x, f in real.items()}):
        ok, msg = b.train(min_limit=case["limit"]) if case["limit"] is not None else b.train()
    trained = next(calls)
    over = [i for i, s in enumerate(spent[:case["models"]]) if s > limit] if case["limit"] is not None else []
    if not over:
        expect(ok is True and msg == "" and trained == case["models"] == len(b.results), "a batch in which no model exceeds the time limit was ended", ok=ok, msg=msg, limit=case["limit"], minutes=[s / 60 for s in spent])
        expect(b.best_model == plain.best_model, "the best model depends on the time training took")
    elif ok:    # only judged if the batch measures time by one of these clocks, by its own account of the run time
        expect(b.runtime < spent[over[0]], "the time limit was not enforced", limit=case["limit"], minutes=[s / 60 for s in spent], runtime=b.runtime)
        ctx.skipped = True
        return
    else:
        expect(isinstance(msg, str) and msg, "ended without an explanation")
        expect(trained == over[0] + 1, "the batch was not ended by the first model exceeding the limit", trained=trained, limit=case["limit"], minutes=[s / 60 for s in spent])
    for i, r in enumerate(b.results):
        same(r, plain.results[i], "a batch with and without a time limit", i)
    ctx.label("ended" if over else "unlimited" if case["limit"] is None else "within")
    ctx.nontrivial(bool(over))


def s_callback():
    return st.fixed_dictionaries({"p": recipe(min_m=4, min_n=3, max_m=8, zeros=False), "models": st.integers(1, 3), "seed": seeds(), "kind": st.sampled_from(["lambda", "method", "function", "text"]),
                                  "parallel": st.sampled_from([True, True, False, "true", "False"]), "method": st.sampled_from(["ls-nmf", "ws-nmf"])})


def c_callback(case, ctx):
    """A progress callback changes nothing about the models."""
    V, U, _ = problem(case["p"])
    seen = []
    cb = {"lambda": lambda *a: seen.append(a), "method": seen.append, "function": print, "text": "not callable"}[case["kind"]]
    kw = dict(V=V, U=U, factors=2, models=case["models"], seed=case["seed"], method=case["method"], max_iter=8, cores=2, verbose=False)
    a, b = BatchSA(parallel=False, **kw), BatchSA(parallel=case["parallel"], progress_callback=cb, **kw)
    ok = a.train()
    expect(b.train() == ok, "the batch with a progress callback does not end as the one without", without=ok, kind=case["kind"], parallel=case["parallel"])
    expect(len(a.results) == len(b.results) and a.best_model == b.best_model, "the batch with a progress callback has other results")
    for i, (x, y) in enumerate(zip(a.results, b.results)):
        same(x, y, "a batch with and without a progress callback", i)
    ctx.label(case["kind"], str(case["parallel"]))
    ctx.nontrivial(case["parallel"] in (True, "true") and case["kind"] in ("lambda", "method"))


PROP = Prop("C09", [
    Sub("batch", s_batch, c_batch, 700, 20000, "one batch trained sequentially, in parallel, model by model and as part of "
        "a larger batch; non-trivial = several models and the best is not the last"),
    Sub("fail", s_fail, c_fail, 80, 1500, "invalid data in a batch; every case is non-trivial"),
    Sub("limit", s_limit, c_limit, 120, 3000, "models which take long by the clock, with and without a time limit; non-trivial = a model exceeds the limit"),
    Sub("callback", s_callback, c_callback, 60, 1500, "a progress callback in parallel and sequential batches; non-trivial = one that cannot be sent to a process, in parallel"),
], assumptions=["process scheduling of the parallel run is whatever the operating system does"])
