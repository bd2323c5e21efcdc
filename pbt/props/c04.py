"""C04: what a trained model reports is what it did: losses, estimate, loss history, convergence."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import close, fast_q, fast_q_robust, kmeans_problem, problem, q_noise, recipe, wide, seeds
from esat.model.sa import SA


def base():
    return st.one_of(recipe(big=True, min_m=3, min_n=2, neg=False), recipe(big=True, min_m=3, min_n=2, neg=True))


def make(case, init=None):
    c = case["p"]
    V, U, rng = problem(c)
    f = max(1, min(case["factors"], c["m"], c["n"] - 1))
    sa = SA(V=V, U=U, factors=f, method=case["method"], seed=case["seed"])
    sa.initialize()
    return sa, V, U


def s_run():
    return st.fixed_dictionaries({
        "p": base(), "factors": wide(1, 4, 10, 12), "seed": seeds(),
        "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]), "max_iter": st.integers(1, 40),
        "delta": st.sampled_from([1e-6, 1e-3, 0.1, 1.0, 10.0, 1000.0]), "conv_n": st.integers(1, 12),
        "alpha": st.sampled_from([4.0, 4.0, 1.0, 2.0, 6.0]), "model_i": st.integers(0, 5),
        "retrain": st.sampled_from([None, "same", "other"]), "again": st.fixed_dictionaries({
            "max_iter": st.integers(0, 20), "converge_n": st.integers(1, 20), "converge_delta": st.sampled_from([1e-6, 0.1, 10.0, 1e6])})})


def check_report(sa, V, U, args, alpha, ctx, expected_model_i):
    W, H = np.asarray(sa.W, float), np.asarray(sa.H, float)
    if not (np.all(np.isfinite(W)) and np.all(np.isfinite(H))):
        # a diverged run must not be dressed up as a valid one
        expect(not np.isfinite(sa.Qtrue), "finite loss reported for non-finite factors")
        ctx.label("nonfinite")
        return
    V32, U32 = V.astype(np.float32).astype(float), U.astype(np.float32).astype(float)
    q, qr = fast_q(V32, U32, W, H), fast_q_robust(V32, U32, W, H, alpha)
    if q > 1e37:
        # beyond single precision: the loss (or a square on the way to it) cannot be represented
        expect(not np.isfinite(sa.Qtrue) or sa.Qtrue > 1e36, "a small loss reported for a diverged model", got=float(sa.Qtrue), want=q)
        ctx.label("nonfinite")
        return
    floor = 4e-6 * q_noise(V32, U32, W, H) + 1e-9
    expect(close(sa.WH, W @ H, rtol=1e-4, atol=1e-6 * float(np.max(np.abs(W) @ np.abs(H)) + 1e-12)),
           "the reported estimate is not the product of the reported factors")
    expect(close(sa.Qtrue, q, rtol=1e-3, atol=floor), "reported Q(true) does not belong to the reported factors",
           got=float(sa.Qtrue), want=q)
    expect(close(sa.Qrobust, qr, rtol=1e-3, atol=floor), "reported Q(robust) does not belong to the reported factors",
           got=float(sa.Qrobust), want=qr, alpha=alpha)
    ql = np.asarray(sa.q_list, float)
    n, delta, mx = args["converge_n"], args["converge_delta"], args["max_iter"]
    expect(min(1, mx) <= len(ql) <= mx, "number of recorded losses is not between 1 and the iteration limit", got=len(ql), limit=mx)
    expect(not len(ql) or close(ql[-1], q, rtol=1e-3, atol=floor), "the last recorded loss is not the loss of the final factors",
           got=ql[-1:].tolist(), want=q)
    # window rule, on the recorded float32 losses: change between the first and last of the latest n losses
    lq = [np.float32(x) for x in sa.q_list]

    def closed(t):          # t = number of iterations done
        return t > n and (lq[t - n] - lq[t - 1]) < delta

    def near(t):
        return t > n and abs(float(lq[t - n]) - float(lq[t - 1]) - delta) <= 1e-5 * (abs(float(lq[t - 1])) + delta)
    T = len(lq)
    if sa.converged:
        expect(closed(T) or near(T), "reported as converged although the loss still changed by more than the limit over "
               "the window", iterations=T, window=n, first=float(lq[max(0, T - n)]), last=float(lq[-1]), delta=delta)
        expect(sa.converge_steps in (T - 1, T), "reported convergence steps do not match the iterations run",
               steps=sa.converge_steps, iterations=T)
        ctx.label("converged")
    else:
        expect(T == mx, "training stopped early without convergence", iterations=T, limit=mx)
        expect(not closed(T) or near(T), "the loss changed by less than the limit but convergence is not reported",
               iterations=T)
        expect(sa.converge_steps in (T - 1, T), "reported steps do not match the iterations run",
               steps=sa.converge_steps, iterations=T)
        ctx.label("not-converged")
    for t in range(1, T):
        expect(not closed(t) or near(t), "training continued past the first iteration meeting the criterion", at=t, ran=T)
    md = sa.metadata
    expect(int(md["max_iterations"]) == mx and float(md["converge_delta"]) == float(delta)
           and int(md["converge_n"]) == n and int(md["model_i"]) == expected_model_i,
           "recorded run settings differ from the ones used", metadata={k: str(v) for k, v in md.items()})
    expect(sa.model_i == expected_model_i, "recorded model index differs")
    ctx.nontrivial(T > n)


def c_run(case, ctx):
    sa, V, U = make(case)
    runs = 2 if case["retrain"] else 1
    for k in range(runs):
        args = dict(max_iter=case["max_iter"], converge_delta=case["delta"] * (1e-9 if k else 1.0),
                    converge_n=case["conv_n"] + 3 * k)
        if k and case["retrain"] == "other":
            args = case["again"]
        before = np.array(sa.W), np.array(sa.H)
        r = sa.train(model_i=case["model_i"], robust_alpha=case["alpha"], **args)
        expect(r is None, "training a valid model reported a failure", returned=r)
        check_report(sa, V, U, args, case["alpha"], ctx, case["model_i"])
        if not args["max_iter"]:
            expect(np.array_equal(sa.W, before[0], equal_nan=True) and np.array_equal(sa.H, before[1], equal_nan=True), "a run of no iterations changed the factors")
            expect(not sa.converged, "a run of no iterations is reported as converged")
            ctx.label("no-iterations")
    md = sa.metadata
    expect(md["samples"] == V.shape[0] and md["features"] == V.shape[1] and md["factors"] == sa.factors
           and md["method"] == case["method"] and md["seed"] == case["seed"], "recorded model description differs")
    ctx.label(case["method"], "retrain" if case["retrain"] else "single")


def s_prefix():
    return st.fixed_dictionaries({
        "p": base(), "factors": wide(1, 4, 10, 12), "seed": seeds(),
        "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]), "a": st.integers(1, 15), "b": st.integers(1, 15)})


def c_prefix(case, ctx):
    """Training a+b iterations equals training a, then b; and a shorter run is a prefix of a longer one."""
    a, b = case["a"], case["b"]
    off = dict(converge_delta=-1e30, converge_n=1000)
    one, V, U = make(case)
    one.train(max_iter=a + b, **off)
    two, _, _ = make(case)
    two.train(max_iter=a, **off)
    first = [float(x) for x in two.q_list]
    if not all(np.isfinite(first)) or not np.all(np.isfinite(np.asarray(one.q_list, float))):
        ctx.label("nonfinite")
        return
    expect([float(x) for x in one.q_list[:a]] == first, "a shorter run is not the beginning of a longer one")
    two.train(max_iter=b, **off)
    expect(len(one.q_list) == a + b, "iteration limit not used up although convergence was impossible", got=len(one.q_list))
    expect([float(x) for x in one.q_list[a:]] == [float(x) for x in two.q_list],
           "resuming training differs from one longer run")
    expect(np.array_equal(one.W, two.W) and np.array_equal(one.H, two.H), "resumed factors differ from one longer run")
    ctx.label(case["method"])
    ctx.nontrivial(a > 1 and b > 1)


PROP = Prop("C04", [
    Sub("report", s_run, c_run, 4000, 100000, "training run with random limits (optionally trained twice); non-trivial = "
        "more iterations than the convergence window"),
    Sub("resume", s_prefix, c_prefix, 1200, 30000, "split run vs one run; non-trivial = both parts longer than one iteration"),
], assumptions=["the python implementation is exercised (the compiled extension cannot be built offline)",
                "decisions within 1e-5 relative of the convergence limit are not judged"])
