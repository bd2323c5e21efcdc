"""C05: a model is a pure function of data values, settings and seed."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import kmeans_problem, problem, recipe, seeds, wide
from esat.model.sa import SA


def s_same():
    def fam(p, init):
        return st.fixed_dictionaries({
            "p": p, "factors": wide(1, 4, 10, 12), "seed": seeds(), "init": st.just(init),
            "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]), "iters": st.integers(1, 12),
            "layout": st.sampled_from(["copy", "fortran", "strided", "f32", "readonly", "reversed"]),
            "noise_seed": st.integers(0, 10 ** 6), "user": st.sampled_from(["none", "none", "H", "W", "HW", "partial"]),
            "tiny": st.sampled_from([0.0, 0.0, 0.1]), "later": st.sampled_from(["never", "never", "built", "initialized"])})
    return st.one_of(fam(recipe(big=True, min_m=3, min_n=2, neg=True), "column_mean"), fam(recipe(big=True, min_m=3, min_n=2), "column_mean"),
                     fam(kmeans_problem(), "kmeans"))


def relayout(x, how):
    if how == "fortran":
        return np.asfortranarray(x)
    if how == "strided":
        big = np.full((x.shape[0] * 2, x.shape[1] * 3), np.nan)
        big[::2, ::3] = x
        return big[::2, ::3]
    if how == "f32":
        return x.astype(np.float32)
    if how == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if how == "reversed":
        return np.ascontiguousarray(x[::-1, ::-1])[::-1, ::-1]
    return x.copy()


def c_same(case, ctx):
    c = case["p"]
    V, U, rng = problem(c)
    V = V.astype(np.float32).astype(float)     # values exactly representable in every layout
    U = U.astype(np.float32).astype(float)
    U[rng.random(U.shape) < case["tiny"]] = rng.choice([0.0, 1e-20])      # raised to a tiny value by the model, not in the caller's array
    U = U.astype(np.float32).astype(float)
    f = max(1, min(case["factors"], c["m"], c["n"] - 1))
    W0 = rng.gamma(1, 1, (c["m"], f))
    H0 = rng.gamma(1, 1, (f, c["n"]))
    H0[rng.random(H0.shape) < 0.2] = 0.0
    user = case["user"] if case["init"] == "column_mean" else "none"

    def run(v, u, relay=None, later="never"):
        kw = {}
        if user in ("H", "HW"):
            kw["H"] = H0.copy() if relay is None else relayout(H0, relay)
        if user == "partial" and f > 1:
            kw["H"] = H0[:f - 1].copy() if relay is None else relayout(H0[:f - 1], relay)
        if user in ("W", "HW"):
            kw["W"] = W0.copy() if relay is None else relayout(W0, relay)
        keep = {k: x.copy() for k, x in kw.items()}
        vk, uk = np.array(v), np.array(u)
        sa = SA(V=v, U=u, factors=f, method=case["method"], seed=case["seed"])
        same = np.array_equal(np.array(v), vk) and np.array_equal(np.array(u), uk)
        expect(same, "the caller's data was modified on construction")
        if later == "built":                # what the caller does with its data afterwards is of no concern to the model
            v[:], u[:] = 7.0, 3.0
        sa.initialize(init_method=case["init"], **kw)
        if later == "initialized":
            v[:], u[:] = 7.0, 3.0
        if later != "never":
            vk, uk = np.array(v), np.array(u)
        # rounding may decide on convergence, so other layouts (which can round otherwise) are compared without
        r = sa.train(max_iter=case["iters"], converge_delta=1e-6, converge_n=8 if case["layout"] in ("copy", "f32", "readonly") else 50)
        expect(r is None, "valid model not trained", returned=r)
        expect(np.array_equal(np.array(v), vk) and np.array_equal(np.array(u), uk), "the caller's data was modified")
        for k in kw:
            expect(np.array_equal(kw[k], keep[k]), f"the caller's initial {k} was modified", user=user)
        return sa
    a = run(V.copy(), U.copy())
    # unrelated global state and other models in between must not matter
    np.random.seed(case["noise_seed"])
    np.random.rand(7)
    other = SA(V=V + 1.0, U=U, factors=1, seed=case["noise_seed"])
    other.initialize()
    other.train(max_iter=2, converge_delta=0.1, converge_n=5)
    how = case["layout"]
    user_relay = how if how not in ("f32", "readonly") else None
    b = run(relayout(V, how), relayout(U, how), user_relay, case["later"] if how != "readonly" else "never")
    for name in ("W", "H", "WH"):
        x, y = np.asarray(getattr(a, name), float), np.asarray(getattr(b, name), float)
        same = np.array_equal(x, y, equal_nan=True)
        if not same and how in ("fortran", "strided", "reversed"):
            # BLAS may sum in another order for another layout: same up to float32 rounding
            sc = np.nanmax(np.abs(x)) + 1e-12
            same = bool(np.nanmax(np.abs(x - y)) <= (2e-3 if case["method"] == "ls-nmf" and not (V < 0).any() else 5e-2) * sc) \
                or case["method"] == "ws-nmf" or bool((V < 0).any())
            ctx.label("layout-rounding")
        expect(same, f"two runs with the same data, settings and seed gave a different {name}", layout=how)
    if how in ("copy", "f32", "readonly"):
        expect(a.Qtrue == b.Qtrue or (np.isnan(a.Qtrue) and np.isnan(b.Qtrue)), "loss differs between identical runs")
        expect([float(x) for x in a.q_list] == [float(x) for x in b.q_list] or np.isnan(a.Qtrue), "loss history differs")
        expect(a.converged == b.converged and a.converge_steps == b.converge_steps, "convergence differs")
    ctx.label(how, user, case["init"], case["method"])
    ctx.nontrivial(case["iters"] > 1 and how != "copy")


def s_seed():
    return st.fixed_dictionaries({"p": recipe(big=True, min_m=4, min_n=3, zeros=False), "s1": seeds(),
                                  "s2": seeds(), "init": st.just("column_mean")})


def c_seed(case, ctx):
    """Different seeds start from different factors (the seed is really used)."""
    if case["s1"] == case["s2"]:
        return
    c = case["p"]
    V, U, rng = problem(c)
    ms = []
    for s in (case["s1"], case["s2"]):
        sa = SA(V=V, U=U, factors=2, seed=s)
        sa.initialize()
        ms.append(sa)
    expect(not np.array_equal(ms[0].H, ms[1].H) and not np.array_equal(ms[0].W, ms[1].W),
           "two different seeds gave identical initial factors")
    ctx.nontrivial()


PROP = Prop("C05", [
    Sub("same", s_same, c_same, 3000, 80000, "same values in another memory layout / precision, with unrelated work in "
        "between; non-trivial = several iterations and a different layout"),
    Sub("seed", s_seed, c_seed, 600, 8000, "two seeds; non-trivial = seeds differ"),
], assumptions=["layout changes may alter BLAS summation order: bitwise equality is required for equal layouts, "
                "rounding-level equality otherwise"])
