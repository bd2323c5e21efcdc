"""C03: weighted semi-NMF: contributions are the exact weighted least-squares fit; profiles stay non-negative."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import close, factors_for, problem, recipe, seeds
from esat.model.ws_nmf import WSNMF
from esat.model.sa import SA


def fit_rows(V, We, H):
    """Row-wise weighted least squares by QR on the square-root-weighted system."""
    out = np.zeros((V.shape[0], H.shape[0]))
    cond = 0.0
    for i in range(V.shape[0]):
        r = np.sqrt(We[i])
        A = (H * r).T
        sv = np.linalg.svd(A, compute_uv=False)
        cond = max(cond, sv[0] / sv[-1] if sv[-1] > 0 else np.inf)
        out[i] = np.linalg.lstsq(A, V[i] * r, rcond=None)[0]
    return out, cond


def ref_h(V, We, W, H):
    out = np.zeros_like(H)
    Wp, Wn = np.maximum(W, 0), np.maximum(-W, 0)
    for j in range(V.shape[1]):
        b = We[:, j] * V[:, j]
        bp, bn = np.maximum(b, 0), np.maximum(-b, 0)
        for f in range(H.shape[0]):
            up = bp @ Wp[:, f] + bn @ Wn[:, f]
            dn = bp @ Wn[:, f] + bn @ Wp[:, f]
            for g in range(H.shape[0]):
                up += H[g, j] * np.sum(Wn[:, g] * We[:, j] * Wn[:, f])
                dn += H[g, j] * np.sum(Wp[:, g] * We[:, j] * Wp[:, f])
            out[f, j] = H[f, j] * np.sqrt((up + 1e-12) / (dn + 1e-12))
    return out


def s_step():
    return st.fixed_dictionaries({"p": recipe(big=True, neg=True, min_m=2, min_n=3, max_m=8, max_n=8, max_k=3,
                                              u_kinds=["prop", "const", "random"]),
                                  "steps": st.integers(1, 5), "hold": st.sampled_from([False, False, False, True])})


def c_step(case, ctx):
    c = dict(case["p"])
    c["k"] = min(c["k"], c["n"] - 1)
    V, U, rng = problem(c)
    _, H = factors_for(c, rng)
    We = 1 / U ** 2
    W = rng.standard_normal((c["m"], c["k"]))
    neg = bool((V < 0).any())
    for i in range(case["steps"]):
        want, cond = fit_rows(V, We, H)
        if cond > 1e5:
            ctx.label("ill-conditioned")
            return
        W2, H2 = WSNMF.update(V=V, We=We, W=W.copy(), H=H.copy(), hold_h=case["hold"])
        expect(np.all(np.isfinite(W2)) and np.all(np.isfinite(H2)), "update produced a non-finite value", step=i)
        expect(W2.shape == (c["m"], c["k"]) and H2.shape == H.shape, "update changed the shape of a factor matrix")
        tol = 1e-9 * max(1.0, cond) ** 2
        scale = float(np.max(np.abs(want))) + 1e-12
        expect(float(np.max(np.abs(W2 - want))) <= tol * scale + 1e-9 * scale,
               "contributions are not the weighted least-squares fit to the profiles", step=i, cond=cond,
               got=W2.tolist(), want=want.tolist())
        expect(H2.min() >= 0, "update produced a negative profile value", step=i)
        if case["hold"]:
            expect(np.array_equal(H2, H), "held profiles were changed", step=i)
        else:
            expect(close(H2, ref_h(V, We, W2, H), rtol=1e-6, atol=1e-9 * float(H.max() + 1e-12)),
                   "profiles differ from the multiplicative attract/repel rule", step=i)
        ctx.label("negW" if (W2 < 0).any() else "posW", "negV" if neg else "posV", "hold" if case["hold"] else "free")
        ctx.nontrivial(c["k"] > 1 and bool((W2 < 0).any()))
        W, H = W2, H2


def s_train():
    return st.fixed_dictionaries({"p": recipe(big=True, neg=True, min_m=3, min_n=3, max_m=8, max_n=7, max_k=3, zeros=False,
                                              u_kinds=["prop", "const", "random"]),
                                  "seed": seeds(), "iters": st.integers(1, 8),
                                  "method": st.sampled_from(["ws-nmf", "ws-nmf", "ls-nmf"]), "user": st.booleans()})


def c_train(case, ctx):
    """Through the model object: a run of t iterations ends with contributions fitted to the profiles after t-1."""
    c = dict(case["p"])
    c["k"] = min(c["k"], c["n"] - 1)
    V, U, rng = problem(c)
    neg = bool((V < 0).any())
    method = case["method"] if neg else "ws-nmf"      # data with negatives always uses the semi-NMF algorithm

    def run(n):
        sa = SA(V=V, U=U, factors=c["k"], method=method, seed=case["seed"])
        H0 = np.random.default_rng(c["seed"]).gamma(1.0, 1.0, (c["k"], c["n"]))
        if case["user"]:
            sa.initialize(H=H0)
        else:
            sa.initialize()
        h0 = sa.H
        r = sa.train(max_iter=n, converge_delta=-1e30, converge_n=n + 5)
        expect(r is None and sa.Qtrue is not None, "a valid model was not trained", returned=r, negative=neg)
        return sa, h0
    sa, h0 = run(case["iters"])
    if not (np.all(np.isfinite(sa.W)) and np.all(np.isfinite(sa.H)) and np.isfinite(sa.Qtrue)):
        # the fit is undefined once the profiles are no longer independent in single precision
        w32 = 1 / U.astype(np.float32).astype(float) ** 2
        for h in [h0] + [run(t)[0].H for t in range(1, case["iters"])]:
            h = np.asarray(h, float)
            if not np.all(np.isfinite(h)):
                break
            if fit_rows(V, w32, h)[1] > 1e4:
                ctx.label("profiles became dependent")
                return
    expect(np.all(np.isfinite(sa.W)) and np.all(np.isfinite(sa.H)) and np.isfinite(sa.Qtrue),
           "training produced non-finite factors", negative=neg)
    expect(sa.H.min() >= 0, "training produced negative profile values")
    prev = h0 if case["iters"] == 1 else run(case["iters"] - 1)[0].H
    # the same weights the model uses (float32 copies of the data)
    V32, U32 = V.astype(np.float32).astype(float), U.astype(np.float32).astype(float)
    want, cond = fit_rows(V32, 1 / U32 ** 2, np.asarray(prev, float))
    ctx.label("negV" if neg else "posV", method, "cond-ok" if cond < 30 else "cond-high")
    if cond < 30:
        scale = float(np.max(np.abs(want))) + 1e-12
        expect(float(np.max(np.abs(sa.W - want))) <= 5e-7 * cond ** 2 * 20 * scale,
               "trained contributions are not the weighted least-squares fit", cond=cond,
               got=np.asarray(sa.W).tolist(), want=want.tolist())
        # no other contributions do better
        r = (V32 - np.asarray(sa.W, float) @ np.asarray(prev, float)) / U32
        best = (V32 - want @ np.asarray(prev, float)) / U32
        expect(np.sum(r ** 2) <= np.sum(best ** 2) * (1 + 1e-3) + 1e-5 * np.sum((V32 / U32) ** 2), "a better fit exists")
        ctx.nontrivial(c["k"] > 1)


def s_alg():
    return st.fixed_dictionaries({"p": recipe(big=True, zeros=False, min_m=3, min_n=3, max_m=8, max_n=7, max_k=3,
                                              u_kinds=["prop", "const", "random"]),
                                  "which": st.sampled_from(["exact", "perm", "scale", "prior_w"]),
                                  "shuffle": st.integers(0, 10 ** 6), "c": st.sampled_from([0.5, 4.0]), "neg": st.booleans()})


def c_alg(case, ctx):
    c = dict(case["p"])
    c["k"] = min(c["k"], c["n"] - 1)
    V, U, rng = problem(c)
    W, H = factors_for(c, rng)
    We = 1 / U ** 2
    if case["which"] == "exact":
        V = W @ H
        cond = fit_rows(V, We, H)[1]
        if cond > 1e4:
            return
        W2, H2 = WSNMF.update(V=V, We=We, W=None, H=H)
        expect(close(W2, W, rtol=1e-9 * cond ** 2, atol=1e-10 * cond ** 2 * float(W.max())),
               "exact contributions are not recovered", cond=cond)
        expect(close(H2, H, rtol=1e-8 * cond ** 2, atol=1e-9 * cond ** 2), "an exact non-negative fit is not a fixed point")
    else:
        if case["neg"]:
            V = V - float(np.median(V))
        cond = fit_rows(V, We, H)[1]
        if cond > 1e4:
            return
        W2, H2 = WSNMF.update(V=V, We=We, W=None, H=H)
        at = 1e-12 * cond ** 2 * (float(np.abs(W2).max()) + 1e-9)
        if case["which"] == "perm":
            pr = np.random.default_rng(case["shuffle"])
            r, q, f = pr.permutation(c["m"]), pr.permutation(c["n"]), pr.permutation(c["k"])
            W3, H3 = WSNMF.update(V=V[r][:, q], We=We[r][:, q], W=None, H=H[f][:, q])
            expect(np.max(np.abs(W3 - W2[r][:, f])) <= at * 100, "contributions depend on the order of the data")
            expect(close(H3, H2[f][:, q], rtol=1e-5, atol=1e-7), "profiles depend on the order of the data")
        elif case["which"] == "prior_w":
            W3, H3 = WSNMF.update(V=V, We=We, W=rng.standard_normal(W2.shape), H=H)
            expect(np.array_equal(W3, W2) and np.array_equal(H3, H2), "the result depends on the previous contributions")
        else:
            k = case["c"]
            W3, H3 = WSNMF.update(V=V * k, We=We / k ** 2, W=None, H=H)
            expect(np.max(np.abs(W3 - W2 * k)) <= at * 100 * k, "contributions depend on the units of the data")
            expect(close(H3, H2, rtol=1e-4, atol=1e-6), "profiles depend on the units of the data")
    ctx.label(case["which"])
    ctx.nontrivial(c["k"] > 1)


PROP = Prop("C03", [
    Sub("update", s_step, c_step, 3000, 80000, "random problem (negatives included), consecutive updates; non-trivial = "
        "more than one factor and some negative contribution"),
    Sub("train", s_train, c_train, 1600, 40000, "training through the model object; non-trivial = well-conditioned, more than one factor"),
    Sub("algebra", s_alg, c_alg, 2000, 40000, "fixed point / permutation / units / independence of prior contributions; "
        "non-trivial = more than one factor"),
], assumptions=["fits are compared only where the weighted profiles are well conditioned",
                "the python implementation is exercised (the compiled extension cannot be built offline)"])
