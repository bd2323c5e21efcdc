"""C01: loss values agree with their definitions."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import (close, factors_for, problem, recipe, ref_q, ref_q_robust, ref_scaled)
from esat import metrics

ALPHAS = st.sampled_from([4.0, 4.0, 4.0, 0.5, 1.0, 2.0, 3.0, 8.0])


def s_loss():
    return st.fixed_dictionaries({"p": recipe(big=True, neg=True, min_m=1, min_n=1), "alpha": ALPHAS, "neg_w": st.booleans(),
                                  "f32": st.booleans()})


def c_loss(case, ctx):
    c = case["p"]
    V, U, rng = problem(c)
    W, H = factors_for(c, rng, neg_w=case["neg_w"], zero_p=0.1)
    dt = np.float32 if case["f32"] else np.float64
    V, U, W, H = (x.astype(dt) for x in (V, U, W, H))
    before = [x.copy() for x in (V, U, W, H)]
    s = np.abs(ref_scaled(V, U, W, H))
    alpha = case["alpha"]
    tol = 2e-4 if case["f32"] else 1e-9
    noise = tol * float(np.sum(((np.abs(V) + np.abs(W) @ np.abs(H)) / U).astype(float) ** 2)) * (0.1 if case["f32"] else 1e-3)
    q = metrics.q_loss(V=V, U=U, W=W, H=H)
    expect(close(q, ref_q(V, U, W, H), rtol=tol, atol=noise + 1e-12), "Q(true) differs from its definition",
           got=float(q), want=ref_q(V, U, W, H))
    q0 = metrics.q_loss(V=V, U=U, W=W, H=H, uncertainty=False)
    ones = np.ones_like(U)
    noise1 = tol * float(np.sum((np.abs(V) + np.abs(W) @ np.abs(H)).astype(float) ** 2)) * (0.1 if case["f32"] else 1e-3)
    expect(close(q0, ref_q(V, ones, W, H), rtol=tol, atol=noise1 + 1e-12), "unweighted Q differs from its definition",
           got=float(q0), want=ref_q(V, ones, W, H))
    resid = V.astype(np.float64) - W.astype(np.float64) @ H.astype(np.float64)
    qc = metrics.calculate_Q(resid, U.astype(np.float64))
    expect(close(qc, ref_q(V, U, W, H), rtol=1e-8, atol=noise + 1e-12), "Q from residuals differs", got=float(qc))
    qr, u2 = metrics.qr_loss(V=V, U=U, W=W, H=H) if alpha == 4.0 else metrics.qr_loss(V=V, U=U, W=W, H=H, alpha=alpha)
    want = ref_q_robust(V, U, W, H, alpha)
    expect(close(qr, want, rtol=tol, atol=noise + 1e-9), "Q(robust) differs from its definition", got=float(qr),
           want=want, alpha=alpha)
    # robust never exceeds true when nothing is amplified (alpha >= 1 and s > alpha => alpha*s <= s*s)
    expect(float(qr) <= float(q) * (1 + tol) + noise + 1e-9, "Q(robust) exceeds Q(true)", qr=float(qr), q=float(q))
    wu = np.where(s > alpha, np.sqrt(s / alpha) * U.astype(float), U.astype(float))
    away = np.abs(s - alpha) > 1e-3 * (1 + alpha)
    expect(np.asarray(u2).shape == U.shape, "robust uncertainty has another shape")
    ok = np.isclose(np.asarray(u2, float), wu, rtol=max(tol, 1e-3 if case["f32"] else 0), atol=0)
    expect(bool(np.all(ok[away])), "robust uncertainty differs from sqrt(s/alpha)*u on outliers / u elsewhere",
           got=np.asarray(u2).tolist(), want=wu.tolist())
    for name, x, b in zip("VUWH", (V, U, W, H), before):
        expect(np.array_equal(x, b), f"{name} was modified by a loss function")
    n_out = int((s > alpha).sum())
    ctx.label("outliers" if n_out else "no-outlier", "f32" if case["f32"] else "f64",
              "mixed" if 0 < n_out < s.size else "uniform")
    ctx.nontrivial(0 < n_out < s.size)


def s_factor():
    return st.fixed_dictionaries({"p": recipe(big=True, neg=False, min_m=1, min_n=1), "zp": st.sampled_from([0.0, 0.0, 0.2]), "neg_w": st.sampled_from([False, False, True])})


def c_factor(case, ctx):
    c = case["p"]
    V, U, rng = problem(c)
    W, H = factors_for(c, rng, zero_p=case["zp"], neg_w=case["neg_w"])
    wh = W @ H
    if case["neg_w"]:       # contributions of both signs, but positive estimates which are no difference of large numbers
        keep = (wh > 0.05 * (np.abs(W) @ H)).all(axis=1)
        V, U, W, wh = V[keep], U[keep], W[keep], wh[keep]
        if not len(V):
            ctx.skipped = True
            return
    s2 = ((V - np.where(wh <= 0, 1e-12, wh)) / U) ** 2
    got = metrics.q_factor(V=V, U=U, W=W, H=H)
    expect(len(got) == c["k"], "one loss value per factor expected", got=len(got))
    safe = np.where(wh <= 0, 1e-12, wh)
    for f in range(c["k"]):
        share = np.outer(W[:, f], H[f]) / safe
        want = float(np.sum(s2 * share))
        expect(close(got[f], want, rtol=1e-8, atol=1.01e-4), "factor loss is not its share of the loss",
               factor=f, got=float(got[f]), want=want)
    if np.all(wh > 0):
        q = ref_q(V, U, W, H)
        expect(close(sum(float(x) for x in got), q, rtol=1e-8, atol=1e-4 * (c["k"] + 1)),
               "factor losses do not add up to Q(true)", got=[float(x) for x in got], q=q)
        ctx.label("sum-checked")
    ctx.label("negative" if (W < 0).any() else "")
    ctx.nontrivial(c["k"] > 1 and bool(np.any(wh > 0)))


def s_meta():
    return st.fixed_dictionaries({"p": recipe(big=True, neg=True), "alpha": ALPHAS, "c": st.sampled_from([0.25, 2.0, 8.0]),
                                  "shuffle": st.integers(0, 10 ** 6)})


def c_meta(case, ctx):
    """Q is invariant under permutations and under a common change of units of data and uncertainty."""
    c = case["p"]
    V, U, rng = problem(c)
    W, H = factors_for(c, rng)
    pr = np.random.default_rng(case["shuffle"])
    r, q, f = pr.permutation(c["m"]), pr.permutation(c["n"]), pr.permutation(c["k"])
    base = (metrics.q_loss(V, U, W, H), metrics.qr_loss(V, U, W, H, case["alpha"])[0])
    perm = (V[r][:, q], U[r][:, q], W[r][:, f], H[f][:, q])
    other = (metrics.q_loss(*perm), metrics.qr_loss(*perm, case["alpha"])[0])
    expect(close(base, other, rtol=1e-9, atol=1e-12), "loss depends on the order of samples/features/factors",
           base=base, permuted=other)
    k = case["c"]
    scaled = (V * k, U * k, W * k, H)
    other = (metrics.q_loss(*scaled), metrics.qr_loss(*scaled, case["alpha"])[0])
    expect(close(base, other, rtol=1e-9, atol=1e-12), "loss depends on the units of the data", base=base, scaled=other)
    ctx.nontrivial(c["m"] > 1 and c["n"] > 1)


PROP = Prop("C01", [
    Sub("loss", s_loss, c_loss, 12000, 300000, "random V,U,W,H (float32/64, negatives, zeros) and robust cut-off; "
        "non-trivial = some but not all scaled residuals exceed the cut-off"),
    Sub("factor_loss", s_factor, c_factor, 6000, 100000, "random non-negative V,U,W,H; non-trivial = more than one factor"),
    Sub("metamorphic", s_meta, c_meta, 4000, 100000, "permuted / rescaled problem; non-trivial = at least 2x2"),
], assumptions=["float64 reference sums with explicit per-cell loops; float32 tolerance 2e-4 relative plus rounding noise"])
