"""C02: LS-NMF never makes the loss worse and keeps factors non-negative and finite."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import close, factors_for, fast_q, problem, q_noise, recipe, wide, seeds
from esat.model.ls_nmf import LSNMF
from esat.model.sa import SA


def ref_step(V, We, W, H, hold=False):
    """Weighted multiplicative step: profiles from the current contributions, then contributions from the new profiles.
    What divides by a number that is hardly a normal one is not defined (nan)."""
    def div(a, b):
        r = np.where(b != 0, a / np.where(b != 0, b, 1.0), 0.0)
        return np.where((b != 0) & (b < 1e-290), np.nan, r)
    Hn = H if hold else H * div(W.T @ (We * V), W.T @ (We * (W @ H)))
    Hd = np.where(np.isnan(Hn), 0.0, Hn)
    W = W * div((We * V) @ Hd.T, (We * (W @ Hd)) @ Hd.T)
    return W, Hn


def like(x, ref):
    d = ~np.isnan(ref)
    return close(x[d], ref[d], rtol=1e-7, atol=1e-12)


def s_step():
    return st.fixed_dictionaries({"p": recipe(big=True), "steps": st.integers(1, 12), "zp": st.sampled_from([0.0, 0.0, 0.25]),
                                  "hold": st.sampled_from([False, False, True])})


def c_step(case, ctx):
    c = case["p"]
    V, U, rng = problem(c)
    W, H = factors_for(c, rng, zero_p=case["zp"])
    We = 1.0 / U ** 2
    q0 = fast_q(V, U, W, H)
    qs = [q0]
    for i in range(case["steps"]):
        Wr, Hr = ref_step(V, We, W, H, case["hold"])
        W2, H2 = LSNMF.update(V=V, We=We, W=W.copy(), H=H.copy(), hold_h=case["hold"])
        expect(np.all(np.isfinite(W2)) and np.all(np.isfinite(H2)), "update produced a non-finite value", step=i)
        expect(W2.shape == W.shape and H2.shape == H.shape, "update changed the shape of a factor matrix")
        expect(W2.min() >= 0 and H2.min() >= 0, "update produced a negative value", step=i)
        expect(np.all(H2[H == 0] == 0) and np.all(W2[W == 0] == 0), "a zero entry became non-zero", step=i)
        expect(like(H2, Hr), "profiles differ from the published multiplicative rule", step=i)
        expect(like(W2, Wr), "contributions differ from the published multiplicative rule", step=i)
        q = fast_q(V, U, W2, H2)
        floor = 1e-12 * q_noise(V, U, W2, H2)
        expect(q <= qs[-1] * (1 + 1e-9) + floor, "the loss increased in an update", step=i, before=qs[-1], after=q)
        if case["hold"]:
            expect(np.array_equal(H2, H), "held profiles were changed", step=i)
        qs.append(q)
        W, H = W2, H2
    ctx.label(c["zero"], c["ukind"], "hold" if case["hold"] else "free")
    ctx.nontrivial(qs[-1] < q0 * 0.999)


def s_train():
    from ..gen import kmeans_problem

    def fam(p, init):
        return st.fixed_dictionaries({"p": p, "factors": wide(1, 4, 10, 12), "iters": st.integers(2, 40),
                                      "seed": seeds(), "init": st.just(init)})
    return st.one_of(fam(recipe(big=True), "column_mean"), fam(recipe(big=True), "column_mean"), fam(kmeans_problem(), "kmeans"))


def c_train(case, ctx):
    c = case["p"]
    V, U, rng = problem(c)
    f = min(case["factors"], c["m"], c["n"])
    sa = SA(V=V, U=U, factors=f, method="ls-nmf", seed=case["seed"])
    init = case["init"]
    sa.initialize(init_method=init)
    W0, H0 = sa.W.copy(), sa.H.copy()
    V32, U32 = V.astype(np.float32), U.astype(np.float32)
    q0 = fast_q(V32, U32, W0, H0)
    sa.train(max_iter=case["iters"], converge_delta=-1.0, converge_n=case["iters"] + 10)
    expect(sa.W is not None and np.all(np.isfinite(sa.W)) and np.all(np.isfinite(sa.H)),
           "training produced non-finite factors")
    expect(sa.W.min() >= 0 and sa.H.min() >= 0, "training produced negative values")
    q = np.asarray(sa.q_list, float)
    expect(len(q) == case["iters"], "one loss value per iteration expected", got=len(q), want=case["iters"])
    prev = q0
    for i, v in enumerate(q):
        floor = 2e-6 * (q_noise(V32, U32, sa.W, sa.H) if i else q_noise(V32, U32, W0, H0) + q[0])
        expect(v <= prev * (1 + 1e-4) + floor, "training increased the loss", iteration=i, before=float(prev), after=float(v))
        prev = v
    ctx.label(init, c["zero"])
    ctx.nontrivial(q[-1] < q0 * 0.99)


def s_fixed():
    return st.fixed_dictionaries({"p": recipe(big=True, zeros=False), "hold": st.booleans(), "which": st.sampled_from(["exact", "perm", "scale"]),
                                  "shuffle": st.integers(0, 10 ** 6), "c": st.sampled_from([0.5, 4.0])})


def c_fixed(case, ctx):
    c = case["p"]
    V, U, rng = problem(c)
    W, H = factors_for(c, rng)
    We = 1 / U ** 2
    if case["which"] == "exact":
        V = W @ H
        W2, H2 = LSNMF.update(V=V, We=We, W=W, H=H, hold_h=case["hold"])
        expect(close(W2, W, rtol=1e-8) and close(H2, H, rtol=1e-8), "an exact factorisation is not a fixed point")
    elif case["which"] == "perm":
        pr = np.random.default_rng(case["shuffle"])
        r, q, f = pr.permutation(c["m"]), pr.permutation(c["n"]), pr.permutation(c["k"])
        W2, H2 = LSNMF.update(V=V, We=We, W=W, H=H)
        W3, H3 = LSNMF.update(V=V[r][:, q], We=We[r][:, q], W=W[r][:, f], H=H[f][:, q])
        expect(close(W3, W2[r][:, f], rtol=1e-8) and close(H3, H2[f][:, q], rtol=1e-8),
               "update does not commute with reordering samples, features and factors")
    else:
        k = case["c"]
        W2, H2 = LSNMF.update(V=V, We=We, W=W, H=H)
        W3, H3 = LSNMF.update(V=V * k, We=We / k ** 2, W=W * k, H=H)
        expect(close(W3, W2 * k, rtol=1e-8) and close(H3, H2, rtol=1e-8), "update depends on the units of the data")
    ctx.label(case["which"])
    ctx.nontrivial(c["k"] > 1)


PROP = Prop("C02", [
    Sub("update", s_step, c_step, 8000, 200000, "random non-negative problem (zero rows/columns/cells included), 1-12 "
        "consecutive updates; non-trivial = the loss fell by more than 0.1%",
        regress=[{"steps": 11, "p": {"scale": 1.0, "m": 4, "zero": "some", "vkind": "integers", "n": 3, "ukind": "random", "k": 3, "seed": 2934},
                  "zp": 0.25, "hold": False}]),
    Sub("train", s_train, c_train, 2400, 60000, "full training run from a random initialisation; non-trivial = loss fell by more than 1%"),
    Sub("algebra", s_fixed, c_fixed, 4000, 100000, "fixed point / permutation / unit change; non-trivial = more than one factor"),
], assumptions=["the python implementation is exercised (the compiled extension cannot be built offline)"])
