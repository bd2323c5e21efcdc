"""C06: initialisation: shapes, positivity, and the user's own profiles and contributions are honoured."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import close, kmeans_problem, problem, recipe, seeds
from esat.model.sa import SA


def s_init():
    def fam(p, init):
        return st.fixed_dictionaries({
            "p": p, "factors": st.integers(1, 5), "seed": seeds(), "init": st.just(init),
            "method": st.sampled_from(["ls-nmf", "ws-nmf"]), "norm": st.booleans(),
            "user": st.sampled_from(["none", "H", "W", "HW", "partial"]),
            "rows": st.integers(1, 4), "hzero": st.booleans(), "mag": st.sampled_from([1.0, 1e-3, 1e3]),
            "ints": st.booleans()})
    return st.one_of(fam(recipe(min_m=2, min_n=2, neg=True), "column_mean"), fam(recipe(min_m=2, min_n=2), "column_mean"),
                     fam(kmeans_problem(), "kmeans"))


def c_init(case, ctx):
    c = case["p"]
    V, U, rng = problem(c)
    m, n = V.shape
    f = case["factors"]
    neg = bool((V < 0).any())
    user = case["user"] if case["init"] == "column_mean" else "none"
    H0 = rng.gamma(1, 1, (f, n)) * case["mag"]
    if case["ints"]:
        H0 = np.ceil(H0).astype(int)
    if case["hzero"]:
        H0[rng.random(H0.shape) < 0.3] = 0
    W0 = rng.gamma(1, 1, (m, f)) * case["mag"]
    if case["hzero"]:
        W0[rng.random(W0.shape) < 0.3] = 0
        if case["method"] == "ws-nmf":
            W0[rng.random(W0.shape) < 0.2] *= -1
    kw = {}
    if user in ("H", "HW"):
        kw["H"] = H0.copy()
    if user in ("W", "HW"):
        kw["W"] = W0.copy()
    rows = min(case["rows"], f - 1)
    if user == "partial":
        if rows < 1:
            return
        kw["H"] = H0[:rows].copy()
    sa = SA(V=V, U=U, factors=f, method=case["method"], seed=case["seed"])
    sa.initialize(init_method=case["init"], init_norm=case["norm"], **kw)
    expect(sa.W.shape == (m, f) and sa.H.shape == (f, n), "initial factors have the wrong shape",
           W=sa.W.shape, H=sa.H.shape)
    expect(np.all(np.isfinite(sa.W)) and np.all(np.isfinite(sa.H)), "initial factors are not finite", negative=neg)
    expect(np.asarray(sa.H).min() > 0, "an initial profile value is not positive", smallest=float(np.asarray(sa.H).min()))
    if case["method"] == "ls-nmf" and user not in ("W", "HW"):
        expect(np.asarray(sa.W).min() > 0, "an initial contribution is not positive for ls-nmf")
    for k, x in kw.items():
        want = {"H": H0[:rows] if user == "partial" else H0, "W": W0}[k]
        expect(np.array_equal(x, want), f"the caller's {k} was modified by initialisation", user=user)
    if user in ("H", "HW"):
        want = np.where(H0 <= 0, 1e-12, H0)
        expect(close(sa.H, want, rtol=1e-6), "provided profiles were not used", got=np.asarray(sa.H).tolist(), want=want.tolist())
    if user in ("W", "HW"):
        expect(close(sa.W, W0, rtol=1e-6, atol=0), "provided contributions were not used", got=np.asarray(sa.W).tolist(), want=W0.tolist())
    if user == "partial":
        H = np.asarray(sa.H, float)
        expect(close(H.sum(axis=0), np.ones(n), rtol=1e-5), "profiles are not normalised to the feature totals after "
               "inserting known profiles")
        # the remaining profiles are those that are sampled without known profiles
        plain = SA(V=V, U=U, factors=f, method=case["method"], seed=case["seed"])
        plain.initialize(init_method=case["init"], init_norm=case["norm"])
        full = np.asarray(plain.H, float).copy()
        full[:rows] = H0[:rows]
        expect(close(H, full / full.sum(axis=0), rtol=1e-4, atol=1e-9), "known profiles are not inserted into the randomly sampled ones", got=H.tolist(), want=(full / full.sum(axis=0)).tolist())
        # the relative composition of the provided profiles, feature by feature, is kept
        want = np.where(H0[:rows] <= 0, 0, H0[:rows]).astype(float)
        for j in range(n):
            got = H[:rows, j]
            pos = want[:, j] > 0
            if pos.any():
                r = got[pos] / want[pos, j]
                expect(close(r, np.full(r.shape, r[0]), rtol=1e-4) and r[0] > 1e-13,
                       "provided profiles are not kept (up to one positive scale per feature)", feature=j,
                       got=got.tolist(), provided=want[:, j].tolist())
            expect(np.all(got[~pos] <= 1e-9), "an absent (zero) entry of a provided profile became present")
    if case["init"] == "kmeans" and f >= 2:
        # one cluster per factor: its profile is the centre of the samples assigned to it
        obs = np.asarray(sa.V, float)
        if case["norm"]:
            sd = obs.std(axis=0)
            obs = obs / np.where(sd == 0, 1, sd)
        W = np.asarray(sa.W, float)
        at = W.argmax(axis=1)
        rest = np.sort(W, axis=1)[:, :-1]
        clear = bool((W.max(axis=1) > 1.0 / f + 0.05).all())
        expect(close(rest, np.full(rest.shape, 1.0 / f), rtol=1e-6), "a sample's contributions to the other clusters are not 1/factors")
        expect(W.max() < 2.0, "a sample's contribution to its own cluster is not about one")
        for q in set(at.tolist()) if clear else ():
            want = np.where(obs[at == q].mean(axis=0) <= 0, 1e-12, obs[at == q].mean(axis=0))
            expect(close(np.asarray(sa.H, float)[q], want, rtol=1e-3, atol=1e-5 * np.abs(obs).max()), "a k-means profile is not the centre of its samples", factor=q,
                   got=np.asarray(sa.H)[q].tolist(), want=want.tolist())
    r = sa.train(max_iter=1, converge_delta=0.1, converge_n=5)
    expect(r is None and sa.WH is not None, "an initialised model cannot be trained", returned=r, negative=neg)
    # initialising again with the same seed in a fresh model gives the same start
    sb = SA(V=V, U=U, factors=f, method=case["method"], seed=case["seed"])
    sb.initialize(init_method=case["init"], init_norm=case["norm"], **kw)
    sc = SA(V=V, U=U, factors=f, method=case["method"], seed=case["seed"])
    sc.initialize(init_method=case["init"], init_norm=case["norm"], **kw)
    expect(np.array_equal(sb.H, sc.H) and np.array_equal(sb.W, sc.W), "initialisation is not reproducible from the seed")
    ctx.label(user, case["init"], case["method"], "neg" if neg else "nonneg")
    ctx.nontrivial(user != "none" or neg or case["init"] == "kmeans")


def s_scale():
    return st.fixed_dictionaries({"p": recipe(min_m=4, min_n=3, zeros=True), "factors": st.integers(1, 4), "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]),
                                  "seed": seeds(), "c": st.sampled_from([4.0, 100.0, 0.25])})


def c_scale(case, ctx):
    """Random starts are scaled from the data: profiles follow sqrt(feature mean/factors), contributions sqrt(sample mean/factors)."""
    c = case["p"]
    V, U, rng = problem(c)
    f, k = case["factors"], case["c"]
    sa, sb = SA(V=V, U=U, factors=f, seed=case["seed"]), SA(V=V * k, U=U * k, factors=f, seed=case["seed"])
    sa.initialize()
    sb.initialize()
    # the start depends on the magnitude of the data: the sign of a feature or sample does not matter
    sg = np.where(rng.random(V.shape[1]) < 0.5, -1.0, 1.0)
    sr = np.where(rng.random((V.shape[0], 1)) < 0.5, -1.0, 1.0)
    for s, what, pick in ((sg, "profiles", lambda x: x.H), (sr, "contributions", lambda x: x.W), (-1.0, "profiles", lambda x: x.H), (-1.0, "contributions", lambda x: x.W)):
        ss, plus = SA(V=V * s, U=U, factors=f, method=case["method"], seed=case["seed"]), SA(V=V, U=U, factors=f, method=case["method"], seed=case["seed"])
        ss.initialize()
        plus.initialize()
        expect(close(np.asarray(pick(ss), float), np.asarray(pick(plus), float), rtol=1e-4, atol=1e-11), f"the random {what} of negative data do not follow its magnitude",
               got=np.asarray(pick(ss)).tolist(), want=np.asarray(pick(plus)).tolist())
    big = np.asarray(sa.H) > 1e-9
    expect(close(np.asarray(sb.H)[big], np.asarray(sa.H, float)[big] * np.sqrt(k), rtol=1e-4),
           "random profiles do not scale with the square root of the data")
    bw = np.asarray(sa.W) > 1e-9
    expect(close(np.asarray(sb.W)[bw], np.asarray(sa.W, float)[bw] * np.sqrt(k), rtol=1e-4),
           "random contributions do not scale with the square root of the data")
    ctx.nontrivial(bool(big.any() and bw.any()))


def s_size():
    return st.fixed_dictionaries({"seed": seeds(), "factors": st.integers(1, 6), "negative": st.sampled_from([0.0, 0.0, 0.3, 1.0]), "m": st.integers(60, 90), "n": st.integers(60, 90),
                                  "method": st.sampled_from(["ls-nmf", "ws-nmf"]), "scale": st.sampled_from([1.0, 1e-3, 1e3])})


def c_size(case, ctx):
    """The spread of the random starts: the positive values are those of a normal with the deviation sqrt(mean/factors)."""
    rng = np.random.default_rng(case["seed"])
    m, n, k = case["m"], case["n"], case["factors"]
    V = rng.gamma(1.0, 1.0, (m, n)) * rng.gamma(1.0, 1.0, n) * rng.gamma(1.0, 1.0, (m, 1)) * case["scale"]
    U = 0.1 * V + 0.1 * case["scale"]
    V[rng.random(m) < case["negative"]] *= -1
    sa = SA(V=V, U=U, factors=k, method=case["method"], seed=case["seed"])
    sa.initialize()
    for X, mean, what in ((np.asarray(sa.H, float).T, np.abs(V.mean(axis=0)), "profiles"), (np.asarray(sa.W, float), np.abs(V.mean(axis=1)), "contributions")):
        z = X / np.sqrt(mean / k)[:, None]
        # negative draws are raised to a tiny value (kept negative in contributions of ws-nmf)
        z = z[np.abs(X) > 1e-9]
        ms = float(np.mean(z ** 2))
        limit = 6.5 * np.sqrt(2.0 / len(z))
        expect(abs(ms - 1) <= limit, f"the random {what} do not have the spread sqrt(mean/factors)", got=ms, limit=limit, values=len(z))
    ctx.nontrivial(k > 1)


PROP = Prop("C06", [
    Sub("init", s_init, c_init, 4000, 100000, "all initialisation routes with random data (negatives, zero rows/columns); "
        "non-trivial = user-provided factors, negative data or k-means"),
    Sub("scale", s_scale, c_scale, 1200, 20000, "same seed, data in other units; non-trivial = some entries random"),
    Sub("size", s_size, c_size, 300, 5000, "spread of random starts on larger data; non-trivial = several factors"),
], assumptions=["k-means starts are generated on data with a non-singular covariance"])
