"""Generators. Every case is a JSON-able dict; `problem()` turns it into matrices.

A matrix problem is either *explicit* (small integer-valued cells drawn one by one, which shrink well) or a *recipe*
(sizes, kinds and a drawn seed, from which the cells follow deterministically).
"""
import numpy as np
from hypothesis import strategies as st

SEEDS = st.integers(0, 2 ** 32 - 1)


def sizes(max_m=14, max_n=9, max_k=4, min_m=1, min_n=1):
    return st.tuples(st.integers(min_m, max_m), st.integers(min_n, max_n), st.integers(1, max_k))


def wide(lo, hi, big_lo, big_hi, weight=7):
    """Mostly small numbers, now and then one of another magnitude (two digits, more than any block or buffer)."""
    return seldom(st.integers(lo, hi), st.integers(big_lo, big_hi), weight)


def seldom(usual, other, weight=7):
    """One case of `other` for `weight` of the usual ones (one_of would drop repeated alternatives)."""
    return st.tuples(usual, other, st.integers(0, weight)).map(lambda t: t[1] if t[2] == weight else t[0])


def seeds(high=10 ** 6):
    """Random seeds, now and then one a careless test for "given" or a fixed default would confuse with another."""
    return seldom(st.integers(0, high), st.sampled_from([0, 0, 1, 42]), 5)


def many(s, change=None, every=12):
    """The cases of s, now and then one with ten or more factors and features (whose names and numbers sort differently)."""
    def two_digits(c):
        p = {**c["p"], "m": c["p"]["m"] + 12, "n": c["p"]["n"] + 10, "k": c["p"]["k"] + 3, "zero": "none"}
        return {**c, "p": p, "factors": 10 + c["factors"] % 2, **(change(c) if change else {})}
    return st.tuples(s, st.integers(0, every - 1)).map(lambda t: two_digits(t[0]) if t[1] == every - 1 else t[0])


def recipe(max_m=14, max_n=9, max_k=4, min_m=2, min_n=2, neg=False, zeros=True, u_kinds=None, big=False):
    """Strategy for a factorisation problem V ~ W H with uncertainty U."""
    kinds = ["lowrank", "lognormal", "integers"] + (["normal", "lowrank_neg"] if neg else [])
    return st.fixed_dictionaries({
        "m": wide(min_m, max_m, 40, 150) if big else st.integers(min_m, max_m), "n": wide(min_n, max_n, 12, 40) if big else st.integers(min_n, max_n),
        "k": wide(1, max_k, 10, 12) if big else st.integers(1, max_k),
        "vkind": st.sampled_from(kinds),
        "ukind": st.sampled_from(u_kinds or ["prop", "const", "random", "wide"]),
        "zero": st.sampled_from(["none", "some", "row", "col"] if zeros else ["none"]),
        "scale": st.sampled_from([1.0, 1.0, 1.0, 0.01, 100.0]),
        "seed": SEEDS,
    })


def kmeans_problem():
    """Problems on which k-means initialisation is defined: it draws from the data's covariance, which must not be
    singular (more samples than features, no constant or linearly dependent features)."""
    return st.fixed_dictionaries({
        "m": st.integers(12, 18), "n": st.integers(2, 6), "k": st.integers(1, 4), "vkind": st.just("lognormal"),
        "ukind": st.sampled_from(["prop", "const", "random"]), "zero": st.just("none"),
        "scale": st.sampled_from([1.0, 0.01, 100.0]), "seed": SEEDS})


def problem(c, dtype=np.float64):
    rng = np.random.default_rng(c["seed"])
    m, n, k = c["m"], c["n"], c["k"]
    kind = c["vkind"]
    if kind == "lowrank":
        V = rng.gamma(1.0, 1.0, (m, k)) @ rng.gamma(1.0, 1.0, (k, n)) * (1 + 0.1 * rng.standard_normal((m, n)))
        V = np.abs(V)
    elif kind == "lognormal":
        V = rng.lognormal(0.0, 1.0, (m, n))
    elif kind == "integers":
        V = rng.integers(0, 6, (m, n)).astype(float)
    elif kind == "normal":
        V = rng.standard_normal((m, n)) * 2
    elif kind == "lowrank_neg":
        V = rng.standard_normal((m, k)) @ rng.gamma(1.0, 1.0, (k, n)) + 0.05 * rng.standard_normal((m, n))
    else:
        raise ValueError(kind)
    if c["zero"] == "some":
        V[rng.random((m, n)) < 0.15] = 0.0
    elif c["zero"] == "row":
        V[int(rng.integers(m))] = 0.0
    elif c["zero"] == "col":
        V[:, int(rng.integers(n))] = 0.0
    if c["ukind"] == "prop":
        U = 0.05 * np.abs(V) + 0.05
    elif c["ukind"] == "const":
        U = np.full((m, n), 0.5)
    elif c["ukind"] == "random":
        U = rng.uniform(0.05, 1.0, (m, n))
    elif c["ukind"] == "wide":
        U = 10.0 ** rng.uniform(-2, 2, (m, n))
    else:
        raise ValueError(c["ukind"])
    s = c["scale"]
    return (V * s).astype(dtype), (U * s).astype(dtype), rng


def factors_for(c, rng, dtype=np.float64, neg_w=False, zero_p=0.0):
    W = rng.standard_normal((c["m"], c["k"])) if neg_w else rng.gamma(1.0, 1.0, (c["m"], c["k"]))
    H = rng.gamma(1.0, 1.0, (c["k"], c["n"]))
    if zero_p:
        H[rng.random(H.shape) < zero_p] = 0.0
        W[rng.random(W.shape) < zero_p] = 0.0
    return (W * np.sqrt(c["scale"])).astype(dtype), (H * np.sqrt(c["scale"])).astype(dtype)


def close(a, b, rtol=1e-9, atol=1e-12):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))


def rel(a, b):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    d = np.abs(a - b)
    s = np.maximum(np.abs(a), np.abs(b))
    with np.errstate(all="ignore"):
        r = np.where(s > 0, d / s, 0.0)
    return float(np.max(r)) if r.size else 0.0


# ---------------------------------------------------------------- independent reference definitions (float64)
def ref_scaled(V, U, W, H):
    V, U, W, H = (np.asarray(x, dtype=np.float64) for x in (V, U, W, H))
    est = (W[:, :, None] * H[None]).sum(axis=1)
    return (V - est) / U


def ref_q(V, U, W, H):
    s = ref_scaled(V, U, W, H)
    return float(np.sum(s * s))


def ref_q_robust(V, U, W, H, alpha=4.0):
    s = np.abs(ref_scaled(V, U, W, H))
    return float(np.sum(np.where(s <= alpha, s * s, alpha * s)))


def fast_q(V, U, W, H):
    V, U, W, H = (np.asarray(x, dtype=np.float64) for x in (V, U, W, H))
    s = (V - W @ H) / U
    return float(np.sum(s * s))


def fast_q_robust(V, U, W, H, alpha=4.0):
    V, U, W, H = (np.asarray(x, dtype=np.float64) for x in (V, U, W, H))
    s = np.abs((V - W @ H) / U)
    return float(np.sum(np.where(s <= alpha, s * s, alpha * s)))


def q_noise(V, U, W, H):
    """Scale of the rounding noise in a float32 loss: sum of (|V|+|W||H|)^2/U^2."""
    V, U, W, H = (np.abs(np.asarray(x, dtype=np.float64)) for x in (V, U, W, H))
    s = (V + W @ H) / U
    return float(np.sum(s * s))
