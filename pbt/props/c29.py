"""C29: mapping of model factors to the factors of a base model."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import SEEDS, wide
from .c28 import r2
from esat.model.sa import SA
from esat_eval.factor_comparison import FactorCompare, FactorCompareV2


def s_map():
    return st.fixed_dictionaries({"seed": SEEDS, "m": wide(3, 9, 20, 40), "n": wide(3, 6, 12, 14), "k": wide(1, 5, 8, 10),
                                  "models": st.lists(st.sampled_from(["copy", "near", "shuffled", "random", "collapse", "random"]), min_size=1, max_size=3),
                                  "calls": st.lists(st.sampled_from(["raae", "corr", "emc"]), min_size=1, max_size=3)})


def factors(rng, m, n, k):
    return rng.gamma(1.0, 1.0, (m, k)) + 0.01, rng.gamma(1.0, 1.0, (k, n)) + 0.01


def model(V, U, W, H):
    sa = SA(V=V, U=U, factors=W.shape[1], seed=1)
    sa.initialize(H=H, W=W)
    sa.train(max_iter=1)
    sa.W, sa.H, sa.WH = W, H, W @ H
    return sa


def build(c):
    rng = np.random.default_rng(c["seed"])
    m, n, k = c["m"], c["n"], c["k"]
    W, H = factors(rng, m, n, k)
    V, U = W @ H, np.ones((m, n))
    out = []
    for kind in c["models"]:
        w, h = factors(rng, m, n, k)
        if kind == "copy":
            w, h = W.copy(), H.copy()
        elif kind in ("near", "shuffled"):
            p = rng.permutation(k) if kind == "shuffled" else np.arange(k)
            w, h = W[:, p] * rng.uniform(0.7, 1.4, (m, k)), H[p] * rng.uniform(0.7, 1.4, (k, n))
        elif kind == "collapse":  # several base factors resemble the same model factor
            w = np.outer(W[:, 0], rng.uniform(0.5, 2, k)) * rng.uniform(0.9, 1.1, (m, k))
            h = np.outer(rng.uniform(0.5, 2, k), H[0]) * rng.uniform(0.9, 1.1, (k, n))
        out.append((w, h))
    return model(V, U, W, H), [model(V, U, w, h) for w, h in out]


def closest(M, pick):
    """The best total of any one to one mapping: over the sets of model factors given to the first base factors."""
    k = len(M)
    best = {0: 0.0}
    for a in range(k):
        nxt = {}
        for used, total in best.items():
            for b in range(k):
                if not used >> b & 1:
                    key, t = used | 1 << b, total + M[a, b]
                    nxt[key] = pick(nxt[key], t) if key in nxt else t
        best = nxt
    return best[2 ** k - 1]


def c_map(case, ctx):
    c = case
    base, models = build(c)
    keep = [(x.W.copy(), x.H.copy()) for x in [base] + models]
    cmp = FactorCompareV2(base_model=base, models=models)
    k = c["k"]
    mats = {}
    for i, x in enumerate(models):
        mats[i] = {"corr": np.array([[r2(base.W[:, a], x.W[:, b]) for b in range(k)] for a in range(k)]),
                   "raae": np.array([[np.abs(x.W[:, b] - base.W[:, a]).sum() / base.W[:, a].sum() for b in range(k)] for a in range(k)]),
                   "emc": np.array([[r2(base.H[a], x.H[b]) for b in range(k)] for a in range(k)])}
        d = cmp.correlation_data[i]
        for name, M in mats[i].items():
            expect(np.allclose(np.asarray(d[f"all_{name}"], float), M, atol=1e-7), f"the matrix of {name} is wrong", got=d[f"all_{name}"], want=M)
            best = M.min(axis=1) if name == "raae" else M.max(axis=1)
            expect(np.allclose(d[name], best, atol=1e-7), f"the best {name} of a base factor is wrong", got=d[name], want=best)
            expect(np.allclose(M[range(k), list(d[f"{name}_mapping"])], best, atol=1e-7), f"the closest factor by {name} is wrong")
    ambiguous = False
    for method in c["calls"] + ["raae"]:
        maps, values = cmp.determine_map(method=method) if method != "raae" or len(c["calls"]) > 1 else cmp.determine_map()
        expect(set(maps) == set(range(len(models))) == set(values), "not every model is mapped")
        for i in range(len(models)):
            M = mats[i][method]
            p = [int(x) for x in maps[i]]
            expect(sorted(p) == list(range(k)), "the mapping is not one to one", got=p, method=method)
            got = sum(M[a, b] for a, b in enumerate(p))
            want = closest(M, min if method == "raae" else max)
            expect(abs(got - want) <= 1e-6 * max(1.0, abs(want)), "another mapping is closer overall", got=got, want=want, method=method, map=p)
            expect(np.allclose(np.asarray(values[i], float), [M[a, b] for a, b in enumerate(p)], atol=6e-5), "the values are not those of the mapping", got=values[i], map=p)
            near = M.argmin(axis=1) if method == "raae" else M.argmax(axis=1)
            ambiguous |= len(set(near)) < k
    expect(all(np.array_equal(a, x.W) and np.array_equal(b, x.H) for (a, b), x in zip(keep, [base] + models)), "the models were modified")
    ctx.label("ambiguous" if ambiguous else "unique")
    ctx.nontrivial(k >= 2)


def s_corr():
    return st.fixed_dictionaries({"seed": SEEDS, "n": st.integers(3, 30), "scale": st.sampled_from([1.0, -2.0, 1e-6, 1e6]), "shift": st.sampled_from([0.0, 5.0])})


def c_corr(case, ctx):
    rng = np.random.default_rng(case["seed"])
    a = rng.gamma(1.0, 1.0, case["n"])
    b = rng.gamma(1.0, 1.0, case["n"]) + a * rng.choice([0, 1, 3])
    got = FactorCompare.calculate_correlation(a, b)
    expect(abs(got - r2(a, b)) <= 1e-9, "not the squared correlation", got=got, want=r2(a, b))
    expect(abs(FactorCompare.calculate_correlation(b, a) - got) <= 1e-9, "not symmetric")
    expect(abs(FactorCompare.calculate_correlation(a * case["scale"] + case["shift"] * case["scale"], b) - got) <= 1e-6, "depends on scale or offset")
    expect(abs(FactorCompare.calculate_correlation(a, a) - 1) <= 1e-9, "a factor does not agree with itself")
    ctx.nontrivial(0.01 < got < 0.99)


PROP = Prop("C29", [
    Sub("map", s_map, c_map, 500, 10000, "all three measures and the optimal mapping; non-trivial = two or more factors"),
    Sub("r2", s_corr, c_corr, 300, 6000, "squared correlation; non-trivial = neither perfect nor absent"),
], assumptions=["factors are not constant and have a positive sum"])
