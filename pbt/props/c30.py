"""C30: the catalog of factors found among models."""
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import SEEDS, wide
from .c28 import r2
from .c29 import model
from esat_eval.factor_catalog import Factor, FactorCatalog

THRESHOLDS = {"raae": [0.1, 0.3, 0.9, 1.3, 0.0], "corr": [0.9, 0.5, 0.99], "emc": [0.9, 0.5, 0.99]}


def s_cat():
    return st.sampled_from(sorted(THRESHOLDS)).flatmap(lambda method: st.fixed_dictionaries({
        "method": st.just(method), "threshold": st.sampled_from(THRESHOLDS[method]), "seed": SEEDS, "m": wide(3, 8, 12, 20), "n": wide(3, 6, 12, 14),
        "kinds": wide(1, 4, 10, 12), "noise": st.sampled_from([0.02, 0.2, 0.5]), "profile_only": st.booleans(),
        "steps": st.lists(st.tuples(st.sampled_from(["batch", "model", "factor"]), st.integers(1, 3), st.integers(0, 9)), min_size=1, max_size=4),
        "outliers": st.sampled_from([None, None, 1.5, 1.01, 5.0]), "gap": st.booleans(), "spread": st.sampled_from([3.0, 1.2, 30.0])}))


def similarity(method, profile_only, base, new):
    (bh, bw), (h, w) = base, new
    if method == "raae":
        return np.abs(bh - h).sum() / bh.sum() if profile_only else np.abs(bw - w).sum() / bw.sum()
    if method == "emc" or profile_only:
        return r2(bh, h)
    return r2(bw, w)


class Model:
    """Grouping as described: a factor joins the closest group if it is close enough to it on average, else it starts one."""

    def __init__(self, method, threshold):
        self.method, self.threshold, self.groups, self.count, self.margin = method, threshold, [], 0, np.inf

    def values(self, f, po):
        return [float(np.mean([similarity(self.method, po, g, f) for g in grp["factors"]])) for grp in self.groups]

    def add(self, h, w, i, po):
        self.count = max(self.count, i + 1)
        v = self.values((h, w), po)
        lower = self.method == "raae"
        if v:
            s = sorted(v) if lower else sorted(v, reverse=True)
            b = s[0]
            self.margin = min(self.margin, abs(b - self.threshold), abs(s[1] - b) if len(s) > 1 else np.inf)
            if (b <= self.threshold) if lower else (b >= self.threshold):
                g = self.groups[v.index(b)]
                g["factors"].append((h, w))
                g["models"].append(i)
                g["corr"].append(b)
                return False
        self.groups.append({"factors": [(h, w)], "models": [i], "corr": [0.0 if lower else 1.0]})
        return True


class Batch:
    def __init__(self, results):
        self.results = results


def c_cat(case, ctx):
    c = case
    rng = np.random.default_rng(c["seed"])
    m, n = c["m"], c["n"]
    pool = [(rng.gamma(1.0, 1.0, n) + 0.01, rng.gamma(1.0, 1.0, m) + 0.01) for _ in range(c["kinds"])]

    def near():
        h, w = pool[int(rng.integers(len(pool)))]
        s = c["noise"]
        return h * (1 + s * rng.uniform(-1, 1, n)), w * (1 + s * rng.uniform(-1, 1, m))

    def a_model(k):
        fs = [near() for _ in range(k)]
        H, W = np.array([f[0] for f in fs]), np.array([f[1] for f in fs]).T
        sa = model(W @ H, np.ones((m, n)), W, H)
        sa.Qtrue = float(rng.uniform(1, c["spread"]))
        return sa

    kw = {} if c["outliers"] is None else {"exclude_outliers": True, "outlier_threshold": c["outliers"]}
    cat = FactorCatalog(method=c["method"], threshold=c["threshold"], **kw)
    ref = Model(c["method"], c["threshold"])
    po = c["profile_only"]
    index = 0
    for what, k, count in c["steps"]:
        want = 0
        if what == "factor":
            h, w = near()
            got = cat.add_factor(H_i=h, W_i=w, model_index=index, profile_only=po)
            want = ref.add(h, w, index, po)
            index += 1
        elif what == "model":
            sa = a_model(k)
            got = cat.add_model(model_i=index, model=sa, profile_only=po)
            for f in range(k):
                want += ref.add(sa.H[f], sa.W[:, f], index, po)
            index += 1
        else:
            results = [a_model(k) for _ in range(max(1, count))]
            if c["gap"] and len(results) > 1:
                results[int(rng.integers(len(results)))] = None
            limit = None if c["outliers"] is None else min(r.Qtrue for r in results if r is not None) * c["outliers"]
            got = cat.add_batch(Batch(results), profile_only=po)
            for i, r in enumerate(results):
                if r is None or (limit is not None and r.Qtrue > limit):
                    continue
                for f in range(k):
                    want += ref.add(r.H[f], r.W[:, f], i, po)
        if ref.margin < 1e-9:
            ctx.skipped = True  # decided by rounding
            return
        expect(int(got) == int(want), "the number of new factors is wrong", got=got, want=want, step=what)
    check(cat, ref, c, po)
    # queries
    h, w = near()
    v = ref.values((h, w), po)
    b = min(v) if c["method"] == "raae" else max(v)
    label, value = cat.check_factor(H_i=h, W_i=w, profile_only=po)
    expect(abs(value - b) <= 1e-9 and abs(v[int(label)] - b) <= 1e-9, "not the closest factor of the catalog", got=(label, value), want=v)
    wh = np.outer(w, h)
    v = [float(np.mean([r2(np.outer(gw, gh), wh) for gh, gw in g["factors"]])) for g in ref.groups]
    label, value = cat.check_matrix(wh)
    expect(abs(value - max(v)) <= 1e-9 and abs(v[int(label)] - max(v)) <= 1e-9, "not the factor with the closest matrix", got=(label, value), want=v)
    fs = [near(), near()]
    other = Factor("x", fs[0][0], fs[0][1], 0, method=c["method"], threshold=c["threshold"])
    expect(other.threshold == c["threshold"], "the factor does not keep its threshold")
    other.add(fs[1][0], fs[1][1], 1, 0.5)
    v = [float(np.mean([np.mean([similarity(c["method"], False, g, f) for g in grp["factors"]]) for f in fs])) for grp in ref.groups]
    b = min(v) if c["method"] == "raae" else max(v)
    label, value = cat.compare_factor(other)
    expect(abs(value - b) <= 1e-9 and abs(v[int(label)] - b) <= 1e-9, "not the most similar factor of the catalog", got=(label, value), want=v)
    check(cat, ref, c, po)  # asking changes nothing
    sizes = [len(g["factors"]) for g in ref.groups]
    ctx.label(c["method"], "profiles" if po else "contributions", f"groups {min(len(sizes), 4)}")
    ctx.nontrivial(len(sizes) >= 2 and max(sizes) >= 2)


def check(cat, ref, c, po):
    expect(list(cat.factors) == list(range(len(ref.groups))), "the catalog has other factors", got=list(cat.factors), want=len(ref.groups))
    for f, g in zip(cat.factors.values(), ref.groups):
        expect(list(f.model) == g["models"], "a factor has other members", got=f.model, want=g["models"])
        expect(len(f.factor) == len(g["factors"]) and all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) for a, b in zip(f.factor, g["factors"])),
               "the members' profiles and contributions differ")
        expect(np.allclose(f.correlation, g["corr"], atol=1e-9), "the recorded similarities differ", got=f.correlation, want=g["corr"])
    if ref.count == 0:
        return
    df = cat.to_df()
    expect(sorted(df["factor"]) == list(range(len(ref.groups))), "the table has other factors")
    occ = list(df["% occurrence"])
    expect(all(a >= b for a, b in zip(occ, occ[1:])), "the table is not sorted by occurrence", got=occ)
    for _, row in df.iterrows():
        g = ref.groups[int(row["factor"])]
        expect(int(row["count"]) == len(g["models"]) and abs(row["% occurrence"] - round(100 * len(g["models"]) / ref.count, 2)) <= 0.011
               and abs(row["mean corr"] - np.mean(g["corr"])) <= 6e-5, "a row of the table is wrong", got=dict(row), want=(len(g["models"]), ref.count, np.mean(g["corr"])))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        cat.summary()
    lines = [x for x in out.getvalue().split("\n") if x.strip()]
    expect(len(lines) == len(ref.groups), "the summary does not have one line per factor")
    for line, g in zip(lines, ref.groups):
        nums = [float(x) for x in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", line)]
        expect(len(g["models"]) in nums and any(abs(x - 100 * len(g["models"]) / ref.count) <= 0.51 for x in nums), "a line of the summary is wrong", got=line,
               want=(len(g["models"]), ref.count))


def c_meets(case, ctx):
    """A similarity that is the threshold meets it."""
    c = case
    rng = np.random.default_rng(c["seed"])
    m, n = c["m"], c["n"]
    h, w = rng.gamma(1.0, 1.0, n) + 0.01, rng.gamma(1.0, 1.0, m) + 0.01
    h2, w2 = h * (1 + c["noise"] * rng.uniform(-1, 1, n)), w * (1 + c["noise"] * rng.uniform(-1, 1, m))
    po, lower = c["profile_only"], c["method"] == "raae"
    probe = FactorCatalog(method=c["method"], threshold=0.5)
    probe.add_factor(H_i=h, W_i=w, model_index=0, profile_only=po)
    _, value = probe.check_factor(H_i=h2, W_i=w2, profile_only=po)
    if not 1e-3 < value < 0.999:
        return ctx.label("alike")
    for t, joins in ((value, True), (value * (1 + 1e-9), lower), (value * (1 - 1e-9), not lower)):
        cat = FactorCatalog(method=c["method"], threshold=float(t))
        cat.add_factor(H_i=h, W_i=w, model_index=0, profile_only=po)
        got = cat.add_factor(H_i=h2, W_i=w2, model_index=1, profile_only=po)
        expect(bool(got) != joins and len(cat.factors) == (1 if joins else 2),
               "a similarity that meets the threshold started a new factor" if joins else "a similarity that misses the threshold joined", similarity=value, threshold=t)
    ctx.label(c["method"])
    ctx.nontrivial(True)


PROP = Prop("C30", [
    Sub("meets", s_cat, c_meets, 200, 4000, "two factors and a threshold at, just above and just below their similarity; non-trivial = they differ"),
    Sub("catalog", s_cat, c_cat, 1200, 24000, "catalogs built step by step against a reference grouping; non-trivial = two or more groups, one with several members"),
], assumptions=["cases in which the grouping is decided by rounding (1e-9) are not judged"])
