"""C33: shared utilities: sampling interval, factor correlation, serialisation, memory estimate."""
import json
from contextlib import contextmanager
from types import SimpleNamespace

import numpy as np
import pandas as pd
import psutil
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import SEEDS, wide
from .c28 import r2
from esat.model.batch_sa import BatchSA
from esat.utils import calculate_factor_correlation, compare_all_factors, memory_estimate, min_timestep, np_encoder

UNITS = {"s": 1, "min": 60, "h": 3600, "D": 86400}


def s_step():
    return st.fixed_dictionaries({"seed": SEEDS, "unit": st.sampled_from(sorted(UNITS)), "wide": st.booleans(), "start": st.sampled_from([0, 43200, 27]), "steps": st.lists(st.integers(0, 5), min_size=1, max_size=12), "least": st.integers(1, 20)})


def c_step(case, ctx):
    c = case
    u = UNITS[c["unit"]]
    limit = 10 ** 6 if c["wide"] else {"s": 59, "min": 59, "h": 23, "D": 400}[c["unit"]]      # wide: 90 seconds, 36 hours, ...
    if c["wide"]:
        c = dict(c, least=c["least"] * 9)
    steps = [0 if s == 0 else min(limit, c["least"] + s - 1) * u for s in c["steps"]]
    idx = pd.Timestamp("2022-01-01") + pd.Timedelta(c["start"], unit="s") + pd.to_timedelta(np.cumsum([0] + steps), unit="s")
    got = min_timestep(pd.DataFrame({"a": range(len(idx))}, index=idx))
    pos = [s for s in steps if s > 0]
    d = pd.Timedelta(pd.tseries.frequencies.to_offset(got))
    if pos:
        expect(d == pd.Timedelta(min(pos), unit="s"), "not the smallest interval between samples", got=got, want=min(pos))
        df = pd.DataFrame({"a": np.arange(len(idx), dtype=float)}, index=idx)
        grid = df.resample(got, origin="start").mean()
        if sum(steps) // min(pos) < 10 ** 5 and all(s % min(pos) == 0 for s in steps):
            want = df.groupby(level=0).mean()["a"]
            expect(grid["a"].dropna().index.equals(want.index) and np.allclose(grid["a"].dropna(), want), "resampling by the interval moves or merges samples")
    ctx.label(c["unit"])
    ctx.nontrivial(len(set(pos)) >= 2)


def s_swap():
    return st.fixed_dictionaries({"seed": SEEDS, "k": wide(1, 5, 10, 12), "n": wide(3, 8, 12, 20), "kind": st.sampled_from(["same", "near", "random", "swapped"]), "noise": st.sampled_from([0.0, 0.05, 0.5])})


def c_swap(case, ctx):
    c = case
    rng = np.random.default_rng(c["seed"])
    A = rng.gamma(1.0, 1.0, (c["k"], c["n"]))
    B = A.copy() if c["kind"] != "random" else rng.gamma(1.0, 1.0, (c["k"], c["n"]))
    if c["kind"] == "swapped" and c["k"] > 1:
        B[[0, 1]] = B[[1, 0]]
    B = B * (1 + c["noise"] * rng.uniform(-1, 1, B.shape))
    M = np.array([[r2(a, b) for b in B] for a in A])
    for i in range(c["k"]):
        got = calculate_factor_correlation(A[i], B[i])
        expect(abs(got - M[i, i]) <= 1e-9, "not the squared correlation", got=got, want=M[i, i])
    gap = min([abs(M[i, j] - M[i, i]) for i in range(c["k"]) for j in range(c["k"]) if i != j], default=1.0)
    if gap < 1e-9:
        ctx.skipped = True
        return
    want = any(M[i, j] > M[i, i] for i in range(c["k"]) for j in range(c["k"]))
    expect(bool(compare_all_factors(A, B)) == want, "a factor swap was missed, or reported without one", matrix=M)
    ctx.label("swap" if want else "no swap")
    ctx.nontrivial(c["k"] >= 2)


def s_json():
    leaf = st.one_of(st.integers(-10 ** 9, 10 ** 9), st.floats(allow_nan=False, allow_infinity=False, width=32), st.booleans())
    return st.fixed_dictionaries({"values": st.lists(st.tuples(st.sampled_from(["int64", "int32", "float32", "float64", "bool"]), leaf), min_size=1, max_size=8)})


def c_json(case, ctx):
    for kind, v in case["values"]:
        x = np.dtype(kind).type(int(v) % 10 ** 9 if kind.startswith("int") else v)
        back = json.loads(json.dumps({"x": x, "y": [x, 1]}, default=np_encoder))
        expect(back["x"] == x.item() and back["y"] == [x.item(), 1] and (isinstance(back["x"], bool) == (kind == "bool")), "a number changes when written", got=back, want=x)
    ctx.nontrivial(len({k for k, _ in case["values"]}) >= 2)


@contextmanager
def memory(available):
    old = psutil.virtual_memory
    psutil.virtual_memory = lambda: SimpleNamespace(available=available, total=2 * available)
    try:
        yield
    finally:
        psutil.virtual_memory = old


def s_mem():
    return st.fixed_dictionaries({"n": st.integers(1, 2000), "m": st.sampled_from([1, 50, 5000, 400000, 4000000]), "k": st.integers(1, 30), "cores": st.integers(1, 64),
                                  "gb": st.sampled_from([0.05, 1, 4, 16, 300])})


def parse(s):
    v, u = s.split()
    return float(v) * {"Bytes": 1, "KB": 1024, "MB": 1024 ** 2, "GB": 1024 ** 3}[u]


def c_mem(case, ctx):
    c = case
    a = int(c["gb"] * 1024 ** 3)
    with memory(a):
        r = memory_estimate(c["n"], c["m"], c["k"], cores=c["cores"])
        more = [memory_estimate(c["n"] + 1, c["m"], c["k"], cores=c["cores"]), memory_estimate(c["n"], c["m"] + 1, c["k"], cores=c["cores"]), memory_estimate(c["n"], c["m"], c["k"] + 1, cores=c["cores"])]
        expect(r["max_bytes"] >= 4 * (3 * c["n"] * c["m"] + c["k"] * (c["n"] + c["m"])), "the estimate is below the size of the matrices")
        expect(all(x["max_bytes"] > r["max_bytes"] for x in more), "the estimate does not grow with the problem")
        expect(0 <= r["max_cores"] <= c["cores"] and r["max_cores"] * r["max_bytes"] <= a, "more processes than cores or memory allow", got=r)
        expect(r["max_cores"] == c["cores"] or (r["max_cores"] + 1) * r["max_bytes"] > a, "fewer processes than cores and memory allow", got=r)
        expect(abs(r["available_memory_bytes"] * 1024 ** 3 - a) <= 1e-6 * a and abs(parse(r["available_string"]) - a) <= 1e-6 * a, "wrong available memory", got=r)
        expect(abs(parse(r["estimate"]) - r["max_bytes"]) <= 1e-3 * r["max_bytes"], "the printed estimate is another", got=r)
    ctx.label("memory bound" if r["max_cores"] < c["cores"] else "core bound")
    ctx.nontrivial(0 < r["max_cores"])


PROP = Prop("C33", [
    Sub("interval", s_step, c_step, 500, 10000, "smallest sampling interval; non-trivial = two or more different intervals"),
    Sub("swap", s_swap, c_swap, 500, 10000, "factor correlation and swaps; non-trivial = two or more factors"),
    Sub("json", s_json, c_json, 300, 6000, "numbers written as JSON; non-trivial = two or more types"),
    Sub("memory", s_mem, c_mem, 300, 6000, "memory estimate; non-trivial = at least one process fits"),
], assumptions=["intervals are whole seconds, minutes, hours or days", "available memory is simulated"])
