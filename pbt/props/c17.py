"""C17: bootstrap datasets are made of (blocks of) consecutive original samples, all of which can be drawn."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import many, recipe, seeds, seldom
from ..models import labels, trained_sa, usable
from esat.error.bootstrap import Bootstrap


def s_boot(n_runs=st.integers(1, 5), iters=st.integers(1, 10)):
    return many(st.fixed_dictionaries({
        "p": st.one_of(recipe(min_m=5, min_n=3, max_m=17, max_n=5), recipe(min_m=5, min_n=3, max_m=17, max_n=5, neg=True)),
        "factors": st.integers(2, 3), "seed": seeds(), "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]),
        "iters": seldom(iters, st.sampled_from([60, 130]), 6), "delta": st.sampled_from([1e-6, 1e-6, 0.5, 20.0]), "conv": st.sampled_from([2, 8, 8, 35]), "runs": n_runs, "block_size": st.integers(1, 20), "mode": st.sampled_from(["block", "overlap", "single"]),
        "keep_H": st.booleans(), "reuse": st.booleans(), "bs_seed": st.one_of(st.none(), seeds()),
        "threshold": st.sampled_from([0.6, 0.6, 0.0, 0.3, 0.9, 0.99])}), lambda c: {"runs": 9 + c["runs"], "iters": 8})


def base(case):
    sa = trained_sa(case["p"], factors=case["factors"], seed=case["seed"], iters=case["iters"], method=case["method"],
                    delta=case.get("delta", 1e-6), conv_n=case.get("conv", 8))
    return sa if usable(sa) else None


def boot(case, sa, parallel=False, run=True, **kw):
    a = dict(sa=sa, feature_labels=labels(case["p"]["n"]), bootstrap_n=case["runs"], block_size=case["block_size"],
             threshold=case["threshold"], parallel=parallel, cpus=2, seed=case["bs_seed"])
    a.update(kw)
    b = Bootstrap(**a)
    if run:
        b.run(keep_H=case["keep_H"], reuse_seed=case["reuse"], block=case["mode"] != "single", overlapping=case["mode"] == "overlap")
    return b


def block_of(case, N):
    b = case["block_size"]
    return N // 2 if b > N / 2 else b


def draws_of(case, N):
    """The number of equally likely index lists of a run (as a power of ten, from below)."""
    b = block_of(case, N)
    each = {"block": -(-N // b), "overlap": N - b + 1, "single": N}[case["mode"]]
    # the last draw of blocks may be cut, the shorter last block may need one more
    return (N // b - 1 if case["mode"] != "single" else N) * np.log10(max(each, 1))


def check_index(case, index, N):
    index = [int(i) for i in index]
    expect(len(index) == N, "a bootstrap dataset has another number of samples", got=len(index), want=N)
    expect(all(0 <= i < N for i in index), "a bootstrap dataset draws a sample which does not exist", index=index)
    if case["mode"] == "single":
        return index
    b = block_of(case, N)
    pos = 0
    starts = []
    while pos < N:
        s = index[pos]
        starts.append(s)
        if case["mode"] == "block":
            expect(s % b == 0, "a block does not start at a block boundary", index=index, block=b)
            size = min(b, N - s)
        else:
            expect(s + b <= N, "an overlapping block reaches past the end of the data", index=index, block=b)
            size = b
        size = min(size, N - pos)
        expect(index[pos:pos + size] == list(range(s, s + size)), "a block is not made of consecutive samples", index=index, block=b)
        pos += size
    return starts


def c_resample(case, ctx):
    sa = base(case)
    if sa is None:
        return ctx.label("degenerate-base")
    V, U, W, H = (np.array(x, copy=True) for x in (sa.V, sa.U, sa.W, sa.H))
    b = boot(case, sa)
    for name, x in (("data", V), ("uncertainty", U), ("contributions", W), ("profiles", H)):
        y = {"data": sa.V, "uncertainty": sa.U, "contributions": sa.W, "profiles": sa.H}[name]
        expect(np.array_equal(x, np.asarray(y), equal_nan=True), f"bootstrapping changed the base model's {name}")
    expect(list(b.bs_results) == list(range(1, case["runs"] + 1)), "the runs are not numbered 1 to n in order", got=list(b.bs_results))
    N = V.shape[0]
    seen = set()
    for k, r in b.bs_results.items():
        check_index(case, r["index"], N)
        idx = np.asarray(r["index"], int)
        expect(np.array_equal(np.asarray(r["model"].V, np.float32), V[idx].astype(np.float32)),
               "a run was not trained on the samples of its index list", run=k)
        expect(np.array_equal(np.asarray(r["model"].U, np.float32), U[idx].astype(np.float32)),
               "the uncertainties of a run are not those of its samples", run=k)
        seen.add(tuple(int(i) for i in idx))
    ctx.label(case["mode"], "reduced" if block_of(case, N) != case["block_size"] else "as-asked",
              "ragged" if N % block_of(case, N) else "even")
    ctx.nontrivial(len(seen) > 1)


def s_cover():
    return s_boot(n_runs=st.just(0), iters=st.just(1))


def c_cover(case, ctx):
    sa = base(case)
    if sa is None:
        return ctx.label("degenerate-base")
    N = sa.V.shape[0]
    b = block_of(case, N)
    per_run = {"block": -(-N // b), "overlap": -(-N // b), "single": N}[case["mode"]]
    targets = {"block": -(-N // b), "overlap": N - b + 1, "single": N}[case["mode"]]
    # only complete draws count: the last one of a run may be cut
    draws = max(1, per_run - 1)
    case = dict(case, runs=int(np.ceil(30.0 * targets / draws)))
    o = boot(case, sa)
    starts, all_idx = set(), set()
    for r in o.bs_results.values():
        starts.update(check_index(case, r["index"], N))
        all_idx.add(tuple(int(i) for i in r["index"]))
    want = {"block": set(range(0, N, b)), "overlap": set(range(N - b + 1)), "single": set(range(N))}[case["mode"]]
    expect(starts == want, "some blocks are never drawn", missing=sorted(want - starts), extra=sorted(starts - want), N=N, block=b,
           mode=case["mode"])
    expect(len(all_idx) > 1, "the runs draw the same samples", distinct=len(all_idx), runs=case["runs"])
    if draws_of(case, N) > 11 + 2 * np.log10(case["runs"]):
        ctx.label("independent")
        expect(len(all_idx) == case["runs"], "runs repeat one another", distinct=len(all_idx), runs=case["runs"])
    ctx.label(case["mode"])
    ctx.nontrivial(N % b != 0)


PROP = Prop("C17", [
    Sub("resample", s_boot, c_resample, 900, 20000, "index lists parsed into blocks, datasets rebuilt from them; non-trivial = several "
        "different draws"),
    Sub("cover", s_cover, c_cover, 160, 2500, "so many runs that every block is drawn with probability above 1-1e-11; non-trivial = "
        "the last block is shorter"),
], assumptions=["coverage is decided by 30 expected draws per block: a fair draw misses one with probability below 1e-11"])
