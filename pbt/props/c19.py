"""C19: bootstrap results depend only on the base model, the settings and the seed; every run is reproducible on its own."""
import numpy as np

from ..core import Prop, Sub, expect
from ..models import same_sa
from .c17 import base, boot, draws_of, s_boot
from esat.model.sa import SA


def same_runs(a, b, what):
    expect(list(a.bs_results) == list(b.bs_results), f"{what}: other runs", a=list(a.bs_results), b=list(b.bs_results))
    for k in a.bs_results:
        x, y = a.bs_results[k], b.bs_results[k]
        expect(list(x["index"]) == list(y["index"]), f"{what}: other samples", run=k)
        d = same_sa(x["model"], y["model"])
        expect(d in (None, "metadata", "seed"), f"{what}: other model", run=k, differs=d)
        expect({i: (m["match"], bool(m["mapped"])) for i, m in x["mapping"].items()} ==
               {i: (m["match"], bool(m["mapped"])) for i, m in y["mapping"].items()}, f"{what}: other mapping", run=k)
    expect(a.mapping_df.equals(b.mapping_df) and a.q_results.equals(b.q_results), f"{what}: other tables")
    expect(str(a.factor_tables) == str(b.factor_tables) and str(a.bs_profiles) == str(b.bs_profiles)
           and str(a.bs_factor_contributions) == str(b.bs_factor_contributions), f"{what}: other statistics")


def c_det(case, ctx):
    sa = base(case)
    if sa is None:
        return ctx.label("degenerate-base")
    a = boot(case, sa)
    np.random.seed(case["seed"] % 1000)
    same_runs(a, boot(case, sa), "the same bootstrap again")
    same_runs(a, boot(case, base(case), parallel=True), "sequential and parallel bootstrap")
    if case["bs_seed"] is None:
        same_runs(a, boot(case, sa, seed=case["seed"]), "no bootstrap seed is the base model's seed")
    N = sa.V.shape[0]
    other = boot(case, sa, seed=(case["bs_seed"] if case["bs_seed"] is not None else case["seed"]) + 1)
    same_idx = all(list(other.bs_results[k]["index"]) == list(a.bs_results[k]["index"]) for k in a.bs_results)
    more = boot(dict(case, runs=case["runs"] + 2), sa)
    for k in a.bs_results:
        expect(list(more.bs_results[k]["index"]) == list(a.bs_results[k]["index"])
               and same_sa(more.bs_results[k]["model"], a.bs_results[k]["model"]) in (None, "metadata"),
               "asking for more runs changed the earlier ones", run=k)
    for k, r in a.bs_results.items():
        m = r["model"]
        V, U = np.array(m.V), np.array(m.U)
        s = SA(V=V, U=U, factors=sa.factors, method=sa.method, seed=int(sa.seed) if case["reuse"] else int(m.seed))
        s.initialize(H=np.array(sa.H) if case["keep_H"] else None)
        s.train(max_iter=sa.metadata["max_iterations"], converge_delta=sa.metadata["converge_delta"],
                converge_n=sa.metadata["converge_n"])
        for n in ("W", "H"):
            expect(np.array_equal(getattr(s, n), getattr(m, n), equal_nan=True), "a run differs from the same model trained alone",
                   run=k, what=n, keep_H=case["keep_H"], reuse_seed=case["reuse"])
        expect(s.Qtrue == m.Qtrue or (s.Qtrue is not None and np.isnan(s.Qtrue)), "a run reports another loss than the model trained alone", run=k)
    if not case["reuse"] and case["runs"] > 1:
        seeds = [int(r["model"].seed) for r in a.bs_results.values()]
        expect(len(set(seeds)) > 1, "the runs share a seed although the base seed is not reused", seeds=seeds)
    ctx.label(case["mode"], "keep_H" if case["keep_H"] else "new_H", "reuse" if case["reuse"] else "own-seed",
              "same-draw" if same_idx else "other-draw")
    ctx.nontrivial(case["runs"] > 1 and N > 5)


def s_seeds():
    return s_boot()


def c_seeds(case, ctx):
    """Different bootstrap seeds draw different samples (over 6 seeds, at least two draws differ)."""
    case = dict(case, runs=3, iters=1)
    sa = base(case)
    if sa is None:
        return ctx.label("degenerate-base")
    draws, used = set(), {0, 1, 42, int(sa.seed), case["seed"] + 17, case["seed"] + 34}
    for s in used:
        o = boot(case, sa, seed=s if s != int(sa.seed) else None)
        draws.add(tuple(tuple(int(i) for i in r["index"]) for r in o.bs_results.values()))
    expect(len(draws) > 1, "the bootstrap seed has no effect")
    if 3 * draws_of(case, sa.V.shape[0]) > 13:
        expect(len(draws) == len(used), "different bootstrap seeds draw the same samples", seeds=sorted(used), distinct=len(draws))
    ctx.nontrivial(len(draws) == len(used))


PROP = Prop("C19", [
    Sub("repeat", s_boot, c_det, 320, 8000, "run again, in parallel, with more runs, with another seed, and run by run alone; "
        "non-trivial = several runs"),
    Sub("seeds", s_seeds, c_seeds, 120, 2000, "six seeds; 0 and 1 among them; non-trivial = all draws differ"),
], assumptions=["schedules of the parallel run are those of the operating system"])
