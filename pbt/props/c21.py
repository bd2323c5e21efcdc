"""C21: factor swaps and loss drops of a displacement are those of the model retrained from the displaced profiles."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..models import shown
from .c18 import r2
from .c20 import DQ, base, disp, features, profile, s_disp
from esat.model.sa import SA


def swapped(new, old):
    """True/False when some factor is clearly better / no factor is better correlated with another base factor; else None."""
    new, old = np.asarray(new, np.float64), np.asarray(old, np.float64)
    verdict = False
    for i in range(len(new)):
        own = r2(new[i], old[i])
        if np.ptp(new[i]) <= 1e-5 * np.abs(new[i]).max():
            return None
        if np.isnan(own):
            if np.ptp(old[i]) <= 1e-5 * max(1e-30, np.abs(old[i]).max()):
                return None
            continue
        for j in range(len(old)):
            if j == i:
                continue
            if np.ptp(old[j]) <= 1e-5 * max(1e-30, np.abs(old[j]).max()):
                return None
            o = r2(new[i], old[j])
            if o > own + 1e-6:
                verdict = True
            elif o > own - 1e-6:
                if verdict is False:
                    verdict = None
        if verdict is True:
            return True
    return verdict


def retrain(sa, f, j, value):
    H = profile(sa)
    H[f, j] = value
    m = SA(V=sa.V, U=sa.U, factors=sa.factors, method=sa.method, seed=sa.seed)
    m.initialize(H=H)
    m.train(max_iter=sa.metadata["max_iterations"], converge_delta=sa.metadata["converge_delta"], converge_n=sa.metadata["converge_n"])
    return m


def check_swaps(d, sa, n, dqs, feats):
    used = list(range(n)) if feats is None else feats
    k = sa.factors
    table = np.zeros((len(dqs), k))
    count = np.zeros((len(dqs), k))
    kinds = set()
    for res in (d.increase_results, d.decrease_results):
        for f in range(k):
            for j in used:
                for row, dq in enumerate(dqs):
                    r = res[f"factor-{f + 1}"][f"feature-{j}"][dq]
                    m = retrain(sa, f, j, r["value"])
                    if m.Qtrue is not None and np.isfinite(m.Qtrue):
                        want = float(m.Qtrue) - float(sa.Qtrue)
                        expect(abs(float(r["Q_drop"]) - want) <= 1e-5 * abs(float(sa.Qtrue)) + 1e-6 * abs(float(m.Qtrue)),
                               "the loss change is not the one of the retrained model", factor=f, feature=j, dQ=dq,
                               got=float(r["Q_drop"]), want=want)
                        v = swapped(m.H, profile(sa))
                        if v is not None:
                            kinds.add(v)
                            expect(bool(r["swap"]) == v, "a factor swap is reported wrongly", factor=f, feature=j, dQ=dq, got=bool(r["swap"]),
                                   want=v)
                    table[row, f] += bool(r["swap"])
                    count[row, f] += 1
    expect(np.array_equal(d.swap_table, table), "the swap table does not count the swaps", got=d.swap_table.tolist(), want=table.tolist())
    expect(np.array_equal(d.count_table, count), "the count table does not count the displacements", got=d.count_table.tolist(),
           want=count.tolist())
    check_drops(d, n, dqs, used)
    return kinds


def check_drops(d, n, dqs, used):
    """The reported drop is the larger one of both directions, zero without a drop."""
    t = d.compiled_results
    k = d.factors
    expect(len(t) == len(dqs) * k * n, "the results have another number of rows", got=len(t))
    for row, got in enumerate(t["dQ_drop"]):
        dq, f, j = dqs[row // (k * n)], row // n % k, row % n
        both = [float(x[f"factor-{f + 1}"][f"feature-{j}"][dq]["Q_drop"]) for x in (d.increase_results, d.decrease_results)] if j in used else [0.0]
        if np.isfinite(both).all():
            expect(float(got) == min(0.0, *both), "the reported loss drop is not that of the two displacements", factor=f, feature=j, dQ=dq, got=float(got), want=both)


def check_summary(obj, dqs):
    with shown() as figs:
        obj.summary()
    tabs = [f.data[0] for f in figs if len(f.data) and f.data[0].type == "table"]
    if not tabs:
        return
    cols = [list(c) for c in tabs[-1].cells.values]
    if len(cols) != obj.factors + 1 or len(cols[0]) != len(dqs):
        return
    want = np.round(100 * obj.swap_table / obj.count_table, 2)
    expect(sorted(float(x) for x in cols[0]) == sorted(float(x) for x in dqs), "the summary does not list the dQ values")
    for r, dq in enumerate(cols[0]):
        row = [float(c[r]) for c in cols[1:]]
        expect(np.allclose(row, want[list(dqs).index(float(dq))]), "a summary row is labelled with another dQ", dQ=dq)


def c_swap(case, ctx):
    sa = base(case)
    if sa is None:
        return ctx.label("degenerate-base")
    d = disp(case, sa, parallel=case.get("parallel", False))
    kinds = check_swaps(d, sa, case["p"]["n"], DQ, features(case))
    check_summary(d, DQ)
    if case["seed"] is not None and (case["seed"] + len(kinds)) % 4 == 1:
        # running it again counts the displacements of that run
        was = d.swap_table.copy(), d.count_table.copy(), d.compiled_results.copy()
        d.run()
        expect(d.compiled_results.equals(was[2]), "running the displacement again gives other results")
        expect(np.array_equal(d.swap_table, was[0]) and np.array_equal(d.count_table, was[1]), "a second run counts the first one again",
               got=d.count_table.tolist(), want=was[1].tolist())
        ctx.label("again")
    ctx.label(*[f"swap-{k}" for k in sorted(kinds)])
    ctx.nontrivial(True in kinds)


def s_par():
    return st.builds(lambda c: {**c, "parallel": True}, s_disp())


PROP = Prop("C21", [
    Sub("parallel", s_par, c_swap, 40, 800, "as swaps, with the displacements computed in worker processes; non-trivial = at least one real swap"),
    Sub("swaps", s_disp, c_swap, 260, 6000, "every displaced model retrained and compared; non-trivial = at least one real swap"),
], assumptions=["swaps decided by correlations closer than 1e-6 are not judged"])
