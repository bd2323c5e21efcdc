"""C26: a constrained run reports what it did and shows both models."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..cm import build, elem, finite, noise, previous, s_base, s_elem
from ..core import Prop, Sub, expect
from ..gen import fast_q, fast_q_robust, many
from ..models import labels, shown


def s_run():
    con = st.fixed_dictionaries(dict(s_elem(), type=st.sampled_from(["set to zero", "set to base value", "pull down", "pull to value", "define limits"]),
                                     dq=st.sampled_from([1.0, 20.0, 400.0]), a=st.sampled_from([0.5, 1.2])))
    return many(st.fixed_dictionaries(dict(
        s_base(), cons=st.lists(con, min_size=0, max_size=3), exp=st.booleans(), train=st.sampled_from([1, 2, 7, 30, 120]),
        delta=st.sampled_from([1e-9, 0.01, 0.5, 10.0]), conv=st.sampled_from([1, 2, 5, 10]), again=st.booleans())))


def add(case, sa, cm):
    n = 0
    for c in case["cons"]:
        target, index = elem(c, sa)
        base = abs(float(sa.H[index] if target == "feature" else sa.W[index]))
        kw = {"pull down": {"dQ": c["dq"]}, "pull to value": {"target_value": c["a"] * base, "dQ": c["dq"]},
              "define limits": {"min_value": c["a"] * base, "max_value": 1.5 * base}}.get(c["type"], {})
        n += bool(cm.add_constraint(c["type"], index, target, **kw))
    if case["exp"] or not n:
        f = sa.factors - 1
        cm.add_expression(f"(0.5*[factor:0|feature:0])-(2.0*[factor:{f}|feature:1])=0,100")
    return n


def c_run(case, ctx):
    b = build(case)
    if b is None:
        return ctx.label("degenerate-base")
    sa, cm, rec = b
    keep = [np.array(x, copy=True) for x in (sa.V, sa.U, sa.We, sa.W, sa.H, sa.WH)]
    reported = (sa.Qtrue, sa.Qrobust, sa.converged, sa.converge_steps)
    add(case, sa, cm)
    cm.train(max_iterations=case["train"], converge_delta=case["delta"], converge_n=case["conv"])
    expect(all(np.array_equal(x, y) for x, y in zip(keep, (sa.V, sa.U, sa.We, sa.W, sa.H, sa.WH)))
           and reported == (sa.Qtrue, sa.Qrobust, sa.converged, sa.converge_steps), "constrained training changed the base model")
    if rec.steps and not finite(rec):
        return ctx.label("degenerate-run")
    V, U = np.asarray(sa.V, np.float64), np.asarray(sa.U, np.float64)
    c = cm.constrained_model
    expect(c is not None, "no constrained model after training")
    W, H = np.asarray(c.W, np.float64), np.asarray(c.H, np.float64)
    expect((c.factors, c.method, c.seed) == (sa.factors, sa.method, sa.seed) and W.shape == sa.W.shape and H.shape == sa.H.shape,
           "the constrained model has other settings than its base model")
    expect(np.array_equal(c.V, sa.V) and np.array_equal(c.U, sa.U), "the constrained model has other data than its base model")
    expect(np.allclose(c.WH, W @ H, rtol=1e-4, atol=1e-5 * (np.abs(W) @ np.abs(H)).max() + 2e-12 * np.abs(W).sum(axis=1).max()),
           "the estimate is not the product of the factors")
    n = noise(V, U, W, H) * 3
    qt, qr = fast_q(V, U, W, H), fast_q_robust(V, U, W, H)
    H0 = np.where(H <= 1e-12, 0, H)     # zeros of a profile are shown as 1e-12 by the model
    st, sr = abs(qt - fast_q(V, U, W, H0)), abs(qr - fast_q_robust(V, U, W, H0))
    aux = float(cm.Qaux)
    Q = [list(map(float, x)) for x in cm.Q_list]
    expect(len({len(x) for x in Q}) == 1 and len(Q) == 3, "the loss histories have different lengths", got=[len(x) for x in Q])
    steps = len(Q[0])
    for got, want, slack, what in ((c.Qtrue, qt, st, "true"), (Q[0][-1], qt, st, "true"), (c.Qrobust, qr, sr, "robust"), (Q[1][-1], qr, sr, "robust")):
        expect(abs(float(got) - want) <= n + slack + 1e-5 * want, f"the reported {what} loss is not the one of the reported factors", got=float(got), want=want)
    expect(Q[2][-1] == aux and c.metadata["Q(Aux)"] == cm.Qaux and float(c.metadata["Q(True)"]) == float(c.Qtrue)
           and float(c.metadata["Q(Robust)"]) == float(c.Qrobust), "the recorded losses differ", got={k: c.metadata.get(k) for k in ("Q(True)", "Q(Robust)", "Q(Aux)")})
    expect((c.metadata["max_iterations"], c.metadata["converge_delta"], c.metadata["converge_n"]) == (case["train"], case["delta"], case["conv"]),
           "the recorded settings are not those of the run")
    # stopping rule: over the last converge_n main losses
    main = np.array(Q[0]) + np.array(Q[2])
    w = case["conv"]
    spread = [np.ptp(main[i + 1 - w:i + 1]) if i + 1 > w else None for i in range(steps)]
    rule = [x is not None and x <= case["delta"] for x in spread]
    close = any(x is not None and abs(x - case["delta"]) <= 1e-9 + 1e-6 * abs(main[i]) for i, x in enumerate(spread))
    if not close:
        first = rule.index(True) + 1 if True in rule else None
        expect(bool(c.converged) == (first is not None), "convergence is not reported by the documented rule", reported=c.converged, spread=spread[-3:], delta=case["delta"])
        expect(steps == (first or case["train"]), "the run did not stop at the first converged iteration or the iteration limit", steps=steps, first=first,
               limit=case["train"])
        expect(c.converge_steps in (steps, steps - 1), "wrong number of steps", got=c.converge_steps, steps=steps)
    # auxiliary loss of the observed pulls
    if rec.steps and len(rec.steps) == steps:
        for i, (wi, hi, w2, h2) in enumerate(rec.steps):
            pw, ph = previous(sa, rec, i)
            d = np.square(np.asarray(sa.W, float) + (wi - pw) - w2).sum() + np.square(np.asarray(sa.H, float) + (hi - ph) - h2).sum()
            want = d / case["soft"] ** 2
            size = (np.square(np.abs(sa.W) + np.abs(pw) + np.abs(w2)).sum() + np.square(np.abs(sa.H) + np.abs(ph) + np.abs(h2)).sum()) / case["soft"] ** 2
            expect(abs(Q[2][i] - want) <= 1e-5 * want + 3e-7 * np.sqrt(max(want, 0) * size) + 1e-12 * size + 1e-9, "wrong auxiliary loss", got=Q[2][i], want=want, iteration=i)
        expect(np.array_equal(rec.steps[-1][2], c.W) and np.array_equal(rec.steps[-1][3], c.H) or np.allclose(rec.steps[-1][3], c.H, rtol=1e-5, atol=1e-9),
               "the solution is not the result of the last iteration")
    with shown() as figs:
        for q in ("true", "Robust", "AUX", "main"):
            cm.plot_Q(q)
        cm.plot_Q("other")
    expect(len(figs) == 4, "the loss plots were not shown")
    for f, y in zip(figs, (Q[0], Q[1], Q[2], main)):
        expect(len(f.data[0].x) == steps and np.allclose(np.asarray(f.data[0].y, float), y, rtol=1e-9), "a loss plot does not show the history of its loss")
    if case["again"]:
        b2 = build(case)
        add(case, b2[0], b2[1])
        b2[1].train(max_iterations=case["train"], converge_delta=case["delta"], converge_n=case["conv"])
        expect(np.array_equal(b2[1].constrained_model.W, c.W) and np.array_equal(b2[1].constrained_model.H, c.H) and b2[1].Q_list == cm.Q_list,
               "the same constrained run gives another result")
        ctx.label("repeated")
    ctx.label("converged" if c.converged else "not-converged", sa.method)
    ctx.nontrivial(steps >= 2)


def s_show():
    clock = st.fixed_dictionaries({"freq": st.sampled_from(["1D", "1h", "90min", "36h"]), "start": st.sampled_from(["2021-03-01", "2021-03-01 12:00", "2021-03-01 07:41:13"]), "shared": st.sampled_from([False, False, True])})
    return st.builds(lambda c, e, t: dict(c, extra=e, clock=t), s_run(), st.sets(st.sampled_from(["samples", "feature", "location"]), max_size=3).map(sorted), clock)


def at(trace, days, values, **kw):
    """The trace shows the values at the times of the samples (and nothing, or gaps, in between)."""
    y = pd.Series(np.asarray(trace.y, float), index=pd.to_datetime(list(trace.x))).dropna()
    w = pd.Series(np.asarray(values, float), index=days).groupby(level=0).mean()      # samples of the same time: their average
    days, values = w.index, w.to_numpy()
    return len(y) == len(days) and (y.index == days).all() and np.allclose(y, values, rtol=1e-3, atol=1e-4)


def c_show(case, ctx):
    b = build(case)
    if b is None:
        return ctx.label("degenerate-base")
    sa, cm, rec = b
    add(case, sa, cm)
    cm.train(max_iterations=min(case["train"], 7), converge_delta=1e-9, converge_n=50)
    if not finite(rec):
        return ctx.label("degenerate-run")
    c = cm.constrained_model
    W, H, W2, H2 = (np.asarray(x, np.float64) for x in (sa.W, sa.H, c.W, c.H))
    n, k = sa.n, sa.factors
    lab = labels(n)
    days = pd.date_range(case["clock"]["start"], periods=sa.m + 1, freq=case["clock"]["freq"])
    if case["clock"]["shared"]:
        days = days[np.arange(sa.m) % ((sa.m + 1) // 2)]
    else:
        days = days.delete(1) if "samples" in case["extra"] else days[:-1]
    with shown() as figs:
        cm.evaluate_constraints()
    t = figs[0].data[0]
    rows = list(zip(*[list(x) for x in t.cells["values"]]))
    expect(list(t.header["values"]) == ["Index", "Target", "Type", "Base Value", "Target Value(s)", "Solution Value", "dQ"], "other table columns")
    cons = list(cm.constraints.values())
    expect(len(rows) == len(cons), "the constraint table does not have one row per constraint")
    for r, x in zip(rows, cons):
        b0, v = (float((H if x.target == "feature" else W)[x.index]), float((H2 if x.target == "feature" else W2)[x.index]))
        expect(tuple(r[0]) == tuple(x.index) and r[1] == x.target and r[2] == x.constraint_type, "a row belongs to another constraint", row=r)
        expect(abs(r[3] - b0) <= 1e-4 + 1e-5 * abs(b0) and abs(r[5] - v) <= 1e-4 + 1e-5 * abs(v), "wrong base or solution value", row=r, want=(b0, v))
        if x.constraint_type == "set to zero":
            expect(r[4] == 0, "wrong target", row=r)
        elif x.constraint_type == "set to base value":
            expect(abs(r[4] - b0) <= 1e-4 + 1e-5 * abs(b0), "wrong target", row=r)
        elif x.constraint_type == "pull to value":
            expect(r[4] == x.target_values[0] and r[6] == x.target_values[1], "wrong target or limit", row=r)
        elif x.constraint_type == "pull down":
            expect(r[6] == x.target_values, "wrong limit", row=r)
    fi = case["seed"] % k
    ok_h = (H.sum(axis=0) > 1e-9).all() and (H2.sum(axis=0) > 1e-9).all() and (np.abs(H).max() < 1e7)
    if not ok_h:
        return ctx.label("degenerate-profile")
    with shown() as figs:
        cm.plot_profile(fi + 1)
    byname = {d.name: np.asarray(d.y, float) for d in figs[0].data}
    for what, w_, h_ in (("Base", W, H), ("Constrained", W2, H2)):
        share = 100 * h_[fi] / h_.sum(axis=0)
        conc = w_[:, fi].sum() * h_[fi]
        expect(np.allclose(byname[f"{what} % of Features"], share, atol=0.011, rtol=1e-4), f"{what}: wrong shares of the profile", got=byname[f"{what} % of Features"], want=share)
        expect(np.allclose(byname[f"{what} Conc. of Features"], conc, rtol=1e-3, atol=1e-4 * np.abs(w_[:, fi]).sum() * h_[fi].max() + 1e-9),
               f"{what}: wrong concentrations of the profile", got=byname[f"{what} Conc. of Features"], want=conc)
    expect(all(list(d.x) == lab for d in figs[0].data), "the profile plot has other features")
    with shown() as figs:
        cm.plot_factor_fingerprints()
    bars = figs[0].data
    expect(len(bars) == 2 * k, "the fingerprints do not show every factor of both models")
    for d in bars:
        h_ = H if d.hovertext == "Base" else H2
        f = int(d.name.split()[-1]) - 1
        expect(np.allclose(np.asarray(d.y, float), 100 * h_[f] / h_.sum(axis=0), rtol=1e-4, atol=1e-3), "wrong fingerprint", factor=d.name, model=d.hovertext)
    good = all(abs(x.mean()) > 0.02 * np.abs(x).mean() + 1e-12 for x in np.vstack([W.T, W2.T]))
    if good:
        with shown() as figs:
            cm.plot_contributions(fi + 1)
        got = {d.name: d for d in figs[0].data}
        for what, w_ in (("Base", W), ("Constrained", W2)):
            expect(at(got[f"{what} Factor Contributions"], days, w_[:, fi] / w_[:, fi].mean()), f"{what}: wrong contributions", factor=fi + 1)
        f2 = (fi + 1) % k
        with shown() as figs:
            cm.plot_g_space(fi + 1, f2 + 1, show_base=True)
        sc = [d for d in figs[0].data if d.mode == "markers"]
        expect(len(sc) == 2, "the g-space plot does not show both models")
        for d, w_ in zip(sc, (W2, W)):
            g = w_ / w_.mean(axis=0)
            expect(np.allclose(np.asarray(d.x, float), g[:, fi], rtol=1e-3, atol=1e-4) and np.allclose(np.asarray(d.y, float), g[:, f2], rtol=1e-3, atol=1e-4),
                   "the g-space plot shows other contributions")
        expect(f"Factor {fi + 1} " in figs[0].layout.xaxis.title.text and f"Factor {f2 + 1} " in figs[0].layout.yaxis.title.text,
               "the g-space axes name other factors", x=figs[0].layout.xaxis.title.text, y=figs[0].layout.yaxis.title.text)
        j = case["seed"] % n
        with shown() as figs:
            cm.plot_factor_contributions(j + 1, threshold=5.0)
        share = 100 * H2[:, j] / H2[:, j].sum()
        pie = dict(zip(figs[0].data[0].labels, np.asarray(figs[0].data[0]["values"], float)))
        want = {f"Factor {i + 1}": s for i, s in enumerate(share) if s > 5.0}
        expect(any(abs(s - 5) < 1e-3 for s in share) or (sorted(pie) == sorted(want) and all(abs(pie[q] - want[q]) < 1e-3 for q in want)),
               "wrong factor shares of a feature", got=pie, want=want)
        expect(lab[j] in figs[0].layout.title.text, "the shares belong to another feature")
        for d in figs[1].data:
            f = int(d.name.split()[-1]) - 1
            expect(at(d, days, W2[:, f] / W2[:, f].mean()), "the contributions do not average to one", factor=d.name)
    with shown() as figs:
        for bad in (0, k + 1):
            cm.plot_profile_contributions(bad)
            cm.plot_g_space(bad, 1)
            cm.plot_g_space(1, bad)
        for bad in (0, n + 1):
            cm.plot_factor_contributions(bad)
    expect(not figs, "an invalid factor or feature was plotted")
    ctx.label("contributions" if good else "no-contributions", f"{k}-factors")
    ctx.nontrivial(good and k >= 2)


PROP = Prop("C26", [
    Sub("report", s_run, c_run, 500, 10000, "every run re-evaluated from its solution, history and observed pulls; non-trivial = at least two iterations"),
    Sub("show", s_show, c_show, 200, 4000, "tables and plots against both models; non-trivial = several factors whose contributions have a meaningful mean"),
], assumptions=["main losses within 1e-6 of the convergence limit are not judged"])
