"""C25: expressions pull the named elements within their loss budget."""
import numpy as np
from hypothesis import strategies as st
from scipy import optimize

from ..cm import build, finite, noise, previous, s_base, s_elem
from ..core import KnownFinding, Prop, Sub, expect
from ..gen import fast_q, many
from ..models import shown

COEF = ["0.5", "1.0", "2.0", "0.66", "4.2", "10.7", "3", "-0.25"]


def s_exp(dqs):
    term = st.fixed_dictionaries(dict(s_elem(), c=st.sampled_from(COEF), op=st.sampled_from(["-", "-", "+"])))
    ex = st.fixed_dictionaries({"terms": st.lists(term, min_size=2, max_size=4), "dq": st.sampled_from(dqs)})
    return many(st.fixed_dictionaries(dict(s_base(neg=False), exps=st.lists(ex, min_size=1, max_size=3), train=st.integers(1, 4), con=st.booleans())))


def key_of(e, sa):
    f = e["f"] % sa.factors
    return ("feature", f, e["x"] % sa.n) if e["target"] == "feature" else ("sample", f, e["x"] % sa.m)


def expressions(case, sa):
    """[(string, [(key, signed coefficient)], dq)], the coefficients of a repeated element added up."""
    out = []
    for e in case["exps"]:
        terms, text = [], ""
        for t in e["terms"]:
            k = key_of(t, sa)
            op = t["op"] if terms else ""
            c = float(t["c"]) * (-1.0 if op == "-" else 1.0)
            old = next((i for i, x in enumerate(terms) if x[0] == k), None)
            if old is None:
                terms.append((k, c))
            else:
                terms[old] = (k, terms[old][1] + c)
            text += f"{op}({t['c']}*[factor:{k[1]}|{k[0]}:{k[2]}])"
        out.append((f"{text}=0,{e['dq']}", terms, float(e["dq"])))
    return out


def at(W, H, k):
    return float(H[k[1], k[2]] if k[0] == "feature" else W[k[2], k[1]])


def setup(case, ctx):
    b = build(case)
    if b is None:
        ctx.label("degenerate-base")
        return None
    sa, cm, rec = b
    exps = expressions(case, sa)
    for text, _, _ in exps:
        expect(cm.add_expression(text), "an expression was refused", expression=text)
    return sa, cm, rec, exps


def c_pull(case, ctx):
    s = setup(case, ctx)
    if s is None:
        return
    sa, cm, rec, exps = s
    con = None
    if case["con"]:
        con = exps[0][1][0][0]
        expect(cm.add_constraint("set to zero", (con[1], con[2]) if con[0] == "feature" else (con[2], con[1]), con[0]), "a constraint was refused")
    cm.train(max_iterations=case["train"], converge_delta=1e-9, converge_n=50)
    if not rec.steps:
        return ctx.label("unobserved")
    if not finite(rec):
        return ctx.label("degenerate-run")
    V, U = np.asarray(sa.V, np.float64), np.asarray(sa.U, np.float64)
    budget = sum(e[2] for e in exps)
    keys = list(dict.fromkeys(k for e in exps for k, _ in e[1]))
    moved = 0
    for i, (w, h, _, _) in enumerate(rec.steps):
        W, H = previous(sa, rec, i)
        if con is not None:
            expect(at(w, h, con) == 0, "a constraint on an element of an expression was not applied", iteration=i)
            if con[0] == "feature":
                h = h.copy()
                h[con[1], con[2]] = H[con[1], con[2]]
            else:
                w = w.copy()
                w[con[2], con[1]] = W[con[2], con[1]]
        mw, mh = np.ones(W.shape, bool), np.ones(H.shape, bool)
        for k in keys:
            if k[0] == "feature":
                mh[k[1], k[2]] = False
            else:
                mw[k[2], k[1]] = False
        expect(np.array_equal(w[mw], W[mw]) and np.array_equal(h[mh], np.abs(H[mh])), "elements outside of the expressions were changed before the update",
               iteration=i, expressions=[e[0] for e in exps])
        here = any(at(w, h, k) != at(W, H, k) for k in keys)
        if here:
            moved += 1
            if con is None:
                n = noise(V, U, w, h) + noise(V, U, W, H)
                got = fast_q(V, U, w, h) - float(sa.Qtrue)
                expect(got <= budget + n, "the pull of the expressions changed the loss by more than the sum of their limits", change=got, budget=budget,
                       iteration=i, expressions=[e[0] for e in exps])
            expect(all(at(w, h, k) >= 0 for k in keys), "a pulled element is negative", iteration=i)
    ctx.label(f"{len(exps)}-expressions", "moved" if moved else "unmoved")
    ctx.nontrivial(moved >= 1)


def c_solve(case, ctx):
    """With an ample budget the pulled elements solve the expressions."""
    s = setup(dict(case, train=1), ctx)
    if s is None:
        return
    sa, cm, rec, exps = s
    cm.train(max_iterations=1)
    if not rec.steps or not finite(rec):
        return ctx.label("unobserved")
    w, h = rec.steps[0][:2]
    keys = list(dict.fromkeys(k for e in exps for k, _ in e[1]))
    A = np.zeros((len(exps), len(keys)))
    for i, (_, terms, _) in enumerate(exps):
        for k, c in terms:
            A[i, keys.index(k)] += c
    cur = np.array([at(sa.W, sa.H, k) for k in keys])
    new = np.array([at(w, h, k) for k in keys])
    if np.array_equal(cur, new):
        return ctx.label("unmoved")
    if fast_q(sa.V, sa.U, w, h) > 1e-3 * sum(e[2] for e in exps):
        return ctx.label("over-budget")
    scale = np.abs(A).sum(axis=1) * max(np.abs(new).max(), 1e-8)
    if np.all(np.abs(A @ new) <= 1e-4 * scale + 1e-7):
        ctx.nontrivial(True)
        return ctx.label("balanced")
    B = np.array([sum(at(sa.W, sa.H, k) for k, _ in terms) for _, terms, _ in exps])
    top = max(B.max(), 0)
    best = optimize.lsq_linear(A, B, bounds=(1e-8, top)).x if top > 1e-8 else cur
    # the reflective solver at times stops short of a solution on the edge of the bounds
    r, r0 = np.linalg.norm(A @ new - B), np.linalg.norm(A @ best - B)
    expect(np.all(new <= top * (1 + 1e-6) + 1e-7) and r <= r0 + 0.2 * np.linalg.norm(B) + 1e-7,
           "the pulled elements solve neither the expressions nor what they are known to be solved for", expressions=[e[0] for e in exps],
           pulled=new.tolist(), residual=(A @ new).tolist(), current=cur.tolist())
    raise KnownFinding("C25-expression-total", "the weighted sum is pulled to the sum of the elements, not to zero")


def cells(fig):
    t = fig.data[0]
    names = list(t.header["values"])
    return names, [list(c) for c in t.cells["values"]]


def c_eval(case, ctx):
    s = setup(case, ctx)
    if s is None:
        return
    sa, cm, rec, exps = s
    cm.train(max_iterations=case["train"], converge_delta=1e-9, converge_n=50)
    if not finite(rec) or cm.constrained_model is None:
        return ctx.label("degenerate-run")
    with shown() as figs:
        cm.evaluate_expressions()
    expect(len(figs) == 2, "the evaluation does not show an element table and an expression table", n=len(figs))
    names, cols = cells(figs[0])
    expect(names == ["Index", "Target", "Base Value", "Solution Value"], "other element columns", got=names)
    rows = list(zip(*cols))
    keys = list(dict.fromkeys(k for e in exps for k, _ in e[1]))
    expect(len(rows) == len(keys), "the element table does not have one row per element", rows=len(rows), elements=keys)
    W2, H2 = cm.constrained_model.W, cm.constrained_model.H
    for k in keys:
        mine = [r for r in rows if r[1] == k[0] and tuple(r[0]) == (k[1], k[2])]
        expect(len(mine) == 1, "an element is missing from the table", element=k, rows=rows)
        b, v = at(sa.W, sa.H, k), at(W2, H2, k)
        expect(abs(mine[0][2] - b) <= 1e-4 + 1e-5 * abs(b) and abs(mine[0][3] - v) <= 1e-4 + 1e-5 * abs(v), "wrong values of an element", element=k, got=mine[0],
               want=(b, v))
    names, cols = cells(figs[1])
    rows = list(zip(*cols))
    expect(len(rows) == len(exps), "the expression table does not have one row per expression")
    top = max(len(e[1]) for e in exps)
    expect(names == [f"Term {i + 1}" for i in range(top)] + ["dQ", "Base Eval", "Solution Eval"], "other expression columns", got=names)
    for row, (text, terms, dq) in zip(rows, exps):
        for cell, (k, c) in zip(row, terms):
            lab = f"factor:{k[1]}|{k[0]}:{k[2]}"
            expect(lab in str(cell) and str(c) in str(cell), "a term of an expression is shown wrongly", got=cell, want=(c, lab))
        b = sum(c * at(sa.W, sa.H, k) for k, c in terms)
        v = sum(c * at(W2, H2, k) for k, c in terms)
        tol = sum(abs(c) * (abs(at(sa.W, sa.H, k)) + abs(at(W2, H2, k))) for k, c in terms) * 1e-5 + 1e-4
        expect(float(row[-3]) == dq, "wrong limit of an expression", got=row[-3], want=dq)
        expect(abs(row[-2] - b) <= tol, "wrong value of an expression in the base model", got=row[-2], want=b, expression=text)
        expect(abs(row[-1] - v) <= tol, "wrong value of an expression in the solution", got=row[-1], want=v, expression=text)
    ctx.label(f"{len(exps)}-expressions")
    ctx.nontrivial(len(keys) >= 2)


SMALL = ["0.5", "5", "60", "250", "2000", "50000"]
PROP = Prop("C25", [
    Sub("pull", lambda: s_exp(SMALL), c_pull, 500, 10000, "the matrices handed to the update; non-trivial = the expressions moved something"),
    Sub("solve", lambda: s_exp(["1e12", "1e13"]), c_solve, 300, 6000, "an ample budget, so that the elements are pulled all the way; non-trivial = the expressions are solved"),
    Sub("table", lambda: s_exp(SMALL), c_eval, 300, 6000, "the evaluation tables against the models; non-trivial = at least two elements"),
], assumptions=["expressions as documented: terms in parentheses without spaces",
                "the value an expression is solved for is a known finding; with it the elements are checked to solve the equations as they are known to be solved"])
