"""C24: what a constraint does to its element."""
import numpy as np
from hypothesis import strategies as st

from ..cm import build, elem, finite, noise, previous, s_base, s_elem
from ..core import Prop, Sub, expect
from ..gen import fast_q, many

TYPES = ["pull down", "pull up", "pull to value", "set to zero", "set to base value", "define limits"]


def s_con():
    con = st.fixed_dictionaries(dict(s_elem(), type=st.sampled_from(TYPES + ["pull down", "pull up", "pull to value"]),
                                     dq=st.sampled_from([0.5, 3.0, 25.0, 300.0, 5000.0]), a=st.sampled_from([0.0, 0.2, 0.9, 1.1, 3.0]),
                                     b=st.sampled_from([0.05, 0.5, 4.0])))
    return many(st.fixed_dictionaries(dict(s_base(), cons=st.lists(con, min_size=1, max_size=3), train=st.integers(1, 5))))


def q_with(V, U, W, H, target, index, v):
    W, H = np.array(W, np.float64), np.array(H, np.float64)
    if target == "feature":
        H[index] = v
    else:
        W[index] = v
    return fast_q(V, U, W, H), noise(V, U, W, H)


def judge_pull(kind, V, U, W, H, target, index, cur, new, dq, goal):
    """One pull. Returns True if the size of the loss change was judged."""
    q0 = fast_q(V, U, W, H)
    n0 = noise(V, U, W, H)

    def change(v):
        q, n = q_with(V, U, W, H, target, index, v)
        return abs(q - q0), n + n0

    got, n = change(new)
    step = 3e-7 * max(abs(cur), abs(new)) + (3e-7 * abs(goal - cur) + 3e-8 if goal is not None else 3e-8)
    around = [change(max(new + k * step, 0.0))[0] for k in (1, 0.5, -0.5, -1)] + [got] + [0.0] * (abs(new - cur) <= step)
    lo, hi = min(around), max(around)
    info = dict(type=kind, target=target, index=index, current=cur, pulled=new, change=got, dQ=dq, noise=n)
    if n > 1e9 or not np.isfinite(got):
        return False
    if kind == "pull to value":
        at_goal, ng = change(goal)
        if at_goal < dq - 2 * (n + ng):
            expect(abs(new - goal) <= 1e-6 * abs(goal) + 1e-6 * abs(cur), "a value within the allowed loss change was not pulled to its target", goal=goal, **info)
            return True
        a, b = min(cur, goal), max(cur, goal)
        expect(a - step <= new <= b + step, "the pulled value is not between the current value and the target", goal=goal, **info)
        if at_goal <= dq + 2 * (n + ng):
            return False
    elif kind == "pull down":
        expect(new <= cur + step and new >= 0, "pulling down raised the value (or made it negative)", **info)
    else:
        expect(new >= cur - step, "pulling up lowered the value", **info)
    expect(lo <= dq + n, "a pull changed the loss by more than its limit", **info)
    if n > 2e-3:
        return False
    if hi >= dq - 0.01 - n:
        return True
    if kind == "pull down":
        expect(new <= 2e-8 * cur + 2e-8, "pulling down stopped before the limit", **info)
        return True
    if kind == "pull up":
        expect(new >= cur * 2 ** 25, "pulling up stopped before the limit", **info)
        return False
    expect(False, "pulling to a value stopped before the limit and the target", goal=goal, **info)


def c_con(case, ctx):
    b = build(case)
    if b is None:
        return ctx.label("degenerate-base")
    sa, cm, rec = b
    V, U = np.asarray(sa.V, np.float64), np.asarray(sa.U, np.float64)
    added = []
    for c in case["cons"]:
        target, index = elem(c, sa)
        base = float(sa.H[index] if target == "feature" else sa.W[index])
        lo, hi = c["a"] * abs(base), (c["a"] + c["b"]) * abs(base)
        kw = {"pull down": {"dQ": c["dq"]}, "pull up": {"dQ": c["dq"]}, "pull to value": {"target_value": lo, "dQ": c["dq"]},
              "define limits": {"min_value": lo, "max_value": hi}}.get(c["type"], {})
        if any(x[:2] == (target, index) for x in added):
            expect(not cm.add_constraint(c["type"], index, target, **kw), "a second constraint on one element was accepted", index=index)
            continue
        expect(cm.add_constraint(c["type"], index, target, **kw), "a valid constraint was refused", type=c["type"], target=target, index=index)
        added.append((target, index, c["type"], c["dq"], lo, hi, base))
    cm.train(max_iterations=case["train"], converge_delta=1e-9, converge_n=50)
    if not rec.steps:
        return ctx.label("unobserved")
    if not finite(rec):
        return ctx.label("degenerate-run")
    judged = 0
    for i, (w, h, w2, h2) in enumerate(rec.steps):
        W, H = previous(sa, rec, i)
        mw, mh = np.ones(W.shape, bool), np.ones(H.shape, bool)
        for target, index, kind, dq, lo, hi, base in added:
            cur = float(H[index] if target == "feature" else W[index])
            new = float(h[index] if target == "feature" else w[index])
            (mh if target == "feature" else mw)[index] = False
            tol = 1e-6 * (abs(cur) + abs(new) + abs(base))
            info = dict(iteration=i, target=target, index=index, current=cur, pulled=new, base=base)
            if kind == "set to zero":
                expect(abs(new) <= 1e-6 * abs(cur), "an element set to zero is not zero", **info)
                judged += 1
            elif kind == "set to base value":
                expect(abs(new - base) <= tol, "an element set to its base value has another value", **info)
                judged += i > 0
            elif kind == "define limits":
                want = min(max(cur, lo), hi)
                expect(abs(new - want) <= tol + 1e-6 * hi + 1e-12, "an element with limits is not the nearest value within them", want=want, limits=(lo, hi), **info)
                judged += 1
            elif cur > 1e-6:
                judged += judge_pull(kind, V, U, W, H, target, index, cur, new, dq, lo if kind == "pull to value" else None)
            ctx.label(kind)
        expect(np.array_equal(w[mw], W[mw]) and np.allclose(h[mh], np.abs(H[mh]), rtol=0, atol=0),
               "elements without a constraint were changed before the update", iteration=i)
    if sa.method == "ls-nmf" and V.min() >= 0:
        for target, index, kind, *_ in added:
            if kind == "set to zero":
                v = float((cm.constrained_model.H if target == "feature" else cm.constrained_model.W)[index])
                expect(abs(v) <= 1e-11, "an element set to zero is not zero in the solution", target=target, index=index, value=v)
    ctx.label(sa.method, "judged" if judged else "not-judged")
    ctx.nontrivial(judged >= 1)


PROP = Prop("C24", [
    Sub("effects", s_con, c_con, 900, 20000, "every pull of every iteration, seen at the input of the update; non-trivial = at least one was judged in size"),
], assumptions=["loss changes are judged to within float32 rounding of the loss; pulls of elements which are (nearly) zero or negative are not judged"])
