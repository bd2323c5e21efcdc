"""C07: holding the profiles fixed during training."""
import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import close, problem, recipe, wide, seeds
from esat.model.sa import SA


def s_hold():
    return st.fixed_dictionaries({
        "p": st.one_of(recipe(big=True, min_m=3, min_n=3), recipe(big=True, min_m=3, min_n=3, neg=True)), "factors": wide(1, 3, 10, 12),
        "seed": seeds(), "method": st.sampled_from(["ls-nmf", "ws-nmf"]),
        "delay": st.integers(1, 10), "extra": st.integers(1, 6), "iters": st.integers(1, 15), "wide": st.booleans(), "nodelay": st.sampled_from([{}, {"delay_h": -1}, {"delay_h": 0}])})


# never converges, neither by the limit nor by the window
OFF = dict(converge_delta=-1e30, converge_n=1000)
WIDE = dict(converge_delta=1e30, converge_n=1000)


def c_hold(case, ctx):
    c = case["p"]
    V, U, rng = problem(c)
    f = max(1, min(case["factors"], c["n"] - 1))
    H0 = rng.gamma(1, 1, (f, c["n"])) + 0.01
    W0 = rng.gamma(1, 1, (c["m"], f)) + 0.01

    def start():
        sa = SA(V=V, U=U, factors=f, method=case["method"], seed=case["seed"])
        sa.initialize(H=H0.copy(), W=W0.copy())
        return sa
    # held throughout
    a = start()
    off = WIDE if case["wide"] else OFF
    a.train(max_iter=case["iters"], hold_h=True, **off, **case["nodelay"])
    expect(np.array_equal(a.H, H0), "profiles changed although they were held for the whole run", iters=case["iters"])
    expect(len(a.q_list) == case["iters"], "held run did not use its iterations")
    # held for `delay` further iterations after the first, then released
    d = case["delay"]
    b = start()
    b.train(max_iter=d + 1, hold_h=True, delay_h=d, **off)
    expect(np.array_equal(b.H, H0), "profiles were released before the requested delay was over", delay=d)
    e = start()
    e.train(max_iter=d + 1 + case["extra"], hold_h=True, delay_h=d, **off)
    # reference: held run of d+1 iterations followed by a free run
    r = start()
    r.train(max_iter=d + 1, hold_h=True, **OFF)
    held_w = np.array(r.W)
    r.train(max_iter=case["extra"], **OFF)
    if not (np.all(np.isfinite(np.asarray(r.H, float)))):
        ctx.label("nonfinite")
        return
    expect(np.array_equal(b.W, held_w), "a delayed run differs from a held run during the delay")
    expect(np.array_equal(e.H, r.H) and np.array_equal(e.W, r.W),
           "after the delay the run does not continue as a normal one", delay=d, extra=case["extra"])
    free_moves = not np.array_equal(r.H, H0)
    w_moves = not np.array_equal(held_w, W0)
    expect(w_moves or np.allclose(np.asarray(held_w, float), W0), "contributions did not move")
    # without hold the profiles are updated from the first iteration on
    n = start()
    n.train(max_iter=1, **OFF)
    g = start()
    g.train(max_iter=1, hold_h=False, delay_h=-1, **OFF)
    expect(np.array_equal(n.H, g.H), "default settings hold the profiles")
    if free_moves:
        expect(not np.array_equal(e.H, H0), "profiles were never released after the delay")
    ctx.label(case["method"], "neg" if (V < 0).any() else "nonneg")
    ctx.nontrivial(free_moves and w_moves)


def s_improve():
    return st.fixed_dictionaries({"p": recipe(big=True, min_m=3, min_n=3), "factors": wide(1, 3, 10, 12), "iters": st.integers(1, 15)})


def c_improve(case, ctx):
    """With known profiles held, ls-nmf contributions only improve the loss, and reach the known ones' loss or better."""
    c = case["p"]
    V, U, rng = problem(c)
    f = case["factors"]
    H0 = rng.gamma(1, 1, (f, c["n"])) + 0.01
    W0 = rng.gamma(1, 1, (c["m"], f)) + 0.01
    sa = SA(V=V, U=U, factors=f, method="ls-nmf")
    sa.initialize(H=H0.copy(), W=W0.copy())
    sa.train(max_iter=case["iters"], hold_h=True, **OFF)
    q = np.asarray(sa.q_list, float)
    noise = 1e-5 * float(np.sum(((np.abs(V) + np.asarray(sa.W) @ H0) / U) ** 2))
    for i in range(1, len(q)):
        expect(q[i] <= q[i - 1] * (1 + 1e-4) + noise, "the loss increased with held profiles", iteration=i,
               before=float(q[i - 1]), after=float(q[i]))
    ctx.nontrivial(len(q) > 1 and q[-1] < q[0])


PROP = Prop("C07", [
    Sub("hold", s_hold, c_hold, 1600, 40000, "held / delayed / free runs from one start, both methods; non-trivial = "
        "profiles and contributions move when free"),
    Sub("improve", s_improve, c_improve, 800, 15000, "held ls-nmf run; non-trivial = the loss fell"),
])
