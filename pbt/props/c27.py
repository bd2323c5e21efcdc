"""C27: synthetic datasets are what their description says."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import binom

from ..core import Prop, Sub, expect
from ..gen import fast_q, fast_q_robust, seeds, wide
from ..models import listing, scratch, shown
from esat_eval.simulator import Simulator


def s_sim():
    return {"seed": seeds(2 ** 31), "k": wide(1, 5, 10, 12), "n": wide(2, 9, 12, 20), "m": wide(3, 60, 100, 400),
            "outliers": st.booleans(), "p": st.sampled_from([0.0, 0.1, 0.5, 1.0]), "mag": st.sampled_from([2.0, 1.5, 10.0]), "wmax": st.sampled_from([10, 1, 250]),
            "noise": st.sampled_from([(0.0, 0.0), (0.1, 0.12), (0.02, 0.3), (0.3, 0.3)]), "ns": st.sampled_from([0.0, 0.0, 0.02]),
            "unc": st.sampled_from([(0.05, 0.05), (0.04, 0.09), (0.2, 0.3)]), "us": st.sampled_from([0.0, 0.0, 0.01])}


def make(c, **kw):
    a = dict(seed=c["seed"], factors_n=c["k"], features_n=c["n"], samples_n=c["m"], outliers=c["outliers"], outlier_p=c["p"], outlier_mag=c["mag"],
             contribution_max=c["wmax"], noise_mean_min=c["noise"][0], noise_mean_max=c["noise"][1], noise_scale=c["ns"],
             uncertainty_mean_min=c["unc"][0], uncertainty_mean_max=c["unc"][1], uncertainty_scale=c["us"], verbose=False)
    a.update(kw)
    return Simulator(**a)


def custom(c, rows):
    rng = np.random.default_rng(c["seed"] + 5)
    P = rng.random((rows, c["n"]))
    P[rng.random(P.shape) < 0.3] = 0.0
    return P * c["size"]


def judge_data(sim, c, V, U):
    m, n, k = c["m"], c["n"], c["k"]
    W, H = np.asarray(sim.syn_contributions), np.asarray(sim.syn_profiles)
    expect(isinstance(V, pd.DataFrame) and V.shape == (m, n) and U.shape == (m, n), "the datasets have another shape")
    names = [f"Feature {i + 1}" for i in range(n)]
    expect(list(V.columns) == names and list(U.columns) == names and V.index.equals(U.index) and V.index.is_unique and V.index.is_monotonic_increasing,
           "the datasets are not labelled by feature and time")
    expect(m < 2 or set(np.diff(V.index.values)) == {np.timedelta64(60, "s").astype("timedelta64[ns]")}, "the samples are not one minute apart")
    v, u = V.to_numpy(float), U.to_numpy(float)
    wh = W @ H
    expect((v > 0).all() and (u > 0).all(), "data or uncertainty is not positive")
    r = v / wh
    lo, hi = c["noise"]
    s = c["ns"]
    mag, p = (c["mag"], c["p"]) if c["outliers"] else (1.0, 0.0)
    # every cell is (1 +- noise) times 1, mag or 1/mag
    fits = np.zeros((3, m, n), bool)
    eps = 1e-9
    dev = np.zeros((3, m, n))
    for i, f in enumerate((1.0, mag, 1.0 / mag)):
        dev[i] = np.abs(r / f - 1.0)
        fits[i] = (dev[i] >= lo - 7 * s - eps) & (dev[i] <= hi + 7 * s + eps)
    floor = v <= 1e-12
    expect((fits.any(axis=0) | floor).all(), "a cell differs from the product of the factors by more than noise and outliers explain", ratio=r[~fits.any(axis=0)][:3],
           noise=(lo, hi, s), mag=mag)
    if mag > 1 and (hi + 7 * s) < 0.19 * (1 if mag < 2 else 1.5):
        # the three kinds cannot be mistaken for each other
        count = m * n
        up, down = int((fits[1] & ~fits[0]).sum()), int((fits[2] & ~fits[0]).sum())
        for got, what in ((up, "increased"), (down, "decreased")):
            a, b = binom.ppf(1e-8, count, p / 2), binom.ppf(1 - 1e-8, count, p / 2)
            expect(a <= got <= b or (p == 0 and got == 0), f"the share of {what} outliers is not half of outlier_p", got=got, cells=count, p=p)
    if not c["outliers"] or p == 0.0:
        expect((fits[0] | floor).all(), "there are outliers although there should be none")
        if s == 0:
            d = dev[0]
            expect(np.allclose(d, d[0], atol=1e-9, rtol=1e-7), "the noise level differs within a feature although its scale is zero")
            sound = ~floor.any(axis=0)
            expect(sound.sum() < 2 or hi == lo or np.ptp(d[0][sound]) > 1e-7 * (hi - lo), "every feature has the same noise level", level=d[0][sound][:3], range=(lo, hi))
        if m * n >= 60 and lo > 0.05 and s <= 0.02:
            up = int((r > 1).sum())
            expect(binom.ppf(1e-9, m * n, 0.5) <= up <= binom.ppf(1 - 1e-9, m * n, 0.5), "noise does not go both ways alike", up=up, cells=m * n)
    q = u / v
    a, b = c["unc"]
    expect(((q >= a - 7 * c["us"] - eps) & (q <= b + 7 * c["us"] + eps) | floor | (u <= 1e-4)).all(), "the uncertainty is not the given share of the data", share=(q.min(), q.max()),
           want=(a, b, c["us"]))
    if c["us"] == 0:
        sound = ~(floor | (u <= 1e-4)).any(axis=0)
        expect(sound.sum() < 2 or a == b or np.ptp(q[0][sound]) > 1e-7 * (b - a), "every feature has the same uncertainty share", share=q[0][sound][:3], range=(a, b))
        for j in range(n):
            x = q[~floor[:, j] & (u[:, j] > 1e-4), j]
            expect(len(x) == 0 or np.allclose(x, x[0], rtol=1e-7), "the uncertainty share differs within a feature although its scale is zero")
    sa = sim.syn_sa
    V32, U32 = np.asarray(sa.V, float), np.asarray(sa.U, float)
    expect(np.allclose(V32, v, rtol=1e-5) and np.allclose(U32, u, rtol=1e-5) and np.array_equal(sa.W, W) and np.array_equal(sa.H, H) and np.allclose(sa.WH, wh, rtol=1e-5)
           and sa.factors == k, "the synthetic model does not hold the synthetic data and factors")
    qt, qr = fast_q(V32, U32, W, H), fast_q_robust(V32, U32, W, H)
    expect(np.ndim(sa.Qtrue) == 0 and np.ndim(sa.Qrobust) == 0, "the losses of the synthetic model are not numbers", robust=sa.Qrobust)
    expect(abs(float(sa.Qtrue) - qt) <= 1e-3 * qt + 1e-6 and abs(float(sa.Qrobust) - qr) <= 1e-3 * qr + 1e-6, "wrong losses of the synthetic model",
           got=(sa.Qtrue, sa.Qrobust), want=(qt, qr))
    expect(np.array_equal(sim.syn_profiles_df.to_numpy(), H.T) and np.array_equal(sim.syn_contributions_df.to_numpy(), W), "the factor tables are not the synthetic factors")


def s_data():
    return st.fixed_dictionaries(dict(s_sim(), custom=st.sampled_from(["no", "no", "full", "part"]), size=st.sampled_from([1.0, 1.0, 40.0, 0.01])))


def c_data(case, ctx):
    c = case
    sim = make(c)
    W, H = np.array(sim.syn_contributions), np.array(sim.syn_profiles)
    expect(W.shape == (c["m"], c["k"]) and H.shape == (c["k"], c["n"]), "the factors have other shapes than asked for")
    expect((W >= 0).all() and (W <= c["wmax"]).all(), "contributions are outside of [0, contribution_max]", max=W.max(), limit=c["wmax"])
    expect((H > 0).all() and (H <= 1).all() and (H.max(axis=0) > 1e-9).all(), "profiles are not in [0, 1], or a feature has no source")
    if W.size >= 60:
        expect(W.max() > 0.6 * c["wmax"], "contributions do not use their range", max=W.max(), limit=c["wmax"])
    if c["custom"] != "no":
        rows = c["k"] if c["custom"] == "full" else max(1, c["k"] - 1)
        P = custom(c, rows)
        keep = P.copy()
        sim.generate_profiles(profiles=P)
        expect(np.array_equal(P, keep), "the given profiles were modified")
        H = np.array(sim.syn_profiles)
        expect(H.shape == (c["k"], c["n"]) and np.array_equal(H[:rows], np.where(keep <= 0, 1e-12, keep)), "the given profiles are not used", got=H[:rows], want=keep)
        expect((H > 0).all() and (H[rows:] <= 1).all(), "profiles are not in [0, 1]")
    V, U = sim.get_data()
    expect(np.array_equal(sim.syn_contributions, W) and np.array_equal(sim.syn_profiles, H), "generating the data changed the factors")
    judge_data(sim, c, V, U)
    again = make(c)
    if c["custom"] != "no":
        again.generate_profiles(profiles=custom(c, rows))
    V2, U2 = again.get_data()
    expect(np.array_equal(V.to_numpy(), V2.to_numpy()) and np.array_equal(U.to_numpy(), U2.to_numpy()), "the same seed gives other data")
    if c["custom"] == "no":
        for s in {c["seed"] + 1, 0, 42} - {c["seed"]}:
            expect(not np.array_equal(make(dict(c, seed=s)).syn_contributions, W), "another seed gives the same contributions", seeds=(c["seed"], s))
    with shown() as figs:
        sim.plot_synthetic_contributions()
    expect(len(figs) == 1 and len(figs[0].data) == c["k"] and all(np.array_equal(np.asarray(d.y, float), W[:, i]) and d.name == f"Factor {i + 1}"
                                                                  for i, d in enumerate(figs[0].data)), "the contribution plot shows other values")
    ctx.label(c["custom"], "outliers" if c["outliers"] else "clean")
    ctx.nontrivial(c["m"] * c["n"] >= 30)


def s_curve():
    cv = st.fixed_dictionaries({"f": st.integers(0, 11), "type": st.sampled_from(["increasing", "decreasing", "logistic", "periodic", "uniform"]),
                                "scale": st.sampled_from([0.0, 0.0, 0.1]), "freq": st.sampled_from([0.5, 0.1, 0.25, 0.9, 1.0, 2.0]),
                                "lo": st.sampled_from([0.1, 0.5, 3.0]), "hi": st.sampled_from([1.0, 0.9, 8.0]), "swap": st.booleans()})
    return st.fixed_dictionaries(dict(s_sim(), curves=st.lists(cv, min_size=1, max_size=3), early=st.booleans()))


def c_curve(case, ctx):
    c = case
    sim = make(c)
    if c["early"]:
        sim.get_data()
    W = np.array(sim.syn_contributions)
    H = np.array(sim.syn_profiles)
    exact = 0
    for q in c["curves"]:
        f = q["f"] % c["k"]
        lo, hi = sorted((q["lo"], q["hi"]))
        a, b = (hi, lo) if q["swap"] else (lo, hi)
        sim.update_contribution(factor_i=f, curve_type=q["type"], scale=q["scale"], frequency=q["freq"], minimum=a, maximum=b)
        W2 = np.asarray(sim.syn_contributions)
        rest = [i for i in range(c["k"]) if i != f]
        expect(W2.shape == W.shape and np.array_equal(W2[:, rest], W[:, rest]), "another factor was changed", curve=q["type"])
        y = np.array(W2[:, f])
        s = 7 * q["scale"]
        expect((y > 0).all() and np.isfinite(y).all(), "a contribution is not positive", curve=q["type"])
        expect((y >= lo - s - 1e-9).all() and (y <= hi + s + 1e-9).all() or (y < 1e-9).any(), "a contribution is outside of [minimum, maximum]", curve=q["type"], freq=q["freq"],
               got=(y.min(), y.max()), want=(lo, hi), scale=q["scale"])
        if q["scale"] == 0.0:
            exact += 1
            m = c["m"]
            if q["type"] in ("increasing", "decreasing"):
                want = np.linspace(lo, hi, m) if q["type"] == "increasing" else np.linspace(hi, lo, m)
                expect(np.allclose(y, want, rtol=1e-9), "the curve does not go evenly from one end to the other", curve=q["type"])
            elif q["type"] == "logistic":
                periods = int(1.0 / q["freq"]) + 1
                if periods <= m // 4 or (periods == 1 and m > 1):
                    expect(abs(y[0] - lo) <= 1e-6, "the logistic curve does not start at the minimum", got=y[0], want=lo)
                    expect(y.max() > hi - 0.05 * (hi - lo), "the logistic curve does not reach the maximum", got=y.max(), want=hi)
            elif q["type"] == "periodic":
                periods = int(1.0 / q["freq"]) + 1
                L = m // periods
                expect(abs(y.min() - lo) <= 1e-9, "the periodic curve does not reach the minimum", got=y.min(), want=lo)
                if L >= 4:
                    d = L - 1
                    expect(np.allclose(y[d:], y[:-d], atol=1e-9), "the periodic curve does not repeat", period=d)
                if L >= 12:
                    expect(y.max() > hi - 0.1 * (hi - lo), "the periodic curve does not reach the maximum", got=y.max(), want=hi)
            else:
                expect(m < 30 or (y.max() - y.min() > 0.5 * (hi - lo)), "the uniform contributions do not use their range")
        W = np.array(W2)
        if c["early"]:
            judge_data(sim, c, sim.syn_data_df, sim.syn_uncertainty_df)
    V, U = sim.get_data()
    expect(np.array_equal(sim.syn_contributions, W) and np.array_equal(sim.syn_profiles, H), "generating the data changed the factors")
    judge_data(sim, c, V, U)
    for q in c["curves"]:
        ctx.label(q["type"])
    ctx.nontrivial(exact >= 1 and c["m"] >= 6)


def s_file():
    return st.fixed_dictionaries(dict(s_sim(), name=st.sampled_from(["synthetic", "x y", "a.b"])))


def c_file(case, ctx):
    c = case
    sim = make(c)
    V, U = sim.get_data()
    with scratch() as d:
        expect(sim.save(sim_name=c["name"], output_directory=d) is True, "saving failed")
        want = {"esat_simulator.pkl"} | {f"{c['name']}_{x}.csv" for x in ("data", "uncertainty", "profiles", "contributions")}
        expect(set(listing(d)) == want, "other files were saved", got=sorted(listing(d)))
        for x, df in (("data", V), ("uncertainty", U), ("profiles", sim.syn_profiles_df), ("contributions", sim.syn_contributions_df)):
            got = pd.read_csv(os.path.join(d, f"{c['name']}_{x}.csv"), index_col=0)
            expect(list(got.columns) == list(df.columns) and np.allclose(got.to_numpy(float), df.to_numpy(float), rtol=1e-12, atol=0), f"the saved {x} differ")
        back = Simulator.load(os.path.join(d, "esat_simulator.pkl"))
        expect(back is not None and back.syn_data_df.equals(V) and back.syn_uncertainty_df.equals(U) and np.array_equal(back.syn_profiles, sim.syn_profiles)
               and np.array_equal(back.syn_contributions, sim.syn_contributions), "the loaded simulator differs")
        a, b = back.get_data(), sim.get_data()
        expect(a[0].equals(b[0]) and a[1].equals(b[1]), "the loaded simulator continues differently")
        expect(Simulator.load(os.path.join(d, "missing.pkl")) is None, "a missing file was loaded")
        with open(os.path.join(d, "bad.pkl"), "wb") as f:
            f.write(b"no pickle")
        expect(Simulator.load(os.path.join(d, "bad.pkl")) is None, "a broken file was loaded")
        expect(sim.save(sim_name=c["name"], output_directory=os.path.join(d, "no")) is False and not os.path.exists(os.path.join(d, "no")), "saving to a missing directory succeeded")
    expect(Simulator.load("relative.pkl") is None and sim.save(sim_name="q", output_directory="relative") is False, "a relative path was accepted")
    ctx.nontrivial(c["m"] >= 5)


PROP = Prop("C27", [
    Sub("data", s_data, c_data, 500, 10000, "every cell explained by factors, noise and outliers; non-trivial = at least 30 cells"),
    Sub("curves", s_curve, c_curve, 500, 10000, "contributions following curves; non-trivial = a curve without scatter and at least six samples"),
    Sub("files", s_file, c_file, 60, 1200, "save and load; non-trivial = at least five samples"),
], assumptions=["random shares are judged by binomial limits with an error probability of 1e-8; normal scatter by seven standard deviations",
                "for factor profiles at 1e-12 (no source) the product of the factors can be tiny, such cells are still judged relative to the product"])
