"""C37: an argument which is left out means its published default."""
import contextlib
import io
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import SEEDS, problem, recipe
from ..models import frames, handler, inline_pool, labels, listing, scratch, shown, trained_sa, usable
from .c29 import model as catalog_model
from esat.data.analysis import ModelAnalysis
from esat.data.datahandler import DataHandler
from esat.data.impute import DataImputer
from esat.error.bootstrap import Bootstrap
from esat.error.bs_disp import BSDISP
from esat.error.displacement import Displacement
from esat.estimator import FactorEstimator
from esat.metrics import qr_loss
from esat.model.batch_sa import BatchSA
from esat.model.sa import SA
from esat.rotational.constrained import ConstrainedModel
from esat_eval.factor_catalog import FactorCatalog
from esat_eval.perturbation import Perturbation
from esat_eval.simulator import Simulator


def plain(x):
    """What an object holds, as nested lists of numbers and texts."""
    if isinstance(x, SA):
        return [plain(x.W), plain(x.H), plain(x.Qtrue), plain(x.Qrobust), bool(x.converged), x.converge_steps, x.method, plain(x.q_list)]
    if isinstance(x, pd.DataFrame):
        return [[str(c) for c in x.columns], [str(i) for i in x.index], [plain(x[c].tolist()) for c in x.columns]]
    if isinstance(x, dict):
        return [[str(k), plain(v)] for k, v in x.items()]
    if isinstance(x, np.ndarray):
        return [list(x.shape), [plain(v) for v in x.ravel().tolist()]]
    if isinstance(x, (list, tuple, set)):
        return [plain(v) for v in x]
    if isinstance(x, (float, np.floating)):
        return "nan" if np.isnan(x) else float(x)
    if isinstance(x, (np.integer, np.bool_)):
        return x.item()
    if x is None or isinstance(x, (int, str, bool, bytes)):
        return x
    return str(x)


def figure(f):
    out = []
    for t in f.data:
        j = t.to_plotly_json()
        out.append([t.type, t.name, [[k, plain(j[k])] for k in ("x", "y", "z", "nbinsx", "xbins", "labels", "values", "parents", "r", "theta") if j.get(k) is not None]])
    return out


# Each part: {argument: (published default, other values)} and a function giving what is observed for given arguments. Arguments
# are named group.name; those of one call share a group.
def g(kw, group):
    return {k.split(".", 1)[1]: v for k, v in kw.items() if k.startswith(group + ".")}


def run_sa(c, kw):
    V, U, _ = problem(c["p"])
    sa = SA(V=V, U=U, factors=min(2, c["p"]["n"] - 1), **g(kw, "new"))
    w = h = None
    if g(kw, "init") or not c["lazy"]:        # training starts an uninitialised model by itself
        sa.initialize(**g(kw, "init"))
    if not c["lazy"]:
        w, h = plain(sa.W), plain(sa.H)
    sa.train(**g(kw, "train"))
    return [w, h, plain(sa)]


SA_ARGS = {"new.method": ("ls-nmf", ["ws-nmf"]), "new.seed": (42, [1, 43]), "init.init_method": ("column_mean", ["kmeans"]), "init.init_norm": (True, [False]),
           "train.max_iter": (20000, [30, 150]), "train.converge_delta": (0.1, [0.05, 2.0]), "train.converge_n": (100, [5, 120]), "train.hold_h": (False, [True]),
           "train.delay_h": (-1, [7]), "train.robust_mode": (False, []), "train.robust_n": (200, []), "train.robust_alpha": (4, [])}


def run_batch(c, kw):
    V, U, _ = problem(c["p"])
    b = BatchSA(V=V, U=U, factors=min(2, c["p"]["n"] - 1), parallel=False, verbose=False, **g(kw, "new"))
    b.train(**g(kw, "train"))
    return [plain(b.results), b.best_model]


BATCH_ARGS = {"new.models": (20, [2, 3]), "new.method": ("ls-nmf", ["ws-nmf"]), "new.seed": (42, [3]), "new.init_method": ("column_mean", ["kmeans"]), "new.init_norm": (True, [False]),
              "new.max_iter": (20000, [20, 130]), "new.converge_delta": (0.1, [0.03, 3.0]), "new.converge_n": (100, [4, 110]), "new.best_robust": (True, [False]),
              "new.hold_h": (False, [True]), "new.delay_h": (-1, [5]), "train.min_limit": (None, [])}


def base(c, iters=12):
    sa = trained_sa(c["p"], factors=2, seed=c["seed"], iters=iters, delta=c.get("delta", 0.5), conv_n=4)
    return sa if usable(sa) else None


def run_bootstrap(c, kw):
    sa = base(c)
    if sa is None:
        return None
    b = Bootstrap(sa=sa, feature_labels=labels(sa.n), parallel=False, seed=c["seed"] + 1, **g(kw, "new"))
    b.run(**g(kw, "run"))
    return [b.model_selected, plain(b.bs_results), plain(b.mapping_df), plain(b.factor_tables), plain(b.bs_profiles)]


RUN_ARGS = {"run.keep_H": (True, [False]), "run.reuse_seed": (True, [False]), "run.block": (True, [False]), "run.overlapping": (False, [True])}
BS_ARGS = {"new.model_selected": (-1, [2]), "new.bootstrap_n": (20, [1, 3]), "new.block_size": (10, [3, 9]), "new.threshold": (0.6, [0.2, 0.95]), **RUN_ARGS}


def run_disp(c, kw):
    sa = base(c)
    if sa is None:
        return None
    d = Displacement(sa=sa, feature_labels=labels(sa.n), parallel=False, **g(kw, "new"))
    d.run()
    return [d.features, d.selected_model, plain(d.compiled_results), plain(d.swap_table), plain(d.count_table)]


DISP_ARGS = {"new.max_search": (50, [6, 12]), "new.threshold_dQ": (0.1, [0.5, 1e-9]), "new.features": ("ALL", [[0], [1, 2]])}


def run_bsdisp(c, kw):
    sa = base(c)
    if sa is None:
        return None
    a = g(kw, "new")
    d = BSDISP(sa=sa, feature_labels=labels(sa.n), seed=c["seed"] + 1, cores=1, **a)
    with inline_pool():
        d.run(**g(kw, "run"))
    return [d.model_selected, plain(d.bootstrap.bs_results), plain(d.compiled_results), plain(d.swap_table), plain(d.count_table)]


BSDISP_ARGS = {"new.model_selected": (-1, [2]), "new.bootstrap_n": (20, [1, 2]), "new.block_size": (10, [3]), "new.threshold": (0.6, [0.2, 0.95]), "new.max_search": (50, [6]),
               "new.threshold_dQ": (0.1, [0.5]), "new.features": ("ALL", [[0]]), **RUN_ARGS}


def run_estimator(c, kw):
    V, U, _ = problem(c["p"])
    fe = FactorEstimator(V=V, U=U, **g(kw, "new"))
    with inline_pool():
        df = fe.run(**g(kw, "run"))
    return plain(df)


FE_ARGS = {"new.seed": (42, [5]), "new.test_percent": (0.1, [0.4]), "new.k_coef": (1.0, [0.3]), "run.samples": (200, [5, 12]), "run.min_factors": (2, [1]), "run.max_factors": (15, [3]),
           "run.max_iterations": (2000, [1, 4]), "run.converge_delta": (1.0, [1e-3, 100.0]), "run.converge_n": (10, [2, 30])}


def run_impute(c, kw):
    V, U, rng = problem(c["p"])
    V, U = np.array(V), np.array(U)
    for X in (V, U):
        M = rng.random(X.shape) < 0.2
        M[:6] = False
        X[M] = np.nan
    i, u = frames(V, U)
    dh = DataHandler.load_dataframe(input_df=i, uncertainty_df=u)
    dh.input_data, dh.uncertainty_data = i, u
    imp = DataImputer(dh, **g(kw, "new"))
    a = g(kw, "args")
    strategy = c["strategy"]
    k = {} if strategy == "mean" and c["lazy"] else {"strategy": strategy}
    if strategy in ("knn", "iterative"):
        names = {"knn": ("n_neighbors", "weights"), "iterative": ("max_iter", "tol")}[strategy]
        a = {x: v for x, v in a.items() if x in names}
        if a or not c["lazy"]:
            k["args"] = a
    V2, U2 = imp.impute(**k)
    return [plain(V2), plain(U2)]


IMP_ARGS = {"new.random_seed": (42, [1]), "args.n_neighbors": (5, [1, 4]), "args.weights": ("uniform", ["distance"]), "args.max_iter": (10, [1, 9]), "args.tol": (1e-3, [0.5])}


def run_handler(c, kw):
    V, U, rng = problem(c["p"])
    V = np.array(V)
    V[rng.random(V.shape) < 0.05] = np.nan
    U = U * 10 ** rng.uniform(-1, 1, U.shape[1])
    i, u = frames(V, U)
    with scratch() as d:
        p, q = os.path.join(d, "V.csv"), os.path.join(d, "U.csv")
        i.to_csv(p)
        u.to_csv(q)
        dh = DataHandler(input_path=p, uncertainty_path=q, **g(kw, "new"))
        out = [plain(dh.metrics), [str(x) for x in dh.features], str(dh.input_data.index.name)]
        v, w = dh.get_data()
        out += [plain(v), plain(w)]
        dh.set_category(dh.features[0], **g(kw, "cat"))
        v, w = dh.get_data()
        return out + [plain(v), plain(w)]


DH_ARGS = {"new.drop_nans": (True, [False]), "new.sn_threshold": (2.0, [0.5, 3.0]), "new.drop_col": (None, [["PM2.5"]]), "new.index_col": ("Date", []),
           "cat.category": ("strong", ["weak"])}


def run_save(c, kw):
    sa = base(c)
    if sa is None:
        return None
    n, kind = sa.n, c["kind"]
    if kind == "sa":
        o = sa
    elif kind == "batch":
        o = BatchSA(V=sa.V, U=sa.U, factors=2, models=2, max_iter=3, parallel=False, verbose=False)
        o.train()
    elif kind == "bootstrap":
        o = Bootstrap(sa=sa, feature_labels=labels(n), bootstrap_n=2, block_size=3, parallel=False, seed=1)
        o.run()
    elif kind == "disp":
        o = Displacement(sa=sa, feature_labels=labels(n), features=[0], parallel=False)
        o.run()
    elif kind == "bsdisp":
        o = BSDISP(sa=sa, feature_labels=labels(n), features=[0], bootstrap_n=2, block_size=3, seed=1, cores=1)
        with inline_pool():
            o.run()
    else:
        V, U, _ = problem(c["p"])
        o = ConstrainedModel(base_model=sa, data_handler=handler(V, U))
        o.add_constraint(constraint_type="set to base value", index=(0, 0), target="feature")
        o.train(max_iterations=2)
    flags = g(kw, kind)
    names = {"sa": "model_name", "batch": "batch_name", "bootstrap": "bs_name", "disp": "disp_name", "bsdisp": "bsdisp_name", "constrained": "model_name"}
    with scratch() as d:
        ok = o.save(**{names[kind]: "m", "output_directory": d}, **flags)
        files = listing(d)
        return [ok is not False and ok is not None, sorted(files), [len(files[f]) > 0 for f in sorted(files)], [files[f].replace(d.encode(), b"") for f in sorted(files) if f.endswith(".csv")]]


SAVE_ARGS = {"sa.pickle_model": (False, [True]), "sa.header": (None, []), "batch.pickle_model": (False, [True]), "batch.pickle_batch": (True, [False]), "batch.header": (None, []),
             "bootstrap.pickle_result": (True, [False]), "disp.pickle_result": (True, [False]), "bsdisp.pickle_result": (True, [False]), "constrained.pickle_model": (False, [True])}


def run_sim(c, kw):
    s = Simulator(seed=c["seed"], factors_n=3, features_n=c["p"]["n"], samples_n=c["p"]["m"] + 20, **{**{"verbose": False}, **g(kw, "new")})
    s.generate_profiles()
    for f, k in enumerate(("uniform", "increasing", "decreasing", "logistic", "periodic")[c["curve"]:c["curve"] + 2]):
        s.update_contribution(f, k, **g(kw, "curve"))
    V, U = s.get_data()
    return [plain(np.asarray(V)), plain(np.asarray(U)), plain(np.asarray(s.syn_profiles)), plain(np.asarray(s.syn_contributions))]


SIM_ARGS = {"new.outliers": (True, [False]), "new.outlier_p": (0.10, [0.5]), "new.outlier_mag": (2.0, [5.0]), "new.contribution_max": (10, [3]), "new.noise_mean_min": (0.1, [0.02]),
            "new.noise_mean_max": (0.12, [0.3]), "new.noise_scale": (0.02, [0.0]), "new.uncertainty_mean_min": (0.05, [0.01]), "new.uncertainty_mean_max": (0.05, [0.2]),
            "new.uncertainty_scale": (0.01, [0.0]), "curve.scale": (0.1, [0.5]), "curve.frequency": (0.5, [0.3]), "curve.maximum": (1.0, [4.0]), "curve.minimum": (0.1, [0.0])}


def run_catalog(c, kw):
    rng = np.random.default_rng(c["seed"])
    H = rng.gamma(1, 1, (4, 5))
    W = rng.gamma(1, 1, (9, 4))
    cat = FactorCatalog(**g(kw, "new"))
    models = []
    for i in range(5):
        pick = rng.permutation(4)[:2]
        s = rng.choice([0.05, 0.4, 1.0])
        h = H[pick] * rng.lognormal(0, s, (2, 5))
        w = W[:, pick] * rng.lognormal(0, s, (9, 2))
        x = catalog_model(np.ones((9, 5)), np.ones((9, 5)), w, h)
        x.Qtrue = x.Qrobust = float(rng.choice([1.0, 1.4, 1.6, 3.0]))
        models.append(x)

    class B:
        results = models
    with contextlib.redirect_stdout(io.StringIO()):
        cat.add_batch(B, **g(kw, "add"))
    return [plain(cat.to_df()), [[n, f.model, plain(f.correlation)] for n, f in cat.factors.items()]]


CAT_ARGS = {"new.method": ("raae", ["corr", "emc"]), "new.threshold": (0.9, [0.3, 0.97]), "new.exclude_outliers": (False, [True]), "new.outlier_threshold": (1.5, [1.2]),
            "add.profile_only": (False, [True])}


def run_perturb(c, kw):
    V, U, _ = problem(c["p"])
    p = Perturbation(V=V, U=U, factors=2, **g(kw, "new"))
    with inline_pool(), contextlib.redirect_stdout(io.StringIO()):
        p.run()
        try:
            p.compare(**g(kw, "cmp"))
        except Exception as e:  # undefined correlations: nothing to compare
            return [plain(p.perturbed_models), type(e).__name__]
    return [plain(p.perturbed_models), plain(p.perturbed_multipliers), plain(p.perturb_mapping), plain(p.perturb_correlations)]


PERT_ARGS = {"new.method": ("ls-nmf", ["ws-nmf"]), "new.random_seed": (42, [4]), "new.perturb_percent": (1.0, [0.3]), "new.sigma": (0.33, [0.05]), "new.models": (50, [2, 3]),
             "new.max_iterations": (20000, [3, 30]), "new.converge_n": (20, [2, 25]), "new.converge_delta": (0.001, [0.5]), "new.threshold": (0.1, []), "new.compare_method": ("raae", ["corr"])}


def run_analysis(c, kw):
    sa = base(c)
    if sa is None:
        return None
    V, U, _ = problem(c["p"])
    dh = handler(V, U)
    dh.get_data()
    ma = ModelAnalysis(datahandler=dh, model=sa, selected_model=1)
    out = [plain(ma.features_metrics(**g(kw, "features"))), plain(ma.calculate_statistics(**g(kw, "statistics")) or ma.statistics)]

    def draw(f, *a, **k):
        with shown() as figs:
            r = f(*a, **k)
        f = figs[0] if figs else r
        out.append([bool(figs), figure(f) if f is not None and hasattr(f, "data") else None])
    r = ma.plot_residual_histogram(feature_idx=0, show=False, **g(kw, "hist"))
    out.append(plain([x for x in (r if isinstance(r, (list, tuple)) else [r]) if isinstance(x, pd.DataFrame)]))
    draw(ma.plot_factor_contributions, 1, **g(kw, "contrib"))
    draw(ma.plot_factor_fingerprints, **g(kw, "finger"))
    draw(dh.plot_superimposed_histograms, **g(kw, "bins"))
    draw(dh.plot_2d_histogram, dh.features[0], dh.features[1], **g(kw, "bins2"))
    draw(dh.plot_feature_correlation_heatmap, **g(kw, "heat"))
    W, H = np.asarray(sa.W, float), np.asarray(sa.H, float)
    out.append(plain(qr_loss(V=np.asarray(V), U=np.asarray(U) / 20, W=W, H=H, **g(kw, "loss"))))
    cm = ConstrainedModel(base_model=sa, data_handler=dh, **g(kw, "soft"))
    cm.add_constraint(constraint_type="define limits", index=(0, 0), target="feature", min_value=float(H[0, 0]) * 2 + 1, max_value=float(H[0, 0]) * 3 + 2)
    cm.train(max_iterations=5, converge_delta=1e-9, converge_n=50)
    out.append(plain(cm.constrained_model))
    draw(cm.plot_Q, **g(kw, "q"))
    draw(cm.plot_factor_contributions, 1, **g(kw, "cc"))
    return out


AN_ARGS = {"features.est_V": (None, []), "statistics.results": (None, []), "hist.abs_threshold": (3.0, [0.5, 2.5]), "contrib.contribution_threshold": (0.05, [20.0, 0.0]), "finger.grouped": (False, [True]),
           "bins.nbins": (50, [7]), "bins2.nbins": (100, [5]), "heat.method": ("pearson", ["spearman"]), "loss.alpha": (4.0, [3.0, 4.5]), "soft.softness": (1.0, [0.3]),
           "q.Qtype": ("True", ["Aux", "Robust"]), "cc.threshold": (0.06, [0.3])}

SMALL = dict(min_m=6, min_n=3, max_m=10, max_n=5, zeros=False)
PARTS = {"sa": (SA_ARGS, run_sa), "batch": (BATCH_ARGS, run_batch), "bootstrap": (BS_ARGS, run_bootstrap), "displacement": (DISP_ARGS, run_disp), "bsdisp": (BSDISP_ARGS, run_bsdisp),
         "estimator": (FE_ARGS, run_estimator), "impute": (IMP_ARGS, run_impute), "handler": (DH_ARGS, run_handler), "save": (SAVE_ARGS, run_save), "simulator": (SIM_ARGS, run_sim),
         "catalog": (CAT_ARGS, run_catalog), "perturbation": (PERT_ARGS, run_perturb), "analysis": (AN_ARGS, run_analysis)}
# arguments which decide how long a case takes: left out only now and then
HEAVY = {"bsdisp": ["new.bootstrap_n", "new.features", "new.max_search"], "estimator": ["run.samples", "run.max_iterations"], "perturbation": ["new.models", "new.max_iterations"],
         "batch": ["new.models"], "bootstrap": ["new.bootstrap_n"]}


def s_part(part):
    args, _ = PARTS[part]

    def strategy():
        fields = {"part": st.just(part), "seed": SEEDS.map(lambda x: x % 10 ** 6), "lazy": st.booleans(), "strategy": st.sampled_from(["mean", "knn", "iterative", "iterative"]),
                  "kind": st.sampled_from(["sa", "batch", "bootstrap", "disp", "bsdisp", "constrained"]), "curve": st.integers(0, 3), "delta": st.sampled_from([0.5, 1e-3, 20.0]),
                  "p": st.one_of(recipe(**SMALL), recipe(**{**SMALL, "neg": True})) if part in ("sa", "batch") else recipe(**(dict(SMALL, min_m=14, max_m=22) if part in ("impute", "handler") else
                                                                                                                       dict(SMALL, min_m=6, max_m=26) if part == "bootstrap" else SMALL)),
                  "pick": st.integers(0, 100)}
        vals = {}
        for a, (d, alts) in args.items():
            often = 1 if a in HEAVY.get(part, []) else 4
            vals[a] = st.sampled_from(["OMIT"] * often + [x for x in alts for _ in range(3 if often == 1 else 1)]) if alts else st.just("OMIT")
        fields["args"] = st.fixed_dictionaries(vals)
        return st.fixed_dictionaries(fields)
    return strategy


def value(c, v):
    return list(range(c["p"]["n"])) if isinstance(v, str) and v == "ALL" else v


def c_part(case, ctx):
    c = case
    args, run = PARTS[c["part"]]
    if c["args"].get("init.init_method", c["args"].get("new.init_method")) == "kmeans":
        # k-means initialisation draws from the covariance of the data, which must not be singular
        c = dict(c, p=dict(c["p"], m=c["p"]["m"] + 8, vkind="lognormal", zero="none", ukind="random"))
    omitted = [a for a, v in c["args"].items() if v == "OMIT"]
    given = {a: v for a, v in c["args"].items() if v != "OMIT"}
    with np.errstate(all="ignore"):
        import warnings
        warnings.simplefilter("ignore")
        one = run(c, dict(given))
        if one is None:
            return ctx.label("degenerate-base")
        two = run(c, {**given, **{a: value(c, args[a][0]) for a in omitted}})
        if one != two:
            who = []
            for a in omitted:
                if run(c, {**given, a: value(c, args[a][0])}) != one:
                    who.append(a)
            expect(False, "leaving an argument out is not the same as giving its published default", part=c["part"], arguments=who or omitted,
                   defaults={a: args[a][0] for a in (who or omitted)})
        # non-trivial: another value of one of the arguments left out would have been noticed
        cand = [a for a in omitted if args[a][1]]
        if cand:
            a = cand[c["pick"] % len(cand)]
            alt = args[a][1][0]
            if run(c, {**given, a: alt}) != one:
                ctx.label("seen-" + a)
                ctx.nontrivial()
            else:
                ctx.label("unseen-" + a)


def s_limit():
    return st.fixed_dictionaries({"p": recipe(min_m=2, min_n=2, max_m=3, max_n=3, zeros=False), "what": st.sampled_from(["sa", "batch"])})


def c_limit(case, ctx):
    """Training which never meets the convergence criterion ends at the published limit."""
    V, U, _ = problem(case["p"])
    if case["what"] == "sa":
        sa = SA(V=V, U=U, factors=1)
        sa.initialize()
        sa.train(converge_n=30000)
    else:
        b = BatchSA(V=V, U=U, factors=1, models=1, converge_n=30000, parallel=False, verbose=False)
        b.train()
        sa = b.results[0]
    if not usable(sa):
        return ctx.label("degenerate")
    expect(sa.converge_steps == 20000 and not sa.converged, "training without convergence does not stop at 20000 iterations", got=(sa.converge_steps, sa.converged))
    ctx.nontrivial()
    ctx.label(case["what"])


COUNTS = {"sa": (60, 1500), "batch": (24, 500), "bootstrap": (30, 600), "displacement": (16, 300), "bsdisp": (8, 120), "estimator": (24, 400), "impute": (40, 800), "handler": (40, 800),
          "save": (30, 600), "simulator": (30, 800), "catalog": (60, 1500), "perturbation": (16, 200), "analysis": (24, 500)}

PROP = Prop("C37", [Sub(k, s_part(k), c_part, q, t, "a random subset of the arguments left out against the same ones given their published defaults; non-trivial = another value would be noticed")
                    for k, (q, t) in COUNTS.items()] +
            [Sub("limit", s_limit, c_limit, 4, 30, "training which cannot converge; non-trivial = all")],
            assumptions=["published default = the value in the docstring, else in the signature of the pinned release"])
