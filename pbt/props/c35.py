"""C35: every command of the command line does what the configuration of the project says."""
import configparser
import json
import os
import re
from contextlib import contextmanager

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import SEEDS, wide, seeds
from ..models import inline_pool, labels, listing, log_lines, same_sa, scratch, shown, usable
from esat.cli.esat_cli import esat_cli
from esat.data.analysis import BatchAnalysis, ModelAnalysis
from esat.data.datahandler import DataHandler
from esat.error.bootstrap import Bootstrap
from esat.error.bs_disp import BSDISP
from esat.error.displacement import Displacement
from esat.estimator import FactorEstimator
from esat.model.batch_sa import BatchSA
from esat.rotational.constrained import ConstrainedModel
from esat_eval.simulator import Simulator


def differ(a, b):
    """What differs between two models, apart from the time they were made."""
    for x in (a, b):
        for k in ("creation_date", "completion_date"):
            if k in x.metadata:
                x.metadata[k] = "TIME"
    return same_sa(a, b)


def esat(*args):
    """Runs a command; what it shows and what it reports."""
    with shown() as figs, log_lines() as lines, inline_pool(), np.errstate(all="ignore"):
        esat_cli.main(args=[str(a) for a in args], standalone_mode=False)
    return figs, lines


def direct(fn):
    with shown() as figs, np.errstate(all="ignore"):
        fn()
    return figs


def plain(fig):
    return json.loads(fig.to_json())


def figures(cmd, fn, least=1):
    """The command shows exactly what the function shows."""
    got, _ = esat(*cmd)
    want = direct(fn)
    expect(len(want) >= least, "the harness expects figures here", command=cmd)
    expect(len(got) == len(want), "the command shows another number of figures", command=cmd, got=len(got), want=len(want))
    for a, b in zip(got, want):
        expect(plain(a) == plain(b), "the command shows another figure", command=cmd, got=a.layout.title.text, want=b.layout.title.text)


def configure(path, values):
    expect(os.path.exists(path), "no configuration file was created", path=os.path.basename(path))
    c = configparser.ConfigParser(interpolation=None)
    c.read(path)
    for section, d in values.items():
        for k, v in d.items():
            c[section][k] = str(v)
    with open(path, "w") as f:
        c.write(f)


@contextmanager
def within(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def s_data():
    return {"seed": SEEDS, "m": st.integers(10, 16), "n": wide(3, 5, 12, 13), "k": wide(2, 3, 10, 11), "miss": st.integers(0, 2), "shared": st.sampled_from([False, False, True]), "relative": st.booleans(),
            "index": st.sampled_from(["0", "0", "name", "1", ""]), "models": wide(1, 3, 11, 11, 9), "mseed": seeds(), "iters": st.sampled_from([5, 15, 40]),
            "delta": st.sampled_from([1e-4, 0.5, 20.0]), "conv_n": st.sampled_from([3, 5]), "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]),
            "init": st.sampled_from(["col_means", "column_mean", "kmeans"]), "norm": st.booleans(), "best": st.sampled_from([None, True, False]), "parallel": st.booleans(),
            "verbose": st.booleans(), "name": st.sampled_from(["run", "My_Project-1", "50%"]), "at": st.sampled_from(["project", "project", "my project", "50% of it", "%(home)s", "a#b;c"]), "exists": st.booleans()}


def fitting(fields):
    """Cases on which a model is defined: enough samples and features for the factors, and for k-means."""
    def fit(c):
        if c["k"] > 3:
            c = dict(c, n=c["n"] + 9, m=c["m"] + 8) if c["n"] < 12 else dict(c, m=c["m"] + 8)
        return dict(c, init="column_mean") if c["n"] > 5 and c["init"] == "kmeans" else c
    return st.fixed_dictionaries(fields).map(fit)


class Project:
    """A project directory, set up by the command line, and what its configuration means."""

    def __init__(self, c, d):
        self.c, self.root = c, d
        rng = np.random.default_rng(c["seed"])
        m, n = c["m"], c["n"]
        V = rng.gamma(1.0, 1.0, (m, 2)) @ rng.gamma(1.0, 1.0, (2, n)) * rng.lognormal(0, 0.4, (m, n)) + 0.05
        U = 0.1 * V + rng.uniform(0.05, 0.2, (m, n))
        for _ in range(c["miss"]):
            V[int(rng.integers(m)), int(rng.integers(n))] = np.nan
        days = pd.date_range("2021-03-01", periods=m, freq="D").astype(str)
        if c["shared"]:
            days = days[np.arange(m) % ((m + 1) // 2)]
        at = 1 if c["index"] == "1" else 0
        label = "Day %" if c["name"] == "50%" else "Day"
        for name, X in (("data.csv", V), ("unc.csv", U)):
            df = pd.DataFrame(X, columns=labels(n))
            df.insert(at, label, days)
            df.to_csv(os.path.join(d, name), index=False)
        self.index = {"name": label, "": None, "0": 0, "1": 1}[c["index"]]
        self.dir = c["at"] if c["relative"] else os.path.join(d, c["at"])
        self.path = os.path.join(d, c["at"])
        if c["exists"]:
            os.mkdir(self.path)
        esat("setup", self.dir)
        self.params = {"factors": c["k"], "method": c["method"], "models": c["models"], "init_method": c["init"], "init_norm": c["norm"], "seed": c["mseed"], "max_iter": c["iters"],
                       "converge_delta": c["delta"], "converge_n": c["conv_n"], "verbose": c["verbose"], "parallel": c["parallel"]}
        if c["best"] is not None:
            self.params["best_robust"] = c["best"]
        configure(os.path.join(self.path, "run_config.toml"), {
            "project": {"name": c["name"]}, "parameters": self.params,
            "data": {"input_path": os.path.join(d, "data.csv"), "uncertainty_path": os.path.join(d, "unc.csv"), "index_col": label if c["index"] == "name" else c["index"]}})

    def handler(self):
        dh = DataHandler(input_path=os.path.join(self.root, "data.csv"), uncertainty_path=os.path.join(self.root, "unc.csv"), index_col=self.index)
        dh.get_data()
        return dh

    def batch(self):
        V, U = self.handler().get_data()
        b = BatchSA(V=V, U=U, **self.params)
        with inline_pool(), np.errstate(all="ignore"):
            b.train()
        return b

    def run(self):
        """The batch that was trained, after checking that it is the one configured."""
        esat("run", self.dir)
        b = BatchSA.load(os.path.join(self.path, "output", f"{self.c['name']}.pkl"))
        expect(b is not None, "the batch was not saved in the project")
        return b


def fine(b):
    return all(r is not None and usable(r) and (np.asarray(r.H).sum(axis=0) > 1e-9).all() and (np.asarray(r.W).mean(axis=0) > 1e-9).all() for r in b.results)


def saved(d, skip=(".pkl",)):
    """The files written to a directory, without its name and times."""
    if not os.path.exists(d):
        return {}
    return {k: re.sub(rb"(\d\d/\d\d/\d{4}, \d\d:\d\d:\d\d|TIME) ?", b"TIME", v.replace(d.encode(), b"DIR")) for k, v in listing(d).items() if not k.endswith(skip)}


def s_run():
    return fitting(dict(s_data(), pick=st.integers(-1, 2), f=st.integers(0, 12), g=st.integers(0, 10)))


def c_run(case, ctx):
    c = case
    with scratch() as d, within(d):
        p = Project(c, d)
        want = p.batch()
        b = p.run()
        expect(len(b.results) == len(want.results) and b.best_model == want.best_model, "another number of models or best model than configured", got=(len(b.results), b.best_model),
               want=(len(want.results), want.best_model))
        for x, y in zip(b.results, want.results):
            diff = differ(x, y)
            expect(diff is None, "the models are not those of the configuration", difference=diff)
        dh = p.handler()
        with scratch() as e:
            want.save(batch_name=c["name"], output_directory=e, pickle_batch=False, pickle_model=False, header=dh.features)
            a, z = saved(os.path.join(p.path, "output")), saved(e)
            expect(set(a) == set(z), "other files were written", got=sorted(a), want=sorted(z))
            for k in z:
                expect(a[k] == z[k], "a table of the run differs", file=k, got=a[k][:300], want=z[k][:300])
        if not fine(b):
            ctx.skipped = True
            return
        i = c["pick"] if c["pick"] < c["models"] else -1
        sel = b.best_model if i == -1 else i
        ma = ModelAnalysis(datahandler=dh, model=b.results[sel], selected_model=sel)
        opt = [] if i == -1 else ["-m", i]
        j, q, g = c["f"] % c["n"], c["f"] % c["k"] + 1, c["g"] % c["k"] + 1
        A = "analysis-solution"
        figures([A, "plot-residuals", p.dir, *opt, "-i", j], lambda: ma.plot_residual_histogram(feature_idx=j))
        figures([A, "plot-estimated", p.dir, *opt, "--feature_idx", j], lambda: ma.plot_estimated_observed(feature_idx=j))
        figures([A, "plot-timeseries", p.dir, *opt, "-i", j], lambda: ma.plot_estimated_timeseries(feature_idx=j))
        figures([A, "plot-contributions", p.dir, *opt, "-i", j], lambda: ma.plot_factor_contributions(feature_idx=j))
        figures([A, "plot-profile", p.dir, *opt, "-i", q], lambda: ma.plot_factor_profile(factor_idx=q))
        figures([A, "plot-fingerprints", p.dir, *opt], lambda: ma.plot_factor_fingerprints())
        figures([A, "plot-composition", p.dir, *opt], lambda: ma.plot_factor_composition())
        figures([A, "plot-gspace", p.dir, *opt, "-x", q, "-y", g], lambda: ma.plot_g_space(factor_1=q, factor_2=g))
        figures([A, "plot-surface", p.dir, *opt, "-i", q], lambda: ma.plot_factor_surface(factor_idx=q))
        figures([A, "plot-surface", p.dir, *opt, "-i", -1, "-f", j + 1], lambda: ma.plot_factor_surface(factor_idx=None, feature_idx=j + 1))
        # without options: something is shown
        figures([A, "plot-profile", p.dir], lambda: ModelAnalysis(datahandler=dh, model=b.results[b.best_model], selected_model=b.best_model).plot_factor_profile(factor_idx=1))
        figures([A, "plot-gspace", p.dir, *opt], lambda: ma.plot_g_space(factor_1=1, factor_2=2))
        _, lines = esat(A, "statistics", p.dir, *opt)
        ma.calculate_statistics()
        expect(str(ma.statistics) in lines, "the statistics reported are not those of the model", got=lines[-1])
        ba = BatchAnalysis(b)
        figures(["analysis-batch", "plot-loss", p.dir], ba.plot_loss)
        figures(["analysis-batch", "plot-distribution", p.dir], ba.plot_loss_distribution)
        ctx.label("relative" if c["relative"] else "absolute", f"index {c['index']!r}", c["init"])
        ctx.nontrivial(c["models"] >= 2)


def s_input():
    return fitting(dict(s_data(), f=st.integers(0, 12), g=st.integers(0, 12), samples=st.integers(1, 4), lo=st.integers(1, 2), hi=st.integers(2, 3)))


def c_input(case, ctx):
    c = case
    with scratch() as d, within(d):
        p = Project(c, d)
        dh = p.handler()
        j, g = c["f"] % c["n"], c["g"] % c["n"]
        A = "analysis-input"
        _, lines = esat(A, "metrics", p.dir)
        expect(str(dh.metrics) in lines, "the metrics reported are not those of the data", got=lines[-1])
        fresh = DataHandler(input_path=os.path.join(d, "data.csv"), uncertainty_path=os.path.join(d, "unc.csv"), index_col=p.index)
        figures([A, "plot-feature", p.dir, "-i", j], lambda: fresh.plot_data_uncertainty(feature_idx=j))
        figures([A, "plot-data", p.dir, "-x", j, "-y", g], lambda: fresh.plot_feature_data(x_idx=j, y_idx=g)) if j != g else None
        figures([A, "plot-timeseries", p.dir, "-i", j], lambda: fresh.plot_feature_timeseries(feature_selection=[j]))
        configure(os.path.join(p.path, "run_config.toml"), {"estimator": {"samples": c["samples"], "min_k": c["lo"], "max_k": c["hi"]}})
        _, lines = esat("estimate", p.dir)
        V, U = dh.get_data()
        with inline_pool(), np.errstate(all="ignore"):
            want = FactorEstimator(V=V, U=U).run(samples=c["samples"], min_factors=c["lo"], max_factors=c["hi"])
        expect(str(want) in lines, "the estimate reported is not that of the configured range", got=lines[-1], want=str(want))
        ctx.nontrivial(c["hi"] > c["lo"])


CONSTRAINTS = [
    {"constraint_type": "set to zero"}, {"constraint_type": "define limits", "min_value": 0.05, "max_value": 0.3}, {"constraint_type": "pull up", "dQ": 5.0},
    {"constraint_type": "pull down", "dQ": 5.0}, {"constraint_type": "set to base value"}, {"constraint_type": "pull to value", "target_value": 0.2, "dQ": 5.0}]


def s_constrained():
    el = st.tuples(st.integers(0, 5), st.booleans(), st.integers(0, 11), st.integers(0, 12))
    return fitting(dict(s_data(), pick=st.integers(-1, 2), cons=st.lists(el, min_size=0, max_size=3), expr=st.integers(0, 2), soft=st.sampled_from([1.0, 0.5, 2.0]),
                                      ci=st.sampled_from([-1, 4, 9]), cd=st.sampled_from([-1.0, 0.0, 0.3]), cn=st.sampled_from([-1, 3]), f=st.integers(0, 12), g=st.integers(0, 10),
                                      show=st.sampled_from([[], ["--hide_base"], ["--hide_delta"], ["--hide_base", "--hide_delta"]])))


EXPRESSIONS = ["(0.66*[factor:0|feature:0])-(0.2*[factor:1|feature:1])=0,25", "(1.5*[factor:1|feature:2])-(0.4*[factor:0|feature:2])=0,25"]


def index_of(c, target, i, j):
    """A profile element is factor x feature, a contribution element sample x factor."""
    return [i % c["k"], j % c["n"]] if target == "feature" else [j % max(1, c["m"] - 3), i % c["k"]]


def write_constrained(c, p):
    """Sets up and configures a constrained run; what it asks for."""
    esat("setup-constrained", p.dir)
    cons, conf = [], {}
    for t, (kind, feature, i, j) in enumerate(c["cons"]):
        target = "feature" if feature else "sample"
        x = dict(CONSTRAINTS[kind], index=index_of(c, target, i, j), target=target)
        cons.append(x)
        conf[f"constraint{t + 1}"] = json.dumps(x)
    expr = EXPRESSIONS[:c["expr"]]
    configure(os.path.join(p.path, "constrained_config.toml"), {
        "parameters": {"selected_model": c["pick"] if c["pick"] < c["models"] else -1, "softness": c["soft"], "max_iter": c["ci"], "converge_delta": c["cd"], "converge_n": c["cn"]},
        "constraints": conf, "expressions": {f"expression{i + 1}": x for i, x in enumerate(expr)}})
    return cons, expr


def expected_constrained(c, p, b, cons, expr):
    sel = c["pick"] if 0 <= c["pick"] < c["models"] else b.best_model
    cm = ConstrainedModel(base_model=b.results[sel], data_handler=p.handler(), softness=c["soft"])
    for x in cons:
        cm.add_constraint(**dict(x, index=tuple(x["index"])))
    for x in expr:
        cm.add_expression(x)
    with np.errstate(all="ignore"):
        cm.train(max_iterations=c["ci"] if c["ci"] != -1 else c["iters"], converge_delta=c["cd"] if c["cd"] > 0 else c["delta"], converge_n=c["cn"] if c["cn"] != -1 else c["conv_n"])
    return cm


def c_constrained(case, ctx):
    c = dict(case, n=max(case["n"], 3))
    with scratch() as d, within(d):
        p = Project(c, d)
        b = p.run()
        if not fine(b):
            ctx.skipped = True
            return
        cons, expr = write_constrained(c, p)
        want = expected_constrained(c, p, b, cons, expr)
        esat("run-constrained", p.dir)
        out = os.path.join(p.path, "constrained")
        if want.constrained_model is None:
            expect(not cons and not expr, "the harness expects a model")
            expect(not os.path.exists(out) or not listing(out), "a constrained model without constraints was saved")
            ctx.label("nothing to constrain")
            return
        got = ConstrainedModel.load(os.path.join(out, f"constrained_model-{c['name']}.pkl"))
        expect(got is not None, "the constrained model was not saved")
        diff = differ(got.base_model, want.base_model) or differ(got.constrained_model, want.constrained_model)
        expect(diff is None, "the constrained model is not that of the configuration", difference=diff)
        with scratch() as e:
            want.save(model_name=c["name"], output_directory=e, pickle_model=False)
            a, z = saved(out), saved(e)
            expect(set(a) == set(z), "other files were written", got=sorted(a), want=sorted(z))
            for k in z:
                expect(a[k] == z[k], "a file of the constrained model differs", file=k, got=a[k][:300], want=z[k][:300])
        if not usable(got.constrained_model) or not fine_model(got.constrained_model):
            ctx.skipped = True
            return
        A = "analysis-constrained"
        q, g, j = c["f"] % c["k"] + 1, c["g"] % c["k"] + 1, c["f"] % c["n"] + 1
        for kind in ("True", "Robust", "Aux"):
            figures([A, "plot-q", p.dir, "-q", kind], lambda: got.plot_Q(Qtype=kind))
        figures([A, "eval-constraints", p.dir], got.evaluate_constraints, least=0)
        figures([A, "eval-expressions", p.dir], got.evaluate_expressions, least=0)
        figures([A, "plot-profile", p.dir, "-i", q], lambda: got.plot_profile_contributions(factor_idx=q))
        figures([A, "plot-contributions", p.dir, "-i", j], lambda: got.plot_factor_contributions(feature_idx=j))
        figures([A, "plot-fingerprints", p.dir], got.plot_factor_fingerprints)
        if "--hide_delta" in c["show"] or q != g:
            figures([A, "plot-gspace", p.dir, "-x", q, "-y", g, *c["show"]],
                    lambda: got.plot_g_space(factor_idx1=q, factor_idx2=g, show_base="--hide_base" not in c["show"], show_delta="--hide_delta" not in c["show"]))
        _, lines = esat(A, "summary", p.dir)
        with log_lines() as ref:
            got.display_results()
        expect(ref and ref[-1] in lines, "the summary is not that of the constrained model", got=lines)
        ctx.label("expression" if expr else "constraints")
        ctx.nontrivial(len(cons) + len(expr) >= 1)


def fine_model(r):
    return (np.asarray(r.H).sum(axis=0) > 1e-9).all() and (np.asarray(r.W).mean(axis=0) > 1e-9).all()


def s_error():
    return fitting(dict(s_data(), n=st.integers(3, 4), k=st.just(2), pick=st.integers(-1, 2), methods=st.sampled_from([["bsdisp"], ["bsdisp"], ["bs", "bsdisp"], ["bsdisp", "disp"], ["bs"], ["disp"], ["bs", "disp"], ["bs", "bsdisp", "disp"], []]),
                                      constrained=st.booleans(), feats=st.sampled_from([[], [0], [2, 1]]), feats2=st.sampled_from([[], [1], [0, 2]]), bn=st.integers(2, 4), bn2=st.integers(2, 3),
                                      block=st.sampled_from([-1, 2, 4]), block2=st.sampled_from([-1, 3]), thr=st.sampled_from([0.6, 0.2]), thr2=st.sampled_from([0.6, 0.2, 0.95]), bseed=st.sampled_from([7, -1]),
                                      bseed2=st.sampled_from([-1, 11]), output=st.booleans(), dq=st.sampled_from([0.1, 0.5]), search=st.sampled_from([10, 20])))


def c_error(case, ctx):
    c = dict(case, cons=[(1, True, 0, 0)], expr=0, soft=1.0, ci=6, cd=0.1, cn=3)
    with scratch() as d, within(d):
        p = Project(c, d)
        b = p.run()
        if not fine(b):
            ctx.skipped = True
            return
        dh = p.handler()
        sel = c["pick"] if 0 <= c["pick"] < c["models"] else b.best_model
        model, name = b.results[sel], c["name"]
        esat("setup-error", p.dir)
        if c["constrained"]:
            cons, expr = write_constrained(c, p)
            esat("run-constrained", p.dir)
            cm = ConstrainedModel.load(os.path.join(p.path, "constrained", f"constrained_model-{name}.pkl"))
            model, sel = cm.constrained_model, -1
            if not usable(model) or not fine_model(model):
                ctx.skipped = True
                return
        external = os.path.join(d, "elsewhere")
        os.mkdir(external)
        kw = dict(feature_labels=dh.features, model_selected=sel)

        def quiet(f, *a, **k):
            with inline_pool(), np.errstate(all="ignore"):
                return f(*a, **k)
        seed = c["bseed"] if c["bseed"] != -1 else model.seed
        seed2 = c["bseed2"] if c["bseed2"] != -1 else model.seed
        block = c["block"] if c["block"] != -1 else dh.optimal_block
        block2 = c["block2"] if c["block2"] != -1 else dh.optimal_block
        given = None
        if c["output"]:
            given = Bootstrap(sa=model, bootstrap_n=2, block_size=2, threshold=0.6, seed=99, **kw)
            quiet(given.run)
            given.save(bs_name="given", output_directory=external, pickle_result=True)
        configure(os.path.join(p.path, "error_config.toml"), {
            "project": {"selected_model": c["pick"] if c["pick"] < c["models"] else -1, "constrained_config": os.path.join(p.path, "constrained_config.toml") if c["constrained"] else ""},
            "disp": {"features": json.dumps(c["feats"])}, "bs": {"bootstrap_n": c["bn"], "block_size": c["block"], "threshold": c["thr"], "seed": c["bseed"]},
            "bsdisp": {"bootstrap_output": os.path.join(external, "given.pkl") if given is not None else "", "bootstrap_n": c["bn2"], "block_size": c["block2"], "threshold": c["thr2"],
                       "seed": c["bseed2"], "threshold_dQ": c["dq"], "max_search": c["search"], "features": json.dumps(c["feats2"])}})
        esat("run-error", p.dir, *[f"--{x}" for x in c["methods"]])
        with scratch() as e:
            done = {}
            if "disp" in c["methods"]:
                done["disp"] = Displacement(sa=model, features=c["feats"] or None, **kw)
                quiet(done["disp"].run)
                done["disp"].save(disp_name=f"disp-{name}", output_directory=e, pickle_result=False)
            if "bs" in c["methods"]:
                done["bs"] = Bootstrap(sa=model, bootstrap_n=c["bn"], block_size=block, threshold=c["thr"], seed=seed, **kw)
                quiet(done["bs"].run)
                done["bs"].save(bs_name=f"bs-{name}", output_directory=e, pickle_result=False)
            if "bsdisp" in c["methods"]:
                base = Bootstrap.load(os.path.join(external, "given.pkl")) if given is not None else done.get("bs")
                done["bsdisp"] = BSDISP(sa=model, bootstrap=base, bootstrap_n=c["bn2"], block_size=block2, threshold=c["thr2"], seed=seed2, features=c["feats2"] or None,
                                        max_search=c["search"], threshold_dQ=c["dq"], **kw)
                quiet(done["bsdisp"].run, parallel=False)
                done["bsdisp"].save(bsdisp_name=f"bsdisp-{name}", output_directory=e, pickle_result=False)
            out = os.path.join(p.path, "error")
            a, z = saved(out), saved(e)
            expect(set(a) == set(z), "other files were written", got=sorted(a), want=sorted(z))
            for k in z:
                expect(a[k] == z[k], "a result differs from that of the configured analysis", file=k, methods=c["methods"], got=a[k][:300], want=z[k][:300])
            load = {"disp": Displacement, "bs": Bootstrap, "bsdisp": BSDISP}
            for x in done:
                obj = load[x].load(os.path.join(out, f"{x}-{name}.pkl"))
                expect(obj is not None, "the result cannot be loaded", method=x)
                figures(["analysis-error", "summary", p.dir, f"--{x}"], obj.summary, least=0)
                figures(["analysis-error", "error-results", p.dir, f"--{x}", "--factor_idx", 2], lambda: obj.plot_results(factor=2), least=0)
            if len(done) != 1:
                figs, _ = esat("analysis-error", "summary", p.dir, *[f"--{x}" for x in done])
                expect(not figs, "a summary without exactly one method was shown")
        ctx.label("+".join(c["methods"]) or "none", "constrained" if c["constrained"] else "base", "given" if given is not None else "")
        ctx.nontrivial(len(c["methods"]) >= 1)


def s_sim():
    curves = st.lists(st.sampled_from([None, {"curve_type": "increasing", "minimum": 0.1, "maximum": 0.9, "scale": 0.1}, {"curve_type": "periodic", "minimum": 0.1, "maximum": 0.9, "frequency": 0.5, "scale": 0.1},
                                       {"curve_type": "decreasing", "minimum": 0.1, "maximum": 0.9, "scale": 0.1}]), min_size=3, max_size=3)
    return st.fixed_dictionaries({"sim": seeds(), "m": st.integers(12, 24), "n": st.integers(4, 6), "k": st.integers(2, 3), "outliers": st.booleans(), "p": st.sampled_from([0.1, 0.5]),
                                  "mag": st.sampled_from([2.0, 5.0]), "max": st.sampled_from([10, 3]), "noise": st.sampled_from([0.03, 0.2]), "unc": st.sampled_from([0.04, 0.2]), "curves": curves,
                                  "relative": st.booleans(), "at": st.sampled_from(["synthetic", "synthetic", "100% made up"]), "generate": st.booleans(), "mseed": seeds(), "iters": st.sampled_from([5, 20]), "models": st.integers(1, 2)})


def c_sim(case, ctx):
    c = case
    with scratch() as d, within(d):
        path = os.path.join(d, c["at"])
        p = c["at"] if c["relative"] else path
        esat("simulator", "setup", p)
        params = {"seed": c["sim"], "factors_n": c["k"], "features_n": c["n"], "samples_n": c["m"], "outliers": c["outliers"], "outlier_p": c["p"], "outlier_mag": c["mag"],
                  "contribution_max": c["max"], "noise_mean_min": c["noise"], "noise_mean_max": c["noise"] + 0.02, "noise_scale": 0.02, "uncertainty_mean_min": c["unc"],
                  "uncertainty_mean_max": c["unc"] + 0.01, "uncertainty_scale": 0.01}
        f = os.path.join(path, "sim_config.toml")
        conf = configparser.ConfigParser(interpolation=None)
        conf.read(f)
        for k, v in params.items():
            conf["parameters"][k] = str(v)
        conf.remove_section("contributions")
        conf["contributions"] = {str(i): json.dumps(x) for i, x in enumerate(c["curves"][:c["k"]]) if x}
        with open(f, "w") as fh:
            conf.write(fh)
        configure(os.path.join(path, "run_config.toml"), {"project": {"name": "syn"}, "parameters": {
            "factors": c["k"], "models": c["models"], "seed": c["mseed"], "max_iter": c["iters"], "converge_delta": 0.01, "converge_n": 5, "parallel": False, "init_method": "col_means",
            "init_norm": True, "method": "ls-nmf", "verbose": False}})
        want = Simulator(verbose=False, **params)
        for i, x in enumerate(c["curves"][:c["k"]]):
            if x:
                want.update_contribution(factor_i=i, **x)
        V, U = (x.to_numpy() for x in want.get_data())
        if c["generate"]:
            esat("simulator", "generate", p)
        esat("run", p)
        v, u = (pd.read_csv(os.path.join(path, f"synthetic_{x}.csv"), index_col=0) for x in ("data", "uncertainty"))
        expect(v.shape == V.shape and np.allclose(v.to_numpy(), V, rtol=1e-9) and np.allclose(u.to_numpy(), U, rtol=1e-9), "the generated data are not those of the configuration")
        b = BatchSA.load(os.path.join(path, "output", "syn.pkl"))
        expect(b is not None and b.V.shape == V.shape and np.allclose(b.V, V, rtol=1e-5) and np.allclose(b.U, U, rtol=1e-5), "the run was not trained on the generated data")
        expect(len(b.results) == c["models"] and b.results[0].factors == c["k"], "the run is not the one configured")
        if not fine(b):
            ctx.skipped = True
            return
        # the generated files are the input of the project
        dh = DataHandler(input_path=os.path.join(path, "synthetic_data.csv"), uncertainty_path=os.path.join(path, "synthetic_uncertainty.csv"), index_col=0)
        _, lines = esat("analysis-input", "metrics", p)
        expect(str(dh.metrics) in lines, "the metrics reported are not those of the generated data")
        dh.get_data()
        ma = ModelAnalysis(datahandler=dh, model=b.results[b.best_model], selected_model=b.best_model)
        figures(["analysis-solution", "plot-estimated", p], lambda: ma.plot_estimated_observed(feature_idx=0))
        if (np.ptp(want.syn_profiles, axis=1) < 1e-9).any() or any((np.ptp(r.H, axis=1) < 1e-9).any() or (np.ptp(r.W, axis=0) < 1e-9).any() for r in b.results):
            ctx.label("constant factor")      # has no correlation
            return
        esat("simulator", "compare", p)
        v2 = pd.read_csv(os.path.join(path, "synthetic_data.csv"), index_col=0)
        expect(v2.equals(v), "comparing changed the generated data")
        ref = Simulator.load(os.path.join(path, "esat_simulator.pkl"))
        with np.errstate(all="ignore"):
            ref.compare(batch_sa=b)
        figures(["simulator", "plot", p], ref.plot_comparison)
        ctx.label("outliers" if c["outliers"] else "plain", "generated" if c["generate"] else "on run")
        ctx.nontrivial(any(c["curves"][:c["k"]]))


PROP = Prop("C35", [
    Sub("run", s_run, c_run, 60, 1200, "a project from setup to solution analysis; non-trivial = two or more models"),
    Sub("input", s_input, c_input, 60, 1200, "input analysis and factor estimate; non-trivial = two or more numbers of factors"),
    Sub("constrained", s_constrained, c_constrained, 60, 1200, "constrained run and its analysis; non-trivial = a constraint or expression"),
    Sub("error", s_error, c_error, 80, 1200, "error estimates and their analysis; non-trivial = a method"),
    Sub("simulator", s_sim, c_sim, 50, 1000, "a simulator project; non-trivial = a contribution curve"),
], assumptions=["commands run in this process through their command line interface; processes of parallel runs are inlined", "figures are intercepted instead of rendered",
                "what the commands should produce is computed by the library from the configured values"])
