"""C10: saved results can be loaded again, text output parses back to the values, failures are reported as None/False."""
import io
import json
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import many, recipe, seeds
from ..models import factor_limit, handler, labels, listing, same_sa, scratch, trained_sa
from esat.error.bootstrap import Bootstrap
from esat.error.bs_disp import BSDISP
from esat.error.displacement import Displacement
from esat.model.batch_sa import BatchSA
from esat.model.sa import SA
from esat.rotational.constrained import ConstrainedModel
from esat_eval.simulator import Simulator

KINDS = ["sa", "batch", "bootstrap", "disp", "bsdisp", "constrained", "simulator"]
NAMES = st.sampled_from(["m", "model 1", "a-b_c.d", "x" * 40, "Ünï"])


def s_save():
    return many(st.fixed_dictionaries({
        "kind": st.sampled_from(KINDS + ["sa", "sa", "batch"]),
        "p": recipe(min_m=6, min_n=3, max_m=9, max_n=4, zeros=False), "factors": st.integers(2, 3), "seed": seeds(),
        "name": NAMES, "method": st.sampled_from(["ls-nmf", "ls-nmf", "ws-nmf"]), "header": st.booleans(),
        "feature": st.booleans(), "cut": st.integers(0, 10 ** 9), "damage": st.sampled_from(["cut", "cut", "empty", "text", "json", "module", "class", "stack", "number", "memo", "opcode", "call"])}),
                lambda c: {"feature": True, "kind": "bootstrap" if c["kind"] == "bsdisp" else c["kind"]})


def build(case):
    kind = case["kind"]
    c = case["p"]
    if kind == "simulator":
        s = Simulator(seed=case["seed"], factors_n=case["factors"], features_n=c["n"], samples_n=c["m"], verbose=False)
        s.get_data()
        return s
    sa = trained_sa(c, factors=case["factors"], seed=case["seed"], iters=4,
                    method="ls-nmf" if kind in ("disp", "bsdisp") else case["method"])
    if kind == "sa":
        return sa
    lab = labels(c["n"])
    if kind == "batch":
        b = BatchSA(V=sa.V, U=sa.U, factors=sa.factors, models=11 if c["n"] > 10 else 3, method=case["method"], seed=case["seed"], max_iter=4,
                    converge_n=5, parallel=False, verbose=False)
        b.train()
        return b
    if kind == "bootstrap":
        b = Bootstrap(sa=sa, feature_labels=lab, bootstrap_n=3, block_size=2, parallel=False, seed=case["seed"])
        b.run()
        return b
    features = [0, 1] if case["feature"] else None
    if kind == "disp":
        d = Displacement(sa=sa, feature_labels=lab, features=features, parallel=False)
        d.run()
        return d
    if kind == "bsdisp":
        bs = Bootstrap(sa=sa, feature_labels=lab, bootstrap_n=2, block_size=2, parallel=False, seed=case["seed"])
        bs.run()
        d = BSDISP(sa=sa, feature_labels=lab, bootstrap=bs, features=[0], cores=1)
        d.run(parallel=True)
        return d
    cm = ConstrainedModel(base_model=sa, data_handler=handler(np.asarray(sa.V, float), np.asarray(sa.U, float)))
    cm.add_constraint(constraint_type="pull up", index=(0, 1), target="feature", dQ=50)
    if case["feature"]:
        cm.add_expression("[factor:0|feature:1]-(0.5*[factor:1|feature:1])=0,50")
    cm.train(max_iterations=4)
    return cm


def frame_eq(a, b):
    return (a is None and b is None) or (list(a.columns) == list(b.columns) and
                                         np.array_equal(a.to_numpy(dtype=object), b.to_numpy(dtype=object)))


def compare(kind, a, b):
    """None when equal, else a description."""
    if type(a) is not type(b):
        return f"type {type(b).__name__}"
    if kind == "sa":
        return same_sa(a, b)
    if kind == "batch":
        if len(a.results) != len(b.results) or a.best_model != b.best_model or a.seed != b.seed or a.factors != b.factors:
            return "batch summary"
        return next((r for r in (same_sa(x, y) for x, y in zip(a.results, b.results)) if r), None)
    if kind == "simulator":
        for n in ("syn_data_df", "syn_uncertainty_df", "syn_profiles_df", "syn_contributions_df"):
            if not frame_eq(getattr(a, n), getattr(b, n)):
                return n
        return None if a.seed == b.seed and list(a.time_steps) == list(b.time_steps) else "seed/time"
    if kind == "bootstrap":
        for n in ("mapping_df", "q_results"):
            if not frame_eq(getattr(a, n), getattr(b, n)):
                return n
        if a.factor_tables != b.factor_tables or a.bs_profiles != b.bs_profiles or list(a.bs_results) != list(b.bs_results):
            return "tables"
        for k in a.bs_results:
            if list(a.bs_results[k]["index"]) != list(b.bs_results[k]["index"]):
                return "index"
            r = same_sa(a.bs_results[k]["model"], b.bs_results[k]["model"])
            if r:
                return r
        return same_sa(a.sa, b.sa)
    if kind in ("disp", "bsdisp"):
        if not frame_eq(a.compiled_results, b.compiled_results):
            return "compiled results"
        if not np.array_equal(a.swap_table, b.swap_table) or not np.array_equal(a.count_table, b.count_table):
            return "swap table"
        if kind == "bsdisp" and list(a.disp_results) != list(b.disp_results):
            return "runs"
        return same_sa(a.sa, b.sa)
    if set(a.constraints) != set(b.constraints) or list(a.expressions) != list(b.expressions):
        return "constraints"
    for k in a.constraints:
        if a.constraints[k].tostring(label=k) != b.constraints[k].tostring(label=k):
            return "constraint"
    return same_sa(a.constrained_model, b.constrained_model) or same_sa(a.base_model, b.base_model)


LOADERS = {"sa": SA, "batch": BatchSA, "bootstrap": Bootstrap, "disp": Displacement, "bsdisp": BSDISP,
           "constrained": ConstrainedModel, "simulator": Simulator}


def save(kind, obj, name, d, binary, header=None):
    if kind == "sa":
        return obj.save(model_name=name, output_directory=d, pickle_model=binary, header=header)
    if kind == "batch":
        return obj.save(batch_name=name, output_directory=d, pickle_batch=binary, header=header)
    if kind == "bootstrap":
        return obj.save(bs_name=name, output_directory=d, pickle_result=binary)
    if kind == "disp":
        return obj.save(disp_name=name, output_directory=d, pickle_result=binary)
    if kind == "bsdisp":
        return obj.save(bsdisp_name=name, output_directory=d, pickle_result=binary)
    if kind == "constrained":
        return obj.save(model_name=name, output_directory=d, pickle_model=binary)
    return obj.save(sim_name=name, output_directory=d)


def c_binary(case, ctx):
    kind = case["kind"]
    obj = build(case)
    cls = LOADERS[kind]
    with scratch() as d:
        r = save(kind, obj, case["name"], d, True)
        path = os.path.join(d, "esat_simulator.pkl") if kind == "simulator" else str(r)
        if kind == "simulator":
            expect(r is True, "saving did not report success", returned=r)
        expect(path is not None and os.path.isfile(path) and os.path.dirname(path) == d,
               "the reported path is not a saved file in the requested directory", kind=kind, returned=str(r))
        if kind != "simulator":
            expect(os.path.basename(path).endswith(case["name"] + ".pkl"), "the saved file is not named after the model",
                   path=os.path.basename(path))
        back = cls.load(path)
        expect(back is not None, "a saved object cannot be loaded", kind=kind)
        diff = compare(kind, obj, back)
        expect(diff is None, "the loaded object differs from the saved one", kind=kind, differs=diff)
        if kind == "sa":
            for m in (obj, back):
                m.train(max_iter=3, converge_delta=1e-9, converge_n=5)
            expect(same_sa(obj, back) in (None, "metadata"), "training continues differently after loading",
                   differs=same_sa(obj, back))
        # damaged copies
        data = open(path, "rb").read()
        bad = {"cut": data[:case["cut"] % len(data)], "empty": b"", "text": b"not a saved model\n", "json": b"{\"a\": 1}\n",
               "module": data.replace(b"esat", b"esax"), "class": data.replace(cls.__name__.encode(), cls.__name__[:-1].encode() + b"_"), "stack": b"\x80\x04R.", "number": b"I12x\n.",
               "memo": b"\x80\x04h\x05.", "opcode": data[:2] + b"\xff" + data[3:], "call": b"cbuiltins\nint\n(S'x'\ntR."}[case["damage"]]
        p2 = os.path.join(d, "damaged.pkl")
        with open(p2, "wb") as f:
            f.write(bad)
        try:
            got = cls.load(p2)
        except Exception as ex:
            expect(False, "loading a damaged file raises instead of returning None", kind=kind, damage=case["damage"], error=repr(ex))
        expect(got is None, "loading a damaged file returned something", kind=kind, damage=case["damage"])
        expect(cls.load(os.path.join(d, "missing.pkl")) is None, "loading a missing file returned something")
        rel = os.path.relpath(path)
        expect(cls.load(rel) is None, "a relative path was loaded")
        # refused saves write nothing
        before = listing(d)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            r = save(kind, obj, "rel", ".", True)
        finally:
            os.chdir(cwd)
        expect(not r, "saving to a relative directory reports success", returned=str(r))
        r = save(kind, obj, "nodir", os.path.join(d, "missing"), True)
        expect(not r, "saving to a missing directory reports success", returned=str(r))
        expect(listing(d) == before, "a refused save wrote files")
    ctx.label(kind, case["damage"])
    ctx.nontrivial()


def parse_csv(path, rows, header):
    """Returns (header columns or None, values) of a text matrix with leading comment lines."""
    with open(path) as f:
        lines = f.read().splitlines()
    data = lines[len(lines) - rows:]
    vals = np.array([[float(x) for x in l.split(",")] for l in data])
    head = lines[len(lines) - rows - 1] if len(lines) > rows else None
    return head, vals


def check_sa_text(sa, d, name, header):
    for part, mat, cols in (("profile", sa.H, header), ("contribution", sa.W, [f"Factor {i + 1}" for i in range(sa.factors)]),
                            ("vprime", sa.WH, header), ("residuals", np.asarray(sa.V) - np.asarray(sa.WH), header)):
        path = os.path.join(d, f"{name}-{part}.csv")
        expect(os.path.isfile(path), f"{part} file was not written")
        head, vals = parse_csv(path, mat.shape[0], header)
        expect(vals.shape == mat.shape and np.allclose(vals, np.asarray(mat, float), rtol=1e-12, atol=0, equal_nan=True),
               f"{part} file does not hold the model's values")
        if header is not None:
            expect(head is not None and [x.strip() for x in head.split(",")] == list(cols), f"{part} file has wrong column labels",
                   got=head, want=cols)


def c_text(case, ctx):
    kind = case["kind"]
    obj = build(case)
    header = labels(case["p"]["n"]) if case["header"] else None
    name = case["name"]
    with scratch() as d:
        r = save(kind, obj, name, d, False, header)
        expect(r is True if kind == "simulator" else (r is not None and os.path.realpath(str(r)) == os.path.realpath(d)),
               "saving as text did not report the output directory", kind=kind, returned=str(r))

        def j(n):
            with open(os.path.join(d, n)) as f:
                return json.load(f)

        def meta(n, want):
            got = j(n)
            for k, v in want.items():
                if isinstance(v, (str, bool, int, float, list, tuple)) or v is None:
                    w = json.loads(json.dumps(v, default=lambda o: o.item() if hasattr(o, "item") else str(o)))
                    expect(k in got and got[k] == w, "metadata file differs from the metadata", key=k, got=got.get(k), want=w)

        if kind == "sa":
            check_sa_text(obj, d, name, header)
            meta(f"{name}-metadata.json", obj.metadata)
        elif kind == "batch":
            for i, m in enumerate(obj.results):
                check_sa_text(m, d, f"{name}-model-{i}", header)
                meta(f"{name}-model-{i}-metadata.json", m.metadata)
        elif kind == "simulator":
            for part, df in (("data", obj.syn_data_df), ("uncertainty", obj.syn_uncertainty_df), ("profiles", obj.syn_profiles_df),
                             ("contributions", obj.syn_contributions_df)):
                got = pd.read_csv(os.path.join(d, f"{name}_{part}.csv"), index_col=0, float_precision="round_trip")
                expect(list(got.columns) == list(df.columns) and np.array_equal(got.to_numpy(), df.to_numpy()),
                       f"simulated {part} file differs")
        elif kind == "bootstrap":
            check_bootstrap(obj, d, name, j, meta)
        elif kind == "disp":
            check_disp(obj, d, name, j, meta)
        elif kind == "bsdisp":
            got = pd.read_csv(os.path.join(d, f"{name}-results.csv"), float_precision="round_trip")
            tab_eq(got, obj.compiled_results, "BS-DISP results")
            meta(f"{name}-metadata.json", obj.bootstrap.metadata)
            for k, x in obj.disp_results.items():
                check_disp(x, d, f"{name}-{k}", j, meta)
        else:
            expect(obj.constrained_model is not None, "no constrained model")
            check_sa_text(obj.constrained_model, d, f"constrained_model-{name}", list(obj.dh.features))
            got = j(f"constrained_model-{name}-metadata.json")
            expect(len(got["constraints"]) == 1 and len(got["expressions"]) == len(obj.expressions),
                   "constrained metadata does not list the constraints", got=got)
    ctx.label(kind, "header" if header else "no-header")
    ctx.nontrivial()


def tab_eq(got, want, what):
    expect(list(got.columns) == list(want.columns) and len(got) == len(want), f"{what}: columns or rows differ")
    for col in want.columns:
        a, b = got[col].to_numpy(), want[col].to_numpy()
        ok = np.allclose(a.astype(float), b.astype(float), rtol=1e-6, atol=1e-12, equal_nan=True) if want[col].dtype.kind in "fiu" \
            else [str(x) for x in a] == [str(x) for x in b]
        expect(ok, f"{what}: column {col} differs")


def check_bootstrap(obj, d, name, j, meta):
    meta(f"{name}-metadata.json", obj.metadata)
    tab_eq(pd.read_csv(os.path.join(d, f"{name}-mapping.csv")), obj.mapping_df, "bootstrap mapping file")
    q = pd.read_csv(os.path.join(d, f"{name}-qtable.csv"))
    expect(np.allclose(q["Q(robust)"].to_numpy(float), obj.q_results["Q(robust)"].to_numpy(float), rtol=1e-5), "bootstrap loss file differs")
    for part, want in (("ftables", obj.factor_tables), ("profiles", obj.bs_profiles), ("contributions", obj.bs_factor_contributions)):
        got = j(f"{name}-{part}.json")
        expect(set(got) == {str(k) for k in want}, f"bootstrap {part} file has other factors")
        for k, v in want.items():
            expect(np.allclose(np.asarray(got[str(k)], float), np.asarray(v, float), rtol=1e-6, equal_nan=True),
                   f"bootstrap {part} file differs", factor=k)


def check_disp(obj, d, name, j, meta):
    meta(f"{name}-metadata.json", obj.metadata)
    tab_eq(pd.read_csv(os.path.join(d, f"{name}-results.csv"), float_precision="round_trip"), obj.compiled_results, "DISP results file")
    for part, want in (("increase", obj.increase_results), ("decrease", obj.decrease_results)):
        got = j(f"{name}-{part}-disp.json")
        expect(set(got) == set(want), "DISP detail file has other factors")
        for f in want:
            for s in want[f]:
                for q, v in want[f][s].items():
                    g = got[f][s][str(q)]
                    expect(bool(g["swap"]) == bool(v["swap"]) and np.isclose(float(g["dQ"]), float(v["dQ"]), equal_nan=True)
                           and np.isclose(float(g["value"]), float(v["value"]), equal_nan=True), "DISP detail file differs")
    with open(os.path.join(d, f"{name}-swaptable.csv")) as f:
        lines = f.read().splitlines()
    rows = np.array([[float(x) for x in l.split(",")] for l in lines if not l.startswith("#")])
    want = np.round(100 * obj.swap_table / obj.count_table, 2)
    head = [x.strip() for l in lines if l.startswith("#") for x in l[1:].split(",")]
    expect(head[-obj.factors:] == [f"Factor {i + 1}" for i in range(obj.factors)] and head[-obj.factors - 1] == "dQ Max", "swap table columns are labelled otherwise", got=head)
    expect(sorted(rows[:, 0]) == sorted(float(x) for x in obj.dQmax), "swap table file lacks a dQ value")
    for r in rows:
        expect(np.allclose(r[1:], want[list(obj.dQmax).index(r[0])]), "swap table row is labelled with another dQ", dq=r[0])


PROP = Prop("C10", [
    Sub("binary", s_save, c_binary, 400, 8000, "save, load, compare, continue, damage the file, refuse bad targets, for all seven "
        "kinds of object; every case is non-trivial"),
    Sub("text", s_save, c_text, 400, 8000, "text output parsed back, for all seven kinds of object; every case is non-trivial"),
], assumptions=["damaged files are truncations, empty files, plain text and pickles naming missing modules, classes or malformed opcodes; no other bytes are unpickled"])
