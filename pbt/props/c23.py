"""C23: the registry of constraints and expressions of a constrained model."""
import json
import logging
import os
import re

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import problem, wide
from ..models import frames, handler, scratch, trained_sa
from esat.rotational.constrained import ConstrainedModel

TYPES = ["pull down", "pull up", "pull to value", "set to zero", "set to base value", "define limits"]
BAD_TYPES = ["", "pull", "Set To Zero", "set to base", None]
BAD_TARGETS = ["", "features", "H", None, "Sample"]


def s_reg():
    idx = wide(-2, 6, 9, 13, 5)
    add = st.fixed_dictionaries({
        "op": st.just("add"), "type": st.sampled_from(TYPES * 3 + BAD_TYPES[:3]), "target": st.sampled_from(["feature", "sample"] * 6 + BAD_TARGETS[:3]),
        "i": idx, "j": idx, "a": st.sampled_from([0.0, 0.5, 1.25, 40.0]), "b": st.sampled_from([0.25, 2.0, 90.0]), "dq": st.sampled_from([1.0, 12.5, 250.0])})
    valid = st.fixed_dictionaries({
        "op": st.just("add"), "type": st.sampled_from(TYPES), "target": st.sampled_from(["feature", "sample"]),
        "i": st.integers(0, 1), "j": st.integers(0, 1), "a": st.sampled_from([0.0, 0.5, 1.25, 40.0]), "b": st.sampled_from([0.25, 2.0, 90.0]),
        "dq": st.sampled_from([1.0, 12.5, 250.0])})
    rem = st.fixed_dictionaries({"op": st.just("rem"), "nth": st.integers(0, 5)})
    addx = st.fixed_dictionaries({"op": st.just("addx"), "f": st.integers(0, 1), "j": st.integers(0, 1), "c": st.sampled_from(["0.5", "4.2", "1.0"]),
                                  "dq": st.sampled_from(["250", "12.5"])})
    remx = st.fixed_dictionaries({"op": st.just("remx"), "i": st.integers(-2, 4)})
    lst = st.fixed_dictionaries({"op": st.just("list")})
    return st.fixed_dictionaries({
        "m": wide(2, 5, 11, 14, 4), "n": wide(2, 5, 11, 14, 4), "k": wide(1, 3, 10, 12, 4), "soft": st.sampled_from([1.0, 0.5, 7.0]),
        "save": st.booleans(), "seed": st.integers(0, 1000),
        "ops": st.lists(st.one_of(add, add, valid, valid, rem, addx, remx, lst), min_size=1, max_size=14)})


def s_digits():
    """Elements whose labels are prefixes of one another."""
    i = st.sampled_from([0, 1, 10, 11, 12])
    add = st.fixed_dictionaries({"op": st.just("add"), "type": st.sampled_from(TYPES), "target": st.sampled_from(["feature", "sample"]),
                                 "i": i, "j": st.sampled_from([0, 1, 10, 11]), "a": st.sampled_from([0.0, 1.25]), "b": st.sampled_from([0.25, 2.0]), "dq": st.sampled_from([1.0, 250.0])})
    rem = st.fixed_dictionaries({"op": st.just("rem"), "nth": st.integers(0, 7)})
    return st.fixed_dictionaries({"m": st.integers(12, 14), "n": st.integers(12, 14), "k": st.integers(1, 12), "soft": st.just(1.0), "save": st.booleans(),
                                  "seed": st.integers(0, 1000), "ops": st.tuples(st.lists(add, min_size=4, max_size=10),
                                  st.lists(st.one_of(rem, rem, st.just({"op": "list"})), min_size=1, max_size=5)).map(lambda x: x[0] + x[1])})


class Lines(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def listed(fn):
    """Everything the call reports through logging."""
    h = Lines()
    root = logging.getLogger()
    old = root.manager.disable
    level = root.level
    root.addHandler(h)
    logging.disable(logging.NOTSET)
    root.setLevel(logging.INFO)
    try:
        fn()
    finally:
        logging.disable(old)
        root.setLevel(level)
        root.removeHandler(h)
    return "\n".join(h.lines)


def values_of(op):
    t = op["type"]
    if t in ("pull down", "pull up"):
        return op["dq"]
    if t == "pull to value":
        return (op["a"], op["dq"])
    if t == "define limits":
        return (op["a"], op["a"] + op["b"])
    return None


def c_reg(case, ctx):
    m, n, k = case["m"], case["n"], case["k"]
    c = {"m": m, "n": n, "k": k, "vkind": "lognormal", "ukind": "prop", "zero": "none", "scale": 1.0, "seed": case["seed"]}
    V, U, _ = problem(c)
    from esat.model.sa import SA
    sa = SA(V=V, U=U, factors=k, seed=1)
    sa.initialize()
    sa.train(max_iter=2, converge_delta=1e-6, converge_n=5)
    W0, H0 = np.array(sa.W), np.array(sa.H)
    cm = ConstrainedModel(base_model=sa, data_handler=handler(V, U), softness=case["soft"])
    expect(len(cm.constraints) == 0 and len(cm.expressions) == 0, "a new constrained model has constraints")
    cons, exps = {}, []
    refused = 0
    for op in case["ops"]:
        if op["op"] == "add":
            i, j = op["i"], op["j"]
            ok = op["type"] in TYPES and op["target"] in ("feature", "sample")
            if ok:
                rows, cols = (k, n) if op["target"] == "feature" else (m, k)
                ok = 0 <= i < rows and 0 <= j < cols
            label = None
            if ok:
                label = f"factor:{i}|feature:{j}" if op["target"] == "feature" else f"factor:{j}|sample:{i}"
                ok = label not in cons
            kw = {"pull down": {"dQ": op["dq"]}, "pull up": {"dQ": op["dq"]}, "pull to value": {"target_value": op["a"], "dQ": op["dq"]},
                  "define limits": {"min_value": op["a"], "max_value": op["a"] + op["b"]}}.get(op["type"], {})
            got = cm.add_constraint(constraint_type=op["type"], index=(i, j), target=op["target"], **kw)
            expect(bool(got) == ok, "a valid constraint was refused" if ok else "an invalid constraint was accepted", op=op, existing=list(cons))
            if ok:
                cons[label] = (op["type"], (i, j), op["target"], values_of(op))
            else:
                refused += 1
        elif op["op"] == "rem":
            if cons:
                label = list(cons)[op["nth"] % len(cons)]
                cm.remove_constraint(label)
                del cons[label]
        elif op["op"] == "addx":
            x = f"({op['c']}*[factor:{op['f'] % k}|feature:{op['j']}])-(2.0*[factor:{op['f'] % k}|feature:{1 - op['j']}])=0,{op['dq']}"
            got = cm.add_expression(x)
            expect(bool(got), "an expression was refused", expression=x)
            exps.append(x)
        elif op["op"] == "remx":
            cm.remove_expression(op["i"])
            if 0 <= op["i"] < len(exps):
                del exps[op["i"]]
        else:
            text = listed(cm.list_constraints)
            expect(str(len(cons)) in text, "the constraint list does not give the number of constraints", text=text, n=len(cons))
            for label, (t, idx, target, _) in cons.items():
                line = next((x for x in text.splitlines() if re.search(re.escape(label) + r"(?!\d)", x)), "")
                expect(t in line and str(idx) in line and target in line, "a constraint is missing from the list", label=label, text=text)
            text = listed(cm.list_expressions)
            for q, x in enumerate(exps):
                expect(f"{q}: {x}" in text, "an expression is missing from the list", text=text, expression=x)
            expect(text.count("=0,") == len(exps), "the expression list has other entries", text=text)
        expect(list(cm.constraints) == list(cons), "other constraints are registered", got=list(cm.constraints), want=list(cons), op=op)
        for label, (t, idx, target, tv) in cons.items():
            g = cm.constraints[label]
            gv = tuple(g.target_values) if isinstance(g.target_values, (tuple, list)) else g.target_values
            expect((g.constraint_type, tuple(g.index), g.target) == (t, idx, target) and gv == tv, "a registered constraint differs from the one added",
                   label=label, got=(g.constraint_type, g.index, g.target, gv), want=(t, idx, target, tv))
            s = g.tostring(label=label)
            nums = [] if tv is None else [tv] if not isinstance(tv, tuple) else list(tv)
            expect(all(str(x) in s for x in [label, t, target] + nums), "the description of a constraint is incomplete", text=s)
        expect(list(cm.expressions) == exps, "other expressions are registered", got=list(cm.expressions), want=exps, op=op)
    if not cons and not exps:
        cm.train(max_iterations=2)
        expect(cm.constrained_model is None, "training without constraints produced a model")
        ctx.label("empty")
    elif case["save"]:
        with scratch() as d:
            cm.save(model_name="x", output_directory=d, pickle_model=True)
            meta = [f for f in os.listdir(d) if f.endswith(".json")]
            expect(len(meta) == 1, "no metadata file was saved", files=os.listdir(d))
            with open(os.path.join(d, meta[0])) as f:
                md = json.load(f)
            expect(len(md["constraints"]) == len(cons) and all(label in s for label, s in zip(cons, md["constraints"])),
                   "the saved constraints differ", got=md["constraints"], want=list(cons))
            expect(md["expressions"] == exps and md["softness"] == case["soft"], "the saved settings differ", got=md)
        ctx.label("saved")
    expect(np.array_equal(sa.W, W0) and np.array_equal(sa.H, H0), "the base model was changed")
    ctx.label("refused" if refused else "all-accepted")
    ctx.nontrivial(len(case["ops"]) >= 4 and len(cons) + len(exps) >= 1)


PROP = Prop("C23", [
    Sub("registry", s_reg, c_reg, 800, 20000, "a sequence of additions, removals and listings against a dictionary; non-trivial = at least four operations and "
        "something registered in the end"),
    Sub("digits", s_digits, c_reg, 200, 4000, "the same with elements whose labels are prefixes of one another (1, 10, 11); non-trivial as above"),
], assumptions=["removing an unknown constraint label is an error and not generated"])
