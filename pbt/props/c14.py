"""C14: splitting by location and merging handlers keep every sample with its values, exactly once."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Prop, Sub, expect
from ..gen import SEEDS
from .c11 import compare, s_table, table
from esat.data.datahandler import DataHandler


def s_split():
    return st.fixed_dictionaries({
        "t": s_table(max_m=30, max_n=4, min_m=8), "kind": st.sampled_from(["latlon", "lonlat", "site", "number", "two"]),
        "locs": st.integers(1, 4), "seed": SEEDS, "jitter": st.booleans(), "pos": st.sampled_from(["first", "last"]), "drop": st.booleans(),
        "single": st.booleans(), "unknown": st.sampled_from([False, False, True])})


def locate(case, V, U):
    """Adds location columns; returns frames, column names and the group of every sample."""
    rng = np.random.default_rng(case["seed"])
    g = rng.integers(0, case["locs"], len(V))
    kind = case["kind"]
    if kind in ("latlon", "lonlat"):
        lat, lon = 30.0 + np.array([0, 1, 0, 0.001])[g % 4] , -90.0 - np.array([0, 0, 1, 0.001])[g % 4]
        if case["jitter"]:
            lat = lat + rng.uniform(-3e-7, 3e-7, len(V))
            lon = lon + rng.uniform(-3e-7, 3e-7, len(V))
        cols = {"latitude": lat, "longitude": lon}
        names = ["latitude", "longitude"] if kind == "latlon" else ["longitude", "latitude"]
    elif kind == "site":
        cols, names = {"site": np.array(["A", "B 2", "c-3", "D"], dtype=object)[g]}, ["site"]
    elif kind == "number":
        cols, names = {"site": np.array([3, 11, 101, 7])[g]}, ["site"]
    else:
        cols = {"state": np.array(["TX", "TX", "LA", "LA"], dtype=object)[g], "num": np.array([1, 2, 1, 2])[g]}
        names = ["state", "num"]
    if case["unknown"]:
        # the location of some samples is not given: one of its own, which no value equals
        lost = rng.random(len(V)) < 0.3
        for name, col in cols.items():
            col = col.astype(object if col.dtype == object else float)
            col[lost] = None if col.dtype == object else np.nan
            cols[name] = col
        g = np.where(lost, 4, g)
    out = []
    for X in (V, U):
        L = pd.DataFrame(cols, index=X.index)
        out.append(pd.concat([L, X] if case["pos"] == "first" else [X, L], axis=1))
    return out[0], out[1], names, g


def c_split(case, ctx):
    V, U = table(case["t"])
    LV, LU, names, g = locate(case, V, U)
    loc_arg = names[0] if len(names) == 1 and case["single"] else names
    plain = DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
    expect(plain.split_locations() == [], "data without location columns is split")
    drop = [V.columns[-1]] if case["drop"] and len(V.columns) > 2 else []
    with_loc = DataHandler.load_dataframe(input_df=LV.copy(), uncertainty_df=LU.copy(), loc_cols=loc_arg, drop_col=drop or None)
    compare(with_loc, V, U, {}, drop, what="whole data: ")
    dh = with_loc
    parts = dh.split_locations()
    order = list(dict.fromkeys(g))
    expect(len(parts) == len(order), "number of locations", got=len(parts), want=len(order))
    gone = V.isna().all(axis=1) | U.isna().all(axis=1)
    for part, k in zip(parts, order):
        sel = (g == k)
        loc = part.metadata.get("location")
        expect(loc is not None and set(loc) == set(names), "the location of a part is not recorded", got=loc)
        for c in names:
            w = LV[c][sel].iloc[0]
            expect(loc[c] == w or (pd.isna(loc[c]) and pd.isna(w)) or (isinstance(w, (float, np.floating)) and abs(float(loc[c]) - w) < 1e-5), "recorded location", got=loc[c], want=w)
        if sel.sum() < 2:
            expect(part.input_data.shape[0] == int((sel & ~gone).sum()), "samples of a location")
            continue
        compare(part, V[sel], U[sel], {}, drop, what=f"location {loc}: ")
        expect(set(part.metrics.index) >= set(f for f in V.columns if f not in drop) and not set(names) & set(part.features),
               "a location column is treated as a feature")
    compare(with_loc, V, U, {}, drop, what="after splitting: ")
    ctx.label(case["kind"], "unknown location" if 4 in g else "", "shared times" if case["t"]["index"] == "shared" else "")
    ctx.nontrivial(len(order) > 1)


def s_merge():
    return st.fixed_dictionaries({"t": s_table(max_m=12, max_n=4), "others": st.integers(0, 3), "fault": st.sampled_from(["none"] * 5 + ["features", "labels", "order"]),
                                  "seed": SEEDS, "cat": st.sampled_from(["none", "weak", "bad"])})


def c_merge(case, ctx):
    V, U = table(case["t"])
    me = DataHandler.load_dataframe(input_df=V.copy(), uncertainty_df=U.copy())
    others, labels = [], []
    for i in range(case["others"]):
        v, u = table(dict(case["t"], seed=(case["seed"] + i) % 2 ** 32, m=case["t"]["m"] - i))
        if case["fault"] == "features" and i == case["others"] - 1:
            v, u = v.rename(columns={v.columns[0]: "other"}), u.rename(columns={u.columns[0]: "other"})
        if case["fault"] == "order" and i == case["others"] - 1:
            v, u = v[v.columns[::-1]], u[u.columns[::-1]]
        others.append((v, u))
        labels.append(f"src{i}")
    hs = [DataHandler.load_dataframe(input_df=v.copy(), uncertainty_df=u.copy()) for v, u in others]
    if case["fault"] == "labels":
        labels = labels + ["extra"]
    cats = {}
    if case["cat"] != "none":
        cats[V.columns[-1]] = case["cat"]
        me.set_category(V.columns[-1], case["cat"])
    bad = case["others"] == 0 or case["fault"] != "none"
    before = me.input_data.copy()
    r = me.merge(hs, labels)
    if bad:
        expect(r is False, "merging handlers that do not fit is not refused", fault=case["fault"], others=case["others"])
        expect(me.input_data.equals(before), "a refused merge changed the data")
        compare(me, V, U, cats, what="after a refused merge: ")
        return ctx.label("refused")
    expect(r is True, "merging handlers with equal features is refused")
    ok = lambda v, u: ~(v.isna().all(axis=1) | u.isna().all(axis=1))
    allV = pd.concat([v[ok(v, u)] for v, u in others] + [V[ok(V, U)]], ignore_index=True)
    allU = pd.concat([u[ok(v, u)] for v, u in others] + [U[ok(V, U)]], ignore_index=True)
    want_src = [l for l, (v, u) in zip(labels, others) for _ in range(int(ok(v, u).sum()))] + ["self"] * int(ok(V, U).sum())
    expect(list(me.input_data["source_label"]) == want_src and list(me.uncertainty_data["source_label"]) == want_src, "source labels of merged samples")
    expect(list(me.features) == list(V.columns), "features after merging", got=list(me.features))
    compare(me, allV, allU, cats, what="merged: ")
    whole = DataHandler.load_dataframe(input_df=allV.copy(), uncertainty_df=allU.copy())
    a, b = me.metrics.loc[list(V.columns), ["S/N", "Min", "50th", "Max"]], whole.metrics[["S/N", "Min", "50th", "Max"]]
    expect(np.allclose(a.to_numpy(float), b.to_numpy(float), rtol=1e-9, equal_nan=True), "metrics after merging are not those of all samples")
    for h, (v, u) in zip(hs, others):
        compare(h, v, u, {}, what="merged source: ")
    ctx.nontrivial()


PROP = Prop("C14", [
    Sub("split", s_split, c_split, 240, 5000, "non-trivial = at least two locations"),
    Sub("merge", s_merge, c_merge, 160, 3000, "non-trivial = handlers actually merged"),
])
