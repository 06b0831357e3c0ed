"""C03: steady states are independent of each other"""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C03"
RULE = (
    "random farms, models and state tables; the table is re-run with a generated row selection "
    "(permuted, duplicated, dropped) plus extra foreign rows; non-trivial: wakes present and the selection is not the identity"
)
ASSUMPTIONS = ["state weights (relative frequencies of the table) are excluded: they normalise over all states"]


@st.composite
def case(draw):
    sc = draw(gen.scenario(smin=1, smax=7, tmodels=st.sampled_from([[], [], ["kTI_02"], ["kTI_amb_04"]])))
    n = len(sc["states"]["rows"])
    extra = draw(gen.table(0, 3))
    sc["extra"] = extra
    sc["sel"] = draw(st.lists(st.integers(0, n + len(extra) - 1), min_size=1, max_size=n + 4))
    sc["kw"] = draw(st.sampled_from([{}, {}, {"chunk": 2}]))
    return sc


def run(sc):
    ref = gen.run_farm(sc)
    n = len(sc["states"]["rows"])
    rows = sc["states"]["rows"] + sc["extra"]
    c2 = dict(sc, states=dict(sc["states"], rows=[rows[i] for i in sc["sel"]]))
    eng = ("numpy", 2, None, 2) if sc["kw"] else ("single", None, None, None)
    fr = gen.run_farm(c2, eng=eng)
    pos = [k for k, i in enumerate(sc["sel"]) if i < n]
    src = [i for i in sc["sel"] if i < n]
    if not pos:
        return {"trivial"}
    gen.compare(
        ref,
        fr,
        f"rows {sc['sel']}",
        skip=("weight",),
        sel0=lambda v, x: x[src] if x.ndim > 1 else x,
        sel1=lambda v, x: x[pos] if x.ndim > 1 else x,
    )
    lb = set()
    if gen.has_wakes(ref) and sc["sel"] != list(range(n)):
        lb.add("nt")
    return lb


@st.composite
def case_labels(draw):
    sc = draw(gen.scenario(smin=1, smax=7, nmax=3))
    n = len(sc["states"]["rows"])
    sc["index"] = draw(st.one_of(
        st.lists(st.integers(-50, 1000), min_size=n, max_size=n, unique=True),
        st.just(None)))
    sc["eng"] = draw(st.sampled_from([["single", None, None, None], ["numpy", 1, None, 2], ["numpy", 2, None, 2], ["threads", 3, None, 2]]))
    return sc


def run_labels(sc):
    import pandas as pd
    import foxes

    df = gen.table_df(sc["states"]["rows"])
    if sc["index"] is None:
        df.index = pd.date_range("2021-03-01", periods=len(df), freq="7min")
    else:
        df.index = sc["index"]
    states = foxes.input.states.StatesTable(df, output_vars=["WS", "WD", "TI", "RHO"])
    fr = gen.run_farm(sc, eng=tuple(sc["eng"]), states=states)
    got = list(fr["state"].to_numpy())
    if got != list(df.index.to_numpy()):
        raise Violation(f"state labels {got[:5]} instead of {list(df.index)[:5]}")
    gen_ws = gen.vals(fr, "AMB_WD")
    r = gen.diff("WD", gen_ws, df["WD"].to_numpy()[:, None])
    if np.max(r) > 1:
        raise Violation("ambient wind direction of a state differs from its input row")
    if fr.sizes["turbine"] != len(sc["turbines"]):
        raise Violation("wrong number of turbines")
    return {"nt"} if len(df) > 1 else set()


SUBS = [
    Sub("rows", case(), run, quick=800),
    Sub("labels", case_labels(), run_labels, quick=150),
]
