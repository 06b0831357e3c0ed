"""C01: farm results independent of engine and chunking"""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C01"
RULE = (
    "random farms x inflow states of all kinds x wake/rotor/partial/ground models, Downwind and Iterative, straight, yawed and dynamic wake frames; each run "
    "unchunked (single engine) and with generated engines and chunk sizes; threads with forced frequent switches; processes and dask engines; non-trivial: "
    "at least one wake effect and at least two chunks"
)
ASSUMPTIONS = []


@st.composite
def case_chunks(draw):
    sc = draw(gen.scenario(smin=1, smax=9))
    n = len(sc["states"]["rows"])
    sc["runs"] = draw(
        st.lists(
            st.tuples(
                st.sampled_from(["numpy", "numpy", "threads"]),
                st.one_of(st.none(), st.integers(1, n + 2)),
                st.integers(1, 5),
            ),
            min_size=1,
            max_size=2,
        )
    )
    return sc


def run_chunks(sc):
    ref = gen.run_farm(sc)
    labels = set()
    n = len(sc["states"]["rows"])
    for e, cs, npr in sc["runs"]:
        fr = gen.run_farm(sc, eng=(e, cs, None, npr))
        gen.compare(ref, fr, f"engine {e}, chunk size {cs}, n_procs {npr}")
        if list(fr["state"].to_numpy()) != list(ref["state"].to_numpy()):
            raise Violation("state coordinate differs")
        labels.add(f"engine:{e}")
        if gen.has_wakes(ref) and n > 1 and cs != n:
            labels.add("nt")
    return labels


@st.composite
def case_kinds(draw):
    """Other inflow states, algorithms and wake frames"""
    sc = draw(gen.scenario(smin=2, smax=9, nmax=4))
    rows = sc["states"]["rows"]
    k = draw(st.sampled_from(["table", "nc", "onepoint", "multi", "ts", "ts"]))
    if k != "table":
        sc["states"] = draw(gen.other_states(rows, kinds=(k,)))
    sc["algo"] = draw(st.sampled_from(["Downwind", "Iterative", "Iterative"]))
    fr = ["rotor_wd", "rotor_wd", "yawed"]
    if sc["algo"] == "Iterative" and k in ("ts", "onepoint"):
        fr += ["timelines", "dyn_wakes"] * 2
    sc["frame"] = draw(st.sampled_from(fr))
    if sc["frame"] in ("timelines", "dyn_wakes"):
        # wakes that need time to arrive
        wd = draw(gen.fl(0.0, 359.0, 1.0))
        for r in sc["states"]["rows"]:
            r[0], r[1] = 6.0 + r[0] % 6.0, round((wd + draw(gen.fl(-15.0, 15.0, 1.0))) % 360.0 + 0.07, 3)
        if k == "ts":
            sc["states"]["dt"] = draw(st.sampled_from([30, 60, 600]))
    if sc["frame"] == "yawed":
        draw(gen.add_yaw(sc))
    n = len(rows)
    sc["runs"] = draw(
        st.lists(st.tuples(st.sampled_from(["numpy", "numpy", "threads"]), st.integers(1, n), st.integers(1, 5)), min_size=1, max_size=2)
    )
    return sc


def run_kinds(sc):
    with gen.scratch():
        ref = gen.run_farm(sc, algo=sc["algo"])
        late = sc["frame"] in ("timelines", "dyn_wakes")
        for e, cs, npr in sc["runs"]:
            fr = gen.run_farm(sc, eng=(e, cs, None, npr), algo=sc["algo"])
            # wakes from other chunks: within the convergence limits
            gen.compare(ref, fr, f"{sc['algo']}, {sc['states']['kind']}, {sc['frame']}: engine {e}, chunk size {cs}, n_procs {npr}", tol=1e-4 if late else 1e-6, skip=("order", "order_inv", "order_ssel") if late else ())
    labels = {sc["states"]["kind"], sc["algo"], sc["frame"]}
    if gen.has_wakes(ref) and any(cs < len(sc["states"]["rows"]) for _, cs, _ in sc["runs"]):
        labels.add("nt")
    return labels


@st.composite
def case_races(draw):
    """Many small chunks in threads that are interrupted often"""
    sc = draw(gen.scenario(smin=3, smax=6, nmin=2, nmax=5, frames=("rotor_wd", "rotor_wd", "yawed")))
    rows = sc["states"]["rows"]
    m = draw(st.integers(3, 6))
    # variations of the same rows
    sc["states"]["rows"] = [[round(min(max(r[0] * (1 + 0.03 * j), 2.0), 28.0), 4), round((r[1] + 0.9 * j) % 360.0, 4), round(r[2] * (1 + 0.1 * j), 4), r[3]] for j in range(m) for r in rows]
    sc["algo"] = draw(st.sampled_from(["Downwind", "Downwind", "Iterative"]))
    sc["cs"], sc["np"], sc["cp"] = draw(st.integers(1, 3)), draw(st.integers(2, 8)), draw(st.integers(1, 3))
    sc["sw"] = draw(st.sampled_from([1e-6, 1e-6, 1e-5, 1e-4]))
    sc["pts"] = [[draw(gen.fl(-500.0, 3000.0, 50.0)), draw(gen.fl(-500.0, 3000.0, 50.0)), 90.0] for _ in range(draw(st.integers(0, 4)))]
    return sc


def run_races(sc):
    import sys

    def both(eng):
        algo = gen.build_algo(sc, algo=sc["algo"])
        with gen.engine(*eng):
            fr = algo.calc_farm()
            return fr, algo.calc_points(fr, gen.points_array(sc["pts"], algo)) if sc["pts"] else None

    f0, p0 = both(("single", None, None, None))
    sw = sys.getswitchinterval()
    for rep in range(2):
        try:
            sys.setswitchinterval(sc["sw"])
            f1, p1 = both(("threads", sc["cs"], sc["cp"], sc["np"]))
        finally:
            sys.setswitchinterval(sw)
        what = f"{sc['algo']}, threads, chunk size {sc['cs']}, n_procs {sc['np']}, repetition {rep}"
        gen.compare(f0, f1, what)
        if p0 is not None:
            gen.compare(p0, p1, what + ", points", variables=list(p0.data_vars))
    return {"nt", sc["algo"]} if gen.has_wakes(f0) else {sc["algo"]}


@st.composite
def case_engines(draw):
    sc = draw(gen.scenario(smin=2, smax=6, nmax=4))
    if draw(st.booleans()):
        sc["states"] = draw(gen.other_states(sc["states"]["rows"], kinds=("multi", "ts", "nc")))
    sc["algo"] = draw(st.sampled_from(["Downwind", "Downwind", "Iterative"]))
    sc["e"] = [draw(st.sampled_from(["process", "process", "multiprocess", "dask", "xarray", "default"])), draw(st.integers(1, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    sc["pts"] = [[draw(gen.fl(-500.0, 3000.0, 50.0)), draw(gen.fl(-500.0, 3000.0, 50.0)), 90.0] for _ in range(draw(st.integers(0, 4)))]
    return sc


def run_engines(sc):
    with gen.scratch():
        res = []
        for e in (("single", None, None, None), sc["e"]):
            algo = gen.build_algo(sc, algo=sc["algo"])
            with gen.engine(*e):
                fr = algo.calc_farm()
                res.append((fr, algo.calc_points(fr, gen.points_array(sc["pts"], algo)) if sc["pts"] else None))
    (f0, p0), (f1, p1) = res
    gen.compare(f0, f1, f"engine {sc['e']}, {sc['algo']}")
    if p0 is not None:
        gen.compare(p0, p1, f"engine {sc['e']}, {sc['algo']}, points", variables=list(p0.data_vars))
    return {sc["e"][0]} | ({"nt"} if gen.has_wakes(f0) else set())


SUBS = [
    Sub("chunks", case_chunks(), run_chunks, quick=500),
    Sub("kinds", case_kinds(), run_kinds, quick=200),
    Sub("races", case_races(), run_races, quick=60, sched=True),
    Sub("engines", case_engines(), run_engines, quick=40),
]
