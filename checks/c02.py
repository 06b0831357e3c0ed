"""C02: point results independent of engine, chunking and point order"""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C02"
RULE = (
    "random farms, inflow and models with 1-12 evaluation points (some state dependent), evaluated "
    "unchunked and with generated engines, state/point chunk sizes, point permutations/duplications and "
    "state sub-selections; non-trivial: a wake effect at some point, and more than one chunk or a changed point list"
)
ASSUMPTIONS = ["chunk-local helper variables are not results"]


@st.composite
def points(draw, nmin=1, nmax=12):
    n = draw(st.integers(nmin, nmax))
    return [
        [draw(gen.fl(-500.0, 5500.0, 12.5)), draw(gen.fl(-500.0, 5500.0, 12.5)), draw(gen.fl(10.0, 260.0, 5.0))]
        for _ in range(n)
    ]


@st.composite
def case(draw):
    sc = draw(gen.scenario(smin=1, smax=7))
    n = len(sc["states"]["rows"])
    pts = draw(points())
    # some points relative to turbines, such that wakes are seen
    k = draw(st.integers(0, 4))
    for _ in range(k):
        t = draw(st.sampled_from(sc["turbines"]))["xy"]
        wd = draw(st.sampled_from(sc["states"]["rows"]))[1]
        a = np.deg2rad(wd)
        d = draw(gen.fl(100.0, 2000.0, 50.0))
        y = draw(gen.fl(-100.0, 100.0, 7.0))
        pts.append(
            [
                round(float(t[0] - d * np.sin(a) + y * np.cos(a)), 3),
                round(float(t[1] - d * np.cos(a) - y * np.sin(a)), 3),
                100.0,
            ]
        )
    sc["points"] = pts
    sc["shift"] = draw(st.sampled_from([None, None, 10.0]))
    sc["runs"] = draw(
        st.lists(
            st.tuples(
                st.sampled_from(["numpy", "numpy", "threads"]),
                st.one_of(st.none(), st.integers(1, n + 1)),
                st.one_of(st.none(), st.integers(1, len(pts) + 1)),
                st.integers(1, 4),
            ),
            min_size=1,
            max_size=2,
        )
    )
    sc["perm"] = draw(st.lists(st.integers(0, len(pts) - 1), min_size=1, max_size=len(pts) + 2))
    return sc


def get_points(sc):
    p = np.array(sc["points"], dtype=float)
    n = len(sc["states"]["rows"])
    p = np.repeat(p[None], n, axis=0)
    if sc["shift"]:
        p[..., 0] += sc["shift"] * np.arange(n)[:, None]
    return p


def run(sc):
    P = get_points(sc)
    algo = gen.build_algo(sc)
    with gen.engine("single"):
        fr = algo.calc_farm()
        ref = algo.calc_points(fr, P)
    n, m = P.shape[:2]
    labels = set()
    waked = np.any(np.abs(gen.vals(ref, "WS") - gen.vals(ref, "AMB_WS")) > 1e-6)
    for e, cs, cp, npr in sc["runs"]:
        a2 = gen.build_algo(sc)
        with gen.engine(e, cs, cp, npr):
            pr = a2.calc_points(fr, P)
        gen.compare(ref, pr, f"points, engine {e}, chunks {cs} x {cp}, n_procs {npr}")
        labels.add(f"engine:{e}")
        if waked and ((cs is not None and cs < n) or (cp is not None and cp < m)):
            labels.add("nt")
            labels.add("chunked")
    perm = sc["perm"]
    e, cs, cp, npr = sc["runs"][0]
    a2 = gen.build_algo(sc)
    with gen.engine(e, cs, cp, npr):
        pr = a2.calc_points(fr, P[:, perm])
    gen.compare(
        ref, pr, f"permuted points {perm}, engine {e}", sel0=lambda v, x: x[:, perm] if x.ndim == 2 and x.shape[1] == m else x
    )
    if waked:
        labels.add("nt")
    if m > 20:
        labels.add("many")
    return labels


@st.composite
def case_sel(draw):
    sc = draw(gen.scenario(smin=2, smax=7))
    n = len(sc["states"]["rows"])
    sc["points"] = draw(points(1, 6))
    sc["shift"] = draw(st.sampled_from([None, 10.0]))
    sc["sel"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True).map(sorted))
    sc["how"] = draw(st.sampled_from(["isel", "sel"]))
    sc["eng"] = draw(
        st.tuples(st.sampled_from(["single", "numpy"]), st.one_of(st.none(), st.integers(1, n)), st.none(), st.integers(1, 3))
    )
    return sc


def run_sel(sc):
    P = get_points(sc)
    algo = gen.build_algo(sc)
    with gen.engine("single"):
        fr = algo.calc_farm()
        ref = algo.calc_points(fr, P)
    a2 = gen.build_algo(sc)
    kw = {f"states_{sc['how']}": sc["sel"]}
    with gen.engine(*sc["eng"]):
        pr = a2.calc_points(fr, P[sc["sel"]], **kw)
    gen.compare(ref, pr, f"states_{sc['how']}", sel0=lambda v, x: x[sc["sel"]])
    if list(pr["state"].to_numpy()) != [list(ref["state"].to_numpy())[i] for i in sc["sel"]]:
        raise Violation("state labels of sub-selection differ")
    lb = {"sub-selection"}
    if gen.has_wakes(fr) and len(sc["sel"]) < P.shape[0]:
        lb.add("nt")
    return lb


@st.composite
def case_amb(draw):
    sc = draw(case_sel())
    sc["own"] = draw(st.booleans())
    return sc


def run_amb(sc):
    P = get_points(sc)
    algo = gen.build_algo(sc)
    with gen.engine("single"):
        fr = algo.calc_farm()
        ref = algo.calc_points(fr, P)
    a2 = gen.build_algo(sc)
    with gen.engine(*sc["eng"]):
        pr = (algo if sc["own"] else a2).calc_points(fr, P, ambient=True)
    vs = [v for v in ref.data_vars if v.startswith("AMB_")]
    gen.compare(ref, pr, "ambient points", variables=vs)
    if any(v in pr for v in ("WS", "WD", "TI", "RHO")):
        raise Violation("waked variables in ambient results")
    return {"nt"} if gen.has_wakes(fr) else set()


SUBS = [
    Sub("chunks", case(), run, quick=600),
    Sub("states_sel", case_sel(), run_sel, quick=200),
    Sub("ambient", case_amb(), run_amb, quick=100),
]
