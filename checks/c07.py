"""C07: physical bounds of waked results; ambient results are wake free"""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C07"
RULE = (
    "random farms x inflow (0-45 m/s) x deficit and turbulence wake models x superpositions x rotor and partial wakes models; "
    "non-trivial: wakes present"
)
ASSUMPTIONS = [
    "non-negativity of waked wind speed is claimed for the superpositions with a lower limit only",
]


@st.composite
def case(draw):
    lim = draw(st.booleans())
    sc = draw(gen.scenario(nmin=1, nmax=6, smin=1, smax=1, sup=gen.WS_SUP_LIM if lim else gen.WS_SUP))
    sc["states"]["rows"] = draw(gen.table(1, 6, ws_lo=0.0, ws_hi=45.0))
    draw(gen.align(sc))
    sc["lim"] = lim
    p = draw(st.integers(0, 2))
    sc["points"] = [
        [draw(gen.fl(-500.0, 5500.0, 12.5)), draw(gen.fl(-500.0, 5500.0, 12.5)), draw(gen.fl(20.0, 200.0, 10.0))]
        for _ in range(p + 1)
    ]
    return sc


def run(sc):
    fr, pr = gen.run_both(sc, sc["points"])
    lb = set()
    n = len(sc["turbines"])
    for v in fr.data_vars:
        if fr[v].dtype.kind == "f" and np.any(np.isnan(gen.vals(fr, v))):
            raise Violation(f"nan in farm results {v}")

    def le(a, b, tol, what):
        if np.any(a > b + tol):
            i = np.unravel_index(np.argmax(a - b), a.shape)
            raise Violation(f"{what}: {a[i]!r} > {b[i]!r} at {tuple(map(int, i))}")

    for v in ("REWS", "REWS2", "REWS3"):
        if v in fr:
            a, w = gen.vals(fr, "AMB_" + v), gen.vals(fr, v)
            le(w, a, 1e-8, f"waked {v} above ambient")
            if sc["lim"]:
                le(np.zeros_like(w), w, 1e-9, f"negative waked {v}")
    le(gen.vals(fr, "AMB_TI"), gen.vals(fr, "TI"), 1e-9, "waked TI below ambient")
    le(gen.vals(pr, "WS"), gen.vals(pr, "AMB_WS"), 1e-8, "waked point WS above ambient")
    if sc["lim"]:
        le(np.zeros_like(gen.vals(pr, "WS")), gen.vals(pr, "WS"), 1e-9, "negative point WS")
    le(gen.vals(pr, "AMB_TI"), gen.vals(pr, "TI"), 1e-9, "waked point TI below ambient")
    for v in ("WD", "RHO"):
        if np.max(gen.diff(v, gen.vals(fr, v), gen.vals(fr, "AMB_" + v), 1e-9)) > 1:
            raise Violation(f"{v} changed by wakes")
    # the largest power in the table of the type (DTU10MW: 10683.7 near rated)
    Pn = np.array([gen.type_Pmax(sc["types"][t["t"]]) for t in sc["turbines"]])
    for v in ("P", "AMB_P"):
        p = gen.vals(fr, v)
        le(np.zeros_like(p), p, 1e-9, f"negative {v}")
        le(p, np.broadcast_to(Pn, p.shape) * (1 + 1e-9), 1e-6, f"{v} above rated power")
    for v in ("CT", "AMB_CT"):
        c = gen.vals(fr, v)
        le(np.zeros_like(c), c, 1e-9, f"negative {v}")
        le(c, np.full_like(c, 1.2), 0, f"{v} too large")
    # ambient part equals the wake free calculation
    free = gen.run_farm(dict(sc, wakes=[], partial=None, ground=None))
    vs = [v for v in fr.data_vars if v.startswith("AMB_")]
    gen.compare(fr, free, "ambient results vs run without wake models", variables=vs, tol=1e-9)
    for v in vs:
        if v[4:] in free:
            if np.max(gen.diff(v, gen.vals(free, v), gen.vals(free, v[4:]), 1e-9)) > 1:
                raise Violation(f"{v[4:]} differs from {v} without wake models")
    algo = gen.build_algo(sc)
    with gen.engine("single"):
        amb = algo.calc_farm(ambient=True)
    gen.compare(fr, amb, "ambient=True calculation", variables=vs, tol=1e-9)
    if any(v[4:] in amb for v in vs):
        raise Violation("ambient=True returned waked variables")
    # each turbine alone
    if n > 1:
        i = len(sc["points"]) % n
        one = gen.run_farm(dict(sc, turbines=[sc["turbines"][i]]))
        for v in vs:
            if gen.vals(fr, v).ndim == 2 and np.max(gen.diff(v, gen.vals(fr, v)[:, i], gen.vals(one, v)[:, 0], 1e-8)) > 1:
                raise Violation(f"{v} of turbine {i} differs from the stand-alone turbine")
            if v[4:] in one and np.max(gen.diff(v, gen.vals(one, v[4:]), gen.vals(one, v), 1e-8)) > 1:
                raise Violation(f"stand-alone turbine {i} is waked: {v[4:]}")
    if gen.has_wakes(fr):
        lb.add("nt")
    return lb


SUBS = [Sub("bounds", case(), run, quick=900)]
