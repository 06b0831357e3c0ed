"""C08: farm and point results equal a scalar evaluation of the published formulas"""
import numpy as np
from hypothesis import strategies as st
from vf import gen, ref
from vf.runner import Sub, Violation

PROPERTY = "C08"
RULE = (
    "random farms (mixed types, hub heights, diameters), homogeneous inflow, all listed wake models, wake growth settings "
    "(constant, local/ambient TI, kTI turbine models), superpositions, rotor models, partial wakes (centre, rotor points, grid, "
    "top hat), mirrors; compared with vf/ref.py; non-trivial: wakes present"
)
ASSUMPTIONS = [
    "wake models are applied in the listed order, as documented for the downwind algorithm",
    "axiwake partial wakes are an approximation and judged in C11",
]


@st.composite
def pwakes(draw, wms):
    out = {}
    for w in wms:
        k = gen.wm_kind(w)
        o = ["rotor_points", "centre", "grid4", "grid9", "grid16"]
        if k == "tophat":
            o += ["top_hat", "top_hat"]
        out[w] = draw(st.sampled_from(o))
    return out


@st.composite
def wms(draw):
    o = draw(st.integers(0, 9))
    if o < 4:
        w = [draw(gen.wind_wake())]
    elif o < 8:
        w = [draw(gen.wind_wake()), draw(gen.ti_wake())]
        if draw(st.booleans()):
            w = w[::-1]
    elif o == 8:
        w = [draw(gen.wind_wake()), draw(gen.ti_wake()), draw(gen.ti_wake())]
    else:
        w = [draw(gen.wind_wake()), draw(gen.wind_wake())]
    return list(dict.fromkeys(w))


@st.composite
def case(draw):
    sc = draw(
        gen.scenario(nmin=1, nmax=5, smin=1, smax=3, wms=wms(), partials=False, profile=False,
                     rotors=["centre", "centre", "grid4", "grid9", "level3"])
    )
    sc["partial"] = draw(pwakes(sc["wakes"]))
    if draw(st.integers(0, 3)) == 0:
        # wake growth from the turbine models
        km = draw(st.sampled_from(["kTI_02", "kTI_04_0004", "kTI_amb_04", "kTI_amb_02_002", "kTI_0.05_1"][:4]))
        ws = [w for w in sc["wakes"] if not w.startswith(("IECTI2019_", "IECTI2005_"))]
        if ws:
            w = draw(st.sampled_from(ws))
            b, s, _ = ref.parse_wake(w)
            nw = f"{b}_{s}"
            if nw not in sc["wakes"]:
                sc["partial"][nw] = sc["partial"].pop(w)
                sc["wakes"][sc["wakes"].index(w)] = nw
                for t in sc["turbines"]:
                    t["m"] = [km if draw(st.booleans()) else "kTI_amb_04"]
    if draw(st.integers(0, 3)) == 0:
        draw(gen.add_yaw(sc))
        # the points of a yawed grid differ in downstream distance, which the sliced models ignore by design
        for w in sc["wakes"]:
            if sc["partial"][w].startswith("grid"):
                sc["partial"][w] = "rotor_points"
    sc["points"] = [
        [draw(gen.fl(-500.0, 5500.0, 12.5)), draw(gen.fl(-500.0, 5500.0, 12.5)), draw(gen.fl(20.0, 200.0, 10.0))]
        for _ in range(draw(st.integers(1, 3)))
    ]
    # points right behind turbines
    for t in sc["turbines"][:2]:
        if draw(st.booleans()):
            a = np.deg2rad(sc["states"]["rows"][0][1])
            d, l = draw(gen.fl(10.0, 1500.0, 10.0)), draw(gen.fl(-100.0, 100.0, 10.0))
            x = t["xy"][0] - np.sin(a) * d + np.cos(a) * l
            y = t["xy"][1] - np.cos(a) * d - np.sin(a) * l
            sc["points"].append([round(float(x), 3), round(float(y), 3), draw(gen.fl(60.0, 150.0, 5.0))])
    return sc


VARS = ["REWS", "REWS2", "REWS3", "TI", "CT", "P"]


def run(sc):
    fr, pr = gen.run_both(sc, sc["points"])
    R = ref.Ref(sc)
    lb = set()
    for si in range(len(sc["states"]["rows"])):
        r = R.state(si, sc["points"])
        for t in r["ts"]:
            for v in VARS:
                for q in (v, "AMB_" + v):
                    if q not in fr:
                        continue
                    a, b = gen.vals(fr, q)[si, t.i], getattr(t, q)
                    if np.max(gen.diff(q, a, b, 2e-6)) > 1:
                        raise Violation(f"{q} of turbine {t.i}, state {si}: foxes {a!r}, formula {b!r}")
        for pi, (ws, ti) in enumerate(r["points"]):
            for v, b in (("WS", ws), ("TI", ti)):
                a = gen.vals(pr, v)[si, pi]
                if np.max(gen.diff(v, a, b, 2e-6)) > 1:
                    raise Violation(f"{v} at point {pi}, state {si}: foxes {a!r}, formula {b!r}")
                if abs(b - gen.vals(pr, "AMB_" + v)[si, pi]) > 1e-6:
                    lb.add("points")
    if gen.has_wakes(fr):
        lb.add("nt")
    for w in sc["wakes"]:
        lb.add(w.split("_")[0])
    return lb


SUBS = [Sub("formulas", case(), run, quick=1500)]
