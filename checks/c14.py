"""C14: iterative and sequential algorithms agree with the downwind algorithm"""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation, Skip

PROPERTY = "C14"
RULE = (
    "iterative: farms with one-way coupled wake models (wake growth independent of wake added turbulence, turbulence wakes after wind "
    "wakes), random convergence settings, under-relaxation, chunk sizes, ambient runs; sequential: random farms, any inflow kind, any wake "
    "models, stepped state by state, compared with the one-shot run including points and every step's return value; non-trivial: wakes "
    "change some turbine (iterative) / at least two states and wakes (sequential)"
)
ASSUMPTIONS = [
    "the cut-in modification of thrust curves, an option of the iterative algorithms, is switched off for the comparison",
    "relative tolerance 1e-6, or 1e-4 with under-relaxation or loose limits (the convergence limit bounds the accuracy)",
]


@st.composite
def iter_case(draw):
    ti = draw(st.booleans())
    local = ("_k004", "_k0075", "_ambka04", "_ambka02_kb0004", "_k002")

    @st.composite
    def wms(d):
        m = d(st.sampled_from(gen.WIND_TOPHAT + gen.WIND_GAUSS + ([] if ti else gen.WIND_SLICED)))
        out = [f"{m}_{d(st.sampled_from(gen.WS_SUP + gen.WS_SUP_LIM))}{d(st.sampled_from(local))}"]
        if ti:
            out.append(d(gen.ti_wake()))
            # wake growth of the turbulence wakes as well
            if "_ka" in out[1]:
                out[1] = out[1].replace("_ka", "_ambka")
        return out

    sc = draw(gen.scenario(wms=wms(), smax=6, profile=True, frames=("rotor_wd",) if ti else ("rotor_wd", "rotor_wd", "yawed")))
    if draw(st.integers(0, 3)) == 0 and not ti:
        sc = draw(gen.add_yaw(sc))
    if draw(st.integers(0, 4)) == 0:
        sc["states"] = draw(gen.other_states(sc["states"]["rows"]))
    o = dict(cs=draw(st.sampled_from([None, 1, 2, 3])))
    c = draw(st.sampled_from(["default", "default", "none", "limits"]))
    o["conv"] = c
    if c == "limits":
        o["limits"] = draw(st.sampled_from([dict(REWS=1e-8), dict(REWS=1e-7, TI=1e-8, CT=1e-8), dict(P=1e-3, REWS=1e-8)]))
    if c == "none":
        o["max_it"] = len(sc["turbines"]) + draw(st.integers(2, 4))
    if draw(st.integers(0, 2)) == 0:
        e = draw(st.sampled_from(["pre_wake", "last"]))
        vs = draw(st.sampled_from([["REWS"], ["CT"], ["REWS", "CT"], ["REWS", "REWS2", "REWS3"], ["TI"]]))
        o["urelax"] = {e: {v: draw(st.sampled_from([0.1, 0.3, 0.5])) for v in vs}}
        if c == "none":
            o["max_it"] = 60
        elif c == "default":
            o["max_it"] = 200
    o["ambient"] = draw(st.integers(0, 5)) == 0
    o["outputs"] = draw(st.sampled_from([None, None, "default", ["REWS", "P", "D"]]))
    o["repeat"] = draw(st.booleans())
    sc["it"] = o
    return sc


def run_iter(sc):
    import foxes

    o = sc["it"]
    with gen.scratch():
        kw = {}
        if o.get("max_it"):
            kw["max_it"] = o["max_it"]
        if o["conv"] == "none":
            kw["conv_crit"] = None
        elif o["conv"] == "limits":
            from foxes.algorithms.iterative.models import ConvVarDelta

            kw["conv_crit"] = ConvVarDelta(o["limits"])
        fk = dict(ambient=o["ambient"])
        if o["outputs"] is not None:
            fk["outputs"] = o["outputs"]
        a0 = gen.build_algo(sc)
        a1 = gen.build_algo(sc, algo="Iterative", mod_cutin=dict(modify_ct=False, modify_P=False), **kw)
        for e, u in o.get("urelax", {}).items():
            a1.set_urelax(e, **u)
        with gen.engine("numpy", o["cs"]):
            f0 = a0.calc_farm(**fk)
            f1 = a1.calc_farm(**fk)
            f2 = a1.calc_farm(**fk) if o["repeat"] else None
    if "REWS" in f0 and np.any(gen.vals(f0, "REWS") <= 0.0):
        raise Skip("negative wind speeds")
    tol = 1e-4 if o.get("urelax") else 1e-6
    skip = ("order", "order_inv", "order_ssel")
    if set(f0.data_vars) != set(f1.data_vars):
        raise Violation(f"variables differ: {sorted(set(f0.data_vars) ^ set(f1.data_vars))}")
    gen.compare(f0, f1, "iterative vs downwind", tol=tol, skip=skip)
    if f2 is not None:
        gen.compare(f1, f2, "second run of the iterative algorithm", tol=1e-9)
    lb = set()
    if not o["ambient"] and np.any(np.abs(gen.vals(f0, "REWS") - gen.vals(f0, "AMB_REWS")) > 1e-6 if "AMB_REWS" in f0 else True):
        lb.add("nt")
    lb |= {f"conv_{o['conv']}", "ambient" if o["ambient"] else "waked"}
    lb |= set(f"urelax_{e}" for e in o.get("urelax", {}))
    return lb


@st.composite
def seq_case(draw):
    sc = draw(gen.scenario(smin=2, smax=6, grounds=True))
    o = {}
    if draw(st.integers(0, 2)) == 0:
        sc["states"] = draw(gen.other_states(sc["states"]["rows"]))
    if draw(st.integers(0, 3)) == 0:
        sc = draw(gen.add_yaw(sc))
    if draw(st.integers(0, 3)) == 0:
        sc["wakes"].append(draw(st.sampled_from(["SelfSimilar2020", "Rathmann", "VortexSheet"])))
        if sc["partial"]:
            sc["partial"] = dict(sc["partial"], **{sc["wakes"][-1]: "centre"})
    if draw(st.integers(0, 3)) == 0:
        # moving turbines
        t = draw(st.sampled_from(sc["turbines"]))
        t["move"] = [draw(gen.fl(-40.0, 40.0, 5.0)) for _ in range(2)]
    pts = None
    if draw(st.booleans()):
        n = draw(st.integers(1, 4))
        pts = [[draw(gen.fl(-500.0, 5000.0, 100.0)) + 3.0, draw(gen.fl(-500.0, 5000.0, 100.0)), draw(gen.fl(60.0, 150.0, 10.0))] for _ in range(n)]
        if draw(st.booleans()):
            o["pmove"] = [30.0, -20.0, 1.0]
    o["points"] = pts
    o["ambient"] = draw(st.integers(0, 4)) == 0
    o["eng"] = draw(st.sampled_from([["single", None], ["numpy", None], ["numpy", 2]]))
    o["twice"] = draw(st.booleans())
    sc["seq"] = o
    return sc


def moving_farm(sc, ns):
    farm = gen.build_farm(sc)
    for t, q in zip(farm.turbines, sc["turbines"]):
        if "move" in q:
            t.xy = np.array(q["xy"])[None, :] + np.arange(ns)[:, None] * np.array(q["move"])[None, :]
    return farm


def run_seq(sc):
    o = sc["seq"]
    ns = len(sc["states"]["rows"])
    mc = dict(mod_cutin=dict(modify_ct=False, modify_P=False))
    with gen.scratch():
        pts = None
        if o["points"]:
            pts = np.zeros((ns, len(o["points"]), 3))
            pts[:] = np.array(o["points"])[None]
            if "pmove" in o:
                pts += np.arange(ns)[:, None, None] * np.array(o["pmove"])[None, None]
        a0 = gen.build_algo(sc, algo="Iterative", farm=moving_farm(sc, ns), **mc)
        with gen.engine("numpy", 3):
            f0 = a0.calc_farm(ambient=o["ambient"])
            p0 = None if pts is None else a0.calc_points(f0, pts, ambient=o["ambient"])
        if np.any(gen.vals(f0, "REWS" if "REWS" in f0 else "AMB_REWS") <= 0):
            raise Skip("negative wind speeds")
        with gen.engine(o["eng"][0], o["eng"][1]):
            a1 = gen.build_algo(sc, algo="Sequential", farm=moving_farm(sc, ns), points=pts, ambient=o["ambient"], **mc)
            for _ in range(2 if o["twice"] else 1):
                n = 0
                for r in a1:
                    fr, pr = r if pts is not None else (r, None)
                    gen.compare(f0.isel(state=[n]), fr, f"step {n}", tol=1e-5)
                    gen.compare(fr, a1.cur_farm_results, f"current results at step {n}", tol=1e-12, variables=[v for v in a1.cur_farm_results.data_vars if v in fr])
                    if pr is not None:
                        gen.compare(p0.isel(state=[n]), pr, f"points at step {n}", tol=1e-5, skip=("weight",))
                    if a1.counter != n or a1.index != f0.state.values[n]:
                        raise Violation(f"step {n}: counter {a1.counter}, index {a1.index}")
                    n += 1
                if n != ns:
                    raise Violation(f"{n} steps for {ns} states")
                f1, p1 = a1.farm_results, a1.point_results
                gen.compare(f0, f1, "accumulated farm results", tol=1e-5, skip=("order_ssel",))
                if list(f1.state.values) != list(f0.state.values):
                    raise Violation("state coordinates differ")
                if pts is not None:
                    gen.compare(p0, p1, "accumulated point results", tol=1e-5, skip=("weight",))
    lb = {sc["states"]["kind"], "ambient" if o["ambient"] else "waked"}
    if any("move" in t for t in sc["turbines"]):
        lb.add("moving")
    if pts is not None:
        lb.add("points")
    if not o["ambient"] and gen.has_wakes(f0):
        lb.add("nt")
    return lb


SUBS = [
    Sub("iter", iter_case(), run_iter, quick=260),
    # the entry points 'first', 'pre_rotor' and 'post_rotor' are known findings
    Sub("urelax_other", iter_case(), run_iter, quick=0),
    Sub("seq", seq_case(), run_seq, quick=120),
]
