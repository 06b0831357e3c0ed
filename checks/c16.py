"""C16: point results agree with what a passive turbine at that point would see"""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation, Skip

PROPERTY = "C16"
RULE = (
    "generated farms, inflow kinds, wake models, rotors, partial wakes, frames, ground models and chunk sizes under the downwind and the iterative algorithm; "
    "passive: tiny zero-thrust turbines are inserted anywhere into the farm at generated points and compared with the point calculation there, all "
    "other turbines must stay as without them; ambient: ambient parts of waked point results, ambient-only point calculations and points that no wake "
    "reaches against the inflow; non-trivial: some point with a wake effect (passive) / a farm with wakes (ambient)"
)
ASSUMPTIONS = [
    "positions where moving by one centimetre changes the result by more than 1e-5 (edges of top-hat wakes) are not judged",
    "wind directions differ by less than about 30 degrees within the site at the same time (the downwind order is built from their mean)",
    "the Rankine half body model, which turns the wind at the rotor, is left out (the rotor speed is the component along the rotor axis)",
    "downwind algorithm: wake models whose strength does not depend on later evaluated wake models (turbulence wakes after wind wakes, ambient wake growth); iterative algorithm: any",
]


@st.composite
def case(draw, ambient=False):
    it = draw(st.integers(0, 2)) == 0
    ind = draw(st.integers(0, 4)) == 0
    frames = ["rotor_wd", "rotor_wd", "rotor_wd_farmo" if it else "rotor_wd", "yawed"] + ([] if it else ["streamlines_100"])

    @st.composite
    def wms(d):
        if it:
            out = d(gen.wake_models(models=gen.WIND_TOPHAT + gen.WIND_GAUSS)) if d(st.integers(0, 3)) else [d(gen.wind_wake(models=gen.WIND_SLICED))]
        else:
            ti = d(st.booleans())
            m = d(st.sampled_from(gen.WIND_TOPHAT + gen.WIND_GAUSS + gen.WIND_SLICED))
            amb = ["_k004", "_k0075", "_ambka04", "_ambka02_kb0004", "_k002"]
            local = ["_ka04", "_ka02_kb0004"]
            out = [f"{m}_{d(st.sampled_from(gen.WS_SUP + gen.WS_SUP_LIM))}{d(st.sampled_from(amb if ti else amb + local))}"]
            if ti:
                out.append(d(gen.ti_wake()))
                if "_ka" in out[1]:
                    out[1] = out[1].replace("_ka", "_ambka")
        if it and len(out) == 1 and d(st.integers(0, 2)) == 0:
            # two wind wake models at the same time
            out.append(d(gen.wind_wake(models=gen.WIND_TOPHAT + gen.WIND_GAUSS)))
            if out[0] == out[1]:
                out.pop()
        if ind and it:
            out.append(d(st.sampled_from(["SelfSimilar2020", "Rathmann", "VortexSheet"])))
        return out

    sc = draw(gen.scenario(nmax=5, smax=4, wms=wms(), frames=frames, ti=None))
    if not it and len(sc["wakes"]) > 1 and (sc["frame"] == "yawed" or any(gen.wm_kind(w) == "sliced" for w in sc["wakes"])):
        # these depend on turbulence
        sc["wakes"] = sc["wakes"][:1]
    if sc["partial"]:
        sc["partial"] = {w: sc["partial"].get(w, "grid9" if w == "RHB" else "centre") for w in sc["wakes"]}
    if draw(st.integers(0, 3)) == 0:
        sc["states"] = draw(gen.other_states(sc["states"]["rows"], kinds=("nc", "onepoint", "multi", "ts")))
        if sc["states"]["kind"] == "onepoint":
            # no strongly differing directions at the same time: the downwind order would be ambiguous
            w = sc["states"]["rows"][0][1]
            sc["states"]["rows"] = [[r[0], round((w + 9.0 * ((7 * i) % 3 - 1)) % 360.0, 4), r[2], r[3]] for i, r in enumerate(sc["states"]["rows"])]
    if sc["frame"].startswith("streamlines") and sc["states"]["kind"] == "nc":
        # hundreds of evaluations of the inflow: files on the fly are too slow
        sc["states"]["mode"] = "preload"
    if sc["frame"] == "yawed":
        sc = draw(gen.add_yaw(sc))
    n, s = len(sc["turbines"]), len(sc["states"]["rows"])
    P = []
    for _ in range(draw(st.integers(1, 5))):
        P.append([draw(st.integers(0, n - 1)), draw(st.integers(0, s - 1)), draw(gen.fl(-4.0, 12.0, 0.25)) + 0.0113, draw(st.sampled_from([0.0, 0.1, -0.3, 0.45, -0.7, 1.2, -2.5, 4.0])), draw(st.sampled_from([0.0, 0.2, -0.25, 0.5, -0.4]))])
    sc["P"] = P
    sc["ins"] = [draw(st.integers(0, n)) for _ in P]
    sc["null"] = draw(st.booleans())
    sc["it"] = it
    sc["eng"] = draw(st.sampled_from([["single", None, None, None], ["numpy", 2, 2, 2], ["numpy", None, 1, 1]]))
    sc["amb"] = draw(st.booleans())
    return sc


def positions(sc):
    out = []
    for i, s, a, b, c in sc["P"]:
        t = sc["turbines"][i]
        typ = sc["types"][t["t"]]
        D, H = t.get("D", gen.type_dh(typ)[0]), t.get("H", gen.type_dh(typ)[1])
        w = np.deg2rad(sc["states"]["rows"][s][1])
        ex, ey = -np.sin(w), -np.cos(w)
        out.append([t["xy"][0] + D * (a * ex - b * ey), t["xy"][1] + D * (a * ey + b * ex), max(H + c * D, 5.0)])
    return np.round(np.array(out), 3)


def algo_of(sc, **kw):
    if sc["it"]:
        from foxes.algorithms.iterative.models import ConvVarDelta

        return gen.build_algo(
            sc, algo="Iterative", mod_cutin=dict(modify_ct=False, modify_P=False), max_it=80,
            conv_crit=ConvVarDelta(dict(REWS=1e-9, TI=1e-10, CT=1e-10)), **kw,
        )
    return gen.build_algo(sc, **kw)


def runs(sc, pts, **kw):
    algo = algo_of(sc, **kw)
    with gen.engine(*sc["eng"]):
        fr = algo.calc_farm()
        if sc["it"] and algo.iterations is not None and algo.iterations >= 80:
            raise Skip("not converged")
        pr = algo.calc_points(fr, gen.points_array(pts, algo)) if pts is not None else None
        pa = algo.calc_points(fr, gen.points_array(pts, algo), ambient=True) if pts is not None else None
    return fr, pr, pa


def run_passive(sc):
    import foxes
    import pandas as pd

    pts = positions(sc)
    k = len(pts)
    # copies of the points around, for the continuity filter
    e = 0.01
    off = np.array([[0, 0, 0], [e, 0, 0], [-e, 0, 0], [0, e, 0], [0, -e, 0], [0, 0, e], [0, 0, -e]])
    cloud = (pts[None] + off[:, None]).reshape(-1, 3)
    with gen.scratch():
        mb = gen.build_mbook(sc)
        f0, p0, __ = runs(sc, cloud, mbook=mb)
        # now with the passive turbines
        if not sc["null"]:
            df = pd.DataFrame(dict(ws=[0.0, 50.0], P=[0.0, 0.0], ct=[0.0, 0.0]))
            mb.turbine_types["passive"] = foxes.models.turbine_types.PCtFile(df, D=0.004, H=100.0, P_nominal=1.0)
        else:
            mb.turbine_types["passive"] = foxes.models.turbine_types.NullType(D=0.004, H=100.0, P_nominal=1.0)
        base = gen.build_farm(sc)
        seq = [("t", i) for i in range(base.n_turbines)]
        for j, w in enumerate(sc["ins"]):
            seq.insert(min(w, len(seq)), ("p", j))
        farm = foxes.WindFarm()
        for a, i in seq:
            if a == "t":
                t = base.turbines[i]
                t.index = None
                t.name = None
                farm.add_turbine(t, verbosity=0)
            else:
                farm.add_turbine(foxes.Turbine(xy=pts[i, :2].copy(), H=float(pts[i, 2]), turbine_models=(["vset", "yawm2yaw"] if "set" in sc else []) + ["passive"]), verbosity=0)
        it = [q for q, (a, i) in enumerate(seq) if a == "t"]
        ip = [q for q, (a, i) in sorted(enumerate(seq), key=lambda x: x[1][1]) if a == "p"]
        if "set" in sc:
            # data of set-variables models in farm order
            sc2 = dict(sc)
            sc2["set"] = {m: {"vars": {v: widen(x, it, len(seq)) for v, x in d["vars"].items()}} for m, d in sc["set"].items()}
            pt = mb.turbine_types["passive"]
            mb = gen.build_mbook(sc2)
            mb.turbine_types["passive"] = pt
        f1, __, __ = runs(sc, None, mbook=mb, farm=farm)
    tol = 1e-5 if sc["it"] else 1e-6
    gen.compare(
        f0, f1, "turbines of the farm with and without passive turbines", tol=tol, skip=("order", "order_inv", "order_ssel", "weight"),
        sel1=lambda v, x: x[:, it] if x.ndim > 1 and x.shape[1] == len(seq) else x,
    )
    lb = {"iterative" if sc["it"] else "downwind", sc["frame"], sc["states"]["kind"]}
    ns = f0.sizes["state"]
    amb = {"WS": "AMB_WS", "TI": "AMB_TI", "WD": "AMB_WD"}
    pairs = [("REWS", "WS"), ("TI", "TI"), ("WD", "WD"), ("AMB_REWS", "AMB_WS"), ("AMB_TI", "AMB_TI"), ("AMB_WD", "AMB_WD"), ("RHO", "RHO"), ("AMB_RHO", "AMB_RHO")]
    judged = 0
    skip = np.zeros((ns, k), dtype=bool)
    for fv, pv in pairs:
        if fv not in f1 or pv not in p0:
            continue
        q = np.broadcast_to(gen.vals(p0, pv), (ns, 7 * k)).reshape(ns, 7, k)
        d = np.max(gen.diff(pv, q, q[:, :1], 1.0), axis=1)
        skip |= ~(d < 1e-5)
    if "REWS" in f1:
        # wind averages of negative or vanishing speeds
        skip |= gen.vals(f1, "REWS")[:, ip] <= 1e-3
        skip |= np.broadcast_to(gen.vals(p0, "WS"), (ns, 7 * k)).reshape(ns, 7, k)[:, 0] <= 1e-3
    for fv, pv in pairs:
        if fv not in f1 or pv not in p0:
            continue
        a = gen.vals(f1, fv)[:, ip]
        b = np.broadcast_to(gen.vals(p0, pv), (ns, 7 * k)).reshape(ns, 7, k)[:, 0]
        r = gen.diff(pv, a, b, 5e-5)
        r[skip] = 0.0
        judged += int(np.sum(~skip))
        if np.max(r) > 1:
            s, j = [int(x) for x in np.unravel_index(np.argmax(r), r.shape)]
            raise Violation(f"state {s}, point {pts[j].tolist()}: passive turbine sees {fv}={a[s, j]}, point calculation gives {pv}={b[s, j]}")
        if pv in amb and np.any((np.abs(b - np.broadcast_to(gen.vals(p0, amb[pv]), (ns, 7 * k)).reshape(ns, 7, k)[:, 0]) > 1e-4) & ~skip):
            lb.add("nt")
    if not judged:
        lb.discard("nt")
    return lb


def widen(x, it, n):
    x = np.array(x, dtype=float)
    out = np.zeros((x.shape[0], n))
    out[:, it] = x
    return out.tolist()


def run_ambient(sc):
    """Ambient parts, and points far upstream of all turbines"""
    import foxes

    pts = positions(sc)
    up = []
    rows = sc["states"]["rows"]
    # far upstream of all turbines for the state of the row
    for i, s, a, b, c in sc["P"][:2]:
        w = np.deg2rad(rows[s][1])
        e = np.array([-np.sin(w), -np.cos(w)])
        xy = np.array([t["xy"] for t in sc["turbines"]], dtype=float)
        o = np.min(xy @ e) - 50.0 - 100.0 * abs(a)
        q = xy[i] - e * (xy[i] @ e) + e * o + np.array([-e[1], e[0]]) * b * 100.0
        up.append([round(q[0], 3), round(q[1], 3), 100.0])
    allp = np.concatenate([pts, np.array(up)])
    with gen.scratch():
        mb = gen.build_mbook(sc)
        fr, pr, pa = runs(sc, allp, mbook=mb)
        # the inflow there, with no wakes and with a farm of one turbine only
        farm = foxes.WindFarm()
        farm.add_turbine(foxes.Turbine(xy=[sc["turbines"][0]["xy"][0], sc["turbines"][0]["xy"][1]], turbine_models=["NREL5MW"]), verbosity=0)
        algo = foxes.algorithms.Downwind(farm, gen.build_states(sc["states"]), wake_models=[], verbosity=0)
        with gen.engine("single"):
            f0 = algo.calc_farm(ambient=True)
            p0 = algo.calc_points(f0, gen.points_array(allp, algo), ambient=True)
    ns = fr.sizes["state"]
    n = len(allp)
    B = lambda ds, v: np.broadcast_to(gen.vals(ds, v), (ns, n))
    for v in ("WS", "WD", "TI", "RHO"):
        for ds, w in ((pr, f"AMB_{v}"), (pa, f"AMB_{v}")):
            if w not in ds:
                raise Violation(f"no variable {w} in point results: {list(ds.data_vars)}")
            r = gen.diff(v, B(ds, w), B(p0, f"AMB_{v}"), 1e-8)
            if np.max(r) > 1:
                s, j = [int(x) for x in np.unravel_index(np.argmax(r), r.shape)]
                raise Violation(f"state {s}, point {allp[j].tolist()}: {w}={B(ds, w)[s, j]} in {'ambient' if ds is pa else 'waked'} results, the inflow there is {B(p0, f'AMB_{v}')[s, j]}")
    for v in pa.data_vars:
        if v in ("WS", "WD", "TI", "RHO"):
            raise Violation(f"waked variable {v} in ambient point results")
    lb = {sc["states"]["kind"], sc["frame"]}
    # uniform direction per state: nothing arrives upstream
    if sc["states"]["kind"] in ("table", "ts", "multi") and not any(gen.wm_kind(w) == "induction" for w in sc["wakes"]):
        for j, (i, s, a, b, c) in enumerate(sc["P"][:2]):
            for v in ("WS", "WD", "TI", "RHO"):
                x, y = float(B(pr, v)[s, len(pts) + j]), float(B(pr, f"AMB_{v}")[s, len(pts) + j])
                if not abs(x - y) <= 1e-9 * (1 + abs(y)):
                    raise Violation(f"state {s}, point {up[j]} upstream of all turbines: {v}={x}, ambient {y}")
        lb.add("upstream")
    if gen.has_wakes(fr):
        lb.add("nt")
    return lb


SUBS = [
    Sub("passive", case(), run_passive, quick=220),
    Sub("ambient", case(), run_ambient, quick=120),
]
