"""C13: wake frames agree with straight wakes in uniform steady flow"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation, Skip

PROPERTY = "C13"
RULE = (
    "frames: farms in uniform flow (a single direction for farm-order based frames), random wake models, rotors, partial wakes and evaluation "
    "points; every wake frame against straight wakes, the time resolved ones after the flow is established; yaw: mirrored points for mirrored "
    "yaw, deflection to the side the rotor pushes, vanishing with the yaw angle; centre: wake coordinates of centreline points are (x, 0, 0) in "
    "every frame and flow; non-trivial: wakes reach some turbine or point (frames), the mirrored results differ (yaw), three or more points on "
    "the centreline (centre)"
)
ASSUMPTIONS = [
    "induction models are only compared for frames that define coordinates upstream of the rotor",
    "time resolved frames are compared at states for which all wakes have passed the whole farm",
    "farm-order based frames run with the iterative algorithm, as required",
]
MC = dict(mod_cutin=dict(modify_ct=False, modify_P=False))
TIME = ("timelines", "dyn_wakes", "seq")
LOCAL = ("_k004", "_k0075", "_ambka04", "_ambka02_kb0004", "_k002")


@st.composite
def oneway(draw, ti):
    """Wake models with one-way coupling"""
    m = draw(st.sampled_from(gen.WIND_TOPHAT + gen.WIND_GAUSS + ([] if ti else gen.WIND_SLICED)))
    out = [f"{m}_{draw(st.sampled_from(gen.WS_SUP + gen.WS_SUP_LIM))}{draw(st.sampled_from(LOCAL))}"]
    if ti:
        t = draw(gen.ti_wake())
        out.append(t.replace("_ka", "_ambka") if "_ambka" not in t else t)
    return out


@st.composite
def frames_case(draw):
    f = draw(st.sampled_from(["farmo", "sorted", "yawed", "yawed", "stream", "stream", "timelines", "timelines", "dyn_wakes", "dyn_wakes", "seq", "seq"]))
    ti = draw(st.booleans())
    ind = f == "farmo" and draw(st.booleans())
    one = f == "farmo" or f in TIME
    kw = dict(wms=oneway(ti)) if one else {}
    single = f in TIME or f == "sorted"
    sc = draw(gen.scenario(nmin=1, nmax=5, smin=1, smax=1 if single else 4, profile=False, **kw))
    if ind:
        sc["wakes"].append(draw(st.sampled_from(["SelfSimilar2020", "SelfSimilar", "Rathmann", "VortexSheet"])))
        if sc["partial"]:
            sc["partial"] = dict(sc["partial"], **{sc["wakes"][-1]: "centre"})
    o = dict(f=f)
    if f in ("sorted", "yawed", "stream", "timelines") and draw(st.integers(0, 4)) == 0:
        # integrates the turbulence along the centreline
        sc["wakes"] = [f"TurbOParkIX_{draw(st.sampled_from(gen.WS_SUP))}_k004_dx{draw(st.sampled_from([40, 100, 150]))}", "CrespoHernandez_max_k004"]
        sc["partial"] = sc["ground"] = None
    if f == "stream":
        o["step"] = draw(st.sampled_from([50.0, 137.0, 500.0, 1000.0]))
    if f in TIME:
        r = sc["states"]["rows"][0]
        r[0] = min(r[0], 15.0)
        # the shortest step that keeps the number of states small
        o["dt"] = draw(st.sampled_from([1, 2, 3, 5]))
        o["unit"] = draw(st.sampled_from(["index", "min", "s"]))
        o["extra"] = draw(st.integers(0, 3))
        o["cs"] = draw(st.sampled_from([None, None, 1, 2, 7]))
        if f == "dyn_wakes":
            o["length"] = draw(st.sampled_from([8, 15]))
            # the default maximal age assumes 5 m/s
            r[0] = max(r[0], 5.1)
    n = draw(st.integers(0, 4))
    o["points"] = [[draw(gen.fl(-500.0, 4500.0, 50.0)) + 3.7, draw(gen.fl(-500.0, 4500.0, 50.0)) + 1.3, draw(gen.fl(60.0, 160.0, 10.0))] for _ in range(n)]
    # points downstream of turbines
    for _ in range(draw(st.integers(0, 2))):
        o["points"].append(["t", draw(st.integers(0, 4)), draw(gen.fl(100.0, 3000.0, 50.0)) + 7.0, draw(gen.fl(-100.0, 100.0, 10.0)), draw(gen.fl(-40.0, 40.0, 10.0))])
    sc["fr"] = o
    return sc


def get_points(sc):
    o, r = sc["fr"], sc["states"]["rows"][0]
    n = -np.array([np.sin(np.deg2rad(r[1])), np.cos(np.deg2rad(r[1]))])
    m = np.array([-n[1], n[0]])
    out = []
    for p in o["points"]:
        if p[0] == "t":
            t = sc["turbines"][p[1] % len(sc["turbines"])]
            x = np.array(t["xy"]) + p[2] * n + p[3] * m
            out.append([x[0], x[1], 100.0 + p[4]])
        else:
            out.append(p)
    return np.array(out, dtype=float).reshape(-1, 3), n, m


def run_frames(sc):
    import foxes
    from foxes.algorithms.iterative.models import ConvVarDelta

    o = sc["fr"]
    f = o["f"]
    pts, n, m = get_points(sc)
    hp = len(pts) > 0
    lim = {"REWS": 1e-9, "TI": 1e-10, "CT": 1e-9}
    lb = {f}
    with gen.scratch():
        sc = dict(sc)
        if f == "sorted":
            # turbines sorted along the wind
            ts = sorted(sc["turbines"], key=lambda t: float(np.dot(t["xy"], n)))
            sc["turbines"] = ts
        algo = "Iterative" if f in ("farmo", "timelines", "dyn_wakes") else "Downwind"
        kw = dict(MC, conv_crit=ConvVarDelta(lim)) if algo == "Iterative" else {}
        nt = len(sc["turbines"])
        ref_algo = "Iterative" if f in TIME or f == "farmo" else "Downwind"
        kr = dict(MC, conv_crit=ConvVarDelta(lim)) if ref_algo == "Iterative" else {}
        frame = {"farmo": "rotor_wd_farmo", "sorted": "rotor_wd_farmo", "yawed": "yawed"}.get(f)
        if f == "stream":
            mlen = 8
            frame = f"streamlines_{o['step']:g}"
        a0 = gen.build_algo(dict(sc, frame="rotor_wd"), algo=ref_algo, **kr)
        with gen.engine("numpy"):
            f0 = a0.calc_farm()
            p0 = a0.calc_points(f0, gen.points_array(pts, a0)) if hp else None
        if np.any(gen.vals(f0, "REWS") <= 0.0):
            raise Skip("negative wind speeds")
        skip = ("order", "order_inv", "order_ssel", "weight")
        if f not in TIME:
            mb = gen.build_mbook(sc)
            if f == "stream":
                mb.wake_frames["sl"] = foxes.models.wake_frames.Streamlines2D(step=o["step"], max_length_km=mlen)
                frame = "sl"
            a1 = gen.build_algo(dict(sc, frame=frame), mbook=mb, algo=algo, **kw)
            with gen.engine("numpy"):
                f1 = a1.calc_farm()
                p1 = a1.calc_points(f1, gen.points_array(pts, a1)) if hp else None
            tol = 1e-6
        else:
            # repeat the state until everything has passed
            row = sc["states"]["rows"][0]
            xs = [float(np.dot(t["xy"], n)) for t in sc["turbines"]] + [float(np.dot(p[:2], n)) for p in pts]
            ext = max(xs) - min(xs)
            step = row[0] * o["dt"] * 60.0
            ns = int(np.ceil(ext / step)) + 2 + o["extra"]
            if (f == "dyn_wakes" and ext > 900.0 * o["length"]) or ("IX" in sc["wakes"][0] and ext > 5500.0):
                raise Skip("beyond the wake length")
            if ns > 30:
                raise Skip("too many states")
            cs = o["cs"]
            if cs is not None and ns > 12:
                cs = max(cs, ns // 3)
            s = dict(kind="ts", rows=[list(row)] * ns, dt=o["dt"] * 60)
            cls = {"timelines": "Timelines", "dyn_wakes": "DynamicWakes", "seq": "SeqDynamicWakes"}[f]
            fk = {}
            dts = {"min": f"{o['dt']}min", "s": f"{60 * o['dt']}s"}.get(o["unit"])
            mb = gen.build_mbook(sc)
            if dts is not None:
                # the time step given to the frame, the index has another one
                s["dt"] = 7
                frame = {"timelines": "timelines_", "seq": "seq_dyn_wakes_"}.get(f, "") + dts
            else:
                frame = {"timelines": "timelines", "seq": "seq_dyn_wakes"}.get(f)
            if f == "timelines" and "IX" in sc["wakes"][0]:
                if ns > 12 or nt > 3:
                    raise Skip("too slow")
                mb.wake_frames["tl"] = foxes.models.wake_frames.Timelines(max_length_km=6, dt_min=o["dt"])
                frame = "tl"
            if f == "dyn_wakes":
                if dts is None:
                    frame = f"dyn_wakes_{o['length']}km"
                else:
                    mb.wake_frames["dw"] = foxes.models.wake_frames.DynamicWakes(max_length_km=o["length"], dt_min=o["dt"])
                    frame = "dw"
            if f == "seq":
                kw = dict(MC, conv_crit=ConvVarDelta(lim), points=np.broadcast_to(pts[None], (ns,) + pts.shape).copy() if hp else None)
                with gen.engine("numpy"):
                    a1 = gen.build_algo(dict(sc, frame=frame, states=s), mbook=mb, algo="Sequential", **kw)
                    for r in a1:
                        pass
                    f1, p1 = a1.farm_results, a1.point_results
            else:
                a1 = gen.build_algo(dict(sc, frame=frame, states=s), mbook=mb, algo="Iterative", **kw)
                with gen.engine("numpy", cs):
                    f1 = a1.calc_farm()
                    p1 = a1.calc_points(f1, gen.points_array(pts, a1)) if hp else None
            if f1.sizes["state"] != ns:
                raise Violation(f"{f1.sizes['state']} states in the results, expected {ns}")
            lb.add("chunks" if cs else "onechunk")
            lb.add(o["unit"])
            # all later states are established as well
            n0 = int(np.ceil(ext / step)) + 1
            for k in range(n0, ns):
                gen.compare(f0, f1.isel(state=[k]), f"{f} at step {k} of {ns} vs straight wakes", tol=1e-5, skip=skip)
                if hp:
                    gen.compare(p0, p1.isel(state=[k]), f"{f} points at step {k} of {ns} vs straight wakes", tol=1e-5, skip=skip)
        if f not in TIME:
            gen.compare(f0, f1, f"{f} vs straight wakes", tol=tol, skip=skip)
            if hp:
                gen.compare(p0, p1, f"{f} points vs straight wakes", tol=tol, skip=skip)
    if gen.has_wakes(f0) or (hp and np.any(np.abs(gen.vals(p0, "WS") - gen.vals(p0, "AMB_WS")) > 1e-3)):
        lb.add("nt")
    return lb


# --------------------------------------------------------------------- yaw


@st.composite
def yaw_case(draw):
    sc = draw(gen.scenario(nmin=1, nmax=1, smin=1, smax=3, profile=False, grounds=False))
    t = sc["turbines"][0]
    t["m0"] = ["vset", "yawm2yaw"]
    o = dict(
        yaw=[draw(st.sampled_from([1e-6, 0.5, 2.5, 5.0, 10.0, 20.0, 30.0])) for _ in sc["states"]["rows"]],
        pts=[[draw(gen.fl(100.0, 5000.0, 50.0)), draw(gen.fl(-150.0, 150.0, 5.0)) + 0.7, draw(gen.fl(60.0, 140.0, 5.0))] for _ in range(draw(st.integers(2, 8)))],
        k=draw(st.sampled_from(["", "", "_k004", "_ka02"])),
    )
    sc["yaw"] = o
    return sc


def run_yaw(sc):
    o = sc["yaw"]
    rows = sc["states"]["rows"]
    ns = len(rows)
    t = np.array(sc["turbines"][0]["xy"])
    wd = np.deg2rad([r[1] for r in rows])
    n = -np.stack([np.sin(wd), np.cos(wd)], -1)
    m = np.stack([-n[:, 1], n[:, 0]], -1)
    q = np.array(o["pts"])

    def pts(sgn, off=None):
        xy = t[None, None] + q[None, :, 0, None] * n[:, None] + sgn * q[None, :, 1, None] * m[:, None]
        return np.concatenate([xy, np.broadcast_to(q[None, :, 2, None], xy.shape[:2] + (1,))], -1)

    def calc(sgn, fac=1.0, side=1.0, frame="yawed" + o["k"]):
        y = np.array(o["yaw"]) * sgn * fac
        s = dict(sc, frame=frame, set={"vset": {"vars": {"YAWM": [[float(v)] for v in y]}}})
        a = gen.build_algo(s)
        with gen.engine("numpy"):
            fr = a.calc_farm()
            return fr, a.calc_points(fr, pts(side))

    sk = ("weight", "order", "order_inv", "order_ssel")
    f1, p1 = calc(1, side=1)
    f2, p2 = calc(-1, side=-1)
    y1, y2 = gen.vals(f1, "YAW"), gen.vals(f2, "YAW")
    w = gen.vals(f1, "WD")
    if np.any(np.abs((y1 - w - np.array(o["yaw"])[:, None] + 180) % 360 - 180) > 1e-8):
        raise Violation("the yaw angle is not wind direction plus misalignment")
    gen.compare(f1, f2, "farm with mirrored yaw", tol=1e-9, skip=sk + ("YAW", "YAWM", "AMB_YAW", "AMB_YAWM"))
    gen.compare(p1, p2, "mirrored yaw at mirrored points", tol=1e-8, skip=sk)
    # vanishing yaw
    f0, p0 = calc(0.0)
    fs, ps = calc(1, fac=1e-9)
    gen.compare(p0, ps, "vanishing yaw", tol=1e-5, skip=sk)
    fr, pr = calc(0.0, frame="rotor_wd")
    gen.compare(pr, p0, "zero yaw vs straight wakes", tol=1e-8, skip=sk)
    f3, p3 = calc(1, side=-1)
    lb = set()
    if np.any(np.abs(gen.vals(p1, "WS") - gen.vals(p3, "WS")) > 1e-3):
        lb.add("nt")
    return lb


# ------------------------------------------------------------- deflection


@st.composite
def defl_case(draw):
    sc = draw(gen.scenario(nmin=1, nmax=1, smin=1, smax=3, profile=False, grounds=False, wms=st.just(["Jensen_linear_k004"])))
    m = draw(st.sampled_from(["Bastankhah2014_linear", "Bastankhah2016_linear", "TurbOPark_linear"]))
    sc["wakes"] = [m + draw(st.sampled_from(["_k004", "_k002", "_ambka04", "_ambka02_kb0004"]))]
    sc["partial"] = None
    sc["rotor"] = "centre"
    sc["turbines"][0]["m0"] = ["vset", "yawm2yaw"]
    # sufficient thrust
    for r in sc["states"]["rows"]:
        r[0] = min(max(r[0], 5.0), 11.0)
    sc["defl"] = dict(
        yaw=draw(st.sampled_from([5.0, 10.0, 15.0, 20.0, 25.0, 30.0])),
        sign=draw(st.sampled_from([1, -1])),
        x=[draw(gen.fl(2.0, 15.0, 0.5)) for _ in range(draw(st.integers(2, 4)))],
    )
    return sc


def run_defl(sc):
    """Wake centre found by scanning across the wake"""
    o = sc["defl"]
    rows = sc["states"]["rows"]
    ns = len(rows)
    t = np.array(sc["turbines"][0]["xy"])
    D = 1.0
    wd = np.deg2rad([r[1] for r in rows])
    n = -np.stack([np.sin(wd), np.cos(wd)], -1)
    m = np.stack([-n[:, 1], n[:, 0]], -1)

    def centres(yaw):
        y = np.array([[float(yaw)]] * ns)
        s = dict(sc, frame="yawed", set={"vset": {"vars": {"YAWM": y.tolist()}}})
        a = gen.build_algo(s)
        with gen.engine("numpy"):
            fr = a.calc_farm()
            D = float(gen.vals(fr, "D")[0, 0])
            H = float(gen.vals(fr, "H")[0, 0])
            xs = np.array(sorted(set(o["x"]))) * D
            ys = np.arange(-2.0, 2.0001, 0.01) * D
            xy = t + xs[None, :, None, None] * n[:, None, None] + ys[None, None, :, None] * m[:, None, None]
            p = np.concatenate([xy, np.full(xy.shape[:-1] + (1,), H)], -1).reshape(ns, -1, 3)
            pr = a.calc_points(fr, p)
        d = (gen.vals(pr, "AMB_WS") - gen.vals(pr, "WS")).reshape(ns, len(xs), len(ys))
        wt = np.where(d > 0.98 * d.max(-1, keepdims=True), 1.0, 0.0) * (d.max(-1, keepdims=True) > 1e-3)
        with np.errstate(invalid="ignore"):
            return (wt * ys).sum(-1) / wt.sum(-1), fr, xs, D

    c1, fr, xs, D = centres(o["yaw"] * o["sign"])
    ct = gen.vals(fr, "CT")[:, 0]
    ok = ~np.isnan(c1)
    if not ok.any():
        raise Skip("no wakes")
    # the rotor is turned clockwise by positive misalignment, and its force on the flow points to the left
    s = c1 * np.sign(o["yaw"] * o["sign"])
    if np.any(s[ok] < -0.011 * D):
        raise Violation(f"wake deflected to the side the rotor faces: {c1.tolist()} for misalignment {o['yaw'] * o['sign']}")
    for i in range(ns):
        a = s[i][ok[i]]
        if len(a) > 1 and np.any(np.diff(a) < -0.021 * D):
            raise Violation(f"deflection decreases downstream: {a.tolist()} at {xs.tolist()}")
        if len(a) and ct[i] > 0.3 and o["yaw"] >= 10 and a[-1] < 0.01 * D:
            raise Violation(f"no deflection: {a.tolist()} at {xs.tolist()} with CT={ct[i]}")
    # smaller misalignment, smaller deflection
    c2 = centres(0.5 * o["yaw"] * o["sign"])[0] * o["sign"]
    b = ok & ~np.isnan(c2)
    if np.any(c2[b] > s[b] + 0.021 * D):
        raise Violation(f"half the misalignment deflects more: {c2.tolist()} vs {s.tolist()}")
    lb = {sc["wakes"][0].split("_")[0]}
    if np.any(s[ok] > 0.02 * D):
        lb.add("nt")
    return lb


# ----------------------------------------------------------- centreline


@st.composite
def centre_case(draw):
    f = draw(st.sampled_from(["rotor_wd", "rotor_wd_farmo", "yawed", "yawed", "yawed_k004", "yawed_stream", "stream", "timelines"]))
    sc = draw(gen.scenario(nmin=1, nmax=4, smin=1, smax=5, profile=False, grounds=False, wms=oneway(False)))
    sc["partial"] = None
    o = dict(f=f, nx=draw(st.integers(3, 20)), x1=draw(st.sampled_from([300.0, 1500.0, 6000.0])), step=draw(st.sampled_from([50.0, 100.0])))
    if f in ("stream", "yawed_stream"):
        # slowly varying wind direction
        o["grad"] = [draw(gen.fl(-0.004, 0.004, 0.0005)) for _ in range(2)]
    if f == "timelines":
        d = draw(st.sampled_from([0.0, 0.0, 1.0]))
        r = sc["states"]["rows"][0]
        n = draw(st.integers(2, 12))
        sc["states"] = dict(kind="ts", rows=[[max(r[0], 5.0), (r[1] + d * i) % 360.0, r[2], r[3]] for i in range(n)], dt=draw(st.sampled_from([60, 180])))
        o["drift"] = d
        o["cs"] = draw(st.sampled_from([None, 1, 2, 3, 5]))
    elif f.startswith("yawed"):
        sc = draw(gen.add_yaw(sc))
    sc["ce"] = o
    return sc


def probe_model(log, o):
    import foxes
    from foxes.core.data import TData

    class Probe(foxes.models.wake_models.wind.JensenWake):
        """Compares the wake coordinates of centreline points"""

        def contribute(self, algo, mdata, fdata, tdata, downwind_index, wake_coos, wake_deltas):
            super().contribute(algo, mdata, fdata, tdata, downwind_index, wake_coos, wake_deltas)
            x = np.zeros((mdata.n_states, o["nx"]))
            x[:] = np.linspace(o["x1"] / o["nx"], o["x1"], o["nx"])[None] + 0.37
            wf = algo.wake_frame
            pts = wf.get_centreline_points(algo, mdata, fdata, downwind_index, x.copy())
            q = np.where(np.isnan(pts), 0.0, pts)
            coo = wf.get_wake_coos(algo, mdata, fdata, TData.from_points(q), downwind_index)
            log.append((x, np.isnan(pts).any(-1), coo[:, :, 0], fdata["txyh"][:, downwind_index].copy(), pts, mdata.states_i0(counter=True)))

    return Probe


def run_centre(sc):
    import foxes

    o, f = sc["ce"], sc["ce"]["f"]
    log = []
    lb = {f}
    with gen.scratch():
        mb = gen.build_mbook(sc)
        mb.wake_models["probe"] = probe_model(log, o)("ws_linear", k=0.04)
        sc = dict(sc, frame=f, wakes=list(sc["wakes"]) + ["probe"])
        sl = lambda: foxes.models.wake_frames.Streamlines2D(step=o["step"], max_length_km=8)
        if f == "stream":
            mb.wake_frames["stream"] = sl()
        if f == "yawed_stream":
            mb.wake_frames["yawed_stream"] = foxes.models.wake_frames.YawedWakes(base_frame=sl())
        kw = {}
        if "grad" in o:
            kw["states"] = turning_states(sc["states"]["rows"], o["grad"])
        it = f in ("timelines", "rotor_wd_farmo")
        a = gen.build_algo(sc, mbook=mb, algo="Iterative" if it else "Downwind", partial_wakes="centre", **(MC if it else {}), **kw)
        with gen.engine("single" if f != "timelines" else "numpy", None if f != "timelines" else o["cs"]):
            a.calc_farm()
    if len(sc["turbines"]) > 1 and not log:
        raise Violation("the probe wake model has not been evaluated")
    n = 0
    for x, isn, coo, r, pts, i0 in log:
        ok = ~isn
        if f == "timelines":
            # not yet reached, or a change of direction within the last step
            ok = ok & (coo[..., 0] < 1e10)
        elif isn.any():
            raise Violation("undefined centreline points")
        n += int(ok.sum())
        # the kinks of the curve
        tx, ty = (1e-6, 1e-6)
        if f == "timelines" and o["drift"]:
            tx = ty = 40.0
        if "grad" in o:
            # piecewise linear between support points
            tx = ty = 1e-6 + 5.0 * o["step"] * np.deg2rad(o["step"] * np.linalg.norm(o["grad"]))
        if f.startswith("yawed"):
            ty += 1e-3 * (1 + tx)
            if "grad" in o:
                tx += 10.0
                ty += 10.0
            else:
                # the deflection is applied at the downwind distance x
                tx = 1e-4 * o["x1"]
        for i, t in ((0, tx), (1, ty)):
            d = np.abs(coo[..., i] - (x if i == 0 else 0.0))
            d = np.where(ok, d, 0.0)
            if d.max() > t:
                k = np.unravel_index(np.argmax(d), d.shape)
                raise Violation(f"{f}: wake coordinates of the centreline point at x={x[k]} are {coo[k].tolist()} (rotor at {r[k[0]].tolist()}, point {pts[k].tolist()})")
        dz = np.where(ok, np.abs(coo[..., 2]), 0.0)
        if dz.max() > 1e-6:
            raise Violation(f"{f}: centreline leaves the hub height: {dz.max()}")
    if n > 2:
        lb.add("nt")
    return lb


def turning_states(rows, grad):
    """States with a wind direction that depends on the position"""
    import foxes
    from foxes.core import States

    class Turning(States):
        def __init__(self):
            super().__init__()
            self.rows = np.array(rows)

        def size(self):
            return len(self.rows)

        def index(self):
            return list(range(len(self.rows)))

        def output_point_vars(self, algo):
            return ["WS", "WD", "TI", "RHO"]

        def calculate(self, algo, mdata, fdata, tdata):
            i0 = mdata.states_i0(counter=True)
            r = self.rows[i0 : i0 + mdata.n_states]
            p = tdata["targets"]
            out = {v: np.zeros(p.shape[:-1]) for v in self.output_point_vars(algo)}
            for i, v in enumerate(["WS", "WD", "TI", "RHO"]):
                out[v][:] = r[:, i, None, None]
            out["WD"] = (out["WD"] + grad[0] * p[..., 0] + grad[1] * p[..., 1]) % 360.0
            tdata.add("weight", np.full((mdata.n_states, 1, 1), 1.0 / len(self.rows)), ("state", "target", "target_point"))
            return out

    return Turning()


SUBS = [
    Sub("frames", frames_case(), run_frames, quick=300),
    Sub("yaw", yaw_case(), run_yaw, quick=120),
    Sub("centre", centre_case(), run_centre, quick=160),
    Sub("defl", defl_case(), run_defl, quick=60),
]
