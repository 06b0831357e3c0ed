"""C33: time-resolved wakes travel with the wind"""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation, Skip

PROPERTY = "C33"
RULE = (
    "lag: rows of turbines along a constant wind direction, random series of wind speeds and thrust coefficients, points behind the turbines; results of all time-resolved frames "
    "against a reference model that takes the wake of each turbine from the state that is one travel time earlier; turn: series of changing wind directions, dynamic wakes in chunks "
    "against stepwise dynamic wakes and against other chunkings; non-trivial: some wake arrives from an earlier state, with another value than the straight wake"
)
ASSUMPTIONS = [
    "space-independent inflow series; the emission time is resolved to the nearest time step",
    "farm results of the iterative algorithm within its convergence limits",
]
MC = dict(mod_cutin=dict(modify_ct=False, modify_P=False))
WM = ["Jensen_linear_k004", "Jensen_linear_k0075", "Bastankhah2014_linear_k004", "Bastankhah2014_linear_k002", "Bastankhah2016_linear_k004", "TurbOPark_linear_k004"]


def frame_for(mb, f, dt, length=15):
    import foxes.models.wake_frames as wf

    if f == "timelines":
        mb.wake_frames["fr"] = wf.Timelines(max_length_km=length, dt_min=dt)
    elif f == "dyn_wakes":
        mb.wake_frames["fr"] = wf.DynamicWakes(max_length_km=length, dt_min=dt, max_age=60)
    else:
        mb.wake_frames["fr"] = wf.SeqDynamicWakes(dt_min=dt)


def calc(sc, f, dt, states, pts, cs, conv=1e-9, nproc=None):
    from foxes.algorithms.iterative.models import ConvVarDelta

    mb = gen.build_mbook(sc)
    frame_for(mb, f, dt)
    kw = dict(MC, conv_crit=ConvVarDelta({"REWS": conv, "TI": conv * 0.1}))
    sc = dict(sc, states=states, frame="fr")
    ns = len(states["rows"])
    P = np.broadcast_to(pts[None], (ns,) + pts.shape).copy()
    with gen.engine("numpy", cs):
        if f == "seq":
            a = gen.build_algo(sc, mbook=mb, algo="Sequential", points=P, **kw)
            for _ in a:
                pass
            return a.farm_results, a.point_results
        a = gen.build_algo(sc, mbook=mb, algo="Iterative", **kw)
        fr = a.calc_farm()
        return fr, a.calc_points(fr, P)


# ---------------------------------------------------------------------- lag


@st.composite
def lag_case(draw):
    nt = draw(st.integers(1, 3))
    ns = draw(st.integers(2, 14))
    dt = draw(st.sampled_from([1, 2]))
    u0 = draw(gen.fl(6.0, 10.0, 0.5))
    steady = draw(st.booleans())
    us = [u0 if steady else round(u0 + draw(gen.fl(-2.0, 2.0, 0.25)), 3) for _ in range(ns)]
    wd = draw(st.sampled_from([270.0, 0.0, 90.0, 33.0, 211.5]))
    xs = [0.0]
    for _ in range(nt - 1):
        xs.append(xs[-1] + draw(gen.fl(400.0, 1500.0, 50.0)) + 7.3)
    perm = list(draw(st.permutations(range(nt))))
    cts = [[draw(gen.fl(0.1, 0.88, 0.02)) for _ in range(nt)] for _ in range(ns)]
    pts = [[draw(gen.fl(-300.0, 5000.0, 50.0)) + 11.1, draw(gen.fl(-90.0, 90.0, 5.0)), draw(gen.fl(-40.0, 40.0, 10.0))] for _ in range(draw(st.integers(1, 6)))]
    return dict(
        f=draw(st.sampled_from(["timelines", "dyn_wakes", "seq"])), dt=dt, us=us, wd=wd, xs=[xs[i] for i in perm], ys=[draw(gen.fl(-60.0, 60.0, 10.0)) for _ in range(nt)],
        cts=cts, pts=pts, wake=draw(st.sampled_from(WM)), cs=draw(st.sampled_from([None, 1, 2, 3, 5])),
    )


def run_lag(c):
    import foxes

    wd = np.deg2rad(c["wd"])
    n = -np.array([np.sin(wd), np.cos(wd)])
    m = np.array([-n[1], n[0]])
    nt, ns = len(c["xs"]), len(c["us"])
    H = 90.0
    us = np.array(c["us"])
    xy = np.array([x * n + y * m for x, y in zip(c["xs"], c["ys"])])
    base = dict(types=[dict(b="NREL5MW")], wakes=[c["wake"]], rotor="centre", partial={c["wake"]: "centre"}, ground=None)
    rows = [[u, c["wd"], 0.08, 1.2] for u in c["us"]]
    q = np.array([p[0] * n + p[1] * m for p in c["pts"]])
    pts = np.concatenate([q, np.array([[H + p[2]] for p in c["pts"]])], axis=1)
    f = c["f"]

    def turbs(idx):
        return [dict(xy=xy[i].tolist(), t=0, H=H, D=120.0, m=["setct"]) for i in idx]

    with gen.scratch():
        # relative deficits of single turbines at all targets, for all thrust values
        tg = np.concatenate([np.concatenate([xy, np.full((nt, 1), H)], 1), pts], 0)
        rel = np.zeros((nt, ns, len(tg)))
        for j in range(nt):
            sc = dict(base, turbines=turbs([j]), states=dict(kind="table", rows=rows), set={"setct": {"vars": {"CT": [[r[j]] for r in c["cts"]]}}})
            a = gen.build_algo(sc)
            with gen.engine("single"):
                fr = a.calc_farm()
                pr = a.calc_points(fr, gen.points_array(tg, a))
            rel[j] = gen.vals(pr, "WS") / us[:, None] - 1.0
        sc = dict(base, turbines=turbs(range(nt)), set={"setct": {"vars": {"CT": c["cts"]}}})
        fr, pr = calc(sc, f, c["dt"], dict(kind="ts", rows=rows, dt=7), pts, c["cs"])
    # travelled distances
    step = us * c["dt"] * 60.0
    if np.any(np.abs(gen.vals(fr, "CT") - np.array(c["cts"])) > 1e-10):
        raise Violation("thrust coefficients were not set")
    rews = np.zeros((ns, nt))
    out = np.zeros((ns, len(tg)))
    fuzzy = np.zeros((ns, len(tg)), dtype=bool)
    lagged = False
    src = np.full((ns, len(tg), nt), -1)
    for s in range(ns):
        # turbines from upstream to downstream, then points
        for t in list(np.argsort(c["xs"])) + list(range(nt, len(tg))):
            v = us[s]
            for j in range(nt):
                if t == j:
                    continue
                d = float(np.dot(tg[t, :2] - xy[j], n))
                y = float(np.dot(tg[t, :2] - xy[j], m))
                L = np.array([step[s - k : s].sum() for k in range(s + 1)])
                r = np.abs(d - L)
                k = int(np.argmin(r))
                if len(r) > 1 and np.partition(r, 1)[1] - r[k] < 1e-6 * (1 + abs(d)):
                    fuzzy[s, t] = True
                lim = step[s - k] if f == "timelines" else step[s]
                if abs(r[k] - lim) < 1e-6 * lim:
                    fuzzy[s, t] = True
                if r[k] < lim and d > 0:
                    w = rel[j, s - k, t] * rews[s - k, j]
                    v += w
                    src[s, t, j] = s - k
                    if k > 0 and abs(w) > 1e-3 and abs(w - rel[j, s, t] * rews[s, j]) > 1e-3:
                        lagged = True
                if j < nt and (fuzzy[s - k, j] if k <= s else False):
                    fuzzy[s, t] = True
            out[s, t] = v
            if t < nt:
                rews[s, t] = v
    if np.any(rews <= 0):
        raise Skip("negative wind speeds")
    got = np.concatenate([gen.vals(fr, "REWS"), gen.vals(pr, "WS")], 1)
    bad = (np.abs(got - out) > 1e-5 * (1 + np.abs(out))) & ~fuzzy
    if bad.any():
        s, t = np.argwhere(bad)[0]
        raise Violation(f"{f}: wind speed at state {s}, {'turbine' if t < nt else 'point'} {t if t < nt else t - nt}: {got[s, t]}, expected {out[s, t]} with wakes from states {src[s, t].tolist()}")
    lb = {f, "chunks" if c["cs"] else "onechunk"}
    if lagged:
        lb.add("nt")
    return lb


# --------------------------------------------------------------------- turn


@st.composite
def turn_case(draw):
    wm = draw(st.sampled_from(WM))
    sc = draw(gen.scenario(nmin=1, nmax=4, smin=1, smax=1, profile=False, grounds=True, wms=st.just([wm])))
    ns = draw(st.integers(2, 12))
    r = sc["states"]["rows"][0]
    rows = []
    ws, wd = min(max(r[0], 5.0), 14.0), r[1]
    turn = draw(st.sampled_from([0.0, 2.0, 8.0, 25.0]))
    for _ in range(ns):
        rows.append([round(ws, 4), round(wd % 360.0, 4), draw(gen.fl(0.03, 0.2, 0.01)), draw(gen.fl(1.0, 1.3, 0.05))])
        ws = min(max(ws + draw(gen.fl(-1.0, 1.0, 0.25)), 4.0), 16.0)
        wd += turn * draw(gen.fl(-1.0, 1.0, 0.125)) + 0.0113
    sc["states"] = dict(kind="ts", rows=rows, dt=draw(st.sampled_from([60, 180, 600])))
    sc["pts"] = [[draw(gen.fl(-500.0, 4500.0, 50.0)) + 3.7, draw(gen.fl(-500.0, 4500.0, 50.0)) + 1.3, draw(gen.fl(60.0, 160.0, 10.0))] for _ in range(draw(st.integers(1, 5)))]
    sc["o"] = dict(dt=draw(st.sampled_from([1, 2, 5])), cs=draw(st.sampled_from([None, 1, 2, 3, 5])), cs2=draw(st.sampled_from([None, 1, 2, 4])), pair=draw(st.sampled_from(["dyn-seq", "dyn-seq", "dyn-dyn", "tl-tl"])))
    return sc


def run_turn(sc):
    o = sc["o"]
    pts = np.array(sc["pts"])
    f1, f2 = dict([("dyn-seq", ("dyn_wakes", "seq")), ("dyn-dyn", ("dyn_wakes", "dyn_wakes")), ("tl-tl", ("timelines", "timelines"))])[o["pair"]]
    with gen.scratch():
        r1, p1 = calc(sc, f1, o["dt"], sc["states"], pts, o["cs"])
        if np.any(gen.vals(r1, "REWS") <= 0):
            raise Skip("negative wind speeds")
        r2, p2 = calc(sc, f2, o["dt"], sc["states"], pts, o["cs2"] if f2 != "seq" else None)
    sk = ("order_ssel", "weight")
    gen.compare(r1, r2, f"{f1} in chunks of {o['cs']} vs {f2}", tol=2e-5, skip=sk)
    gen.compare(p1, p2, f"points, {f1} in chunks of {o['cs']} vs {f2}", tol=2e-5, skip=sk)
    lb = {o["pair"]}
    if gen.has_wakes(r1) or np.any(np.abs(gen.vals(p1, "WS") - gen.vals(p1, "AMB_WS")) > 1e-3):
        lb.add("nt")
    return lb


SUBS = [
    Sub("lag", lag_case(), run_lag, quick=150),
    Sub("turn", turn_case(), run_turn, quick=120),
]
