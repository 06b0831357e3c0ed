"""C19: one-point measured time series are transported through the site with the wind"""
import os
import io
import math
import contextlib
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C19"
RULE = (
    "generated one-point series (table, file, base states object, multi-height tables and NetCDF files; regular and irregular times or a fixed step; "
    "any order of output variables, fixed values, weights, reference point in two or three coordinates, one or several timeline heights), chunk sizes, "
    "turbines and points up to several time steps up- and downwind and across. steady direction: comparison with an explicit particle travel-time "
    "reference; turning winds: every value must be a mixture of two consecutive measurements, equal to the measurement at the reference plane, "
    "constant signals give a homogeneous flow, and results are unchanged under shifts and rotations of site, reference point and wind; also with "
    "the sequential algorithm. non-trivial: some position more than one step away from the reference"
)
ASSUMPTIONS = [
    "the flow between state s-1 and s moves by wind speed times time step of state s, as implemented; before the first and after the last measurement the first and the last one hold",
    "positive wind speeds; the wind is interpolated as vector between measurements and between heights",
]
VARS = ["WS", "WD", "TI", "RHO"]
KINDS = ["ts", "ts_pos", "base", "multi", "multinc"]


@st.composite
def case(draw, turning=False):
    n = draw(st.integers(2 if turning else 1, 8))
    kind = draw(st.sampled_from(KINDS))
    hs = [80.0]
    if kind.startswith("multi"):
        hs = draw(st.sampled_from([[60.0, 100.0], [50.0, 90.0, 200.0]]))
    nh = len(hs)
    d0 = draw(st.sampled_from([0.0, 90.0, 270.0, 33.0, 201.5, 359.0]))
    turn = st.sampled_from([0.0, 5.0, -15.0, 40.0, -90.0, 120.0, 180.0]) if turning else st.just(0.0)
    const = draw(st.integers(0, 5)) == 0
    wd0 = [(d0 + draw(turn)) % 360.0 for _ in range(n)]
    ws0 = [draw(gen.fl(2.0, 15.0, 0.5)) for _ in range(n)]
    if const:
        wd0, ws0 = [wd0[0]] * n, [ws0[0]] * n
    fac = [1.0] + [draw(st.sampled_from([1.0, 1.2, 1.5])) for _ in range(nh - 1)]
    D = dict(
        WS=[[round(w * f, 4) for f in fac] for w in ws0],
        WD=[[w] * nh for w in wd0],
        TI=[[draw(gen.fl(0.02, 0.3, 0.01))] * nh for _ in range(n)],
        RHO=[[draw(gen.fl(1.0, 1.3, 0.01))] * nh for _ in range(n)],
    )
    if turning and nh > 1:
        # veer
        D["WD"] = [[(w[0] + 3.0 * k) % 360.0 for k in range(nh)] for w in D["WD"]]
    fixed = {}
    for v in ("TI", "RHO"):
        if const or draw(st.integers(0, 3)) == 0:
            fixed[v] = D[v][0][0]
            D[v] = [[fixed[v]] * nh for _ in range(n)]
    times = draw(st.sampled_from(["reg", "reg", "irr", "step"]))
    if n == 1:
        times = "step"
    dt = {
        "reg": [draw(st.sampled_from([10, 60, 600, 3600]))] * n,
        "irr": [draw(st.sampled_from([60, 300, 600, 1200])) for _ in range(n)],
        "step": [60 * draw(st.sampled_from([1, 10, 30]))] * n,
    }[times]
    if times == "irr":
        dt[-1] = dt[-2]
    step = ws0[0] * dt[0]
    pos = st.tuples(st.sampled_from([-3.5, -1.25, -1.0, -0.5, -0.01, 0.0, 0.01, 0.3, 0.5, 1.0, 1.1, 1.7, 2.0, 2.5, 4.0, 9.0]), st.sampled_from([0.0, 0.0, -0.5, 0.2, 1.5]), st.sampled_from([0.0, 0.3, 0.7, 1.0]))
    return dict(
        kind=kind, n=n, hs=hs, D=D, fixed=fixed, times=times, dt=dt, d0=d0, const=const, order=draw(st.permutations(VARS)),
        index=draw(st.sampled_from(["time", "int"])) if times == "step" else "time",
        weight=draw(st.integers(0, 2)) == 0, w=[draw(gen.fl(0.1, 2.0, 0.1)) for _ in range(n)],
        ref=[draw(st.sampled_from([0.0, 1000.0, 423456.7])), draw(st.sampled_from([0.0, -500.0, 6123456.7]))],
        ref3=draw(st.booleans()), tlh=draw(st.sampled_from([None, [80.0], [100], [60.0, 80.0, 120.0]])) if nh == 1 else None,
        file=draw(st.booleans()), step_len=step,
        trb=[list(p) for p in draw(st.lists(pos, min_size=1, max_size=3, unique_by=lambda p: p[:2]))], pts=[list(p) for p in draw(st.lists(pos, min_size=1, max_size=5))],
        cs=draw(st.sampled_from([None, 1, 2, 3])), seq=draw(st.integers(0, 4)) == 0, rot=draw(st.sampled_from([0.0, 90.0, 200.0, 37.0])),
        shift=[draw(st.sampled_from([0.0, -3000.0])), draw(st.sampled_from([0.0, 700.0]))],
    )


def place(c, p, rot=0.0, shift=(0.0, 0.0)):
    """Position from along-wind and cross-wind distance in steps"""
    a = math.radians(c["d0"] + rot)
    ex, ey = -math.sin(a), -math.cos(a)
    s = c["step_len"]
    hs = c["hs"]
    z = hs[0] + p[2] * (hs[-1] - hs[0]) if len(hs) > 1 else 60.0 + 60.0 * p[2]
    return [c["ref"][0] + shift[0] + s * (p[0] * ex - p[1] * ey), c["ref"][1] + shift[1] + s * (p[0] * ey + p[1] * ex), z]


def build(c, d, rot=0.0, shift=(0.0, 0.0)):
    import foxes
    import pandas as pd
    import xarray as xr

    S = foxes.input.states
    n, hs = c["n"], c["hs"]
    D = {v: np.array(c["D"][v]) for v in VARS}
    D["WD"] = (D["WD"] + rot) % 360.0
    if c["index"] == "int":
        idx = pd.RangeIndex(n, name="state")
    else:
        t = np.concatenate([[0], np.cumsum(c["dt"][:-1])]).astype("timedelta64[s]") + np.datetime64("2022-05-01T00:00:00")
        idx = pd.DatetimeIndex(t, name="Time")
    kw = dict(output_vars=list(c["order"]), fixed_vars=dict(c["fixed"]))
    var2col = {}
    okw = {}
    if c["times"] == "step":
        okw["dt_min"] = c["dt"][0] // 60
    if c["tlh"] is not None:
        okw["tl_heights"] = list(c["tlh"])
    ref = [c["ref"][0] + shift[0], c["ref"][1] + shift[1]] + ([100.0] if c["ref3"] else [])
    if c["kind"] in ("ts", "ts_pos", "base"):
        df = pd.DataFrame({v: D[v][:, 0] for v in VARS if v not in c["fixed"]}, index=idx)
        if c["weight"]:
            df["freq"] = c["w"]
            var2col["weight"] = "freq"
        src = df
        if c["file"] and c["index"] == "time":
            src = os.path.join(d, f"t{int(rot)}.csv")
            df.to_csv(src)
        kw["var2col"] = var2col
        if c["kind"] == "base":
            cls = S.Timeseries if c["index"] == "time" else S.StatesTable
            if c["tlh"] is None and not c["ref3"]:
                okw["tl_heights"] = [100.0]
            return S.OnePointFlowStates(ref, base_states=cls(src, **kw), **okw), idx
        if c["index"] == "int":
            return S.OnePointFlowStates(ref, "StatesTable", src, **kw, **(okw if okw.get("tl_heights") or c["ref3"] else dict(okw, tl_heights=[100.0]))), idx
        if c["kind"] == "ts":
            return S.OnePointFlowTimeseries(ref, data_source=src, **kw, **okw), idx
        return S.OnePointFlowTimeseries(ref, src, **kw, **okw), idx
    if c["kind"] == "multi":
        cols = {}
        for v in VARS:
            if v in c["fixed"]:
                continue
            for i, h in enumerate(hs):
                cols[f"{v}-{h:g}"] = D[v][:, i]
        if c["weight"]:
            cols["freq"] = c["w"]
            var2col["weight"] = "freq"
        df = pd.DataFrame(cols, index=idx)
        if c["index"] == "int":
            return S.OnePointFlowStates(ref, "MultiHeightStates", df, heights=hs, var2col=var2col, **kw, **okw), idx
        return S.OnePointFlowMultiHeightTimeseries(ref, df, heights=hs, var2col=var2col, **kw, **okw), idx
    sc = "Time" if c["index"] == "time" else "state"
    dv = {v: ((sc, "H"), D[v]) for v in VARS if v not in c["fixed"]}
    if c["weight"]:
        dv["freq"] = ((sc,), np.array(c["w"]))
        var2col["weight"] = "freq"
    ds = xr.Dataset(coords={sc: idx.to_numpy(), "H": np.array(hs)}, data_vars=dv)
    if c["index"] == "int":
        return S.OnePointFlowStates(ref, "MultiHeightNCStates", ds, var2col=var2col, format_times_func=None, **kw, **okw), idx
    return S.OnePointFlowMultiHeightNCTimeseries(ref, ds, var2col=var2col, time_coord="Time", **kw, **okw), idx


def evaluate(c, rot=0.0, shift=(0.0, 0.0), seq=False, cs=None):
    import foxes

    with gen.scratch() as d:
        states, idx = build(c, d, rot, shift)
        farm = foxes.WindFarm()
        trb = [place(c, p, rot, shift) for p in c["trb"]]
        for x, y, h in trb:
            farm.add_turbine(foxes.Turbine(xy=[x, y], H=h, D=1e-3, turbine_models=["NREL5MW"]), verbosity=0)
        pts = np.array([place(c, p, rot, shift) for p in c["pts"]])
        P = np.repeat(pts[None], c["n"], axis=0)
        if seq:
            with gen.engine("single"):
                algo = foxes.algorithms.Sequential(farm, states, wake_models=[], ambient=True, calc_pars={}, points=P, verbosity=0)
                for r in algo:
                    pass
            fr, pr = algo.farm_results, algo.point_results
        else:
            with gen.engine("numpy", cs):
                algo = foxes.algorithms.Downwind(farm, states, wake_models=[], verbosity=0)
                fr = algo.calc_farm(ambient=True)
                pr = algo.calc_points(fr, P, ambient=True)
    A = {"WS": "AMB_REWS", "WD": "AMB_WD", "TI": "AMB_TI", "RHO": "AMB_RHO"}
    out = {v: np.concatenate([np.broadcast_to(gen.vals(fr, A[v]), (c["n"], len(trb))), np.broadcast_to(gen.vals(pr, f"AMB_{v}"), (c["n"], len(pts)))], axis=1) for v in VARS}
    return out, fr, np.array(trb + pts.tolist()), idx


def tl_heights(c):
    if len(c["hs"]) > 1:
        return c["hs"]
    return c["tlh"] or [100.0]


def uv(ws, wd):
    r = math.radians(wd)
    return [-ws * math.sin(r), -ws * math.cos(r)]


def signal(c, hi):
    """Rows of U, V, TI, RHO at a height"""
    hi = hi if len(c["hs"]) > 1 else 0
    return [uv(c["D"]["WS"][s][hi], c["D"]["WD"][s][hi]) + [c["D"]["TI"][s][hi], c["D"]["RHO"][s][hi]] for s in range(c["n"])]


def mix_heights(c, z, rows):
    H = tl_heights(c)
    if len(H) == 1:
        return rows[0]
    i = min(max(sum(h <= z for h in H) - 1, 0), len(H) - 2)
    f = (z - H[i]) / (H[i + 1] - H[i])
    return [(1 - f) * a + f * b for a, b in zip(rows[i], rows[i + 1])]


def travel(c, hi, s, P):
    """Signal at along-wind distance P from the reference in state s, steady direction"""
    k = hi if len(c["hs"]) > 1 else 0
    L = [c["D"]["WS"][j][k] * c["dt"][j] for j in range(c["n"])]
    sig = signal(c, hi)
    tol = 1e-9 * (abs(P) + 1e3)
    if P > 0:
        r, j = P, s
        while j >= 0:
            if r <= L[j] + tol:
                w = min(r / L[j], 1.0)
                return [w * a + (1 - w) * b for a, b in zip(sig[max(j - 1, 0)], sig[j])]
            r -= L[j]
            j -= 1
        return sig[0]
    r, j = -P, s + 1
    while j < c["n"]:
        if r <= L[j] + tol:
            w = min(r / L[j], 1.0)
            return [w * a + (1 - w) * b for a, b in zip(sig[j], sig[j - 1])]
        r -= L[j]
        j += 1
    return sig[-1]


def to_vars(m):
    return dict(WS=math.hypot(m[0], m[1]), WD=math.degrees(math.atan2(-m[0], -m[1])) % 360.0, TI=m[2], RHO=m[3])


def dv(v, a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0) if v == "WD" else abs(a - b) / (1 + abs(b))


def weights(c, fr, idx):
    n = c["n"]
    W = fr["weight"].to_numpy().reshape(n, -1)
    e = np.array(c["w"]) if c["weight"] else np.full(n, 1.0 / n)
    if np.max(np.abs(W - e[:, None])) > 1e-12:
        raise Violation(f"weights {W[:, 0].tolist()}, expected {e.tolist()}")
    if c["index"] == "time" and not np.array_equal(fr["state"].to_numpy().astype("datetime64[ns]"), idx.to_numpy().astype("datetime64[ns]")):
        raise Violation(f"state labels {fr['state'].to_numpy()}, expected {idx.to_numpy()}")


def run_steady(c):
    got, fr, pos, idx = evaluate(c, seq=c["seq"], cs=c["cs"])
    if not c["seq"]:
        weights(c, fr, idx)
    allp = c["trb"] + c["pts"]
    H = tl_heights(c)
    far = False
    for j, p in enumerate(allp):
        far = far or abs(p[0]) > 1
        for s in range(c["n"]):
            e = to_vars(mix_heights(c, pos[j][2], [travel(c, hi, s, p[0] * c["step_len"]) for hi in range(len(H))]))
            for v in VARS:
                g = float(got[v][s, j])
                # positions may carry rounding of large coordinates
                if not dv(v, g, e[v]) <= 1e-6:
                    raise Violation(f"state {s}, {p[0]} steps downwind, {p[1]} across, height {pos[j][2]}: {v}={g}, expected {e[v]}")
    lb = {c["kind"], c["times"]} | ({"seq"} if c["seq"] else set()) | ({"multi_h"} if len(H) > 1 else set())
    if far and c["n"] > 1 and not c["const"]:
        lb.add("nt")
    return lb


def run_turning(c):
    got, fr, pos, idx = evaluate(c, seq=False, cs=c["cs"])
    weights(c, fr, idx)
    allp = c["trb"] + c["pts"]
    H = tl_heights(c)
    n = c["n"]
    for j, p in enumerate(allp):
        for s in range(n):
            g = {v: float(got[v][s, j]) for v in VARS}
            m = uv(g["WS"], g["WD"]) + [g["TI"], g["RHO"]]
            # measured value at the reference
            if p[0] == 0.0 and p[1] == 0.0 or c["const"]:
                e = to_vars(mix_heights(c, pos[j][2], [signal(c, hi)[s] for hi in range(len(H))]))
                for v in VARS:
                    if not dv(v, g[v], e[v]) <= 1e-6:
                        raise Violation(f"state {s}, {'constant signal' if c['const'] else 'reference position'}, {p}: {v}={g[v]}, expected {e[v]}")
            # mixture of consecutive measurements
            if len(H) == 1 or (len(c["hs"]) == 1):
                sig = np.array(signal(c, 0))
                ok = False
                for a in range(max(n - 1, 1)):
                    q0, q1 = sig[a], sig[min(a + 1, n - 1)]
                    dq = (q1 - q0) / np.array([10, 10, 0.1, 0.1])
                    nn = float(dq @ dq)
                    w = float(((np.array(m) - q0) / np.array([10, 10, 0.1, 0.1])) @ dq) / nn if nn > 0 else 0.0
                    w = min(max(w, 0.0), 1.0)
                    if np.max(np.abs(q0 + w * (q1 - q0) - m)) < 1e-6:
                        ok = True
                # several heights mix different moments, check ranges only
                if len(H) > 1:
                    ok = all(sig[:, k].min() - 1e-9 <= m[k] <= sig[:, k].max() + 1e-9 for k in range(4))
                if not ok:
                    raise Violation(f"state {s}, {p}: {g} is no mixture of two consecutive measurements")
            else:
                A = np.array([signal(c, hi) for hi in range(len(H))])
                if not all(A[..., k].min() - 1e-9 <= m[k] <= A[..., k].max() + 1e-9 for k in range(4)):
                    raise Violation(f"state {s}, {p}: {g} outside of the range of the measured values")
    # shifted and rotated site; grid points exactly at an edge of a step may fall to either side
    got2, fr2, pos2, __ = evaluate(c, rot=c["rot"], shift=c["shift"], seq=c["seq"], cs=None)
    for v in VARS:
        b = got2[v] - (c["rot"] if v == "WD" else 0.0)
        for s in range(n):
            for j, p in enumerate(allp):
                if not dv(v, float(b[s, j]), float(got[v][s, j])) <= 1e-5:
                    if ambiguous(c, s, j, pos):
                        continue
                    raise Violation(f"state {s}, {p}: {v}={float(b[s, j])} after rotation by {c['rot']} and shift {c['shift']}, before {float(got[v][s, j])}")
    lb = {c["kind"], c["times"]} | ({"seq"} if c["seq"] else set()) | ({"const"} if c["const"] else set())
    if n > 1 and not c["const"] and any(abs(p[0]) > 1 for p in allp):
        lb.add("nt")
    return lb


def ambiguous(c, s, j, pos):
    """True if a particle path of the state touches the reference plane at one of the times, within rounding"""
    H = tl_heights(c)
    for hi in range(len(H)):
        sig = signal(c, hi)
        n0 = np.array(sig[s][:2]) / math.hypot(*sig[s][:2])
        q = np.array(pos[j][:2]) - np.array(c["ref"])
        for sgn, rng in ((-1, range(s, -1, -1)), (1, range(s + 1, c["n"]))):
            t = q.copy()
            if abs(t @ n0) < 1e-3:
                return True
            for k in rng:
                t = t + sgn * np.array(sig[k][:2]) * c["dt"][k]
                # path end on the plane, or movement within the plane
                if abs(t @ n0) < 1e-3:
                    return True
    return False


SUBS = [
    Sub("steady", case(), run_steady, quick=400),
    Sub("turning", case(turning=True), run_turning, quick=350),
]
