"""C06: downwind wakes act downstream only"""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation, Skip

PROPERTY = "C06"
RULE = (
    "random farms, downwind wake models, straight and yawed frames; one turbine is removed, moved further downstream, or "
    "replaced (type, height, diameter); all turbines and points upstream of it (both positions) in a state must keep their "
    "results bitwise up to round-off; non-trivial: wakes present and at least one upstream turbine with wakes on it in that state"
)
ASSUMPTIONS = ["turbines and points compared lie at least 1 m upstream of the changed turbine"]


@st.composite
def case(draw):
    sc = draw(
        gen.scenario(
            nmin=2, nmax=6, smin=1, smax=4, jitter="always",
            frames=["rotor_wd", "rotor_wd", "rotor_wd_farmo", "yawed_k004", "streamlines_100"],
        )
    )
    if sc["frame"].startswith("yawed"):
        draw(gen.add_yaw(sc, per_state=False))
    n = len(sc["turbines"])
    sc["who"] = draw(st.integers(0, n - 1))
    # the change is judged in every state separately
    sc["change"] = draw(st.sampled_from(["remove", "move", "type", "H", "D"]))
    sc["newxy"] = [draw(gen.fl(-1000.0, 6000.0, 7.0)), draw(gen.fl(-1000.0, 6000.0, 7.0))]
    sc["newtype"] = draw(gen.any_type())
    sc["newval"] = draw(gen.fl(90.0, 200.0, 5.0))
    k = draw(st.integers(0, 4))
    sc["points"] = [
        [draw(gen.fl(-500.0, 5500.0, 12.5)), draw(gen.fl(-500.0, 5500.0, 12.5)), draw(gen.fl(20.0, 200.0, 10.0))]
        for _ in range(k + 1)
    ]
    return sc


def run(sc):
    fr0, pr0 = gen.run_both(sc, sc["points"])
    w = sc["who"]
    ch = sc["change"]
    c2 = dict(sc, turbines=[dict(t) for t in sc["turbines"]], types=list(sc["types"]))
    n = len(sc["turbines"])
    keep = list(range(n))
    if ch == "remove":
        c2["turbines"].pop(w)
        keep.pop(w)
        if "set" in sc:
            c2["set"] = {"vset": {"vars": {"YAWM": [r[:w] + r[w + 1:] for r in sc["set"]["vset"]["vars"]["YAWM"]]}}}
    elif ch == "move":
        c2["turbines"][w]["xy"] = sc["newxy"]
    elif ch == "type":
        c2["types"].append(sc["newtype"])
        c2["turbines"][w]["t"] = len(c2["types"]) - 1
    else:
        c2["turbines"][w][ch] = sc["newval"]
    fr1, pr1 = gen.run_both(c2, sc["points"])
    xy = np.array([t["xy"] for t in sc["turbines"]])
    pts = np.array(sc["points"])[:, :2]
    lb = {ch}
    for si, r in enumerate(sc["states"]["rows"]):
        a = np.deg2rad(r[1])
        e = -np.array([np.sin(a), np.cos(a)])
        x = xy @ e
        xw = x[w]
        if ch == "move":
            xw = min(xw, float(np.array(sc["newxy"]) @ e))
        up = [i for i in range(n) if i != w and x[i] < xw - 1.0]
        for v in fr0.data_vars:
            if v in ("tname", "order", "order_inv", "order_ssel", "weight"):
                continue
            A, B = fr0[v].to_numpy(), fr1[v].to_numpy()
            if A.ndim != 2 or A.shape[1] != n:
                continue
            for i in up:
                j = keep.index(i)
                rr = gen.diff(v, A[si, i], B[si, j], 1e-7)
                if np.max(rr) > 1:
                    raise Violation(
                        f"{v} of turbine {i} in state {si} changed from {A[si, i]!r} to {B[si, j]!r} by '{ch}' of downstream turbine {w}"
                    )
        if up and ch != "none":
            d = np.abs(gen.vals(fr0, "REWS")[si, up] - gen.vals(fr0, "AMB_REWS")[si, up])
            if np.any(d > 1e-6):
                lb.add("nt")
        px = pts @ e
        upp = [i for i in range(len(pts)) if px[i] < xw - 1.0]
        for v in pr0.data_vars:
            if v == "weight":
                continue
            A, B = gen.vals(pr0, v), gen.vals(pr1, v)
            if upp and A.ndim == 2:
                rr = gen.diff(v, A[si, upp], B[si, upp], 1e-7)
                if np.max(rr) > 1:
                    raise Violation(
                        f"{v} of a point upstream changed in state {si} from {A[si, upp]} to {B[si, upp]} by '{ch}' of downstream turbine {w}"
                    )
                if np.any(np.abs(gen.vals(pr0, "WS")[si, upp] - gen.vals(pr0, "AMB_WS")[si, upp]) > 1e-6):
                    lb.add("nt")
                    lb.add("points")
    return lb


@st.composite
def case_first(draw):
    sc = draw(gen.scenario(nmin=1, nmax=6, smin=1, smax=5, jitter="always"))
    return sc


def run_first(sc):
    """the most upstream turbine sees ambient flow; also lateral outsiders of bounded wakes"""
    fr = gen.run_farm(sc)
    xy = np.array([t["xy"] for t in sc["turbines"]])
    lb = set()
    for si, r in enumerate(sc["states"]["rows"]):
        a = np.deg2rad(r[1])
        e = -np.array([np.sin(a), np.cos(a)])
        i = int(np.argmin(xy @ e))
        for v in fr.data_vars:
            if v.startswith("AMB_") and v[4:] in fr:
                x, y = gen.vals(fr, v)[si, i], gen.vals(fr, v[4:])[si, i]
                if np.max(gen.diff(v, x, y, 1e-9)) > 1:
                    raise Violation(f"most upstream turbine {i}, state {si}: {v}={x!r} but {v[4:]}={y!r}")
    if gen.has_wakes(fr):
        lb.add("nt")
    return lb


@st.composite
def case_side(draw):
    """bounded (top hat) wakes and a turbine far to the side"""
    sc = draw(gen.scenario(nmin=2, nmax=5, smin=1, smax=1, jitter="always", wms=st.one_of(
        st.tuples(gen.wind_wake(models=["Jensen"])).map(list),
        st.tuples(gen.wind_wake(models=["Jensen"]), gen.ti_wake()).map(list),
    )))
    # keep the wakes narrow
    sc["wakes"] = [w.split("_k")[0].split("_ambk")[0] + ("_k004" if not w.startswith(("IECTI2019_", "IECTI2005_")) else "") for w in sc["wakes"]]
    sc["partial"] = None
    sc["side"] = draw(gen.fl(4000.0, 20000.0, 100.0)) * draw(st.sampled_from([-1, 1]))
    sc["down"] = draw(gen.fl(0.0, 3000.0, 50.0))
    return sc


def run_side(sc):
    wd = sc["states"]["rows"][0][1]
    a = np.deg2rad(wd)
    e = -np.array([np.sin(a), np.cos(a)])
    m = np.array([-e[1], e[0]])
    xy = np.array([t["xy"] for t in sc["turbines"]])
    c = xy.mean(axis=0)
    newp = c + m * sc["side"] + e * sc["down"]
    c2 = dict(sc, turbines=sc["turbines"] + [dict(xy=[float(newp[0]), float(newp[1])], t=0, m=[])])
    fr0, fr1 = gen.run_farm(sc), gen.run_farm(c2)
    n = len(xy)
    gen.compare(fr0, fr1, "far lateral turbine added", tol=1e-7, skip=("order", "order_inv", "weight"),
                sel1=lambda v, x: x[:, :n] if x.ndim == 2 and x.shape[1] == n + 1 else x)
    for v in ("REWS", "TI", "WD", "P", "CT"):
        x, y = gen.vals(fr1, v)[0, n], gen.vals(fr1, "AMB_" + v)[0, n]
        if np.max(gen.diff(v, x, y, 1e-7)) > 1:
            raise Violation(f"turbine {abs(sc['side'])} m to the side is waked: {v}={x!r}, ambient {y!r}")
    return {"nt"} if gen.has_wakes(fr0) else set()


SUBS = [
    Sub("downstream", case(), run, quick=900),
    Sub("first", case_first(), run_first, quick=300),
    Sub("side", case_side(), run_side, quick=250),
]
