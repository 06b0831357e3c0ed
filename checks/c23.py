"""C23: rotor models average the ambient flow over the rotor disc"""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation, Skip

PROPERTY = "C23"
RULE = (
    "generated turbines (diameters, heights), states, rotor models (all, by name and explicit, n = 1..7, with and without reduction, any nint), inflow given by "
    "an analytic field (homogeneous, linear in height, curved with veer and lateral shear) that also records where it is evaluated; rotor effective "
    "values against the mean over the elements of the disc computed from element areas; non-trivial: the field varies over a rotor"
)
ASSUMPTIONS = [
    "no calm points (direction undefined)",
    "element weights of reduced rotors are judged within the resolution of their numeric integration (nint)",
    "effective powers of the wind speed are judged where all rotor points have the wind from the front",
    "evaluation points are the centres of the elements that overlap the disc; centres of corner elements may lie slightly outside of it",
]


def n_of(r):
    return 1 if r["k"] == "centre" else r["n"]


@st.composite
def rotor(draw):
    k = draw(st.sampled_from(["centre", "grid", "grid", "level"]))
    r = dict(k=k)
    if k != "centre":
        r["n"] = draw(st.integers(1, 7))
        r["name"] = draw(st.booleans())
        if not r["name"]:
            r["reduce"] = draw(st.integers(0, 3)) > 0
            r["nint"] = draw(st.sampled_from([50, 100, 200]))
    else:
        r["name"] = draw(st.booleans())
    return r


@st.composite
def case(draw):
    n, s = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["homog", "shear", "curved", "curved", "swirl"]))
    c = dict(rotor=draw(rotor()), kind=kind, cs=draw(st.sampled_from([None, None, 1, 2])), algo=draw(st.sampled_from(["Downwind", "Downwind", "Iterative"])))
    c["turbines"] = []
    for p in draw(gen.layout(n, n)):
        D = draw(gen.fl(40.0, 240.0, 4.0))
        c["turbines"].append(dict(xy=p, D=D, H=round(0.5 * D + draw(gen.fl(5.0, 100.0, 5.0)), 2), t=draw(st.integers(0, 1))))
    # per state: speed, direction, TI, RHO and gradients per 100 m
    c["rows"] = []
    for _ in range(s):
        r = [draw(gen.fl(4.0, 20.0, 0.5)), draw(gen.fl(0.0, 359.0, 1.0)), draw(gen.fl(0.02, 0.3, 0.01)), draw(gen.fl(0.9, 1.3, 0.01))]
        g = lambda a: draw(gen.fl(-a, a, a / 20))
        gr = [0.0] * 9
        if kind == "shear":
            gr[0], gr[1], gr[2] = g(1.5), g(0.02), g(0.05)
        elif kind in ("curved", "swirl"):
            v = 8.0 if kind == "curved" else 60.0
            gr = [g(1.5), g(0.02), g(0.05), g(v), g(1.0), g(0.02), g(0.05), g(1.5), g(v)]
        c["rows"].append(r + gr)
    c["vars"] = draw(st.sampled_from([[], [], ["REWS2"], ["REWS3"], ["REWS2", "REWS3"]]))
    c["calc"] = draw(st.sampled_from([None, None, None, ["REWS", "WS", "WD", "TI", "RHO"], ["REWS3", "REWS", "WD", "YAW", "TI", "RHO"]]))
    for t in c["turbines"][:1]:
        t["t"] = 0
    if c["calc"]:
        if c["rotor"]["name"]:
            c["calc"] = None
        else:
            c["calc"] = c["calc"] + [v for v in c["vars"] if v not in c["calc"]]
            if "YAW" in c["calc"]:
                c["algo"] = "Downwind"
    return c


def field(row, x, y, z, h0=100.0):
    """WS, WD, TI, RHO at points (analytic)"""
    ws, wd, ti, rho, g0, g1, g2, g3, g4, g5, g6, g7, g8 = (np.asarray(a, float) for a in row)
    Z = (z - h0) / 100.0
    Y = np.sin(y / 150.0) + np.cos(x / 190.0)
    return dict(
        WS=np.maximum(ws + g0 * Z + g4 * Y + g7 * np.minimum(Z * Z, 2.0), 0.3),
        WD=(wd + g3 * Z + g8 * Y) % 360.0,
        TI=ti + g1 * Z + g5 * Y,
        RHO=rho + g2 * Z + g6 * Y,
    )


def states_cls():
    import foxes.constants as FC
    import foxes.variables as FV
    from foxes.core import States

    class FieldStates(States):
        def __init__(self, rows):
            super().__init__()
            self.rows = np.array(rows, dtype=float)
            self.PAR = self.var("par")
            self.seen = []

        def load_data(self, algo, verbosity=0):
            d = super().load_data(algo, verbosity)
            d["coords"][self.var("pi")] = np.arange(self.rows.shape[1])
            d["data_vars"][self.PAR] = ((FC.STATE, self.var("pi")), self.rows)
            return d

        def size(self):
            return len(self.rows)

        def output_point_vars(self, algo):
            return [FV.WS, FV.WD, FV.TI, FV.RHO]

        def calculate(self, algo, mdata, fdata, tdata):
            p = tdata[FC.TARGETS]
            self.seen.append((np.array(mdata[FC.STATE]).copy(), p.copy()))
            par = np.moveaxis(np.asarray(mdata[self.PAR]), 1, 0)[:, :, None, None]
            f = field(par, p[..., 0], p[..., 1], p[..., 2])
            for v, a in f.items():
                tdata[v] = a
            tdata.add(FV.WEIGHT, np.full((mdata.n_states, 1, 1), 1.0 / len(self.rows)), (FC.STATE, FC.TARGET, FC.TPOINT))
            return {v: tdata[v] for v in f}

    return FieldStates


def chord(u):
    """Integral of 2 sqrt(1-x^2)"""
    u = np.clip(u, -1.0, 1.0)
    return u * np.sqrt(1.0 - u * u) + np.arcsin(u)


def elements(r):
    """Points (side, up) in radii and weights, from areas"""
    if r["k"] == "centre":
        return np.zeros((1, 2)), np.ones(1), 0.0
    n = r["n"]
    e = np.linspace(-1.0, 1.0, n + 1)
    m = 0.5 * (e[1:] + e[:-1])
    red = r.get("reduce", True)
    if r["k"] == "level":
        pts = np.stack([0.0 * m, m], -1)
        w = chord(e[1:]) - chord(e[:-1]) if red else np.ones(n)
    else:
        pts = np.stack([a.reshape(-1) for a in np.meshgrid(m, m, indexing="ij")], -1)
        w = np.ones(n * n)
        if red:
            t = np.linspace(0, 1, 2001)
            t = 0.5 * (t[1:] + t[:-1])
            for k, (a, b) in enumerate(pts):
                x = a + (t - 0.5) * 2.0 / n
                q = np.sqrt(np.maximum(1.0 - x * x, 0.0))
                w[k] = np.mean(np.maximum(np.minimum(q, b + 1.0 / n) - np.maximum(-q, b - 1.0 / n), 0.0))
            pts, w = pts[w > 1e-12], w[w > 1e-12]
    return pts, w / np.sum(w), ((0.3 if r["k"] == "grid" else 3.0) / r.get("nint", 200) if red and n > 1 else 0.0)


def run(c):
    import foxes
    import foxes.models as fm

    r = c["rotor"]
    mb = fm.ModelBook()
    for i in range(2):
        # the wind speeds that enter power and thrust
        kw = dict(var_ws_ct="REWS", var_ws_P="REWS")
        if i == 0 and "REWS2" in c["vars"]:
            kw["var_ws_ct"] = "REWS2"
        if i == 0 and "REWS3" in c["vars"]:
            kw["var_ws_P"] = "REWS3"
        import pandas as pd

        df = pd.DataFrame(dict(ws=[2.0, 8.0, 12.0, 30.0], P=[0.0, 800.0, 2000.0, 2000.0], ct=[0.8, 0.8, 0.5, 0.1]))
        mb.turbine_types[f"T{i}"] = fm.turbine_types.PCtFile(df, D=100.0, H=100.0, P_nominal=2000.0, **kw)
    farm = foxes.WindFarm()
    for t in c["turbines"]:
        farm.add_turbine(foxes.Turbine(xy=np.array(t["xy"]), D=t["D"], H=t["H"], turbine_models=[f"T{t['t']}"]), verbosity=0)
    states = states_cls()(c["rows"])
    kw = dict(calc_vars=list(c["calc"])) if c["calc"] else {}
    if r["k"] == "centre":
        rm = "centre"
        if not r["name"]:
            mb.rotor_models["rm"] = fm.rotor_models.CentreRotor(**kw)
            rm = "rm"
    elif r["name"]:
        rm = f"grid{r['n']**2}" if r["k"] == "grid" else f"level{r['n']}"
    else:
        cls = fm.rotor_models.GridRotor if r["k"] == "grid" else fm.rotor_models.LevelRotor
        mb.rotor_models["rm"] = cls(n=r["n"], reduce=r["reduce"], nint=r["nint"], **kw)
        rm = "rm"
    algo = getattr(foxes.algorithms, c["algo"])(farm, states, rotor_model=rm, wake_models=[], mbook=mb, verbosity=0)
    with gen.engine("single", c["cs"]):
        fr = algo.calc_farm()

    pts, w, wtol = elements(r)
    n_exp = len(w)
    S, T = len(c["rows"]), len(c["turbines"])
    nt = False

    # where the field was evaluated
    if len(pts) > 1:
        rec = [(s, p) for s, p in states.seen if p.shape[2] > 1]
        if not rec:
            raise Violation("the inflow was never evaluated at more than one point per rotor")
        for si, p in rec:
            if p.shape[2] > max(n_exp, (r["n"] ** 2 if r["k"] == "grid" else r["n"])):
                raise Violation(f"{p.shape[2]} rotor points for {r}")
            for a, s in enumerate(si):
                for b in range(p.shape[1]):
                    q = p[a, b]
                    t = min(range(T), key=lambda j: np.linalg.norm(np.array(c["turbines"][j]["xy"]) - q[:, :2].mean(0)))
                    tr = c["turbines"][t]
                    ctr = np.array(list(tr["xy"]) + [tr["H"]])
                    wd = np.deg2rad(float(field(c["rows"][int(s)], *ctr)["WD"]))
                    ax = np.array([-np.sin(wd), -np.cos(wd), 0.0])
                    side = np.array([np.cos(wd), -np.sin(wd), 0.0])
                    R, d = 0.5 * tr["D"], q - ctr
                    if np.max(np.abs(d @ ax)) > 1e-6 * R:
                        raise Violation(f"state {s} turbine {t}: rotor points {np.max(np.abs(d @ ax)):.3g} m off the rotor plane (R={R})")
                    u, v = d @ side / R, d[:, 2] / R
                    if r["k"] == "level" and np.max(np.abs(u)) > 1e-9:
                        raise Violation(f"state {s} turbine {t}: level points off the vertical rotor axis")
                    h = (1.0 / r["n"]) if r["k"] == "grid" else 0.0
                    near = np.hypot(np.maximum(np.abs(u) - h, 0.0), np.maximum(np.abs(v) - h, 0.0))
                    if r.get("reduce", True) and np.max(near) > 1.0 + 1e-9:
                        raise Violation(f"state {s} turbine {t}: rotor point that represents no part of the disc: ({u[np.argmax(near)]:.3f}, {v[np.argmax(near)]:.3f}) radii")
                    if max(np.max(np.abs(u)), np.max(np.abs(v))) > 1.0:
                        raise Violation(f"state {s} turbine {t}: rotor points beyond the rotor")

    # effective values
    for s in range(S):
        for t in range(T):
            tr = c["turbines"][t]
            x, y = tr["xy"]
            wd0 = float(field(c["rows"][s], x, y, tr["H"])["WD"])
            a = np.deg2rad(wd0)
            R = 0.5 * tr["D"]
            P = np.stack([x + R * pts[:, 0] * np.cos(a), y - R * pts[:, 0] * np.sin(a), tr["H"] + R * pts[:, 1]], -1)
            f = field(c["rows"][s], P[:, 0], P[:, 1], P[:, 2])
            al = np.deg2rad(f["WD"])
            U = np.stack([-f["WS"] * np.sin(al), -f["WS"] * np.cos(al)], -1)
            prj = U @ np.array([-np.sin(a), -np.cos(a)])
            um = w @ U
            if c["calc"] and "YAW" in c["calc"] and np.linalg.norm(um) > 0:
                # the rotor turns to the mean direction
                prj = U @ (um / np.linalg.norm(um))
            front = bool(np.min(prj) > 1e-3)
            exp = dict(REWS=max(w @ prj, 0.0), TI=w @ f["TI"], RHO=w @ f["RHO"])
            rng = dict(REWS=np.ptp(prj), TI=np.ptp(f["TI"]), RHO=np.ptp(f["RHO"]))
            if np.linalg.norm(um) > 0.1:
                exp["WD"] = np.rad2deg(np.arctan2(-um[0], -um[1])) % 360.0
                rng["WD"] = np.ptp((f["WD"] - wd0 + 180.0) % 360.0)
                if np.linalg.norm(um) < 0.5 * np.mean(f["WS"]):
                    del exp["WD"]
                elif c["calc"] and "YAW" in c["calc"]:
                    exp["YAW"], rng["YAW"] = exp["WD"], rng["WD"]
            if c["calc"] and "WS" in c["calc"]:
                exp["WS"], rng["WS"] = np.linalg.norm(um), np.ptp(f["WS"])
            if front:
                for k, v in ((2, "REWS2"), (3, "REWS3")):
                    exp[v] = (w @ prj**k) ** (1.0 / k)
                    rng[v] = np.ptp(prj)
            nt |= rng["REWS"] > 1e-3
            for v, e in exp.items():
                names = [v] + ([f"AMB_{v}"] if v not in ("YAW",) else [])
                need = v in ("REWS", "TI", "RHO", "WD") or v in c["vars"] or (c["calc"] and v in c["calc"])
                if v in ("REWS2", "REWS3") and not need:
                    continue
                for m in names:
                    if m not in fr:
                        raise Violation(f"{m} missing in farm results")
                    g = float(gen.vals(fr, m)[s, t])
                    d = abs(g - e)
                    if v in ("WD", "YAW"):
                        d = abs((g - e + 180.0) % 360.0 - 180.0)
                    lim = 1e-7 * (1.0 + abs(e)) + wtol * rng[v]
                    if c["kind"] in ("homog", "shear") and v not in ("REWS2", "REWS3"):
                        # symmetric elements: exact
                        lim = 1e-7 * (1.0 + abs(e))
                        hub = field(c["rows"][s], x, y, tr["H"])[{"REWS": "WS", "YAW": "WD"}.get(v, v)]
                        if np.min(f["WS"]) > 0.31:
                            e = float(hub)
                            d = abs((g - e + 180.0) % 360.0 - 180.0) if v in ("WD", "YAW") else abs(g - e)
                    if c["kind"] == "homog" and v in ("REWS2", "REWS3"):
                        lim = 1e-7 * (1.0 + abs(e))
                    if not d <= lim:
                        raise Violation(f"{m} of state {s} turbine {t} is {g!r}, the mean over the rotor is {e!r} (rotor {r}, tolerance {lim:.3g})")
    return {c["kind"], r["k"]} | ({"nt"} if nt else set())


SUBS = [Sub("fields", case(), run, quick=700)]
