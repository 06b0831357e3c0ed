"""C22: turbine models act on exactly the turbines and states they are assigned to"""
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation, Skip

PROPERTY = "C22"
RULE = (
    "generated farms with two turbine types and a pool of turbine models (set variables, table factors, lookup tables, wake growth from turbulence, "
    "sector management, power mask, thrust to ct, yaw conversions, calculators, lists of models; pre-rotor and post-rotor), each turbine carrying its own "
    "subset with its own state selections, any layout and wind directions, chunk sizes, downwind and iterative algorithm; every variable of "
    "every turbine and state against a scalar interpreter that applies the documented rules of that turbine's models one after another; hub height results "
    "against point results; non-trivial: turbines differ in models or states, and downwind order differs from farm order"
)
ASSUMPTIONS = [
    "power masks within what the rotor can extract (no boosts beyond the Betz limit)",
    "rules of sector management use variables that wakes do not change, or the farm has no wakes",
]

CURVES = [
    dict(ws=[2.0, 4.0, 7.0, 10.0, 13.0, 28.0, 30.0], P=[0.0, 120.0, 900.0, 2400.0, 3000.0, 3000.0, 3000.0], ct=[0.85, 0.82, 0.8, 0.7, 0.4, 0.06, 0.05], D=110.0, H=95.0, Pn=3000.0),
    dict(ws=[2.5, 5.0, 8.0, 11.0, 14.0, 29.0, 31.0], P=[0.0, 400.0, 2000.0, 4500.0, 5000.0, 5000.0, 5000.0], ct=[0.8, 0.78, 0.77, 0.66, 0.42, 0.07, 0.05], D=130.0, H=120.0, Pn=5000.0),
]


@st.composite
def setdata(draw, S, T, vals, nan=True):
    """Data for set-variables models: scalar, per turbine, per state, or both"""
    k = draw(st.sampled_from(["scalar", "turbine", "both", "both", "state"]))
    x = st.sampled_from(vals + ([None] if nan else []))
    if k == "scalar":
        return dict(k=k, d=draw(st.sampled_from(vals)))
    if k == "turbine":
        return dict(k=k, d=[draw(x) for _ in range(T)])
    if k == "state":
        return dict(k=k, d=[[draw(st.sampled_from(vals))] for _ in range(S)])
    return dict(k=k, d=[[draw(x) for _ in range(T)] for _ in range(S)])


YAWMS = [-20.0, -10.0, 0.0, 5.0, 15.0, 25.0]


@st.composite
def model(draw, k, S, T):
    m = dict(k=k)
    if k == "set":
        v = draw(st.sampled_from(["MAXP", "Q", "Q", "k", "kTI"]))
        vals = {"MAXP": [800.0, 1500.0, 2500.0, 2960.0, 3000.0, 3100.0, 4000.0], "Q": [1.0, 2.5, -3.0], "k": [0.02, 0.05], "kTI": [0.2, 0.4]}[v]
        m.update(v=v, data=draw(setdata(S, T, vals)), pre=draw(st.booleans()))
    elif k == "yawm":
        m.update(data=draw(setdata(S, T, YAWMS, nan=False)), pre=draw(st.booleans()))
    elif k == "geom":
        v = draw(st.sampled_from(["X", "Y", "H", "D"]))
        b = {"X": (-1000.0, 611.0, 53.0), "Y": (300.0, 523.0, 41.0), "H": (90.0, 7.0, 3.0), "D": (80.0, 9.0, 4.0)}[v]
        one = draw(st.integers(0, 3)) == 0
        if one and v in "HD":
            m.update(v=v, data=dict(k="scalar", d=b[0] + 25.0), pre=True)
        else:
            m.update(v=v, data=dict(k="both", d=[[None if draw(st.integers(0, 2)) == 0 else b[0] + b[1] * t + b[2] * s for t in range(T)] for s in range(S)]), pre=True)
    elif k == "factors":
        m.update(row="TI", col=draw(st.sampled_from(["WD", "RHO"])), out=draw(st.sampled_from([["P"], ["CT"], ["P", "CT"]])), f=[draw(gen.fl(0.6, 1.0, 0.05)) for _ in range(9)], file=draw(st.booleans()))
    elif k == "lookup":
        m.update(inp=draw(st.sampled_from([["WD"], ["TI", "WD"], ["RHO", "par"]])), out=draw(st.sampled_from(["Q2", "k"])), f=[draw(gen.fl(0.01, 0.09, 0.01)) for _ in range(9)], map=draw(st.booleans()), dflt=draw(st.booleans()))
    elif k == "yaw2":
        m.update(data=draw(setdata(S, T, [0.0, 5.0, 90.0, 170.0, 200.0, 350.0, 355.0], nan=False)))
    elif k == "phase":
        # periodic ranges of another variable, also on the edges of neighbouring ranges
        n = draw(st.integers(1, 4))
        c0 = draw(st.integers(-6, 23))
        ws = [draw(st.integers(1, 5)) for _ in range(n)]
        m.update(
            per=draw(st.booleans()), c=[c0 + sum(ws[:i]) for i in range(n + 1)], t=[t for t in range(T) if draw(st.integers(0, 3))] or [0],
            ph=[[draw(st.sampled_from([c0 + sum(ws[: draw(st.integers(0, n))]) + draw(st.sampled_from([0, 0, 24, -24])), draw(st.integers(-30, 50))])) for _ in range(T)] for _ in range(S)],
        )
    elif k == "kTI":
        m.update(a=draw(st.sampled_from([0.1, 0.3, 0.5])), b=draw(st.sampled_from([None, 0.004])), ti=draw(st.sampled_from(["TI", "AMB_TI"])), tv=draw(st.sampled_from([None, None, 0.11])), kv=draw(st.sampled_from(["k", "K2"])), named=draw(st.booleans()))
        if m["named"]:
            m["tv"], m["kv"] = None, "k"
    elif k == "sector":
        # disjoint sectors per turbine
        rows = []
        for t in range(T):
            if draw(st.integers(0, 3)) == 0:
                continue
            if draw(st.integers(0, 5)) == 0:
                cuts = [0.0, 360.0]
            else:
                n = draw(st.integers(1, 3))
                c0 = draw(gen.fl(3.0, 353.0, 10.0))
                ws = [draw(gen.fl(10.0, 110.0, 10.0)) for _ in range(n)]
                cuts = [c0] + [c0 + sum(ws[: i + 1]) for i in range(n)]
            for a, b in zip(cuts[:-1], cuts[1:]):
                r = [t, a if b == 360.0 else a % 360.0, b if b <= 360.0 else b % 360.0, draw(st.sampled_from([1.0, 0.5])), draw(st.sampled_from([900.0, 2000.0, 3300.0]))]
                rows.append(r)
        m.update(rows=rows or [[0, 10.0, 100.0, 1.0, 900.0]], tv=draw(st.sampled_from(["MAXP", "S1"])), two=draw(st.booleans()), by=draw(st.sampled_from(["ind", "name"])), ws=draw(st.booleans()), shuffle=draw(st.booleans()), map=draw(st.booleans()), ints=draw(st.booleans()), file=draw(st.booleans()))
    elif k == "mask":
        m.update(ind=draw(st.sampled_from(["Betz", "Madsen", "default"])), lim=draw(st.sampled_from([100.0, 300.0])))
    elif k == "thrust":
        m.update(data=draw(setdata(S, T, [20e3, 60e3, 150e3], nan=False)), ws=draw(st.sampled_from([None, "REWS2", "AMB_REWS", "REWS"])))
    elif k == "calc":
        m.update(o=draw(st.sampled_from(["Q3", "k"])), f=draw(st.sampled_from([0.3, 0.5])))
    elif k == "list":
        m.update(a=draw(st.sampled_from([0.2, 0.4])), f=draw(st.sampled_from([1.0, 0.5])))
    return m


POST = ["set", "factors", "lookup", "kTI", "sector", "mask", "thrust", "calc", "list", "yawm", "geom", "yaw2", "phase"]


@st.composite
def case(draw, waked=False):
    T, S = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    pos = draw(gen.layout(T, T, spacing=700.0))
    pool = []
    for k in draw(st.lists(st.sampled_from(POST), min_size=1, max_size=4, unique=False)):
        m = draw(model(k, S, T))
        if k == "phase":
            m["i"] = len(pool)
        m["late"] = k in ("factors", "mask", "thrust") or (k == "set" and not m["pre"] and draw(st.booleans()))
        pool.append(m)
    pool = [m for m in pool if not m["late"]] + [m for m in pool if m["late"] and m["k"] != "mask"] + [m for m in pool if m["k"] == "mask"]
    if not any(m.get("v") == "MAXP" or m.get("tv") == "MAXP" for m in pool):
        # power masks need maximal power values
        pool = [m for m in pool if m["k"] != "mask"]
    # pre-rotor models come first
    pool = [m for m in pool if m.get("pre")] + [m for m in pool if not m.get("pre")]
    ts = []
    for p in pos:
        has = [i for i in range(len(pool)) if draw(st.integers(0, 3))]
        sel = [draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=S, max_size=S))) if draw(st.integers(0, 2)) == 0 else None for _ in has]
        ts.append(dict(xy=p, t=draw(st.integers(0, 1)), m=has, sel=sel))
    rows = draw(gen.table(S, S, ws_lo=4.0, ws_hi=20.0))
    c = dict(
        pool=pool, turbines=ts, states=dict(rows=rows), cs=draw(st.sampled_from([None, None, 1, 2])),
        rotor=draw(st.sampled_from(["centre", "centre", "grid4"])), algo="Downwind", wakes=[], hub=draw(st.booleans()),
    )
    for r in rows:
        # states close to the power limits
        if any(m["k"] == "mask" for m in pool) and draw(st.integers(0, 1)):
            q = draw(st.sampled_from(CURVES))
            v = draw(st.sampled_from([x for m in pool if m.get("v") == "MAXP" for x in np.asarray(m["data"]["d"], dtype=object).reshape(-1) if x] or [2000.0]))
            r[0] = round(float(np.interp(min(v, q["Pn"]) * draw(st.sampled_from([0.985, 0.99, 1.005])), q["P"][:5], q["ws"][:5])), 3)
    draw(gen.align(c))
    if waked:
        for m in pool:
            if m["k"] == "thrust":
                m["data"] = dict(k="scalar", d=draw(st.sampled_from([10e3, 20e3])))
        c["algo"] = draw(st.sampled_from(["Downwind", "Downwind", "Iterative"]))
        c["wakes"] = [draw(st.sampled_from(["Jensen_linear_lim_k004", "Bastankhah025_quadratic_lim_k002", "Bastankhah2014_linear_amb_lim_k0075"]))]
        if draw(st.booleans()):
            c["wakes"].append("CrespoHernandez_max_k004")
    return c


def setarr(d, S, T):
    if d["k"] == "scalar":
        return float(d["d"])
    return np.array([[np.nan if x is None else x for x in r] if isinstance(r, list) else (np.nan if r is None else r) for r in d["d"]], dtype=float)


def setval(d, s, t):
    x = d["d"] if d["k"] == "scalar" else (d["d"][t] if d["k"] == "turbine" else (d["d"][s][0] if d["k"] == "state" else d["d"][s][t]))
    return np.nan if x is None else float(x)


TI_AX, WD_AX, RHO_AX, PAR_AX = [0.0, 0.12, 0.9], [0.0, 130.0, 360.0], [0.5, 1.1, 1.6], [0.0, 1.0, 2.0]
AX = dict(TI=TI_AX, WD=WD_AX, RHO=RHO_AX, par=PAR_AX)
IND = dict(Betz=lambda ct: 0.5 * (1 - np.sqrt(1 - ct)), Madsen=lambda ct: 0.2460 * ct + 0.0586 * ct**2 + 0.0883 * ct**3)
IND["default"] = IND["Betz"]


def bilin(ax, ay, F, x, y):
    return float(np.interp(y, ay, [np.interp(x, ax, F[:, j]) for j in range(len(ay))]))


def apply(m, c, V, s, t, st_):
    """Apply one model to a single turbine and state (variables in V)"""
    k = m["k"]
    if k in ("set", "yawm", "thrust", "geom", "yaw2"):
        v = {"set": m.get("v"), "geom": m.get("v"), "yawm": "YAWM", "thrust": "T", "yaw2": "YAW"}[k]
        x = setval(m["data"], s, t)
        if not np.isnan(x):
            V[v] = x
    if k == "yawm_post":
        V["YAW"] = (V["WD"] + V["YAWM"]) % 360.0
    elif k == "yaw2_post":
        d = (V["YAW"] - V["WD"]) % 360.0
        V["YAWM"] = d - 360.0 if d > 180.0 else d
    elif k == "phase":
        if t in m["t"]:
            x, cs = m["ph"][s][t], m["c"]
            near = lambda d: abs((d + 12) % 24 - 12) if m["per"] else abs(d)
            inside = lambda a, b: ((x - a) % 24 < b - a) if m["per"] else (a <= x < b)
            # on the edges of ranges the neighbouring rules are both acceptable
            V[f"SP{m['i']}"] = [float(j) for j, (a, b) in enumerate(zip(cs[:-1], cs[1:])) if inside(a, b) or near(x - b) == 0]
            ends = [cs[0], cs[-1]]
            if not any(near(x - q) == 0 for q in cs) and not V[f"SP{m['i']}"]:
                V[f"SP{m['i']}"] = np.nan
            elif any(near(x - q) == 0 for q in ends) and not (m["per"] and cs[-1] - cs[0] == 24):
                V[f"SP{m['i']}"] = V[f"SP{m['i']}"] + [np.nan]
    elif k == "thrust_post":
        V["CT"] = 2 * V["T"] / (V["RHO"] * np.pi * V["D"] ** 2 / 4 * V[m["ws"] or "REWS2"] ** 2)
    elif k == "factors":
        f = bilin(TI_AX, AX[m["col"]], np.array(m["f"]).reshape(3, 3), V["TI"], V[m["col"]])
        for v in m["out"]:
            V[v] = V[v] * f
    elif k == "lookup":
        F = np.array(m["f"])
        if len(m["inp"]) == 1:
            V[m["out"]] = float(np.interp(V["WD"], WD_AX, F[:3]))
        else:
            a, b = m["inp"]
            V[m["out"]] = bilin(AX[a], AX[b], F.reshape(3, 3), V[a], 1.3 if b == "par" else V[b])
    elif k == "kTI":
        V[m["kv"]] = m["a"] * (V[m["ti"]] if m["tv"] is None else m["tv"]) + (m["b"] or 0.0)
    elif k == "kTIfd":
        V["k"] = V["kTI"] * V["TI"]
    elif k == "sector":
        wd = V["WD"] % 360.0
        for tt, a, b, f, x in m["rows"]:
            if tt != t:
                continue
            ins = True if (a, b) == (0.0, 360.0) else ((wd - a) % 360.0 < (b - a) % 360.0)
            if m["ws"]:
                ins = ins and 6.0 * f <= V["AMB_WS0"] < 15.0
            if ins:
                V[m["tv"]] = x
                if m["two"]:
                    V["S2"] = f
    elif k == "mask":
        Pn, mp, P = CURVES[st_]["Pn"], V.get("MAXP", np.nan), V["P"]
        if not np.isnan(mp) and ((mp < Pn and P > mp) or (mp > Pn and P > Pn - m["lim"])):
            q = 0.5 * V["REWS3"] ** 3 * V["RHO"] * np.pi * V["D"] ** 2 / 4
            a = IND[m["ind"]](V["CT"])
            e = (P * 1e3 / q) / (4 * a * (1 - a) ** 2)
            cp = mp * 1e3 / q / e
            if cp > 16 / 27 - 1e-6 or not np.isfinite(cp):
                raise Skip("beyond Betz")
            r = np.roots([4.0, -8.0, 4.0, -cp])
            r = [x.real for x in r if abs(x.imag) < 1e-7 and x.real > 0]
            a = min(r)
            V["P"], V["CT"] = mp, 4 * a * (1 - a)
    elif k == "calc":
        V[m["o"]] = m["f"] * V["TI"] + 0.001 * V["RHO"]
    elif k == "list":
        V["k"] = m["a"] * V["TI"]
        V["Q4"] = m["f"]


def typ(i, V):
    c = CURVES[i]
    V["P"] = float(np.interp(V["REWS3"], c["ws"], c["P"], left=0.0, right=0.0))
    V["CT"] = float(np.interp(V["REWS2"], c["ws"], c["ct"], left=0.0, right=0.0))


def run(c):
    import foxes
    import foxes.models as fm

    TM = fm.turbine_models
    S, T = len(c["states"]["rows"]), len(c["turbines"])
    waked = len(c["wakes"]) > 0
    pool = c["pool"]
    with gen.scratch() as sd:
        mb = fm.ModelBook()
        for i, q in enumerate(CURVES):
            df = pd.DataFrame(dict(ws=q["ws"], P=q["P"], ct=q["ct"]))
            mb.turbine_types[f"T{i}"] = fm.turbine_types.PCtFile(df, D=q["D"], H=q["H"], P_nominal=q["Pn"], p_ct=None, p_P=None)
        names = {}
        for i, m in enumerate(pool):
            k, n = m["k"], f"m{i}"
            names[i] = [n]
            if k in ("set", "yawm", "thrust", "geom", "yaw2"):
                x = TM.SetFarmVars(pre_rotor=m.get("pre", False))
                x.add_var({"set": m.get("v"), "geom": m.get("v"), "yawm": "YAWM", "thrust": "T", "yaw2": "YAW"}[k], setarr(m["data"], S, T))
                mb.turbine_models[n] = x
                if k == "yawm":
                    mb.turbine_models[n + "b"] = TM.YAWM2YAW()
                    names[i].append(n + "b")
                elif k == "thrust":
                    mb.turbine_models[n + "b"] = TM.Thrust2Ct(**({} if m["ws"] is None else dict(var_ws_ct=m["ws"])))
                    names[i].append(n + "b")
                elif k == "yaw2":
                    mb.turbine_models[n + "b"] = TM.YAW2YAWM()
                    names[i].append(n + "b")
                elif m.get("v") == "kTI":
                    mb.turbine_models[n + "b"] = TM.kTI()
                    names[i].append(n + "b")
            elif k == "factors":
                df = pd.DataFrame(np.array(m["f"]).reshape(3, 3), index=TI_AX, columns=AX[m["col"]])
                if m["file"]:
                    df.to_csv(os.path.join(sd, n + ".csv"))
                    df = os.path.join(sd, n + ".csv")
                mb.turbine_models[n] = TM.TableFactors(df, m["row"], m["col"], list(m["out"]))
            elif k == "lookup":
                ax = [AX[v] for v in m["inp"]]
                g = [a.reshape(-1) for a in np.meshgrid(*ax, indexing="ij")]
                vm = {m["out"]: "res", m["inp"][0]: "in0"} if m["map"] else {}
                df = pd.DataFrame({vm.get(v, v): a for v, a in zip(m["inp"], g)})
                df[vm.get(m["out"], m["out"])] = m["f"][: len(df)]
                df = df.iloc[::-1]
                kw = dict(par=1.3) if "par" in m["inp"] else {}
                if m["dflt"]:
                    kw["WD"] = 77.0  # default, not needed here
                    if "WD" not in m["inp"]:
                        kw.pop("WD")
                        kw["RHO"] = 0.9
                mb.turbine_models[n] = TM.LookupTable(df, input_vars=list(m["inp"]), output_vars=[m["out"]], varmap=vm, **kw)
            elif k == "kTI":
                if m["named"]:
                    nm = "kTI" + ("_amb" if m["ti"] == "AMB_TI" else "") + f"_{str(m['a']).replace('.', '')}" + ("" if m["b"] is None else "_0004")
                    names[i] = [nm]
                else:
                    mb.turbine_models[n] = TM.kTI(kTI=m["a"], kb=m["b"], ti_var=m["ti"], ti_val=m["tv"], k_var=m["kv"])
            elif k == "sector":
                rows = m["rows"][::-1] if m["shuffle"] else m["rows"]
                cm = {"WD_min": "from", m["tv"]: "val"} if m["map"] else {}
                d = {("t" if m["by"] == "ind" else "tname"): [r[0] if m["by"] == "ind" else f"WT_{r[0]}" for r in rows], cm.get("WD_min", "WD_min"): [r[1] for r in rows], "WD_max": [r[2] for r in rows]}
                if m["ws"]:
                    d["WS0_min"], d["WS0_max"] = [6.0 * r[3] for r in rows], [15.0 for r in rows]
                d[cm.get(m["tv"], m["tv"])] = [r[4] for r in rows]
                if m["two"]:
                    d["S2"] = [r[3] for r in rows]
                df = pd.DataFrame(d)
                if m["ints"] and not m["two"]:
                    for col in df:
                        if col != "tname":
                            df[col] = df[col].astype(int)
                if m["file"]:
                    df.to_csv(os.path.join(sd, n + ".csv"), index=False)
                    df = os.path.join(sd, n + ".csv")
                elif m["by"] == "ind" and m["shuffle"]:
                    df = df.set_index("t")
                mb.turbine_models[n] = TM.SectorManagement(df, range_vars=["WD"] + (["WS0"] if m["ws"] else []), target_vars=[m["tv"]] + (["S2"] if m["two"] else []), colmap=cm, **({"col_tinds": "t"} if m["by"] == "ind" else {"col_tnames": "tname"}))
            elif k == "phase":
                v = f"SP{m['i']}"
                x = TM.SetFarmVars(pre_rotor=True)
                x.add_var("PH%d" % m["i"], np.array(m["ph"], dtype=float))
                mb.turbine_models[n + "ph"] = x
                rows = [[t, a, b, j] for t in m["t"] for j, (a, b) in enumerate(zip(m["c"][:-1], m["c"][1:]))]
                df = pd.DataFrame({"t": [q[0] for q in rows], f"PH{m['i']}_min": [q[1] for q in rows], f"PH{m['i']}_max": [q[2] for q in rows], v: [float(q[3]) for q in rows]})
                mb.turbine_models[n] = TM.SectorManagement(df, range_vars=[f"PH{m['i']}"], target_vars=[v], col_tinds="t", var_periods={f"PH{m['i']}": 24.0} if m["per"] else {})
            elif k == "mask":
                mb.turbine_models[n] = TM.PowerMask(P_lim=m["lim"], **({} if m["ind"] == "default" else dict(induction=m["ind"])))
            elif k == "calc":
                mb.turbine_models[n] = calc_model(m)
            elif k == "list":
                x = TM.SetFarmVars()
                x.add_var("Q4", m["f"])
                x.name = n + "q"
                y = TM.kTI(kTI=m["a"])
                y.name = n + "k"
                mb.turbine_models[n] = y + x
        # WS0: an unwaked wind speed as rule variable
        x = TM.SetFarmVars(pre_rotor=True)
        x.add_var("WS0", np.array([[r[0]] for r in c["states"]["rows"]]))
        mb.turbine_models["ws0"] = x
        if c["hub"]:
            mb.turbine_models["hub"] = TM.RotorCentreCalc({"HWS": "WS", "HTI": "TI"})

        farm = foxes.WindFarm()
        chains = []
        for t, tr in enumerate(c["turbines"]):
            ms, sl, ch = ["ws0"] + [names[i][0] + "ph" for i in range(len(pool)) if pool[i]["k"] == "phase"], [], []
            sl = [None] * len(ms)
            done = False
            todo = [(i, sel, [0]) for i, sel in zip(tr["m"], tr["sel"]) if pool[i].get("pre")]
            todo += [(i, sel, [1] if pool[i].get("pre") else [0, 1]) for i, sel in zip(tr["m"], tr["sel"])]
            for i, sel, js in todo:
                if pool[i]["late"] and not done:
                    ms.append(f"T{tr['t']}"), sl.append(None), ch.append(("type", None))
                    done = True
                for j, nm in enumerate(names[i]):
                    if nm in ms or j not in js:
                        continue
                    ms.append(nm)
                    sl.append(None if sel is None else np.array(sel, dtype=bool))
                    m = pool[i]
                    if j == 1:
                        m = dict(m, k={"yawm": "yawm_post", "yaw2": "yaw2_post", "thrust": "thrust_post", "set": "kTIfd"}[m["k"]])
                    ch.append((m, sel))
            if not done:
                ms.append(f"T{tr['t']}"), sl.append(None), ch.append(("type", None))
            if c["hub"] and (t % 2 == 0 or c["algo"] == "Iterative"):
                ms.append("hub"), sl.append(None)
            chains.append(ch)
            farm.add_turbine(foxes.Turbine(xy=np.array(tr["xy"]), turbine_models=ms, models_state_sel=sl, name=f"WT_{t}"), verbosity=0)

        used = [m for ch in chains for m, _ in ch if m != "type"]
        if any(m["k"] == "mask" for m in used) and not any("MAXP" in (m.get("v"), m.get("tv")) for m in used):
            raise Skip("power mask without maximal power")
        states = gen.build_states(dict(kind="table", rows=c["states"]["rows"]))
        algo = getattr(foxes.algorithms, c["algo"])(farm, states, rotor_model=c["rotor"], wake_models=list(c["wakes"]), mbook=mb, verbosity=0)
        hubp = None
        with gen.engine("single", c["cs"]):
            try:
                fr = algo.calc_farm()
            except ValueError:
                if waked and any(m["k"] == "thrust" for m in pool):
                    raise Skip("thrust coefficients beyond one")
                raise
            if c["hub"]:
                p = np.stack([np.broadcast_to(gen.vals(fr, v), (S, T)) for v in ("X", "Y", "H")], -1).copy()
                hubp = algo.calc_points(fr, p)

    if waked and not np.all(gen.vals(fr, "CT") < 0.99):
        raise Skip("thrust coefficients beyond one")
    get = lambda v, s, t: float(gen.vals(fr, v)[s, t]) if v in fr else np.nan
    differ = False
    for s, row in enumerate(c["states"]["rows"]):
        for t, tr in enumerate(c["turbines"]):
            if waked:
                V = {v: get(v, s, t) for v in ("REWS", "REWS2", "REWS3", "TI", "WD", "RHO")}
            else:
                V = dict(REWS=row[0], REWS2=row[0], REWS3=row[0], TI=row[2], WD=row[1] % 360.0, RHO=row[3])
            V["AMB_REWS"] = row[0]
            V["AMB_TI"], V["AMB_WS0"] = row[2], row[0]
            q = CURVES[tr["t"]]
            V.update(D=q["D"], H=q["H"], X=tr["xy"][0], Y=tr["xy"][1], YAW=V["WD"])
            for m, sel in chains[t]:
                if m == "type":
                    typ(tr["t"], V)
                elif sel is None or sel[s]:
                    for v in ("kTI", "k", "MAXP", "T", "YAWM"):
                        V.setdefault(v, np.nan)
                    apply(m, c, V, s, t, tr["t"])
            for v in ("P", "CT", "YAW", "YAWM", "k", "K2", "MAXP", "Q", "Q2", "Q3", "Q4", "S1", "T", "kTI", "X", "Y", "H", "D", "REWS", "TI", "RHO", "S2") + tuple(f"SP{m['i']}" for m in pool if m["k"] == "phase"):
                if isinstance(V.get(v), list):
                    g = get(v, s, t)
                    V[v] = next((x for x in V[v] if x == g or (np.isnan(x) and np.isnan(g))), V[v][0])
                if v not in fr:
                    if not np.isnan(V.get(v, np.nan)):
                        raise Violation(f"{v} missing in farm results, expecting {V[v]} for turbine {t} state {s}")
                    continue
                g, e = get(v, s, t), V.get(v, np.nan)
                if v == "k" and np.isnan(e) and g == 0.0:
                    continue
                tol = 1e-4 if v in ("P", "CT") else 1e-6
                if float(gen.diff(v, g, e, tol)) > 1.0:
                    raise Violation(f"{v} of turbine {t} state {s} is {g!r}, its models {farm.turbines[t].models} (states {tr['sel']}) give {e!r}")
            if hubp is not None:
                for v, w in (("HWS", "WS"), ("HTI", "TI")):
                    g = get(v, s, t)
                    if t % 2 and c["algo"] != "Iterative":
                        e = np.nan
                    else:
                        e = float(gen.vals(hubp, w)[s, t])
                    if float(gen.diff(w, g, e, 1e-6)) > 1.0:
                        raise Violation(f"{v} of turbine {t} state {s} is {g!r}, the point calculation at the hub gives {e!r}")
    differ = len({str(tr["m"]) for tr in c["turbines"]}) > 1 or any(x is not None for tr in c["turbines"] for x in tr["sel"])
    order = "order" in fr and np.any(gen.vals(fr, "order") != np.arange(T)[None, :])
    return {m["k"] for m in pool} | {c["algo"]} | ({"waked"} if waked and gen.has_wakes(fr) else set()) | ({"nt"} if differ and T > 1 and order else set())


def calc_model(m):
    from foxes.models.turbine_models import Calculator

    o, f = m["o"], m["f"]

    def func(ti, rho, x, st_sel):
        x[st_sel] = f * ti[st_sel] + 0.001 * rho[st_sel]
        return [x]

    return Calculator(in_vars=["TI", "RHO", o], out_vars=[o], func=func)


SUBS = [
    Sub("chain", case(), run, quick=450),
    Sub("waked", case(True), run, quick=250),
]
