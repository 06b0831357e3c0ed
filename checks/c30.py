"""C30: a dictionary or YAML case gives the same results as the equivalent script"""
import contextlib
import copy
import inspect
import io
import os
import sys
import numpy as np
import pandas as pd
import xarray as xr
import yaml
from hypothesis import strategies as st
from vf import gen
from vf.gen import fl
from vf.runner import Sub, Violation, Skip

PROPERTY = "C30"
RULE = (
    "generated case descriptions (states tables, time series, scans and single states; model book entries of all kinds; several layout functions; Downwind and Iterative "
    "algorithms with all model options; engines; farm and point calculation options; chains of outputs with result labels) run as dict, Dict, YAML file or by the command line "
    "program with overriding options, once or twice, against a script that constructs the same objects; descriptions with one wrong key, class, section or function have to raise; "
    "non-trivial: description with wakes and own models, layouts or outputs; or an injected error"
)
ASSUMPTIONS = [
    "top level keys outside the documented ones are not judged (used for YAML anchors)",
    "wake model names in partial wakes or ground model dictionaries that are not used by the algorithm are ignored (existing tests rely on it)",
]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# ----------------------------------------------------------------- generator


@st.composite
def book(draw):
    """Own models: section, name, class, arguments"""
    out = []
    # the name may exist already, e.g. in the standard model book
    std = dict(wake="Jensen_quadratic_k005", rotor="grid4", pw="centre", kti="kTI_02", type="NREL5MW")
    n = lambda s: f"my_{s}{draw(st.integers(0, 9))}" if s not in std or draw(st.integers(0, 3)) else std[s]
    if draw(st.booleans()):
        out.append(["turbine_types", n("type"), draw(st.sampled_from(["PCtFile"])), dict(data_source="curve.csv", D=draw(st.sampled_from([100.0, 126.0])), H=draw(st.sampled_from([80.0, 100.0])))])
    if draw(st.booleans()):
        c = draw(st.sampled_from(["JensenWake", "Bastankhah2014", "TurbOParkWake"]))
        kw = dict(superposition=draw(st.sampled_from(["ws_linear", "ws_quadratic", "ws_max_amb"])), k=draw(fl(0.02, 0.08, 0.01)))
        if c != "JensenWake":
            kw["induction"] = draw(st.sampled_from(["Betz", "Madsen"]))
        if c == "Bastankhah2014":
            kw["sbeta_factor"] = draw(st.sampled_from([0.2, 0.25]))
        if c == "TurbOParkWake":
            kw["superposition"] = "ws_linear"
        out.append(["wake_models", n("wake"), c, kw])
    if draw(st.integers(0, 2)) == 0:
        out.append(["wake_superpositions", "ws_own", "WSPow", dict(pow=draw(st.sampled_from([2, 3])), scale_amb=draw(st.booleans()))])
    if draw(st.integers(0, 2)) == 0:
        c, kw = draw(st.sampled_from([("GridRotor", dict(n=2)), ("GridRotor", dict(n=3, reduce=False)), ("LevelRotor", dict(n=3)), ("CentreRotor", {})]))
        out.append(["rotor_models", n("rotor"), c, dict(kw)])
    if draw(st.integers(0, 2)) == 0:
        c, kw = draw(st.sampled_from([("PartialCentre", {}), ("RotorPoints", {}), ("PartialGrid", dict(n=3))]))
        out.append(["partial_wakes", n("pw"), c, dict(kw)])
    if draw(st.integers(0, 2)) == 0:
        out.append(["ground_models", n("gnd"), "WakeMirror", dict(heights=[0.0] + draw(st.sampled_from([[], [400.0]])))])
    if draw(st.integers(0, 2)) == 0:
        out.append(["turbine_models", n("kti"), "kTI", dict(kTI=draw(fl(0.1, 0.6, 0.1)), kb=draw(st.sampled_from([0.0, 0.004])), ti_var="AMB_TI")])
    if draw(st.integers(0, 3)) == 0:
        out.append(["turbine_models", n("sect"), "SectorManagement", dict(data_source="sectors.csv", col_tnames="name", range_vars=["WD", "REWS"], target_vars=["k"], colmap=dict(REWS_min="ws_min", REWS_max="ws_max"))])
    if draw(st.integers(0, 3)) == 0:
        out.append(["point_models", n("pm"), "SetUniformData", dict(data_source=dict(own=draw(fl(1.0, 3.0, 0.5))), output_vars=["own"])])
    return out


@st.composite
def description(draw):
    S = draw(st.integers(1, 5))
    c = dict(rows=[[draw(fl(5.0, 14.0, 0.25)), draw(fl(0.0, 359.0, 7.3)), draw(fl(0.04, 0.14, 0.02)), draw(fl(1.0, 1.3, 0.05))] for _ in range(S)])
    c["curve"] = draw(st.sampled_from([[[3.0, 6.0, 9.0, 12.0, 25.0], [0.0, 500.0, 2000.0, 4000.0, 4000.0], [0.9, 0.82, 0.8, 0.5, 0.1]], [[0.0, 5.0, 11.0, 30.0], [0.0, 300.0, 3000.0, 3000.0], [0.6, 0.75, 0.7, 0.1]]]))
    # states
    k = draw(st.sampled_from(["StatesTable", "StatesTable", "Timeseries", "SingleStateStates", "ScanStates"]))
    prof = draw(st.integers(0, 3)) == 0
    if k in ("StatesTable", "Timeseries"):
        s = dict(data_source=draw(st.sampled_from(["states.csv", "states.csv.gz"])), output_vars=["WS", "WD", "TI", "RHO"])
        s["var2col"] = dict(WS="ws", WD="wd")
        s["fixed_vars"] = dict(RHO=1.2, TI=draw(fl(0.05, 0.1, 0.01)))
        if draw(st.booleans()):
            s["var2col"]["TI"] = "ti"
            del s["fixed_vars"]["TI"]
        if k == "StatesTable":
            s["pd_read_pars"] = dict(index_col=0)
            if draw(st.booleans()):
                s["output_vars"] = ["WS", "WD", "TI", "RHO", "weight"]
                s["var2col"]["weight"] = "weight"
                s["output_vars"].remove("weight")
            if draw(st.integers(0, 3)) == 0:
                s["states_sel"] = [0, S - 1] if S > 1 else [0]
        if prof:
            s["profiles"] = dict(WS=dict(type="ABLLogNeutralWsProfile"))
            s["fixed_vars"].update(H=100.0, z0=draw(st.sampled_from([0.05, 0.2])))
            s["output_vars"] = s["output_vars"]
    elif k == "SingleStateStates":
        s = dict(ws=draw(fl(6.0, 12.0, 0.5)), wd=draw(fl(0.0, 350.0, 10.0)), ti=0.06, rho=1.225)
        if prof:
            s.update(profiles=dict(WS=dict(type="ABLLogNeutralWsProfile")), H=90.0, z0=0.1)
    else:
        s = dict(scans=dict(WS=[7.0, draw(fl(8.0, 12.0, 0.5))], WD=[draw(fl(200.0, 300.0, 10.0)), 270.0], TI=[0.07], RHO=[1.225]))
    c["states"] = [k, s]
    c["book"] = draw(book())
    own = lambda sec, deflt: draw(st.sampled_from([b[1] for b in c["book"] if b[0] == sec] * 3 + deflt))
    # farm
    tms = [own("turbine_types", ["NREL5MW", "DTU10MW"])]
    kti = [b[1] for b in c["book"] if b[0] == "turbine_models" and b[2] == "kTI"]
    sect = [b[1] for b in c["book"] if b[2] == "SectorManagement"]
    tms.append(kti[0] if kti else draw(st.sampled_from(["kTI_02", "kTI_amb_04_001"])))
    if sect:
        tms.append(sect[0])
    lys = []
    for i in range(draw(st.integers(1, 2))):
        f = draw(st.sampled_from(["add_from_file", "add_row", "add_row", "add_grid", "add_ring"]))
        off = [float(3000 * i), float(500 * i)]
        kw = dict(turbine_models=list(tms))
        if f == "add_from_file":
            kw.update(file_path="layout.csv")
            if draw(st.booleans()):
                kw.update(col_x="x", col_y="y", col_H="hub", col_D="rot")
            if i:
                continue
        elif f == "add_row":
            kw.update(xy_base=off, xy_step=[draw(fl(400.0, 900.0, 50.0)), draw(fl(-200.0, 200.0, 50.0))], n_turbines=draw(st.integers(1, 4)))
        elif f == "add_grid":
            kw.update(xy_base=off, step_vectors=[[draw(fl(400.0, 800.0, 100.0)), 0.0], [100.0, 600.0]], steps=[2, draw(st.integers(1, 2))])
        else:
            kw.update(xy_base=off, dist=draw(fl(400.0, 900.0, 100.0)), n_turbines=draw(st.integers(3, 4)), offset_deg=draw(st.sampled_from([0, 30.0])))
        if f != "add_from_file" and draw(st.integers(0, 2)) == 0:
            kw["H"] = draw(st.sampled_from([85.0, 110.0]))
        lys.append([f, kw])
    if not lys:
        lys = [["add_from_file", dict(file_path="layout.csv", turbine_models=list(tms))]]
    c["layouts"] = lys
    c["farm"] = draw(st.sampled_from([{}, {}, dict(name="own_farm")]))
    # algorithm
    sup = "own" if any(b[1] == "ws_own" for b in c["book"]) else "linear"
    wm = [own("wake_models", ["Jensen_quadratic_k005", f"Bastankhah2014_{sup}_k003", f"Jensen_{sup}"])]
    if draw(st.booleans()):
        wm.append("CrespoHernandez_quadratic")
    a = dict(algo_type=draw(st.sampled_from(["Downwind", "Downwind", "Downwind", "Iterative"])), wake_models=wm)
    if draw(st.booleans()):
        a["rotor_model"] = own("rotor_models", ["centre", "grid4"])
    if draw(st.booleans()):
        a["wake_frame"] = draw(st.sampled_from(["rotor_wd", "yawed"] + (["rotor_wd_farmo"] if a["algo_type"] == "Iterative" else [])))
    pw = own("partial_wakes", ["centre", "rotor_points", "grid4"])
    pk = draw(st.sampled_from(["no", "no", "str", "list", "dict"]))
    if pk != "no":
        a["partial_wakes"] = {"str": pw, "list": [pw] * len(wm), "dict": {wm[0]: pw}}[pk]
    g = [b[1] for b in c["book"] if b[0] == "ground_models"]
    if g and draw(st.booleans()):
        a["ground_models"] = draw(st.sampled_from([g[0], {wm[0]: g[0]}]))
    if a["algo_type"] == "Iterative" and draw(st.booleans()):
        a["max_it"] = draw(st.integers(3, 30))
    c["algo"] = a
    c["engine"] = draw(
        st.sampled_from([None, None, dict(engine_type="numpy", chunk_size_states=2, chunk_size_points=3), dict(engine_type="single"), dict(engine_type="threads", n_procs=2, chunk_size_states=1), dict(engine_type="NumpyEngine", chunk_size_states=1)])
    )
    c["calc"] = draw(st.sampled_from([None, None, {}, dict(run=True), dict(run=True, ambient=True), dict(outputs=["REWS", "P", "AMB_REWS", "CT", "weight"]), dict(run=True, normalize=True), dict(run=False)]))
    c["points"] = draw(st.sampled_from([None, None, "list", "file", "array"]))
    if c["points"]:
        c["pts"] = [[draw(fl(-500.0, 4000.0, 100.0)), draw(fl(-500.0, 1500.0, 100.0)), draw(fl(50.0, 150.0, 10.0))] for _ in range(draw(st.integers(1, 4)))]
        pm = [b[1] for b in c["book"] if b[0] == "point_models"]
        c["ptkw"] = draw(st.sampled_from([{}, {}, dict(ambient=True), dict(outputs=["WS", "AMB_WS"])])) if not pm else dict(point_models=pm)
    c["outs"] = draw(st.lists(st.sampled_from(["eval", "eval2", "table", "chain", "rose", "csv", "layout", "points", "plt"]), max_size=3, unique=True))
    c["mode"] = draw(st.sampled_from(["dict", "Dict", "yaml", "yaml"]))
    c["over"] = draw(st.sampled_from([{}, {}, dict(rotor_model="grid9"), dict(wake_models=["Jensen_linear_k007"], partial_wakes="centre"), dict(iterative=True), dict(engine_pars=dict(engine_type="numpy", chunk_size_states=1, chunk_size_points=2, n_procs=None, verbosity=0)), dict(wake_frame="yawed")]))
    c["twice"] = draw(st.booleans())
    c["verb"] = draw(st.sampled_from([0, 0, 0, 1, 2, None]))
    return c


# --------------------------------------------------------------- description


def write_files(c, tmp):
    S = len(c["rows"])
    df = pd.DataFrame(c["rows"], columns=["ws", "wd", "ti", "rho"])
    df["weight"] = [0.1 * (i + 1) for i in range(S)]
    if c["states"][0] == "Timeseries":
        df.index = pd.Timestamp("2020-05-01") + pd.to_timedelta(np.arange(S) * 10, unit="min")
        df.index.name = "time"
    else:
        df.index.name = "state"
    df.to_csv(os.path.join(tmp, "states.csv"))
    df.to_csv(os.path.join(tmp, "states.csv.gz"))
    pd.DataFrame(dict(label=["a", "b", "c"], x=[0.0, 600.0, 1250.0], y=[0.0, 50.0, -75.0], hub=[90.0, 100.0, 120.0], rot=[100.0, 120.0, 126.0])).set_index("label").to_csv(os.path.join(tmp, "layout.csv"))
    ws, P, ct = c["curve"]
    pd.DataFrame(dict(ws=ws, P=P, ct=ct)).to_csv(os.path.join(tmp, "curve.csv"), index=False)
    pd.DataFrame(dict(name=["T0"], WD_min=[100.0], WD_max=[200.0], ws_min=[0.0], ws_max=[20.0], k=[0.03])).to_csv(os.path.join(tmp, "sectors.csv"), index=False)
    if c["points"] == "file":
        pd.DataFrame(c["pts"], columns=["x", "y", "z"]).to_csv(os.path.join(tmp, "points.csv"), index=False)


CTYPE = dict(turbine_types="ttype_type", wake_models="wmodel_type", wake_superpositions="superp_type", rotor_models="rmodel_type", partial_wakes="pwakes_type", ground_models="ground_type", turbine_models="tmodel_type", point_models="model_type")


def describe(c, tmp):
    """The description"""
    d = {}
    k, s = c["states"]
    d["states"] = dict(states_type=k, **copy.deepcopy(s))
    if c["book"]:
        d["model_book"] = {}
        for sec, name, cls, kw in c["book"]:
            d["model_book"].setdefault(sec, []).append({"name": name, CTYPE[sec]: cls, **copy.deepcopy(kw)})
    d["wind_farm"] = dict(c["farm"], layouts=[dict(function=f, **copy.deepcopy(kw)) for f, kw in c["layouts"]])
    d["algorithm"] = copy.deepcopy(c["algo"])
    if c["engine"]:
        d["engine"] = dict(c["engine"])
    if c["calc"] is not None:
        d["calc_farm"] = copy.deepcopy(c["calc"])
    if c["points"]:
        p = {"list": c["pts"], "file": "points.csv", "array": np.array(c["pts"]) if c["mode"] in ("dict", "Dict") else c["pts"]}[c["points"]]
        d["calc_points"] = dict(run=(c["calc"] or {}).get("run", True), points=copy.deepcopy(p), **copy.deepcopy(c["ptkw"]))
    outs = []
    for o in c["outs"]:
        outs += OUTS[o][0](c)
    if outs:
        d["outputs"] = outs
    return d


def o_eval(c):
    return [dict(output_type="FarmResultsEval", functions=[dict(function="calc_mean_farm_power"), dict(function="add_capacity", ambient=False), dict(function="reduce_all", states_op={"P": "weights"}, turbines_op={"P": "sum"})])]


def s_eval(c, algo, fr, pr, tmp):
    import foxes

    e = foxes.output.FarmResultsEval(fr)
    return [[e.calc_mean_farm_power(), e.add_capacity(algo, ambient=False), e.reduce_all(states_op={"P": "weights"}, turbines_op={"P": "sum"})]]


def o_eval2(c):
    return [
        dict(output_type="FarmResultsEval", functions=[dict(function="reduce_states", vars_op=dict(REWS="mean_no_weights", P="weights"), result_labels="$r")]),
        dict(object="$r", functions=[dict(function="sum", axis=0)]),
    ]


def s_eval2(c, algo, fr, pr, tmp):
    import foxes

    r = foxes.output.FarmResultsEval(fr).reduce_states(vars_op=dict(REWS="mean_no_weights", P="weights"))
    return [[r], [r.sum(axis=0)]]


def o_table(c):
    return [dict(output_type="StateTurbineTable", functions=[dict(function="get_dataset", variables=["REWS", "P"], name_map=dict(REWS="ws eff"))])]


def s_table(c, algo, fr, pr, tmp):
    import foxes

    return [[foxes.output.StateTurbineTable(fr).get_dataset(variables=["REWS", "P"], name_map={"REWS": "ws eff"})]]


def o_chain(c):
    return [
        dict(output_type="StateTurbineTable", functions=[dict(function="get_dataset", variables=["P"], result_labels="$tab")]),
        dict(object="$tab", functions=[dict(function="isel", turbine=0, result_labels="$t0"), dict(function="max"), dict(function="to_array", result_labels="$a")]),
        dict(object="$a[0,0]", functions=[dict(function="isel", turbine=-1)]),
    ]


def s_chain(c, algo, fr, pr, tmp):
    import foxes

    t = foxes.output.StateTurbineTable(fr).get_dataset(variables=["P"])
    a = t.to_array()
    return [[t], [t.isel(turbine=0), t.max(), a], [a[0, 0].isel(turbine=-1)]]


def o_rose(c):
    return [dict(output_type="RosePlotOutput", functions=[dict(function="get_data", wd_sectors=8, ws_var="AMB_REWS", ws_bins=[0, 5, 9, 20], turbine=0, add_inf=True, wd_var="AMB_WD"), dict(function="get_figure", args=[12, "AMB_REWS", [0, 8, 16]], ret_data=True, title="", result_labels=["$ax", "_"])])]


def s_rose(c, algo, fr, pr, tmp):
    import foxes

    o = foxes.output.RosePlotOutput(fr)
    return [[o.get_data(8, "AMB_REWS", [0, 5, 9, 20], turbine=0, add_inf=True), (None, o.get_data(12, "AMB_REWS", [0, 8, 16]))]]


def o_csv(c):
    return [dict(output_type="ResultsWriter", functions=[dict(function="write_csv", file_name="res.csv", variables=dict(REWS="rews", P="power"), turbine_names=True, verbosity=0), dict(function="write_nc", file_name="res.nc", variables=["REWS", "CT"], verbosity=0)])]


def s_csv(c, algo, fr, pr, tmp):
    import foxes

    o = foxes.output.ResultsWriter(fr, out_dir=os.path.join(tmp, "script"))
    return [[o.write_csv("res.csv", dict(REWS="rews", P="power"), turbine_names=True, verbosity=0), o.write_nc("res.nc", ["REWS", "CT"], verbosity=0)]]


def o_layout(c):
    return [dict(output_type="FarmLayoutOutput", functions=[dict(function="get_layout_data"), dict(function="write_csv", file_name="layout_out.csv", type_col="tp")])]


def s_layout(c, algo, fr, pr, tmp):
    import foxes

    o = foxes.output.FarmLayoutOutput(algo.farm, fr, out_dir=os.path.join(tmp, "script"))
    return [[o.get_layout_data(), o.write_csv(file_name="layout_out.csv", type_col="tp", algo=algo)]]


def o_points(c):
    return [dict(output_type="SliceData", verbosity_delta=1, functions=[dict(function="get_mean_data_xy", resolution=400.0, z=100.0, variables=["WS"], verbosity=0)])]


def s_points(c, algo, fr, pr, tmp):
    import foxes

    return [[foxes.output.SliceData(algo, fr, verbosity_delta=1).get_mean_data_xy(resolution=400.0, z=100.0, variables=["WS"], verbosity=0)]]


def o_plt(c):
    return [
        dict(output_type="plt", functions=[dict(function="subplots", args=[2, 2], result_labels=["$fig", "$axs"], figsize=[4, 4])]),
        dict(object="$axs[1,0]", functions=[dict(function="set_title", label="own title"), dict(function="get_title")]),
        dict(output_type="FarmLayoutOutput", functions=[dict(function="get_figure", fig="$fig", ax="$axs[0,1]", title="the farm", result_labels="$lax")]),
        dict(object="$lax", functions=[dict(function="get_title"), dict(function="get_xlabel")]),
        dict(object="$fig", functions=[dict(function="get_axes", result_labels=["_", "$a1", "$a2", "none"])]),
        dict(object="$a2", functions=[dict(function="get_title")]),
        dict(object="$fig", functions=[dict(function="get_figwidth"), dict(function="get_figheight", plt_close=True)]),
    ]


def s_plt(c, algo, fr, pr, tmp):
    return [None, [None, "own title"], [None], ["the farm", "x [m]"], [None], ["own title"], [4.0, NOTHING]]


OUTS = dict(eval=(o_eval, s_eval), eval2=(o_eval2, s_eval2), table=(o_table, s_table), chain=(o_chain, s_chain), rose=(o_rose, s_rose), csv=(o_csv, s_csv), layout=(o_layout, s_layout), points=(o_points, s_points), plt=(o_plt, s_plt))


# --------------------------------------------------------------------- script


def script(c, tmp, over=None):
    """The same case with foxes objects"""
    import foxes
    import foxes.models as fm

    over = dict(over or {})
    k, s = c["states"]
    s = copy.deepcopy(s)
    if "data_source" in s:
        f = os.path.join(tmp, s["data_source"])
        s["data_source"] = f
    states = getattr(foxes.input.states, k)(**s)
    mb = foxes.ModelBook()
    for sec, name, cls, kw in c["book"]:
        kw = copy.deepcopy(kw)
        if "data_source" in kw and isinstance(kw["data_source"], str):
            kw["data_source"] = os.path.join(tmp, kw["data_source"])
        mod = {"wake_models": fm.wake_models.wind}.get(sec, getattr(fm, sec))
        getattr(mb, sec)[name] = getattr(mod, cls)(**kw)
    farm = foxes.WindFarm(**c["farm"])
    for f, kw in c["layouts"]:
        kw = copy.deepcopy(kw)
        if "file_path" in kw:
            kw["file_path"] = os.path.join(tmp, kw["file_path"])
        getattr(foxes.input.farm_layout, f)(farm, verbosity=0, **kw)
    a = copy.deepcopy(c["algo"])
    at = a.pop("algo_type")
    if over.pop("iterative", False):
        at = "Iterative"
    ep = over.pop("engine_pars", None)
    a.update(over)
    algo = getattr(foxes.algorithms, at)(farm, states, mbook=mb, verbosity=0, **a)
    e = ep or c["engine"]
    ctx = contextlib.nullcontext()
    if e:
        e = dict(e)
        al = dict(numpy="NumpyEngine", single="SingleChunkEngine", threads="ThreadsEngine", NumpyEngine="NumpyEngine", default="DefaultEngine", process="ProcessEngine")
        e.pop("verbosity", None)
        ctx = getattr(foxes.engines, al[e.pop("engine_type") or "default"])(verbosity=0, **e)
    with ctx:
        kw = {q: v for q, v in (c["calc"] or {}).items() if q != "run"}
        fr = algo.calc_farm(**kw) if (c["calc"] or {}).get("run", True) else None
        pr = None
        if c["points"] and fr is not None:
            p = np.broadcast_to(np.array(c["pts"])[None], (algo.n_states, len(c["pts"]), 3)).copy()
            pr = algo.calc_points(fr, p, **copy.deepcopy(c["ptkw"]))
        outs = []
        for o in c["outs"]:
            outs += OUTS[o][1](c, algo, fr, pr, tmp) if fr is not None else [None] * len(OUTS[o][0](c))
    return fr, pr, outs


NOTHING = object()


def same(what, a, b):
    """Compares results of any kind"""
    if b is None:
        return
    if b is NOTHING:
        if a is not None:
            raise Violation(f"{what}: {a}, expecting None")
        return
    if isinstance(b, xr.Dataset):
        if not isinstance(a, xr.Dataset) or set(a.data_vars) != set(b.data_vars) or dict(a.sizes) != dict(b.sizes) or set(a.coords) != set(b.coords):
            raise Violation(f"{what}: {a}, script gives {b}")
        for v in list(b.data_vars) + list(b.coords):
            same(f"{what}, {v}", a[v].values, b[v].values)
    elif isinstance(b, xr.DataArray):
        if a.dims != b.dims:
            raise Violation(f"{what}: {a}, script gives {b}")
        same(what, a.values, b.values)
    elif isinstance(b, (pd.DataFrame, pd.Series)):
        if type(a) != type(b) or not a.index.equals(b.index) or isinstance(b, pd.DataFrame) and list(a.columns) != list(b.columns):
            raise Violation(f"{what}: {a}, script gives {b}")
        same(what, a.to_numpy(), b.to_numpy())
    elif isinstance(b, (tuple, list)):
        if len(a) != len(b):
            raise Violation(f"{what}: {a}, script gives {b}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(f"{what}[{i}]", x, y)
    elif isinstance(b, str):
        if a != b:
            raise Violation(f"{what}: {a}, script gives {b}")
    else:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            raise Violation(f"{what}: shape {x.shape}, script gives {y.shape}")
        if y.dtype.kind in "fc":
            if not np.allclose(x.astype(float), y, rtol=1e-10, atol=1e-12, equal_nan=True):
                raise Violation(f"{what}: {x.ravel()[:6]}, script gives {y.ravel()[:6]}")
        elif not np.array_equal(x, y):
            raise Violation(f"{what}: {x.ravel()[:6]}, script gives {y.ravel()[:6]}")


def same_files(what, d0, d1, names):
    for n in names:
        a, b = os.path.join(d0, n), os.path.join(d1, n)
        if not os.path.isfile(a):
            raise Violation(f"{what}: file {n} is missing, found {os.listdir(d0)}")
        if n.endswith(".nc"):
            with xr.open_dataset(a) as x, xr.open_dataset(b) as y:
                same(f"{what}, file {n}", x.load(), y.load())
        elif open(a).read() != open(b).read():
            raise Violation(f"{what}: file {n} differs from that of the script: {open(a).read()[:200]} -- {open(b).read()[:200]}")


def reset():
    """Global settings as at program start"""
    import foxes
    import foxes.constants as FC
    from pathlib import Path
    from foxes.config import config
    from foxes.core import engine as en
    import matplotlib.pyplot as plt

    plt.close("all")
    config[FC.WORK_DIR], config[FC.INPUT_DIR], config[FC.OUTPUT_DIR] = Path("."), None, None
    if en.has_engine():
        try:
            en.get_engine(error=False, default=False).finalize()
        except Exception:
            pass
    en.reset_engine()


def snap(d):
    """Picture of a description"""
    if isinstance(d, dict):
        return {k: snap(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [snap(v) for v in d]
    if isinstance(d, np.ndarray):
        return ["array", d.tolist()]
    return d


FILES = dict(csv=["res.csv", "res.nc"], layout=["layout_out.csv"])


def valid(c):
    """Skips descriptions that make no sense"""
    if c["calc"] and "outputs" in c["calc"] and c["calc"]["outputs"]:
        # outputs need these variables
        if c["outs"] or c["points"]:
            c["calc"] = {}
    if c["calc"] and not c["calc"].get("run", True):
        # outputs without farm results are not available
        c["outs"] = [o for o in c["outs"] if o in ("eval", "table", "rose")]
    if c["calc"] and c["calc"].get("ambient") and (c["outs"] or c["points"]):
        c["calc"] = {}
    if c["over"].get("wake_models") and isinstance(c["algo"].get("ground_models"), dict):
        c["over"] = {}
    if c["over"].get("wake_models") and isinstance(c["algo"].get("partial_wakes"), list):
        c["over"] = {}
    if "max_it" in c["algo"] and c["over"].get("iterative"):
        pass


def run_cases(c):
    import foxes
    from foxes.utils import Dict
    from foxes.input.yaml import run_dict

    valid(c)
    reset()
    with gen.scratch() as tmp:
        tmp = str(tmp)
        write_files(c, tmp)
        os.mkdir(os.path.join(tmp, "script"))
        os.mkdir(os.path.join(tmp, "out"))
        with quiet():
            try:
                fr, pr, outs = script(c, tmp, c["over"])
            finally:
                reset()
        d = describe(c, tmp)
        if c["mode"] == "yaml":
            p = os.path.join(tmp, "case.yaml")
            with open(p, "w") as f:
                yaml.safe_dump(d, f, sort_keys=False)
            with quiet():
                d = Dict.from_yaml(p, verbosity=0)
        elif c["mode"] == "Dict":
            d = Dict(d, name="case")
        else:
            d = Dict(d, name="case")
            d["wind_farm"] = dict(d["wind_farm"])
        s0 = snap(d)
        over = copy.deepcopy(c["over"])
        o0 = copy.deepcopy(over)
        try:
            for rep in range(2 if c["twice"] else 1):
                what = f"{c['mode']}, run {rep}"
                with quiet():
                    r = run_dict(d, verbosity=c["verb"], input_dir=tmp, output_dir=os.path.join(tmp, "out"), **over)
                if snap(d) != s0 or over != o0:
                    raise Violation(f"{what}: the description has changed: {snap(d)}, was {s0}")
                if len(r) != (3 if c["points"] else 2):
                    raise Violation(f"{what}: {len(r)} results")
                same(f"{what}: farm results", r[0], NOTHING if fr is None else fr)
                if c["points"]:
                    same(f"{what}: point results", r[1], NOTHING if pr is None else pr)
                o = r[-1]
                if not isinstance(o, list) or len(o) != len(outs):
                    raise Violation(f"{what}: outputs {o}, expecting {len(outs)} entries")
                for i, ((od, res), e) in enumerate(zip(o, outs)):
                    same(f"{what}: output {i} {od}", res, e)
                same_files(what, os.path.join(tmp, "out"), os.path.join(tmp, "script"), [n for q in c["outs"] for n in FILES.get(q, [])])
        finally:
            reset()
    labs = {c["mode"], c["states"][0]} | {b[0] for b in c["book"]} | set(c["outs"])
    if fr is None:
        return labs | {"no farm calc"}
    if "REWS" in fr and "AMB_TI" in fr and "TI" in fr and gen.has_wakes(fr) and (c["book"] or c["outs"] or len(c["layouts"]) > 1):
        labs.add("nt")
    return labs


# --------------------------------------------------------------- command line


@st.composite
def cli(draw):
    c = draw(description())
    c["mode"] = "yaml"
    c["calc"] = draw(st.sampled_from([None, {}, dict(run=True)]))
    c["outs"] = ["csv"] + [o for o in c["outs"] if o in ("layout", "table", "plt")]
    c["over"] = {}
    c["opts"] = draw(st.lists(st.sampled_from(["rotor", "pwakes", "wakes", "frame", "engine", "chunks", "cpoints", "it", "outdir", "nofig"]), max_size=4, unique=True))
    c["verb"] = draw(st.sampled_from([0, 0, None]))
    c["eng"] = draw(st.sampled_from(["numpy", "threads", "single"]))
    c["badframe"] = "frame" in c["opts"] and draw(st.booleans())
    return c


def run_cli(c):
    from foxes.input.yaml.yaml import foxes_yaml

    if "wakes" in c["opts"]:
        c["algo"].pop("ground_models", None)
        c["algo"].pop("partial_wakes", None)
    over, argv = {}, []
    for o in c["opts"]:
        if o == "rotor":
            over["rotor_model"] = "grid9"
            argv += ["-r", "grid9"]
        elif o == "wakes":
            over["wake_models"] = ["Jensen_linear_k007", "CrespoHernandez_max_k003"]
            argv += ["--wakes", "Jensen_linear_k007", "CrespoHernandez_max_k003"]
        elif o == "pwakes":
            over["partial_wakes"] = ["rotor_points"]
            argv += ["-p", "rotor_points"]
        elif o == "frame":
            over["wake_frame"] = "yawed"
            argv += ["-f", "yawed" if not c.get("badframe") else "nosuchframe"]
        elif o == "it":
            over["iterative"] = True
            argv += ["-it"]
        elif o == "nofig":
            argv += ["-nf"]
    if "engine" in c["opts"] or "chunks" in c["opts"] or "cpoints" in c["opts"]:
        e = dict(engine_type=c["eng"] if "engine" in c["opts"] else None, n_procs=2 if c["eng"] == "threads" else None, chunk_size_states=None, chunk_size_points=None)
        if "engine" in c["opts"]:
            argv += ["-e", c["eng"]]
        if e["n_procs"]:
            argv += ["-n", "2"]
        if "chunks" in c["opts"]:
            e["chunk_size_states"] = 2
            argv += ["-c", "2"]
        if "cpoints" in c["opts"]:
            e["chunk_size_points"] = 2
            argv += ["--chunksize_points", "2"]
        over["engine_pars"] = e
    reset()
    with gen.scratch() as tmp:
        tmp = str(tmp)
        write_files(c, tmp)
        os.mkdir(os.path.join(tmp, "script"))
        os.mkdir(os.path.join(tmp, "out"))
        cwd, old = os.getcwd(), sys.argv
        with quiet():
            try:
                fr, pr, outs = script(c, tmp, over)
            finally:
                reset()
        p = os.path.join(tmp, "case.yaml")
        with open(p, "w") as f:
            yaml.safe_dump(describe(c, tmp), f, sort_keys=False)
        outd = os.path.join(tmp, "out")
        try:
            if "outdir" in c["opts"]:
                argv += ["-o", outd]
                ypath = p
            else:
                os.chdir(outd)
                ypath = os.path.join("..", "case.yaml")
            sys.argv = ["foxes_yaml", ypath] + argv + ([] if c["verb"] is None else ["-v", str(c["verb"])])
            ran = False
            try:
                with quiet():
                    foxes_yaml()
                ran = True
            except (KeyError, ValueError, AssertionError) as e:
                if not c.get("badframe"):
                    raise
            if c.get("badframe"):
                if ran:
                    raise Violation(f"command line {argv}: unknown wake frame was ignored")
                return {"badframe"}
        except SystemExit as e:
            raise Violation(f"command line {sys.argv[1:]} is not accepted: {e}")
        finally:
            sys.argv = old
            os.chdir(cwd)
            reset()
        same_files(f"command line {argv}", outd, os.path.join(tmp, "script"), [n for q in c["outs"] for n in FILES.get(q, [])])
    return set(c["opts"]) | ({"nt"} if gen.has_wakes(fr) and c["opts"] else set())


# -------------------------------------------------------------------- errors


@st.composite
def errors(draw):
    c = draw(description())
    c["mode"] = draw(st.sampled_from(["dict", "yaml"]))
    c["over"], c["twice"], c["verb"] = {}, False, 0
    c["where"] = draw(st.sampled_from(["states", "algo", "engine", "layout", "farm", "book", "calc", "points", "out", "fun"]))
    c["how"] = draw(st.sampled_from(["key", "key", "class", "missing", "model"]))
    c["key"] = draw(st.sampled_from(["unknown", "wake_model", "wake_frames", "rotor", "colmap2", "Verbosity", "state", "run_", "normalise"]))
    return c


def run_errors(c):
    import foxes
    from foxes.utils import Dict
    from foxes.input.yaml import run_dict

    valid(c)
    c["outs"] = c["outs"] or ["table"]
    if c["calc"] and not c["calc"].get("run", True):
        c["calc"] = None
    w, how, key = c["where"], c["how"], c["key"]
    with gen.scratch() as tmp:
        tmp = str(tmp)
        write_files(c, tmp)
        os.mkdir(os.path.join(tmp, "out"))
        if w == "points" and not c["points"]:
            c.update(points="list", pts=[[0.0, 0.0, 90.0]], ptkw={})
        if w == "engine" and not c["engine"]:
            c["engine"] = dict(engine_type="numpy")
        if w == "book" and not c["book"]:
            c["book"] = [["rotor_models", "my_r", "CentreRotor", {}]]
        d = describe(c, tmp)
        if w == "states":
            if how == "key":
                if c["states"][0] == "SingleStateStates":
                    raise Skip("profile data")
                d["states"][key] = 1
            elif how == "class":
                d["states"]["states_type"] += "s2"
            elif how == "missing":
                del d["states"]
            else:
                d["states"]["output_vars" if "output_vars" in d["states"] else "scans" if "scans" in d["states"] else "profiles"] = {"WS": {"profile_type": "None2"}, "bad": ["x"]}
        elif w == "algo":
            if how == "key":
                d["algorithm"][key] = "a"
            elif how == "class":
                d["algorithm"]["algo_type"] = "Downwinds"
            elif how == "missing":
                del d["algorithm"][["algo_type", "wake_models"][len(c["rows"]) % 2]]
            else:
                v = ["rotor_model", "wake_models", "wake_frame", "partial_wakes", "ground_models", "farm_controller"][len(c["layouts"][0][1]) % 6]
                d["algorithm"][v] = ["no_such_model"] if v == "wake_models" else "no_such_model"
        elif w == "engine":
            if how in ("key", "model", "missing"):
                d["engine"][key] = 3
            else:
                d["engine"]["engine_type"] = "fast"
        elif w == "layout":
            l = d["wind_farm"]["layouts"][-1]
            if how == "key":
                l[key] = 1
            elif how == "class":
                l["function"] = "add_rows"
            elif how == "missing":
                del l["function"]
            else:
                l["turbine_models"][0] = "NREL5MWs"
        elif w == "farm":
            if how == "missing":
                del d["wind_farm"]["layouts"]
            else:
                d["wind_farm"][key] = "x"
        elif w == "book":
            sec = list(d["model_book"])[0]
            m = d["model_book"][sec][0]
            if how == "key":
                m[key] = 1
            elif how == "class":
                m[CTYPE[sec]] += "2"
            elif how == "missing":
                del m[["name", CTYPE[sec]][len(c["rows"]) % 2]]
            else:
                d["model_book"][sec + "s"] = [m]
        elif w == "calc":
            d["calc_farm"] = dict(run=True, **{key: 1})
        elif w == "points":
            if how == "missing":
                del d["calc_points"]["points"]
            elif how == "model":
                d["calc_points"]["point_models"] = ["no_such_model"]
            else:
                d["calc_points"][key] = 1
        elif w == "out":
            o = [x for x in d["outputs"] if "output_type" in x][0]
            if how == "class":
                o["output_type"] += "2"
            elif how == "missing":
                del o[["functions", "output_type"][len(c["rows"]) % 2]]
            elif how == "key":
                if o["output_type"] == "plt":
                    raise Skip("no object")
                o[key] = 1
            else:
                d["outputs"].append(dict(object="$no_such_label", functions=[]))
        else:
            o = d["outputs"][0]
            f = o["functions"][0]
            if how == "class":
                f["function"] += "2"
            elif how == "missing":
                del f["function"]
            elif how == "key":
                fun = None if o.get("output_type") == "plt" else getattr(getattr(foxes.output, o["output_type"]), f["function"])
                if fun is None or any(q.kind == q.VAR_KEYWORD for q in inspect.signature(fun).parameters.values()):
                    raise Skip("accepts all keys")
                f[key] = 1
            else:
                f["result_labels"] = "no_dollar"
        if c["mode"] == "yaml":
            p = os.path.join(tmp, "case.yaml")
            with open(p, "w") as f:
                yaml.safe_dump(d, f, sort_keys=False)
            with quiet():
                d = Dict.from_yaml(p, verbosity=0)
        else:
            d = Dict(d, name="case")
        reset()
        try:
            with quiet():
                r = run_dict(d, verbosity=0, input_dir=tmp, output_dir=os.path.join(tmp, "out"))
        except Exception:
            return {w + ":" + how, "nt"}
        finally:
            reset()
        raise Violation(f"error '{how}' in {w} (key {key}) is ignored: {snap(d)}")


SUBS = [
    Sub("cases", description(), run_cases, quick=400),
    Sub("cli", cli(), run_cli, quick=120),
    Sub("errors", errors(), run_errors, quick=400),
]
