"""
Case generators (plain JSON data) and builders of foxes objects from cases.
"""

import os
import json
import hashlib
import shutil
import tempfile
import contextlib
import numpy as np
import pandas as pd
from hypothesis import strategies as st

BUILTIN = ["NREL5MW", "DTU10MW", "IEA15MW", "IWT7.5MW"]
BUILTIN_DH = {
    "NREL5MW": (126.0, 90.0, 5000.0),
    "DTU10MW": (178.3, 119.0, 10000.0),
    "IEA15MW": (240.0, 150.0, 15000.0),
    "IWT7.5MW": (164.0, 100.0, 7500.0),
}


def fl(lo, hi, step):
    """Floats on a lattice between lo and hi: shrinks to lo, no denormals"""
    n = int(round((hi - lo) / step))
    nd = max(0, int(np.ceil(-np.log10(step))) + 3)
    return st.integers(0, n).map(lambda i: round(lo + i * step, nd))


# ---------------------------------------------------------------- turbines


@st.composite
def curve_type(draw, need_ct=True, max_ct=0.97):
    """A turbine type given by a user power/ct table"""
    D = draw(st.sampled_from([80.0, 100.0, 126.0, 150.0, 200.0]))
    H = round(D * draw(st.sampled_from([0.6, 0.75, 0.9, 1.2])), 1)
    n = draw(st.integers(3, 8))
    ws0 = draw(st.sampled_from([0.0, 2.0, 3.5]))
    ws = [ws0]
    for _ in range(n - 1):
        ws.append(round(ws[-1] + draw(fl(0.5, 6.0, 0.25)), 4))
    if ws[-1] < 20.0:
        ws.append(round(25.3 + draw(fl(0.0, 5.0, 0.5)), 4))
    Pn = draw(st.sampled_from([1000.0, 3300.0, 5000.0, 8000.0]))
    P = sorted(round(draw(fl(0.0, 1.0, 0.01)) * Pn, 3) for _ in ws)
    P[-1] = Pn
    ct = [draw(fl(0.05, max_ct, 0.01)) for _ in ws]
    return dict(ws=ws, P=P, ct=ct, D=D, H=H, Pn=Pn)


@st.composite
def any_type(draw):
    if draw(st.integers(0, 3)) < 2:
        return dict(b=draw(st.sampled_from(BUILTIN)))
    return draw(curve_type())


def type_dh(t):
    if "b" in t:
        return BUILTIN_DH[t["b"]][:2]
    return t["D"], t["H"]


def type_Pn(t):
    return BUILTIN_DH[t["b"]][2] if "b" in t else t["Pn"]


def type_Pmax(t):
    if "b" in t:
        return 10683.7 if t["b"] == "DTU10MW" else BUILTIN_DH[t["b"]][2]
    return max(t["P"])


@st.composite
def layout(draw, nmin=1, nmax=6, spacing=None, jitter=True):
    """Turbine positions on a jittered lattice: pairwise distinct, no rotor overlap"""
    S = draw(st.sampled_from([450.0, 600.0, 900.0])) if spacing is None else spacing
    m = 5
    nodes = draw(
        st.lists(
            st.tuples(st.integers(0, m), st.integers(0, m)),
            min_size=nmin,
            max_size=nmax,
            unique=True,
        )
    )
    jit = True if jitter == "always" else (draw(st.booleans()) if jitter else False)
    out = []
    for i, j in nodes:
        dx = draw(fl(-0.2, 0.2, 0.001)) if jit else 0.0
        dy = draw(fl(-0.2, 0.2, 0.001)) if jit else 0.0
        out.append([round((i + dx) * S, 3), round((j + dy) * S, 3)])
    return out


# ------------------------------------------------------------------ inflow


@st.composite
def table(draw, nmin=1, nmax=8, ws_lo=3.0, ws_hi=26.0, off=0.013):
    """A table of stand-alone flow states"""
    n = draw(st.integers(nmin, nmax))
    wdk = draw(st.sampled_from(["free", "free", "grid", "narrow"]))
    wd0 = draw(fl(0.0, 359.0, 1.0))
    rows = []
    for i in range(n):
        ws = round(draw(fl(ws_lo, ws_hi, 0.1)) + off, 4)
        if wdk == "free":
            wd = round(draw(fl(0.0, 359.0, 0.5)) + 0.137, 4)
        elif wdk == "grid":
            wd = draw(st.sampled_from([0.0, 90.0, 180.0, 270.0, 360.0, 45.0, 225.0]))
        else:
            wd = round((wd0 + draw(fl(-10.0, 10.0, 0.5))) % 360.0 + 0.071, 4)
        rows.append([ws, wd, draw(fl(0.02, 0.30, 0.005)), draw(fl(0.95, 1.35, 0.005))])
    return rows


@st.composite
def wake_k(draw, allow_none=False, local=True):
    """Name suffix of a wake growth setting"""
    opts = ["k", "k", "ka", "ka_kb", "ambka", "ambka_kb"]
    if not local:
        opts = ["k", "ambka", "ambka_kb"]
    if allow_none:
        opts.append("none")
    o = draw(st.sampled_from(opts))
    if o == "none":
        return ""
    if o == "k":
        return "_" + draw(st.sampled_from(["k004", "k002", "k0075", "k01"]))
    a = draw(st.sampled_from(["02", "04", "06"]))
    b = draw(st.sampled_from(["0004", "002"]))
    p = "_ambka" if o.startswith("amb") else "_ka"
    return p + a + (f"_kb{b}" if o.endswith("kb") else "")


WS_SUP_LIM = [
    "linear_lim",
    "linear_amb_lim",
    "linear_loc_lim",
    "quadratic_lim",
    "quadratic_amb_lim",
    "quadratic_loc_lim",
    "cubic_loc_lim",
    "quartic_loc_lim",
    "max_loc_lim",
    "product_lim",
]
WS_SUP = [
    "linear",
    "linear_amb",
    "linear_loc",
    "quadratic",
    "quadratic_amb",
    "quadratic_loc",
    "cubic",
    "cubic_amb",
    "cubic_loc",
    "quartic",
    "quartic_amb",
    "quartic_loc",
    "max",
    "max_amb",
    "max_loc",
    "product",
]
TI_SUP = ["linear", "quadratic", "cubic", "quartic", "max"]
WIND_TOPHAT = ["Jensen"]
WIND_GAUSS = [
    "Bastankhah2014",
    "Bastankhah2014B",
    "Bastankhah025",
    "Bastankhah025B",
    "TurbOPark",
    "TurbOParkB",
]
WIND_SLICED = ["Bastankhah2016", "Bastankhah2016B"]


def wm_kind(name):
    b = name.split("_")[0]
    if b in WIND_TOPHAT or b.startswith("IECTI") or b == "CrespoHernandez":
        return "tophat"
    if b in WIND_GAUSS or b.startswith("TurbOParkIX"):
        return "gauss"
    if b in WIND_SLICED:
        return "sliced"
    return "induction"


@st.composite
def wind_wake(draw, sup=None, local_k=True, models=None, ix=False):
    models = models or (WIND_TOPHAT * 2 + WIND_GAUSS + WIND_SLICED)
    m = draw(st.sampled_from(models))
    s = draw(st.sampled_from(sup or (WS_SUP + WS_SUP_LIM)))
    k = draw(wake_k(local=local_k))
    return f"{m}_{s}{k}"


@st.composite
def ti_wake(draw):
    m = draw(st.sampled_from(["CrespoHernandez", "IECTI2019", "IECTI2005", "IECTI2019k", "IECTI2005k"]))
    s = draw(st.sampled_from(TI_SUP))
    if m in ("IECTI2019", "IECTI2005"):
        return f"{m}_{s}"
    return f"{m}_{s}" + draw(wake_k())


@st.composite
def wake_models(draw, sup=None, ti=None, nmax=2, models=None):
    out = [draw(wind_wake(sup=sup, models=models))]
    use_ti = draw(st.booleans()) if ti is None else ti
    if use_ti:
        out.append(draw(ti_wake()))
    if draw(st.booleans()):
        out = out[::-1]
    return out


@st.composite
def partial(draw, wms, rotor="centre"):
    """Partial wakes choice per wake model, or None for the default"""
    if draw(st.integers(0, 2)) == 0:
        return None
    out = {}
    for w in wms:
        k = wm_kind(w)
        opts = ["rotor_points", "centre", "grid4", "grid9", "grid16"]
        if k == "tophat":
            opts += ["top_hat", "top_hat", "axiwake3", "axiwake6"]
        if k == "gauss":
            opts += ["axiwake3", "axiwake6", "axiwake6"]
        out[w] = draw(st.sampled_from(opts))
    return out


ROTORS = ["centre", "centre", "grid4", "grid9", "grid16", "level1", "level3", "level5"]


@st.composite
def ground(draw, wms):
    o = draw(st.sampled_from(["none", "none", "none", "ground", "blh"]))
    if o == "none":
        return None
    if o == "ground":
        return "ground_mirror"
    return f"blh_mirror_h{draw(st.sampled_from([300, 500, 1000]))}"


def clear_ground(typ, t):
    """Rotors do not reach into the ground"""
    D, H = t.get("D", type_dh(typ)[0]), t.get("H", type_dh(typ)[1])
    if H < 0.5 * D + 8.0:
        t["H"] = round(0.5 * D + 8.0, 2)


@st.composite
def turbines(draw, nmin=1, nmax=6, types=None, mixed=True, var_dh=True, jitter=True, models=None):
    pos = draw(layout(nmin, nmax, jitter=jitter))
    tps = draw(st.lists(any_type(), min_size=1, max_size=3 if mixed else 1)) if types is None else types
    ts = []
    for p in pos:
        t = dict(xy=p, t=draw(st.integers(0, len(tps) - 1)))
        if var_dh and draw(st.integers(0, 4)) == 0:
            t["H"] = draw(fl(85.0, 180.0, 1.0))
        if var_dh and draw(st.integers(0, 6)) == 0:
            t["D"] = draw(fl(80.0, 200.0, 1.0))
        clear_ground(tps[t["t"]], t)
        m = []
        if models:
            m = draw(models)
        t["m"] = m
        ts.append(t)
    return tps, ts


@st.composite
def add_yaw(draw, sc, per_state=True, lo=-30.0, hi=30.0):
    """Adds yaw misalignment via a set-variables model and yaw models"""
    ns, nt = len(sc["states"]["rows"]), len(sc["turbines"])
    per_state = per_state and draw(st.booleans())
    row = [draw(fl(lo, hi, 2.5)) for _ in range(nt)]
    if per_state:
        data = [[draw(fl(lo, hi, 2.5)) for _ in range(nt)] for _ in range(ns)]
    else:
        data = [row] * ns
    sc["set"] = {"vset": {"vars": {"YAWM": data}}}
    for t in sc["turbines"]:
        t["m0"] = ["vset", "yawm2yaw"]
    return sc


@st.composite
def align(draw, sc):
    """Turns some wind directions roughly along a line between two turbines"""
    ts, n = sc["turbines"], len(sc["turbines"])
    if n < 2:
        return sc
    for r in sc["states"]["rows"]:
        if draw(st.integers(0, 2)) > 0:
            i = draw(st.integers(0, n - 1))
            j = (i + draw(st.integers(1, n - 1))) % n
            d = np.array(ts[i]["xy"]) - np.array(ts[j]["xy"])
            wd = np.rad2deg(np.arctan2(d[0], d[1]))
            r[1] = round(float((wd + draw(fl(-8.0, 8.0, 0.5)) + 0.0137) % 360.0), 4)
    return sc


@st.composite
def scenario(
    draw,
    nmin=1,
    nmax=6,
    smin=1,
    smax=8,
    sup=None,
    ti=None,
    rotors=None,
    grounds=True,
    partials=True,
    frames=("rotor_wd",),
    jitter=True,
    wms=None,
    tmodels=None,
    var_dh=True,
    profile=True,
):
    tps, ts = draw(turbines(nmin, nmax, jitter=jitter, models=tmodels, var_dh=var_dh))
    w = draw(wake_models(sup=sup, ti=ti)) if wms is None else draw(wms)
    rot = draw(st.sampled_from(rotors or ROTORS))
    sc = dict(
        types=tps,
        turbines=ts,
        states=dict(kind="table", rows=draw(table(smin, smax))),
        wakes=w,
        rotor=rot,
        frame=draw(st.sampled_from(list(frames))),
        partial=draw(partial(w, rot)) if partials else None,
        ground=draw(ground(w)) if grounds else None,
    )
    draw(align(sc))
    if profile:
        pr = draw(st.sampled_from([None, None, None, "ABLLogNeutralWsProfile", "ShearedProfile"]))
        if pr:
            sc["states"]["profile"] = pr
    return sc


# ----------------------------------------------------------------- builders


def build_type(spec, **over):
    import foxes.models as fm

    kw = dict(D=spec["D"], H=spec["H"], P_nominal=spec["Pn"])
    kw.update(spec.get("kw", {}))
    kw.update(over)
    df = pd.DataFrame(dict(ws=spec["ws"], P=spec["P"], ct=spec["ct"]))
    return fm.turbine_types.PCtFile(df, **kw)


def build_mbook(case, mbook=None, order=None):
    import foxes.models as fm

    mb = fm.ModelBook() if mbook is None else mbook
    for i, t in enumerate(case["types"]):
        if "b" not in t:
            mb.turbine_types[f"VT{i}"] = build_type(t)
    for name, d in case.get("set", {}).items():
        m = fm.turbine_models.SetFarmVars(pre_rotor=d.get("pre", False))
        for v, x in d["vars"].items():
            x = np.array(x, dtype=float)
            if order is not None and x.ndim == 2:
                x = x[:, order]
            m.add_var(v, x)
        mb.turbine_models[name] = m
    return mb


def type_name(case, i):
    t = case["types"][i]
    return t["b"] if "b" in t else f"VT{i}"


def build_farm(case, order=None):
    import foxes

    farm = foxes.WindFarm()
    idx = list(range(len(case["turbines"]))) if order is None else order
    for i in idx:
        t = case["turbines"][i]
        farm.add_turbine(
            foxes.Turbine(
                xy=np.array(t["xy"], dtype=float),
                turbine_models=list(t.get("m0", []))
                + [type_name(case, t["t"])]
                + list(t.get("m", [])),
                H=t.get("H"),
                D=t.get("D"),
            ),
            verbosity=0,
        )
    return farm


def table_df(rows, weights=None):
    df = pd.DataFrame(rows, columns=["WS", "WD", "TI", "RHO"], dtype=float)
    if weights is not None:
        df["weight"] = weights
    df.index.name = "state"
    return df


_SCRATCH = []


@contextlib.contextmanager
def scratch():
    """A temporary directory for the files of one case"""
    d = tempfile.mkdtemp(prefix="vf_")
    _SCRATCH.append(d)
    try:
        yield d
    finally:
        _SCRATCH.pop()
        shutil.rmtree(d, ignore_errors=True)


def scratch_file(key, ext, write):
    """Path of a file in the current scratch directory, written once"""
    assert _SCRATCH, "needs gen.scratch()"
    h = hashlib.sha1(json.dumps(key, sort_keys=True).encode()).hexdigest()[:16]
    p = os.path.join(_SCRATCH[-1], f"{h}{ext}")
    if not os.path.exists(p):
        write(p)
    return p


def field_values(s):
    """Values of a generated inflow field at its grid nodes, dict of arrays (state, h, y, x)"""
    x, y, h = (np.array(s["grid"][c], dtype=float) for c in "xyh")
    out = {}
    rows = np.array(s["rows"], dtype=float)
    g = s.get("var", 0.1)
    T, Hh, Yy, Xx = np.meshgrid(np.arange(len(rows)), h, y, x, indexing="ij")
    f = np.sin(1.0 + 0.0007 * Xx + 0.3 * T) + np.cos(0.0009 * Yy - 0.5 * T) + 0.005 * (Hh - 100.0)
    e = np.cos(2.0 + 0.0005 * Yy + 0.7 * T) - np.sin(0.0011 * Xx) + 0.003 * (Hh - 100.0)
    for i, v in enumerate(["WS", "WD", "TI", "RHO"]):
        b = rows[:, i][:, None, None, None]
        if v == "WD":
            out[v] = (b + 60.0 * g * e) % 360.0
        else:
            out[v] = b * (1.0 + 0.4 * g * (f if v != "TI" else e))
    return out


@st.composite
def field(draw, rows, heights=True):
    """Inflow states of kind 'nc': gridded data"""
    st_ = draw(st.sampled_from([2500.0, 1800.0, 4000.0]))
    x0 = draw(st.sampled_from([-3000.0, -2613.0]))
    n = int(np.ceil((8500.0 - x0) / st_))
    gx = [round(x0 + i * st_ + (37.0 * ((i * 7) % 3) if 0 < i < n else 0.0), 3) for i in range(n + 1)]
    gy = [round(x0 - 11.0 + i * st_, 3) for i in range(n + 1)]
    gh = draw(st.sampled_from([[1.0, 60.0, 110.0, 180.0, 500.0], [5.0, 90.0, 130.0, 600.0]]))
    return dict(
        kind="nc", rows=rows, grid=dict(x=gx, y=gy, h=gh), var=draw(st.sampled_from([0.0, 0.05, 0.15])),
        mode=draw(st.sampled_from(["preload", "lazy", "fly"])), split=draw(st.integers(1, 3)),
    )


def field_dataset(s, t0=0, t1=None):
    import xarray as xr

    d = field_values(s)
    n = len(s["rows"])
    t1 = n if t1 is None else t1
    times = pd.date_range("2020-01-01 00:00", periods=n, freq="600s").strftime("%Y-%m-%d_%H:%M:%S").to_numpy()
    return xr.Dataset(
        coords=dict(Time=times[t0:t1], height=s["grid"]["h"], UTMY=s["grid"]["y"], UTMX=s["grid"]["x"]),
        data_vars={v: (("Time", "height", "UTMY", "UTMX"), a[t0:t1]) for v, a in d.items()},
    )


def build_field(s):
    import foxes

    n, k = len(s["rows"]), min(s.get("split", 1), len(s["rows"]))
    cuts = np.linspace(0, n, k + 1).astype(int)
    assert _SCRATCH, "needs gen.scratch()"
    h = hashlib.sha1(json.dumps(s, sort_keys=True).encode()).hexdigest()[:16]
    for i in range(k):
        p = os.path.join(_SCRATCH[-1], f"{h}_{i:03d}.nc")
        if not os.path.exists(p):
            field_dataset(s, cuts[i], cuts[i + 1]).to_netcdf(p)
    return foxes.input.states.FieldDataNC(
        os.path.join(_SCRATCH[-1], f"{h}_*.nc"),
        output_vars=["WS", "WD", "TI", "RHO"],
        load_mode=s.get("mode", "preload"),
        bounds_extra_space=None if s.get("nob", True) else 5000.0,
        bounds_error=False,
        sel={"UTMX": slice(None), "UTMY": slice(None)},
    )


def build_onepoint(s):
    import foxes

    df = table_df(s["rows"])
    df.index = pd.date_range("2020-01-01 00:00", periods=len(df), freq=f"{s.get('dt', 600)}s")
    df.index.name = "Time"
    return foxes.input.states.OnePointFlowTimeseries(
        s["ref"], data_source=df, output_vars=["WS", "WD", "TI", "RHO"],
        dt_min=s.get("dt", 600) / 60.0 if len(df) == 1 else None,
    )


def build_states(s):
    import foxes

    if s["kind"] == "table":
        df = table_df(s["rows"], s.get("weights"))
        kw = dict(output_vars=["WS", "WD", "TI", "RHO"])
        p = s.get("profile")
        if p == "ABLLogNeutralWsProfile":
            kw["profiles"] = {"WS": dict(type=p)}
            kw["fixed_vars"] = dict(H=100.0, z0=0.05)
        elif p == "ShearedProfile":
            kw["profiles"] = {"WS": dict(type=p)}
            kw["fixed_vars"] = dict(H=100.0, shear=0.14)
        if "fixed" in s:
            kw["fixed_vars"] = dict(kw.get("fixed_vars", {}), **s["fixed"])
        return foxes.input.states.StatesTable(df, **kw)
    if s["kind"] == "ts":
        df = table_df(s["rows"])
        df.index = pd.date_range("2020-01-01 00:00", periods=len(df), freq=f"{s.get('dt', 600)}s")
        df.index.name = "Time"
        return foxes.input.states.Timeseries(df, output_vars=["WS", "WD", "TI", "RHO"])
    if s["kind"] == "single":
        ws, wd, ti, rho = s["rows"][0]
        return foxes.input.states.SingleStateStates(ws=ws, wd=wd, ti=ti, rho=rho)
    if s["kind"] == "nc":
        return build_field(s)
    if s["kind"] == "onepoint":
        return build_onepoint(s)
    if s["kind"] == "multi":
        # values at two heights, linearly interpolated
        h0, h1 = s["heights"]
        df = table_df(s["rows"])
        cols = {}
        for v in df:
            cols[f"{v}-{h0:g}"] = df[v] * (1.0 if v == "WD" else 0.9)
            cols[f"{v}-{h1:g}"] = df[v] * (1.0 if v == "WD" else 1.1)
        cls = foxes.input.states.MultiHeightStates
        df = pd.DataFrame(cols)
        df.index.name = "state"
        return cls(df, output_vars=["WS", "WD", "TI", "RHO"], heights=[h0, h1], bounds_error=False)
    raise KeyError(s["kind"])


@st.composite
def other_states(draw, rows, kinds=("nc", "nc", "onepoint", "multi", "ts")):
    """The same rows as inflow states of another kind"""
    k = draw(st.sampled_from(list(kinds)))
    if k == "nc":
        return draw(field(rows))
    if k == "onepoint":
        return dict(kind=k, rows=rows, ref=[draw(fl(0.0, 2000.0, 100.0)), draw(fl(0.0, 2000.0, 100.0)), 100.0], dt=draw(st.sampled_from([60, 600])))
    if k == "multi":
        return dict(kind=k, rows=rows, heights=draw(st.sampled_from([[50.0, 150.0], [10.0, 400.0]])))
    return dict(kind="ts", rows=rows, dt=draw(st.sampled_from([60, 600])))


def build_algo(case, mbook=None, farm=None, states=None, algo="Downwind", order=None, **kw):
    import foxes

    mb = build_mbook(case, order=order) if mbook is None else mbook
    args = dict(
        farm=build_farm(case, order) if farm is None else farm,
        states=build_states(case["states"]) if states is None else states,
        wake_models=list(case["wakes"]),
        rotor_model=case.get("rotor", "centre"),
        wake_frame=case.get("frame", "rotor_wd"),
        partial_wakes=case.get("partial"),
        ground_models=case.get("ground"),
        mbook=mb,
        verbosity=0,
    )
    args.update(case.get("algo_kw", {}))
    args.update(kw)
    return getattr(foxes.algorithms, algo)(**args)


def engine(name="single", cs=None, cp=None, n=None):
    import foxes

    return foxes.Engine.new(
        name, chunk_size_states=cs, chunk_size_points=cp, n_procs=n, verbosity=0
    )


def run_farm(case, eng=("single", None, None, None), **kw):
    algo = build_algo(case, **kw)
    with engine(*eng):
        return algo.calc_farm()


def run_both(case, points, eng=("single", None, None, None), farm_kw=None, pt_kw=None, **kw):
    """Farm and point results"""
    algo = build_algo(case, **kw)
    with engine(*eng):
        fr = algo.calc_farm(**(farm_kw or {}))
        pr = algo.calc_points(fr, points_array(points, algo), **(pt_kw or {}))
    return fr, pr


def points_array(points, algo):
    p = np.asarray(points, dtype=float)
    if p.ndim == 2:
        p = np.broadcast_to(p[None], (algo.n_states,) + p.shape).copy()
    return p


def vals(ds, v):
    return np.asarray(ds[v].to_numpy(), dtype=float)


ANGLE = {"WD", "AMB_WD", "YAW", "AMB_YAW", "YAWM", "AMB_YAWM"}
SCALE = {
    "P": 10.0,
    "AMB_P": 10.0,
    "WD": 1.0,
    "AMB_WD": 1.0,
    "YAW": 1.0,
    "X": 1e3,
    "Y": 1e3,
    "H": 100.0,
    "D": 100.0,
}


def diff(v, a, b, tol=1e-6):
    """Largest deviation in units of the tolerance, nan-aware"""
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    d = np.abs(a - b)
    if v in ANGLE:
        d = np.abs((a - b + 180.0) % 360.0 - 180.0)
    nn = np.isnan(a) & np.isnan(b)
    sc = np.maximum(np.abs(a), np.abs(b))
    lim = tol * (SCALE.get(v, 1.0) + sc)
    r = np.where(nn, 0.0, d / lim)
    r = np.where(np.isnan(r), np.inf, r)
    return r


def compare(fr0, fr1, what, variables=None, tol=1e-6, sel0=None, sel1=None, skip=()):
    """Raises Violation if two results differ"""
    from .runner import Violation

    vs = variables or [v for v in fr0.data_vars]
    for v in vs:
        if v in skip or v in ("tname", "tmodels", "order_ssel"):
            continue
        if v not in fr1:
            raise Violation(f"{what}: variable {v} missing in second result")
        a, b = fr0[v].to_numpy(), fr1[v].to_numpy()
        if a.dtype.kind not in "fiub":
            continue
        if sel0 is not None:
            a = sel0(v, a)
        if sel1 is not None:
            b = sel1(v, b)
        if v == "weight":
            # a state property, may come per state or broadcast to all targets
            a = a.reshape(a.shape[0], -1) if a.size else a
            b = b.reshape(b.shape[0], -1) if b.size else b
            a, b = np.broadcast_arrays(a, b)
        if a.shape != b.shape:
            raise Violation(f"{what}: {v} has shapes {a.shape} and {b.shape}")
        if a.size == 0:
            continue
        r = diff(v, a, b, tol)
        if np.max(r) > 1.0:
            i = np.unravel_index(np.argmax(r), r.shape)
            raise Violation(
                f"{what}: {v} differs at {tuple(int(x) for x in i)}: {a[i]!r} vs {b[i]!r}"
            )


def has_wakes(fr, tol=1e-6):
    """Whether any wake effect shows in the farm results"""
    a, b = vals(fr, "AMB_REWS"), vals(fr, "REWS")
    c, d = vals(fr, "AMB_TI"), vals(fr, "TI")
    return bool(np.any(np.abs(a - b) > tol) or np.any(np.abs(c - d) > tol))
