"""C18: spatially varying inflow is interpolated from the user's grid data"""
import os
import math
import itertools
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation
from checks.c17 import check, selection, sel_args, common

PROPERTY = "C18"
RULE = (
    "generated gridded fields (any subset of height and horizontal axes per variable, any axis order, ascending and descending coordinates, own "
    "coordinate and variable names, fixed values, weights, one to three files or data sets in memory, preload, lazy and fly, selections of states, "
    "farm bounds), multi-height tables and NetCDF files (height dependent, height independent, fixed and attribute values, heights in any order), "
    "wind resource grids; each with generated chunk sizes; values at turbines and points inside the data compared with reference multi-linear "
    "interpolation (wind as vector), positions outside must raise an error; non-trivial: some evaluated position strictly between nodes"
)
ASSUMPTIONS = [
    "wind speed and direction of gridded and multi-height data are interpolated as wind vector",
    "weights of wind resource grid states: sector frequency times Weibull density at the bin centre times bin width, as implemented",
]
VARS = ["WS", "WD", "TI", "RHO"]


def axis(draw, lo, n, steps):
    a = [lo]
    for _ in range(n - 1):
        a.append(round(a[-1] + draw(st.sampled_from(steps)), 3))
    return a


@st.composite
def nc_case(draw):
    ns = draw(st.integers(1, 6))
    has_h, has_xy = draw(st.sampled_from([(1, 1), (1, 1), (0, 1), (1, 0), (0, 0)]))
    x0, y0 = draw(st.sampled_from([(-1000.0, -2000.0), (0.0, 0.0), (500000.0, 6000000.0)]))
    gx = axis(draw, x0, draw(st.integers(2, 5)), [400.0, 1000.0, 2500.0]) if has_xy else [x0, x0 + 4000.0]
    gy = axis(draw, y0, draw(st.integers(2, 5)), [400.0, 1000.0, 2500.0]) if has_xy else [y0, y0 + 4000.0]
    gh = axis(draw, 10.0, draw(st.integers(2, 4)), [40.0, 100.0, 150.0]) if has_h else [10.0, 300.0]
    dims = ["s"] + (["sh"] if has_h else []) + (["syx", "sxy"] if has_xy else []) + (["shyx", "shxy", "shyx"] if has_h and has_xy else [])
    vd = {}
    for v in VARS:
        vd[v] = draw(st.sampled_from(dims + (["fixed"] if draw(st.integers(0, 2)) == 0 else [])))
    # at least one variable must carry each axis
    if has_h and has_xy:
        vd["WS"] = draw(st.sampled_from(["shyx", "shxy"]))
    elif has_h or has_xy:
        vd["TI"] = dims[-1]
    c = dict(
        ns=ns, gx=gx, gy=gy, gh=gh, has_h=bool(has_h), has_xy=bool(has_xy), vd=vd, seed=draw(st.integers(0, 10**6)),
        flip=[draw(st.booleans()) for _ in range(3)], names=draw(st.booleans()), vmap=draw(st.booleans()),
        weight=draw(st.booleans()), time=draw(st.sampled_from(["str", "str", "int", "dt"])),
        src=draw(st.sampled_from(["files", "files", "files", "ds"])), mode=draw(st.sampled_from(["preload", "lazy", "fly"])),
        split=draw(st.integers(1, 3)), bounds=draw(st.sampled_from([None, 0, 100, 1000, 50000, "1.0D", "sel", "isel"])),
        ssel=draw(st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["sel", "isel"]), st.integers(0, 2)))),
        north=draw(st.booleans()), nan=draw(st.integers(0, 5)) == 0 and has_xy and not has_h, cs=draw(st.sampled_from([None, 1, 2, 3])), outside=draw(st.integers(0, 5)) == 0,
        two=draw(st.integers(0, 3)) == 0,
    )
    c["u"] = [[draw(gen.fl(0.0, 1.0, 0.05)) for _ in range(3)] for _ in range(draw(st.integers(1, 3)))]
    c["pu"] = [[draw(gen.fl(0.0, 1.0, 0.05)) for _ in range(3)] for _ in range(draw(st.integers(1, 5)))]
    if c["src"] == "ds" and c["mode"] == "fly":
        c["mode"] = "lazy"
    if c["ssel"] is not None and c["src"] == "files":
        c["split"] = 1
    return c


def node_data(c):
    """Values at the nodes with ascending axes: dict v -> array of dims s, [h], [y, x] or None for fixed"""
    rng = np.random.RandomState(c["seed"])
    out = {}
    n = dict(s=c["ns"], h=len(c["gh"]), y=len(c["gy"]), x=len(c["gx"]))
    for v in VARS:
        d = c["vd"][v]
        shp = [n[k] for k in ("shyx" if d in ("shyx", "shxy") else ("syx" if d in ("syx", "sxy") else d))] if d != "fixed" else []
        if v == "WS":
            a = rng.uniform(5.0, 15.0, shp)
        elif v == "WD":
            b = 0.0 if c["north"] else rng.uniform(0, 360)
            a = (b + rng.uniform(-40.0, 40.0, shp)) % 360.0
        elif v == "TI":
            a = rng.uniform(0.02, 0.2, shp)
        else:
            a = rng.uniform(1.0, 1.3, shp)
        out[v] = np.round(a, 4)
    w = np.round(rng.uniform(0.1, 1.0, c["ns"]), 4)
    return out, w


def interp(axes, A, p):
    """Multi-linear interpolation of an array at a point, ascending axes"""
    A = np.asarray(A, dtype=float)
    for x, z in zip(axes, p):
        i = min(max(int(np.searchsorted(x, z, side="right")) - 1, 0), len(x) - 2)
        f = (z - x[i]) / (x[i + 1] - x[i])
        A = (1 - f) * A[i] + f * A[i + 1]
    return A


def expand(c, v, A):
    """Values on the full (s, h, y, x) grid"""
    d = c["vd"][v]
    n = (c["ns"], len(c["gh"]), len(c["gy"]), len(c["gx"]))
    if d == "fixed":
        return np.full(n, float(A))
    if d == "s":
        A = A[:, None, None, None]
    elif d == "sh":
        A = A[:, :, None, None]
    elif d in ("syx", "sxy"):
        A = A[:, None]
    return np.broadcast_to(A, n)


def reference(c, data):
    F = {v: expand(c, v, data[v]) for v in VARS}
    r = np.deg2rad(F["WD"])
    F["U"], F["V"] = -F["WS"] * np.sin(r), -F["WS"] * np.cos(r)
    ax = (c["gh"], c["gy"], c["gx"])

    def want(s, x, y, h):
        p = (h, y, x)
        u, v = interp(ax, F["U"][s], p), interp(ax, F["V"][s], p)
        ws = float(data["WS"]) if c["vd"]["WS"] == "fixed" else math.hypot(u, v)
        wd = float(data["WD"]) if c["vd"]["WD"] == "fixed" else math.degrees(math.atan2(-u, -v)) % 360.0
        return dict(WS=ws, WD=wd, TI=float(interp(ax, F["TI"][s], p)), RHO=float(interp(ax, F["RHO"][s], p)))

    return want


def position(c, u):
    g = lambda a, t: round(a[0] + t * (a[-1] - a[0]), 6)
    return [g(c["gx"], u[0]), g(c["gy"], u[1]), g(c["gh"], u[2])]


def between(c, p):
    ok = False
    for on, a, z in ((c["has_xy"], c["gx"], p[0]), (c["has_xy"], c["gy"], p[1]), (c["has_h"], c["gh"], p[2])):
        ok = ok or (on and min(abs(z - q) for q in a) > 1e-3)
    return ok


def dataset(c, data, w, nm, vm):
    import pandas as pd
    import xarray as xr

    f = [(lambda a, q=q: a[::-1] if q else a) for q in c["flip"]]
    times = pd.date_range("2020-01-01 00:00", periods=c["ns"], freq="600s")
    co = {nm["s"]: {"str": times.strftime("%Y-%m-%d_%H:%M:%S").to_numpy(), "int": np.arange(c["ns"]) * 3 + 7, "dt": times.to_numpy()}[c["time"]]}
    if c["has_xy"]:
        co[nm["x"]] = f[0](np.array(c["gx"]))
        co[nm["y"]] = f[1](np.array(c["gy"]))
    if c["has_h"]:
        co[nm["h"]] = f[2](np.array(c["gh"]))
    dv = {}
    for v in VARS:
        d = c["vd"][v]
        if d == "fixed":
            continue
        A = np.array(data[v])
        k = "shyx" if d in ("shyx", "shxy") else ("syx" if d in ("syx", "sxy") else d)
        for q, fl in zip("xyh", c["flip"]):
            if fl and q in k:
                A = np.flip(A, axis=k.index(q))
        if d in ("shxy", "sxy"):
            A = np.swapaxes(A, -1, -2)
        dv[vm.get(v, v)] = (tuple(nm[q] for q in d), A)
    if c["weight"]:
        dv["freq"] = ((nm["s"],), w)
    return xr.Dataset(coords=co, data_vars=dv)


def run_nc(c):
    import foxes

    data, w = node_data(c)
    nm = dict(s="Time", x="UTMX", y="UTMY", h="height") if not c["names"] else dict(s="t", x="easting", y="northing", h="lev")
    vm = {v: f"my_{v.lower()}" for v in VARS} if c["vmap"] else {}
    ds = dataset(c, data, w, nm, vm)
    want0 = reference(c, data)
    nanm = None
    if c["nan"]:
        # one missing node in all variables with horizontal axes
        iy, ix = c["seed"] % len(c["gy"]), (c["seed"] // 7) % len(c["gx"])
        nanm = (c["gy"][iy], c["gx"][ix])
        for v in VARS:
            if c["vd"][v] in ("syx", "sxy"):
                ds[vm.get(v, v)].loc[{nm["y"]: nanm[0], nm["x"]: nanm[1]}] = np.nan
    sel, isel, pos = {}, {}, list(range(c["ns"]))
    if c["ssel"] is not None and c["ns"] > 1:
        a = min(c["ssel"][1], c["ns"] - 1)
        pos = pos[a:]
        if c["ssel"][0] == "isel":
            isel[nm["s"]] = slice(a, None)
        else:
            sel[nm["s"]] = slice(ds[nm["s"]].to_numpy()[a], None)
    kw = dict(
        output_vars=VARS, var2ncvar={v: n for v, n in vm.items() if c["vd"][v] != "fixed"},
        fixed_vars={v: float(data[v]) for v in VARS if c["vd"][v] == "fixed"},
        states_coord=nm["s"], x_coord=nm["x"] if c["has_xy"] else None, y_coord=nm["y"] if c["has_xy"] else None,
        h_coord=nm["h"] if c["has_h"] else None, load_mode=c["mode"], weight_ncvar="freq" if c["weight"] else None,
        time_format="%Y-%m-%d_%H:%M:%S" if c["time"] == "str" else (None if c["time"] == "int" else "%Y"),
    )
    if c["time"] == "dt":
        kw["time_format"] = None
    b = c["bounds"]
    if b == "sel" and c["has_xy"]:
        sel.update({nm["x"]: slice(None), nm["y"]: slice(None)})
    elif b == "isel" and c["has_xy"]:
        isel.update({nm["x"]: slice(None), nm["y"]: slice(None)})
        kw["bounds_extra_space"] = 0
    elif b in ("sel", "isel"):
        pass
    else:
        kw["bounds_extra_space"] = b
    if c["nan"]:
        kw["interp_nans"] = True
    trb = [position(c, u) for u in c["u"]]
    full = b in ("sel", "isel", 50000) or c["src"] == "ds" or not c["has_xy"]
    pts = [position(c, u) for u in c["pu"]]
    if not full:
        # points within the bounding box of the farm
        lo, hi = np.min(np.array(trb)[:, :2], axis=0), np.max(np.array(trb)[:, :2], axis=0)
        pts = [[float(min(max(p[0], lo[0]), hi[0])), float(min(max(p[1], lo[1]), hi[1])), p[2]] for p in pts]
    sel0, isel0 = dict(sel), dict(isel)
    with gen.scratch() as d:
        src = ds
        if c["src"] == "files":
            k = min(c["split"], c["ns"])
            cuts = np.linspace(0, c["ns"], k + 1).astype(int)
            for i in range(k):
                ds.isel({nm["s"]: slice(cuts[i], cuts[i + 1])}).to_netcdf(os.path.join(d, f"data_{i:02d}.nc"))
            src = os.path.join(d, "data_*.nc") if k > 1 else os.path.join(d, "data_00.nc")
        states = foxes.input.states.FieldDataNC(src, sel=sel, isel=isel, **kw)
        layouts = [trb]
        if c["two"] and c["has_xy"] and full:
            # the same states object for another farm elsewhere
            layouts = [[position(c, [0.1, 0.1, 0.5])], trb]
        for li, lay in enumerate(layouts):
            farm = foxes.WindFarm()
            for x, y, h in lay:
                farm.add_turbine(foxes.Turbine(xy=[x, y], H=h, D=10.0, turbine_models=["NREL5MW"]), verbosity=0)
            algo = foxes.algorithms.Downwind(farm, states, wake_models=[], verbosity=0)
            with gen.engine("numpy", c["cs"]):
                fr = algo.calc_farm(ambient=True)
                P = np.array(pts, dtype=float) if li == len(layouts) - 1 else np.array(lay)
                pr = algo.calc_points(fr, np.repeat(P[None], len(pos), axis=0), ambient=True)
                if c["outside"] and (c["has_h"] or c["has_xy"]) and li == len(layouts) - 1:
                    Q = P.copy()
                    if c["has_h"]:
                        Q[-1, 2] = c["gh"][-1] + 1.0
                    else:
                        Q[-1, 0] = c["gx"][0] - 1.0
                    import io, contextlib

                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            algo.calc_points(fr, np.repeat(Q[None], len(pos), axis=0), ambient=True)
                    except ValueError:
                        pass
                    else:
                        raise Violation("a point outside of the data gave a result instead of an error")
                elif li < len(layouts) - 1:
                    algo.finalize()

            def near(x, y):
                # cells next to the missing node
                i, j = c["gy"].index(nanm[0]), c["gx"].index(nanm[1])
                ylo, yhi = c["gy"][max(i - 1, 0)], c["gy"][min(i + 1, len(c["gy"]) - 1)]
                xlo, xhi = c["gx"][max(j - 1, 0)], c["gx"][min(j + 1, len(c["gx"]) - 1)]
                return ylo - 1e-6 <= y <= yhi + 1e-6 and xlo - 1e-6 <= x <= xhi + 1e-6

            compare_field(lay, P, fr, pr, lambda s, x, y, h: want0(pos[s], x, y, h), len(pos), near if nanm is not None else None)
            wt = fr["weight"].to_numpy().reshape(len(pos), -1)
            ww = np.array([w[i] for i in pos]) if c["weight"] else np.full(len(pos), 1.0 / len(pos))
            if np.max(np.abs(wt - ww[:, None])) > 1e-12:
                raise Violation(f"weights {wt[:, 0].tolist()}, expected {ww.tolist()}")
            if c["time"] == "int" and [int(t) for t in fr["state"].to_numpy()] != [i * 3 + 7 for i in pos]:
                raise Violation(f"state labels {fr['state'].to_numpy()}")
            if c["time"] != "int":
                t = (fr["state"].to_numpy() - np.datetime64("2020-01-01T00:00")) / np.timedelta64(600, "s")
                if np.max(np.abs(t - np.array(pos))) > 1e-6:
                    raise Violation(f"state labels {fr['state'].to_numpy()}")
    if sel != sel0 or isel != isel0:
        raise Violation(f"the user's selection was changed: {sel} {isel}")
    lb = {c["src"], c["mode"]} | {f"dim_{x}" for x in c["vd"].values()}
    if any(between(c, p) for p in trb + pts):
        lb.add("nt")
    return lb


def compare_field(lay, pts, fr, pr, want, n, skip=None):
    A = {"WS": "AMB_REWS", "WD": "AMB_WD", "TI": "AMB_TI", "RHO": "AMB_RHO"}
    if fr.sizes["state"] != n or pr.sizes["state"] != n:
        raise Violation(f"{fr.sizes['state']} states, expected {n}")
    for s in range(n):
        for kind, P, r in (("turbine", lay, fr), ("point", pts, pr)):
            for j, p in enumerate(P):
                e = want(s, *[float(z) for z in p])
                for v in e:
                    g = float(gen.vals(r, A[v] if kind == "turbine" else f"AMB_{v}")[s, j])
                    if skip is not None and skip(p[0], p[1]):
                        if not np.isfinite(g):
                            raise Violation(f"state {s}, {kind} {list(p)}: {v}={g} although missing values should be interpolated")
                        continue
                    d = abs((g - e[v] + 180.0) % 360.0 - 180.0) if v == "WD" else abs(g - e[v]) / (1.0 + abs(e[v]))
                    if not d <= 1e-6:
                        raise Violation(f"state {s}, {kind} {[float(z) for z in p]}: {v}={g}, expected {e[v]}")


# ---------------------------------------------------------------------------


@st.composite
def multi_case(draw):
    ns, nh = draw(st.integers(1, 6)), draw(st.integers(2, 4))
    hs = axis(draw, draw(st.sampled_from([10.0, 20.5])), nh, [20.0, 50.5, 100.0])
    kinds = ["h", "h", "h", "s", "fixed"]
    c = dict(
        ns=ns, hs=hs, order=draw(st.integers(0, 2)), vd={v: draw(st.sampled_from(kinds)) for v in VARS}, seed=draw(st.integers(0, 10**6)),
        north=draw(st.booleans()), nc=draw(st.booleans()), ts=draw(st.booleans()), file=draw(st.booleans()), names=draw(st.booleans()),
        weight=draw(st.booleans()), sel=draw(st.one_of(st.none(), selection(ns))), berr=draw(st.booleans()), out=draw(st.integers(0, 3)) == 0,
        hsel=draw(st.booleans()), extra=draw(st.booleans()),
    )
    c["attr"] = c["nc"] and draw(st.integers(0, 3)) == 0
    c.update(common(draw))
    c["zs"] = [draw(gen.fl(0.0, 1.0, 0.05)) for _ in range(max(len(c["trb"]), len(c["pts"])))]
    return c


def run_multi(c):
    import foxes
    import pandas as pd
    import xarray as xr

    rng = np.random.RandomState(c["seed"])
    ns, hs = c["ns"], c["hs"]
    D = {}
    for v in VARS:
        shp = {"h": (ns, len(hs)), "s": (ns,), "fixed": ()}[c["vd"][v]]
        lo, hi = {"WS": (4.0, 16.0), "WD": (-60.0, 60.0), "TI": (0.02, 0.2), "RHO": (1.0, 1.3)}[v]
        a = rng.uniform(lo, hi, shp)
        if v == "WD":
            a = (a + (0.0 if c["north"] else 130.0)) % 360.0
        D[v] = np.round(a, 4)
    if c["attr"] and c["vd"]["RHO"] == "fixed":
        pass
    w = np.round(rng.uniform(0.1, 1.0, ns), 4)
    o = {0: list(range(len(hs))), 1: list(range(len(hs)))[::-1], 2: list(np.roll(range(len(hs)), 1))}[c["order"]]
    idx = pd.date_range("2021-03-01", periods=ns, freq="10min", name="Time") if c["ts"] else pd.RangeIndex(ns, name="state")
    fixed = {v: float(D[v]) for v in VARS if c["vd"][v] == "fixed"}
    nm = {v: f"{v.lower()}x" for v in VARS} if c["names"] else {}
    a, pos = sel_args(c["sel"], idx)
    kw = dict(output_vars=VARS, fixed_vars=dict(fixed), **a)
    var2col = dict(nm)
    S = foxes.input.states
    if not c["berr"]:
        kw["bounds_error"] = False
    with gen.scratch() as d:
        if not c["nc"]:
            cols = {}
            for v in VARS:
                k = c["vd"][v]
                if k == "h":
                    for i in o:
                        hh = int(hs[i]) if int(hs[i]) == hs[i] else hs[i]
                        cols[f"{nm.get(v, v)}-{hh}"] = D[v][:, i]
                elif k == "s":
                    cols[nm.get(v, v)] = D[v]
            if c["weight"]:
                cols["freq"] = w
                var2col["weight"] = "freq"
            if c["extra"]:
                cols["WS-999"] = np.zeros(ns)
            df = pd.DataFrame(cols, index=idx)
            src, df0 = df, df.copy(deep=True)
            if c["file"]:
                src = os.path.join(d, "m.csv")
                df.to_csv(src)
            cls = S.MultiHeightTimeseries if c["ts"] else S.MultiHeightStates
            states = cls(src, heights=[hs[i] for i in o], var2col=var2col, **kw)
        else:
            sc = "Time" if c["ts"] else "state"
            dv, at = {}, {}
            for v in VARS:
                k = c["vd"][v]
                if k == "h":
                    dv[nm.get(v, v)] = ((sc, "H"), D[v][:, o])
                elif k == "s":
                    dv[nm.get(v, v)] = ((sc,), D[v])
                elif c["attr"]:
                    # height independent value from the attributes of the file
                    at[nm.get(v, v)] = float(D[v])
                    kw["fixed_vars"].pop(v)
            if c["weight"]:
                dv["freq"] = ((sc,), w)
                var2col["weight"] = "freq"
            hx = [hs[i] for i in o]
            co = {sc: idx.to_numpy(), "H": np.array(hx)}
            ds = xr.Dataset(coords=co, data_vars=dv, attrs=at)
            src = ds
            if c["file"]:
                src = os.path.join(d, "m.nc")
                ds.to_netcdf(src)
            if c["hsel"]:
                kw["heights"] = list(hx)
            if c["ts"]:
                states = S.MultiHeightNCTimeseries(src, var2col=var2col, time_coord="Time", **kw)
            else:
                states = S.MultiHeightNCStates(src, var2col=var2col, format_times_func=None, **kw)
        anyh = any(k == "h" for k in c["vd"].values())
        F = {v: np.broadcast_to(D[v] if c["vd"][v] == "h" else (D[v][:, None] if c["vd"][v] == "s" else D[v]), (ns, len(hs))) for v in VARS}
        r = np.deg2rad(F["WD"])
        U, V = -F["WS"] * np.sin(r), -F["WS"] * np.cos(r)

        def want(i, z):
            s = pos[i]
            z = min(max(z, hs[0]), hs[-1])
            e = {v: float(interp((hs,), F[v][s], (z,))) for v in VARS}
            if c["vd"]["WD"] == "h":
                u, v = float(interp((hs,), U[s], (z,))), float(interp((hs,), V[s], (z,)))
                e["WD"] = math.degrees(math.atan2(-u, -v)) % 360.0
                if c["vd"]["WS"] == "h":
                    e["WS"] = math.hypot(u, v)
            return e

        cc = dict(c)
        lo, hi = (hs[0], hs[-1]) if c["berr"] else (hs[0] - 5.0, hs[-1] + 50.0)
        g = lambda t: round(lo + t * (hi - lo), 6)
        cc["trb"] = [[x, y, g(t)] for (x, y, h), t in zip(c["trb"], c["zs"])]
        pts = np.array([[x, y, g(t)] for (x, y, h), t in zip(c["pts"], c["zs"])])
        farm = foxes.WindFarm()
        for x, y, h in cc["trb"]:
            farm.add_turbine(foxes.Turbine(xy=[x, y], H=h, D=5.0, turbine_models=["NREL5MW"]), verbosity=0)
        algo = foxes.algorithms.Downwind(farm, states, wake_models=[], verbosity=0)
        n = len(pos)
        with gen.engine("numpy", c["cs"]):
            fr = algo.calc_farm(ambient=True)
            pr = algo.calc_points(fr, np.repeat(pts[None], n, axis=0), ambient=True)
            if c["out"] and c["berr"] and anyh:
                import io, contextlib

                q = pts.copy()
                q[-1, 2] = hs[-1] + 1.0
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        algo.calc_points(fr, np.repeat(q[None], n, axis=0), ambient=True)
                except ValueError:
                    pass
                else:
                    raise Violation("a point above the data gave a result instead of an error")
        ww = [w[i] for i in pos] if c["weight"] else [1.0 / n] * n
        check(cc, fr, pr, pts, "multi-height", n, [idx.to_numpy()[i] for i in pos], want, ww)
        if not c["nc"] and not df.equals(df0):
            raise Violation("the user's data frame was modified")
    lb = {"nc" if c["nc"] else "table", f"order_{c['order']}"} | {f"v_{k}" for k in c["vd"].values()}
    if anyh and any(min(abs(t[2] - h) for h in hs) > 1e-3 for t in cc["trb"]):
        lb.add("nt")
    return lb


# ---------------------------------------------------------------------------


@st.composite
def wrg_case(draw):
    nx, ny = draw(st.integers(2, 5)), draw(st.integers(2, 5))
    c = dict(
        nx=nx, ny=ny, ns=draw(st.sampled_from([1, 4, 12])), res=draw(st.sampled_from([25, 100, 500])), x0=draw(st.sampled_from([0.0, -1000.0, 423000.0])), y0=draw(st.sampled_from([0.0, 5812000.0])),
        seed=draw(st.integers(0, 10**6)), bins=draw(st.sampled_from([[0, 5, 10, 30], [3.0, 4.0, 7.5], list(range(0, 31, 2))])),
        bounds=draw(st.sampled_from(["1D", None, 0.0, 50.0, 5000.0])), fine=draw(st.booleans()), cs=draw(st.sampled_from([None, 2, 5])), outside=draw(st.integers(0, 4)) == 0,
        u=[[draw(gen.fl(0.0, 1.0, 0.05)), draw(gen.fl(0.0, 1.0, 0.05))] for _ in range(draw(st.integers(1, 3)))],
    )
    return c


def run_wrg(c):
    import foxes

    rng = np.random.RandomState(c["seed"])
    nx, ny, ns = c["nx"], c["ny"], c["ns"]
    A = np.round(rng.uniform(60, 120, (ny, nx, ns)))
    k = np.round(rng.uniform(150, 260, (ny, nx, ns)))
    f = rng.uniform(1.0, 5.0, (ny, nx, ns))
    f = np.round(f / f.sum(axis=-1)[..., None] * 1000.0, 3)
    gx = [c["x0"] + i * c["res"] for i in range(nx)]
    gy = [c["y0"] + i * c["res"] for i in range(ny)]
    trb = [[round(gx[0] + u[0] * (gx[-1] - gx[0]), 6), round(gy[0] + u[1] * (gy[-1] - gy[0]), 6)] for u in c["u"]]
    if c["outside"]:
        trb[-1][0] = gx[-1] + 0.5
    with gen.scratch() as d:
        fp = os.path.join(d, "x.wrg")
        with open(fp, "w") as h:
            h.write(f"{nx} {ny} {c['x0']} {c['y0']} {c['res']}\n")
            for j in range(ny):
                for i in range(nx):
                    q = " ".join(f"{f[j, i, s]} {A[j, i, s]:.0f} {k[j, i, s]:.0f}" for s in range(ns))
                    h.write(f"GridPoint {gx[i]} {gy[j]} 0 100 8.0 2.0 400 {ns} {q}\n")
        states = foxes.input.states.WRGStates(fp, ws_bins=c["bins"], fixed_vars=dict(TI=0.05, RHO=1.2), bounds_extra_space=c["bounds"])
        farm = foxes.WindFarm()
        for x, y in trb:
            farm.add_turbine(foxes.Turbine(xy=[x, y], turbine_models=["NREL5MW"]), verbosity=0)
        algo = foxes.algorithms.Downwind(farm, states, wake_models=[], verbosity=0)
        import io, contextlib

        try:
            with gen.engine("numpy", c["cs"]), contextlib.redirect_stdout(io.StringIO()):
                fr = algo.calc_farm(ambient=True)
        except ValueError:
            if c["outside"]:
                return {"outside"}
            raise
        if c["outside"]:
            raise Violation("a turbine outside of the wind resource grid gave a result instead of an error")
    b = c["bins"]
    n = (len(b) - 1) * ns
    if fr.sizes["state"] != n:
        raise Violation(f"{fr.sizes['state']} states, expected {n}")
    W, WS, WD = gen.vals(fr, "weight"), gen.vals(fr, "AMB_REWS"), gen.vals(fr, "AMB_WD")
    W = np.broadcast_to(W.reshape(n, -1), (n, len(trb)))
    for j, (x, y) in enumerate(trb):
        a, kk, ff = (interp((gy, gx), q, (y, x)) for q in (A / 10.0, k / 100.0, f / 1000.0))
        for i in range(len(b) - 1):
            ws = 0.5 * (b[i] + b[i + 1])
            for s in range(ns):
                q = i * ns + s
                if abs(WS[q, j] - ws) > 1e-9 or abs((WD[q, j] - s * 360.0 / ns + 180) % 360 - 180) > 1e-7:
                    raise Violation(f"state {q}: wind {WS[q, j]} m/s, {WD[q, j]} deg, expected {ws}, {s * 360.0 / ns}")
                z = ws / a[s]
                e = ff[s] * (b[i + 1] - b[i]) * kk[s] / a[s] * z ** (kk[s] - 1) * math.exp(-(z ** kk[s]))
                if abs(W[q, j] - e) > 1e-9 * (1 + e):
                    raise Violation(f"state {q}, turbine {j} at {(x, y)}: weight {W[q, j]}, expected {e}")
    return {"nt"}


SUBS = [
    Sub("grid", nc_case(), run_nc, quick=350),
    Sub("heights", multi_case(), run_multi, quick=300),
    Sub("wrg", wrg_case(), run_wrg, quick=120),
]
