"""C29: slices, point outputs, flow plots and maps report the values of direct point calculations"""
import os
import warnings
import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation, Skip

PROPERTY = "C29"
RULE = (
    "generated farms and state tables with weights x horizontal and vertical slices (extents given or from the farm, resolution or point numbers, plane position, "
    "direction of the plane), mean or per state, numpy / pandas / xarray, selected states and variables, coordinate and value normalisation, labels, limits, files; "
    "stacks of slices, point outputs, flow plots, state-turbine maps; against a direct point calculation at the reported coordinates and an independently "
    "computed rectangle; non-trivial: several states of unequal weight and a flow that varies over the reported points"
)
ASSUMPTIONS = ["means over selected states use the weights of these states, normalised to one"]

VS = ["WS", "WD", "TI", "RHO", "AMB_WS", "AMB_TI", "AMB_WD"]
TOL = 1e-8


def base(draw, smin=1, smax=4):
    sc = draw(gen.scenario(nmin=1, nmax=4, smin=smin, smax=smax))
    S = len(sc["states"]["rows"])
    sc["weights"] = [draw(st.sampled_from([0.1, 0.5, 1.0, 2.0])) for _ in range(S)]
    sc["names"] = draw(st.booleans())
    return sc


def selection(draw, S):
    k = draw(st.sampled_from([None, None, "isel", "sel"]))
    if k is None:
        return None
    idx = draw(st.lists(st.integers(0, S - 1), min_size=1, max_size=S, unique=True))
    return [k, sorted(idx) if draw(st.booleans()) else idx]


def labels(draw):
    return draw(st.sampled_from([{}, {}, {"x": "X [m]", "WS": "speed"}, {"y": "northing", "z": "height", "TI": "turb"}, {"state": "case", "x": "easting", "WD": "dir"}]))


def plane(draw):
    ori = draw(st.sampled_from(["xy", "xz", "yz"]))
    p = dict(
        ori=ori,
        n=draw(st.sampled_from([None, [3, 4], [1, 5], [4, 2], [6, 5]])),
        ext={},
        space=[draw(st.sampled_from([500.0, 120.0, 333.0])), draw(st.sampled_from([500.0, 80.0, 210.0]))],
        pos=draw(st.sampled_from([None, None, 90.0, 131.0] if ori == "xy" else [None, None, 0.0, 55.5, -210.0])),
        dir=draw(st.sampled_from([270.0, 0.0, 200.0, 33.3, 270])),
        explicit_dir=draw(st.booleans()),
    )
    a, b = ori
    hz = {"x": (-500.0, 900.0), "y": (-640.0, 510.0), "z": (4.0, 260.0)}
    for q in (a, b):
        if draw(st.booleans()):
            p["ext"][q + "min"] = hz[q][0]
        if draw(st.booleans()):
            p["ext"][q + "max"] = hz[q][1] + 2500.0 if q != "z" else hz[q][1] + 200.0
    return p


@st.composite
def slices(draw):
    sc = base(draw)
    S = len(sc["weights"])
    sc["plane"] = plane(draw)
    sc["sel"] = selection(draw, S)
    sc["fmt"] = draw(st.sampled_from(["numpy", "pandas", "xarray"]))
    sc["mean"] = draw(st.booleans())
    sc["vars"] = draw(st.one_of(st.none(), st.lists(st.sampled_from(VS), min_size=1, max_size=4, unique=True)))
    sc["norm"] = {q: draw(st.sampled_from([None, None, 100.0, 80.0])) for q in "xyz"}
    sc["normv"] = draw(st.sampled_from([{}, {"WS": 8.0}, {"TI": 0.1, "AMB_WS": 9.5}]))
    sc["lmap"] = labels(draw)
    sc["vmin"] = draw(st.sampled_from([{}, {}, {"WS": 6.0}, {"TI": 0.08}]))
    sc["vmax"] = draw(st.sampled_from([{}, {}, {"WS": 10.0}, {"AMB_WS": 1.0}]))
    sc["ret"] = [draw(st.booleans()), draw(st.booleans())]
    sc["file"] = draw(st.booleans())
    sc["verb"] = draw(st.sampled_from([0, 0, 1]))
    return sc


def setup(sc):
    """Algorithm and farm results"""
    import foxes

    rows = sc["states"]["rows"]
    oc = ["WS", "WD", "TI", "RHO"]
    df = pd.DataFrame({v: [r[i] for r in rows] for i, v in enumerate(oc)})
    df["w"] = sc["weights"]
    if sc.get("names"):
        df.index = [10 * i + 3 for i in range(len(df))]
    profiles = None
    states = foxes.input.states.StatesTable(df, output_vars=oc, var2col={"weight": "w"})
    return gen.build_algo(sc, states=states)


def selected(sc, fr):
    S = len(sc["weights"])
    if sc.get("sel") is None:
        return list(range(S)), {}
    k, idx = sc["sel"]
    if k == "isel":
        return list(idx), dict(states_isel=list(idx))
    names = fr["state"].to_numpy()
    return list(idx), dict(states_sel=[names[i].item() if hasattr(names[i], "item") else names[i] for i in idx])


def axes(p):
    a = np.deg2rad(float(p["dir"] if p["explicit_dir"] else 270.0))
    nx = np.array([-np.sin(a), -np.cos(a), 0.0])
    return nx, np.array([-nx[1], nx[0], 0.0]), np.array([0.0, 0.0, 1.0])


def rectangle(p, fr, idx):
    """Coordinate arrays along the axes, third position, call arguments, axes"""
    xyz = np.stack([gen.vals(fr, v)[idx] for v in ("X", "Y", "H")], axis=-1)
    if p["ori"] == "xy":
        ax = np.eye(3)
    else:
        ax = np.array(axes(p))
    co = {q: xyz @ ax[i] for i, q in enumerate("xyz")}
    lim, kw = {}, {}
    for q, sp in zip(p["ori"], p["space"]):
        lo, hi = co[q].min() - sp, co[q].max() + sp
        if q == "z":
            lo = 0.0  # stated default of the vertical slices
        kw[q + "space"] = sp
        if q + "min" in p["ext"]:
            lo = kw[q + "min"] = p["ext"][q + "min"]
        if q + "max" in p["ext"]:
            hi = kw[q + "max"] = p["ext"][q + "max"]
        if hi <= lo:
            raise Skip("empty range")
        lim[q] = (lo, hi)
    c = (set("xyz") - set(p["ori"])).pop()
    pos = 0.5 * (co[c].min() + co[c].max()) if p["pos"] is None else p["pos"]
    if p["pos"] is not None and not p.get("stack"):
        kw[c] = p["pos"]
    if p["n"] is not None:
        n = p["n"]
        kw["n_img_points"] = tuple(n)
    else:
        ln = max(lim[q][1] - lim[q][0] for q in p["ori"])
        res = round(ln / 5.3, 1)
        kw["resolution"] = res
        n = [int((lim[q][1] - lim[q][0]) / res + 0.5) + 1 for q in p["ori"]]
    if p["ori"] != "xy" and p["explicit_dir"]:
        kw["x_direction"] = p["dir"]
    A, B = [np.linspace(*lim[q], k) for q, k in zip(p["ori"], n)]
    ia, ib, ic = ["xyz".index(q) for q in p["ori"] + c]
    pts = A[:, None, None] * ax[ia] + B[None, :, None] * ax[ib] + pos * ax[ic]
    return A, B, c, pos, pts, kw


def direct(algo, fr, pts):
    """Point results (S, ...) at the given points for all states"""
    shp = pts.shape[:-1]
    p = np.broadcast_to(pts.reshape(1, -1, 3), (algo.n_states, int(np.prod(shp)), 3)).copy()
    pr = algo.calc_points(fr, p)
    return {v: gen.vals(pr, v).reshape((algo.n_states,) + shp) for v in pr.data_vars if v != "weight"}


def weighted(w, x):
    w = np.asarray(w, dtype=float)
    return sum(wi * xi for wi, xi in zip(w / w.sum(), x))


def chk(what, g, e, tol=TOL, v="", wrap=False):
    g, e = np.asarray(g, dtype=float), np.asarray(e, dtype=float)
    if g.shape != e.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {e.shape}")
    d = np.abs(g - e)
    if wrap:
        d = np.minimum(d, np.abs(d - 360.0))
    bad = ~((d <= tol * (1.0 + np.abs(e))) | (np.isnan(g) & np.isnan(e)))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation(f"{what} {v}: {g[i]!r} at {i}, expected {e[i]!r}")


def expected(sc, algo, fr, pts, idx, variables, mean):
    d = direct(algo, fr, pts)
    if variables is None:
        variables = list(d)
    out = {}
    for v in variables:
        x = d[v][idx]
        if mean:
            x = weighted([sc["weights"][i] for i in idx], x)
        x = x / sc["normv"].get(v, 1.0)
        if v in sc["vmin"]:
            x = np.maximum(x, sc["vmin"][v])
        if v in sc["vmax"]:
            x = np.minimum(x, sc["vmax"][v])
        out[v] = x
    return out, d


def varies(d):
    return any(np.ptp(d["WS"][s]) > 1e-6 for s in range(len(d["WS"])))


def wrapped(v, mean):
    return v in gen.ANGLE and not mean


def run_slices(sc):
    import foxes

    algo = setup(sc)
    p, mean, fmt = sc["plane"], sc["mean"], sc["fmt"]
    ori = p["ori"]
    labs = {fmt, ori, "mean" if mean else "states"}
    with gen.engine("single"), gen.scratch() as tmp:
        fr = algo.calc_farm()
        idx, skw = selected(sc, fr)
        A, B, c, pos, pts, kw = rectangle(p, fr, idx)
        exp, d = expected(sc, algo, fr, pts, idx, sc["vars"], mean)
        kw.update(skw)
        for q in "xyz":
            if sc["norm"][q]:
                kw["normalize_" + q] = sc["norm"][q]
        for k, a in (("normv", "normalize_v"), ("lmap", "label_map"), ("vmin", "vmin"), ("vmax", "vmax")):
            if sc[k]:
                kw[a] = dict(sc[k])
        if sc["vars"] is not None:
            kw["variables"] = list(sc["vars"])
        f = None
        if sc["file"]:
            f = dict(numpy="d.bin", pandas="d.csv", xarray="d.nc")[fmt]
            kw["to_file"] = f
        out = foxes.output.SliceData(algo, fr, out_dir=tmp)
        fun = getattr(out, f"get_{'mean' if mean else 'states'}_data_{ori}")
        kw0 = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in kw.items()}
        res = fun(data_format=fmt, ret_states=sc["ret"][0], ret_grid=sc["ret"][1], verbosity=sc["verb"], **kw)
        if kw != kw0:
            raise Violation("the arguments were changed by the call")
        if any(sc["ret"]):
            if not isinstance(res, tuple) or len(res) != 1 + sum(sc["ret"]):
                raise Violation(f"unexpected return structure {type(res)}")
            if sc["ret"][0]:
                if list(res[1]) != [fr["state"].to_numpy()[i] for i in idx]:
                    raise Violation(f"states {list(res[1])} returned for indices {idx}")
            if sc["ret"][1]:
                ns = len(idx)
                g = np.asarray(res[-1][3])
                chk("grid points", g, np.broadcast_to(pts.reshape(1, -1, 3), (ns, pts[..., 0].size, 3)))
            data = res[0]
        else:
            data = res
        # the scaled coordinates
        nm = {q: sc["norm"][q] or 1.0 for q in "xyz"}
        A, B, pos = A / nm[ori[0]], B / nm[ori[1]], pos / nm[c]
        L = lambda q: sc["lmap"].get(q, q)
        states = [fr["state"].to_numpy()[i] for i in idx]
        nv = list(exp)
        if fmt == "numpy":
            e = np.stack([exp[v] for v in nv], axis=-1)
            for j, v in enumerate(nv):
                chk("numpy slice", np.asarray(data)[..., j], e[..., j], v=v, wrap=wrapped(v, mean))
            if data.shape != e.shape:
                raise Violation(f"shape {data.shape}, expected {e.shape}")
        elif fmt == "pandas":
            check_pandas(data, exp, states, A, B, ori, L, mean)
        else:
            check_xr(data, exp, states, A, B, c, pos, ori, L, mean)
        if f:
            labs.add("file")
            check_file(os.path.join(tmp, f), fmt, data, L)
    S = len(idx)
    if S > 1 and len(set(sc["weights"])) > 1 and varies(d):
        labs.add("nt")
    if sc["sel"]:
        labs.add(sc["sel"][0])
    return labs


def check_pandas(data, exp, states, A, B, ori, L, mean):
    names = ([] if mean else [L("state")]) + [L(q) for q in ori]
    if list(data.index.names) != names:
        raise Violation(f"index {list(data.index.names)}, expected {names}")
    if list(data.columns) != [L(v) for v in exp]:
        raise Violation(f"columns {list(data.columns)}, expected {[L(v) for v in exp]}")
    x = data.reset_index()
    n = len(A) * len(B) * (1 if mean else len(states))
    if len(x) != n:
        raise Violation(f"{len(x)} rows, expected {n}")
    for v, e in exp.items():
        # value at every reported coordinate
        g = np.full(e.shape, np.nan)
        for _, r in x.iterrows():
            i, j = (int(np.argmin(np.abs(C - r[L(q)]))) for C, q in zip((A, B), ori))
            if abs(A[i] - r[L(ori[0])]) > 1e-6 or abs(B[j] - r[L(ori[1])]) > 1e-6:
                raise Violation(f"coordinate {r[L(ori[0])]}, {r[L(ori[1])]} is not on the requested grid")
            if mean:
                g[i, j] = r[L(v)]
            else:
                g[states.index(r[L("state")]), i, j] = r[L(v)]
        chk("pandas slice", g, e, v=v, wrap=wrapped(v, mean))


def check_xr(data, exp, states, A, B, c, pos, ori, L, mean):
    if set(data.data_vars) != {L(v) for v in exp}:
        raise Violation(f"variables {set(data.data_vars)}, expected {set(L(v) for v in exp)}")
    for q, C in zip(ori, (A, B)):
        chk(f"coordinate {q}", data[L(q)].to_numpy(), C)
    if L(c) not in data.attrs or abs(data.attrs[L(c)] - pos) > 1e-6:
        raise Violation(f"third position {data.attrs.get(L(c))}, expected {pos}")
    if not mean and list(data[L("state")].to_numpy()) != states:
        raise Violation(f"states {list(data[L('state')].to_numpy())}, expected {states}")
    dims = ([] if mean else [L("state")]) + [L(q) for q in ori]
    for v, e in exp.items():
        order = tuple(dims[:-2]) + (dims[-1], dims[-2])
        if data[L(v)].dims != order:
            raise Violation(f"dimensions {data[L(v)].dims} of {v}, expected {order}")
        chk("xarray slice", data[L(v)].transpose(*dims).to_numpy(), e, v=v, wrap=wrapped(v, mean))


def digits(q):
    from foxes.variables import get_default_digits

    d = get_default_digits(q)
    return 0.0 if d is None else 0.51 * 10.0**-d


def check_file(path, fmt, data, L):
    if not os.path.isfile(path):
        raise Violation("no file written")
    if fmt == "numpy":
        g = np.fromfile(path, dtype=data.dtype).reshape(data.shape)
        chk("numpy file", g, data)
    elif fmt == "pandas":
        g = pd.read_csv(path)
        e = data.reset_index()
        if len(g) != len(e):
            raise Violation(f"file has {len(g)} rows, data {len(e)}")
        for col in data.columns:
            if col not in g:
                raise Violation(f"column {col} missing in the file")
            if not np.all(np.abs(g[col] - e[col]) <= 0.006 + 1e-6 * np.abs(e[col])) and not np.isnan(e[col]).any():
                raise Violation(f"file values of {col} differ from the data")
        for col in data.index.names:
            if col not in g or not np.allclose(g[col].astype(float), e[col].astype(float), atol=0.051):
                raise Violation(f"coordinate {col} of the file differs or is missing: {list(g.columns)}")
    else:
        with xr.open_dataset(path) as g:
            for v in list(data.data_vars) + list(data.coords):
                if v not in g:
                    raise Violation(f"{v} missing in the file")
                a, b = g[v].to_numpy().astype(float), data[v].to_numpy().astype(float)
                if g[v].dims != data[v].dims or a.shape != b.shape:
                    raise Violation(f"dimensions of {v} in the file")
                if not np.all((np.abs(a - b) <= digits(v) + 1e-9 * np.abs(b)) | (np.isnan(a) & np.isnan(b))):
                    raise Violation(f"file values of {v} differ from the data by {np.nanmax(np.abs(a - b))}")
            for k, v in data.attrs.items():
                if abs(g.attrs.get(k, np.nan) - v) > 1e-9 or k not in g.attrs:
                    raise Violation(f"attribute {k} of the file")


# ----------------------------------------------------------------- points


@st.composite
def points(draw):
    sc = base(draw)
    S = len(sc["weights"])
    sc["sel"] = selection(draw, S)
    n = draw(st.integers(1, 4))
    ns = len(sc["sel"][1]) if sc["sel"] else S
    pt = st.tuples(gen.fl(-900.0, 2500.0, 12.5), gen.fl(-900.0, 900.0, 12.5), gen.fl(10.0, 220.0, 2.5)).map(list)
    sc["per_state"] = draw(st.booleans())
    sc["points"] = [[draw(pt) for _ in range(n)] for _ in range(ns if sc["per_state"] else 1)]
    sc["mean"] = draw(st.booleans())
    sc["file"] = draw(st.booleans())
    sc["wvars"] = draw(st.sampled_from([None, ["WS"], ["AMB_WS", "TI"]]))
    return sc


def run_points(sc):
    import foxes

    algo = setup(sc)
    P = np.array(sc["points"], dtype=float)
    with gen.engine("single"), gen.scratch() as tmp:
        fr = algo.calc_farm()
        idx, kw = selected(sc, fr)
        full = np.zeros((algo.n_states,) + P.shape[1:])
        if sc["per_state"]:
            full[idx] = P
        else:
            full[:] = P[0]
        d = algo.calc_points(fr, full)
        e = {v: gen.vals(d, v)[idx] for v in d.data_vars if v != "weight"}
        arg = P.copy() if sc["per_state"] else P[0].copy()
        out = foxes.output.PointCalculator(algo, fr, out_dir=tmp)
        if sc["file"]:
            kw.update(to_file="p.nc", write_vars=sc["wvars"], write_pars=dict(verbosity=0))
        res = out.calculate(arg, states_mean=sc["mean"], **kw)
        if not np.array_equal(arg, P if sc["per_state"] else P[0]):
            raise Violation("the points were changed by the call")
        w = [sc["weights"][i] for i in idx]
        for v, x in e.items():
            x = weighted(w, x) if sc["mean"] else x
            dims = ("point",) if sc["mean"] else ("state", "point")
            if v not in res or res[v].dims != dims:
                raise Violation(f"{v} missing or of wrong dimensions")
            chk("point output", res[v].to_numpy(), x, v=v, wrap=wrapped(v, sc["mean"]))
        if not sc["mean"] and list(res["state"].to_numpy()) != [fr["state"].to_numpy()[i] for i in idx]:
            raise Violation(f"states {list(res['state'].to_numpy())} for indices {idx}")
        if sc["file"]:
            with xr.open_dataset(os.path.join(tmp, "p.nc")) as g:
                vrs = list(res.data_vars) if sc["wvars"] is None else sc["wvars"]
                for v in vrs:
                    if v not in g:
                        raise Violation(f"{v} missing in the file")
                    b = res[v].to_numpy()
                    if g[v].shape != b.shape or not np.all(np.abs(g[v].to_numpy() - b) <= digits(v) + 1e-9):
                        raise Violation(f"file values of {v}")
                for k, q in enumerate("xyz"):
                    b = P[..., k] if sc["per_state"] else P[0, :, k]
                    if sc["mean"] and sc["per_state"]:
                        b = weighted(w, b)
                    if g[q].shape != b.shape or not np.all(np.abs(g[q].to_numpy() - b) <= digits(q) + 1e-6):
                        raise Violation(f"file coordinates {q}")
    nt = len(idx) > 1 and len(set(w)) > 1 and any(np.ptp(e["WS"][:, j]) > 1e-6 for j in range(e["WS"].shape[1]))
    return {"mean" if sc["mean"] else "states", "per_state" if sc["per_state"] else "fixed"} | ({"nt"} if nt else set()) | ({"file"} if sc["file"] else set())


# ----------------------------------------------------------------- stacks


@st.composite
def stack(draw):
    sc = base(draw, smax=3)
    S = len(sc["weights"])
    sc["plane"] = plane(draw)
    sc["plane"]["stack"] = True
    sc["list"] = draw(st.lists(st.sampled_from([60.0, 90.0, 100.0, 150.5, 20.0]), min_size=1, max_size=3, unique=True))
    sc["sel"] = selection(draw, S)
    sc["mean"] = draw(st.booleans())
    sc["vars"] = draw(st.one_of(st.none(), st.lists(st.sampled_from(VS), min_size=1, max_size=3, unique=True)))
    sc["norm"] = {q: draw(st.sampled_from([None, None, 100.0])) for q in "xyz"}
    sc["normv"], sc["vmin"], sc["vmax"] = draw(st.sampled_from([{}, {"WS": 8.0}])), {}, {}
    sc["lmap"] = labels(draw)
    return sc


def run_stack(sc):
    import foxes

    algo = setup(sc)
    p, mean = dict(sc["plane"]), sc["mean"]
    ori = p["ori"]
    L = lambda q: sc["lmap"].get(q, q)
    with gen.engine("single"), gen.scratch() as tmp:
        fr = algo.calc_farm()
        idx, skw = selected(sc, fr)
        exps = []
        for pos in sc["list"]:
            p["pos"] = pos
            A, B, c, _, pts, kw = rectangle(p, fr, idx)
            e, d = expected(sc, algo, fr, pts, idx, sc["vars"], mean)
            exps.append(e)
        kw.update(skw)
        for q in "xyz":
            if sc["norm"][q]:
                kw["normalize_" + q] = sc["norm"][q]
        if sc["normv"]:
            kw["normalize_v"] = dict(sc["normv"])
        if sc["lmap"]:
            kw["label_map"] = dict(sc["lmap"])
        if sc["vars"] is not None:
            kw["variables"] = list(sc["vars"])
        out = foxes.output.SlicesData(algo, fr, out_dir=tmp)
        data = getattr(out, f"get_{'mean' if mean else 'states'}_data_{ori}")(list(sc["list"]), **kw)
    nm = {q: sc["norm"][q] or 1.0 for q in "xyz"}
    for q, C in zip(ori, (A, B)):
        chk(f"coordinate {q}", data[L(q)].to_numpy(), C / nm[q])
    chk(f"stacking coordinate {c}", data[L(c)].to_numpy(), np.array(sc["list"]) / nm[c])
    dims = ([] if mean else [L("state")]) + [L(c)] + [L(q) for q in ori]
    if set(data.data_vars) != {L(v) for v in exps[0]}:
        raise Violation(f"variables {set(data.data_vars)}, expected {set(L(v) for v in exps[0])}")
    for v in exps[0]:
        e = np.stack([x[v] for x in exps], axis=0 if mean else 1)
        order = tuple(L(q) for q in ("state", "z", "y", "x")) if not mean else (L(c), L(ori[1]), L(ori[0]))
        if data[L(v)].dims != order:
            raise Violation(f"dimensions {data[L(v)].dims} of {v}, expected {order}")
        chk("stack of slices", data[L(v)].transpose(*dims).to_numpy(), e, v=v, wrap=wrapped(v, mean))
    nt = len(idx) > 1 and len(sc["list"]) > 1 and varies(d)
    return {ori, "mean" if mean else "states"} | ({"nt"} if nt else set())


# ------------------------------------------------------------------ plots


@st.composite
def plots(draw):
    sc = base(draw, smax=3)
    S = len(sc["weights"])
    p = plane(draw)
    p["n"] = p["n"] and [max(2, x) for x in p["n"]]
    sc["plane"] = p
    sc["sel"] = selection(draw, S)
    sc["mean"] = draw(st.booleans())
    sc["var"] = draw(st.sampled_from(["WS", "TI", "AMB_WS", "WD"]))
    sc["normv"], sc["vmin"], sc["vmax"] = draw(st.sampled_from([{}, {"WS": 8.0}])), {}, {}
    sc["lim"] = draw(st.sampled_from([None, None, [6.0, 9.0]]))
    sc["quiver"] = draw(st.sampled_from([None, None, 1, 2]))
    sc["ret"] = [draw(st.booleans()), draw(st.booleans())]
    sc["rdraw"] = draw(st.booleans())
    sc["precalc"] = draw(st.booleans())
    sc["title"] = draw(st.booleans())
    sc["norm"] = draw(st.sampled_from([None, None, 100.0]))
    return sc


def run_plots(sc):
    import foxes
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    algo = setup(sc)
    p, mean, var = sc["plane"], sc["mean"], sc["var"]
    ori = p["ori"]
    labs = {ori, "mean" if mean else "states"}
    if sc["lim"]:
        sc = dict(sc, vmin={var: sc["lim"][0]}, vmax={var: sc["lim"][1]})
    with gen.engine("single"), gen.scratch() as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fr = algo.calc_farm()
        idx, kw = selected(sc, fr)
        A, B, c, pos, pts, kw2 = rectangle(p, fr, idx)
        kw.update(kw2)
        exp, d = expected(sc, algo, fr, pts, idx, [var, "WS", "WD"], mean)
        if sc["lim"]:
            kw.update(vmin=sc["lim"][0], vmax=sc["lim"][1])
        if sc["normv"]:
            kw["normalize_v"] = dict(sc["normv"])
        if sc["quiver"]:
            kw["quiver_n"] = sc["quiver"]
        if sc["norm"]:
            kw["normalize_" + ori[0]] = sc["norm"]
            A = A / sc["norm"]
        out = foxes.output.FlowPlots2D(algo, fr, out_dir=tmp)
        figs = []
        try:
            if mean:
                r = getattr(out, f"get_mean_fig_{ori}")(var, ret_state=sc["ret"][0], ret_im=True, ret_data=sc["ret"][1], **kw)
                figs.append((None, r))
            else:
                g = getattr(out, f"gen_states_fig_{ori}")
                a = dict(ret_state=sc["ret"][0], ret_im=True)
                if sc["rdraw"] and ori == "xy" and not sc["norm"]:
                    a["rotor_color"] = "red"
                    labs.add("rotors")
                if sc["precalc"]:
                    pre = next(g(var, precalc=True, **a, **kw))
                    it = g(var, precalc=pre, **a, **kw)
                else:
                    it = g(var, **a, **kw)
                for i, r in enumerate(it):
                    figs.append((i, r))
                if len(figs) != len(idx):
                    raise Violation(f"{len(figs)} figures for {len(idx)} states")
            for i, r in figs:
                fig, r = r[0], list(r[1:])
                if sc["ret"][0] and r.pop(0) != (i or 0):
                    raise Violation("state index of the figure")
                im = r.pop(0)
                e = exp[var] if mean else exp[var][i]
                if mean and sc["ret"][1]:
                    chk("data of the plot", np.asarray(r.pop(0)), e, v=var)
                if fig is None or not fig.axes:
                    raise Violation("no figure returned")
                ax = fig.axes[0]
                mesh = im[0]
                co = mesh.get_coordinates()
                mid = 0.25 * (co[1:, 1:] + co[1:, :-1] + co[:-1, 1:] + co[:-1, :-1])
                chk("plot values", np.ma.getdata(mesh.get_array()).reshape(len(B), len(A)), e.T, v=var, wrap=wrapped(var, mean))
                chk("plot coordinates", mid[..., 0], np.broadcast_to(A[None, :], mid.shape[:2]), 1e-6)
                chk("plot coordinates", mid[..., 1], np.broadcast_to(B[:, None], mid.shape[:2]), 1e-6)
                xl, yl = sorted(ax.get_xlim()), sorted(ax.get_ylim())
                for C, l in ((A, xl), (B, yl)):
                    if len(C) > 1:
                        chk("plot range", l, [C[0], C[-1]], 1e-6)
                if "rotors" in labs:
                    s = idx[i]
                    ls = [q.get_xydata() for q in ax.lines]
                    if len(ls) != len(sc["turbines"]):
                        raise Violation(f"{len(ls)} rotors drawn for {len(sc['turbines'])} turbines")
                    yaw = gen.vals(fr, "AMB_WD")[s] + (gen.vals(fr, "YAWM")[s] if "YAWM" in fr else 0.0)
                    for t, q in enumerate(ls):
                        chk("rotor position", q.mean(axis=0), [gen.vals(fr, "X")[s, t], gen.vals(fr, "Y")[s, t]], 1e-6)
                        dv = q[1] - q[0]
                        D = gen.vals(fr, "D")[s, t]
                        a = np.deg2rad(yaw[t])
                        if abs(np.hypot(*dv) - D) > 1e-6 * D or abs(dv @ np.array([np.sin(a), np.cos(a)])) > 1e-6 * D:
                            raise Violation(f"rotor {t} of state {s} drawn from {q[0]} to {q[1]}, D={D}, direction {yaw[t]}")
                if sc["quiver"] and ori == "xy":
                    qv = im[1]
                    ws, wd = (exp[v] if mean else exp[v][i] for v in ("WS", "WD"))
                    n = sc["quiver"]
                    a = np.deg2rad(wd)
                    chk("arrows", np.asarray(qv.U), (-ws * np.sin(a)).T[::n, ::n].reshape(-1), 1e-6)
                    chk("arrows", np.asarray(qv.V), (-ws * np.cos(a)).T[::n, ::n].reshape(-1), 1e-6)
                    labs.add("quiver")
        finally:
            plt.close("all")
    if varies(d) and len(idx) > 1:
        labs.add("nt")
    return labs


# ------------------------------------------------------------------- maps


@st.composite
def maps(draw):
    S, T = draw(st.integers(1, 5)), draw(st.integers(1, 13))
    return dict(
        x=[[draw(gen.fl(0.0, 50.0, 0.5)) for _ in range(T)] for _ in range(S)],
        time=draw(st.booleans()),
        title=draw(st.booleans()),
    )


def run_maps(c):
    import foxes
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    x = np.array(c["x"])
    S, T = x.shape
    idx = pd.date_range("2020-01-01", periods=S, freq="1h").to_numpy() if c["time"] else np.arange(S)
    fr = xr.Dataset({"REWS": (("state", "turbine"), x.copy())}, coords={"state": idx, "turbine": np.arange(T)})
    with gen.scratch() as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ax = foxes.output.StateTurbineMap(fr, out_dir=tmp).plot_map("REWS", **(dict(title="map") if c["title"] else {}))
            m = ax.collections[0]
            chk("map", np.ma.getdata(m.get_array()).reshape(S, T), x)
            co = m.get_coordinates()
            xx = co[..., 0]
            if not c["time"]:
                chk("states axis", xx[:-1, 0], np.arange(S))
            chk("turbine axis", co[0, :-1, 1], np.arange(T))
            if ax.get_title() != ("map" if c["title"] else "REWS"):
                raise Violation("title")
        finally:
            plt.close("all")
        if not np.array_equal(fr["REWS"].to_numpy(), x):
            raise Violation("results changed by the map")
    return {"time" if c["time"] else "numbered"} | ({"nt"} if S > 1 and T > 1 else set())


SUBS = [
    Sub("slices", slices(), run_slices, quick=260),
    Sub("points", points(), run_points, quick=120),
    Sub("stack", stack(), run_stack, quick=80),
    Sub("plots", plots(), run_plots, quick=60),
    Sub("maps", maps(), run_maps, quick=30),
]
