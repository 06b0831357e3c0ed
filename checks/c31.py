"""C31: tables, files and roses contain the results, unchanged and completely"""
import contextlib
import csv
import gzip
import io
import math
import os
import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st
from vf import gen
from vf.gen import fl
from vf.runner import Sub, Violation

PROPERTY = "C31"
RULE = (
    "generated farm and point results (numbers of all magnitudes, missing values, numbered, labelled or time-stamped states, state or state-turbine weights, turbine names) and "
    "calculated results x sequences of writes with variable selections, renamings of columns and index, turbine names, state-turbine layout, formats, separators, rounding; files are "
    "read back with plain readers and compared with the numbers in memory; roses against a loop that puts each state into its sector and class; results, arguments and class "
    "defaults must stay as they are and repeated writes must give the same files; non-trivial: several states and turbines, and a selection, renaming, or unequal weights"
)
ASSUMPTIONS = [
    "the last wind speed class may or may not contain its upper limit; wind directions within rounding of a sector limit belong to either sector",
    "written precision is taken from the documented default formats, or the formats given by the user",
]

DIGITS = {"WD": 3, "YAW": 3, "WS": 4, "REWS": 4, "REWS2": 4, "REWS3": 4, "TI": 6, "RHO": 5, "P": 3, "CT": 6, "T": 3, "YLD": 3, "CAP": 5, "EFF": 5}
ALLV = ["AMB_WD", "AMB_REWS", "REWS", "P", "AMB_P", "TI", "CT", "Q", "order", "X"]


def digits(v):
    return DIGITS.get(v[4:] if v.startswith("AMB_") else v)


# --------------------------------------------------------------- results


@st.composite
def results(draw, nmax=7, tmax=4, points=False):
    S, T = draw(st.integers(1, nmax)), draw(st.integers(1, tmax))
    big = st.one_of(fl(-5.0, 5.0, 0.001), fl(0.0, 9000.0, 0.0371), st.sampled_from([0.0, -0.0, 1e-9, 1.23456789e12, 12345.67891234]))
    wd = st.one_of(fl(0.0, 360.0, 0.37), st.sampled_from([0.0, 15.0, 345.0, 359.999, 360.0, 352.5, 7.5]))
    ws = fl(0.0, 25.0, 0.013)
    c = dict(S=S, T=T)
    c["d"] = {v: [[draw(wd if v == "AMB_WD" else ws if v in ("AMB_REWS", "REWS") else big) for _ in range(T)] for _ in range(S)] for v in ALLV if v != "order"}
    c["nan"] = draw(st.lists(st.tuples(st.sampled_from(["P", "Q", "X"]), st.integers(0, S - 1), st.integers(0, T - 1)).map(list), max_size=2))
    c["wst"] = draw(st.booleans())
    c["w"] = [[draw(st.sampled_from([0.0, 0.05, 0.1, 0.3, 1.0, 2.5, 1e-6])) for _ in range(T if c["wst"] else 1)] for _ in range(S)]
    c["idx"] = draw(st.sampled_from(["num", "num", "time", "label", "off", "float"]))
    c["names"] = draw(st.sampled_from(["T", "long", "rev"]))
    return c


def index(c):
    S = c["S"]
    if c["idx"] == "time":
        return np.datetime64("2022-12-31T23:30:00", "ns") + np.arange(S) * np.timedelta64(600, "s")
    if c["idx"] == "label":
        return np.array([f"s{(7 * i) % 11:02d}" for i in range(S)], dtype=object)
    if c["idx"] == "off":
        return np.arange(S) * 3 + 5
    if c["idx"] == "float":
        return np.arange(S) * 0.25 + 1.123456
    return np.arange(S)


def tnames(c):
    T = c["T"]
    if c["names"] == "rev":
        return np.array([f"wt{T - i}" for i in range(T)], dtype=object)
    if c["names"] == "long":
        return np.array([f"Turbine {chr(65 + (3 * i) % 7)} nr. {i}" for i in range(T)], dtype=object)
    return np.array([f"T{i}" for i in range(T)], dtype=object)


def arrays(c):
    d = {v: np.array(x, dtype=float) for v, x in c["d"].items()}
    for v, s, t in c["nan"]:
        d[v][s, t] = np.nan
    d["order"] = np.argsort(d["Q"], axis=1)
    return d


def dataset(c, tdim="turbine"):
    d = arrays(c)
    W = np.array(c["w"], dtype=float)
    data = {v: (("state", tdim), x) for v, x in d.items()}
    data["weight"] = (("state", tdim), W) if c["wst"] else (("state",), W[:, 0])
    crds = {"state": index(c)}
    if tdim == "turbine":
        data["tname"] = (("turbine",), tnames(c))
        crds["turbine"] = np.arange(c["T"])
    return xr.Dataset(data, coords=crds)


def value(ds, v, s, t):
    """One number of the results"""
    x = ds[v]
    ix = {"state": s, "turbine": t, "point": t}
    return x.values[tuple(ix[k] for k in x.dims)]


@contextlib.contextmanager
def untouched(what, *objs):
    """Results, arguments and defaults stay as they are"""
    from foxes.utils import PandasFileHelper as H
    import copy

    old = [o.copy(deep=True) if hasattr(o, "data_vars") or isinstance(o, pd.DataFrame) else copy.deepcopy(o) for o in objs]
    dflt = copy.deepcopy((H.DEFAULT_WRITING_PARAMETERS, H.DEFAULT_FORMAT_DICT, H.DEFAULT_READING_PARAMETERS))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
        for o, n in zip(old, objs):
            ok = o.identical(n) if hasattr(o, "data_vars") else (o.equals(n) and list(o.index.names) == list(n.index.names)) if isinstance(o, pd.DataFrame) else repr(o) == repr(n)
            if not ok:
                raise Violation(f"{what} changed {type(n).__name__}: {o if not hasattr(o, 'data_vars') else ''} -> {n if not hasattr(o, 'data_vars') else ''}")
        if dflt != (H.DEFAULT_WRITING_PARAMETERS, H.DEFAULT_FORMAT_DICT, H.DEFAULT_READING_PARAMETERS):
            raise Violation(f"{what} changed defaults to {(H.DEFAULT_WRITING_PARAMETERS, H.DEFAULT_FORMAT_DICT)}, were {dflt[:2]}")
    finally:
        for a, b in zip((H.DEFAULT_WRITING_PARAMETERS, H.DEFAULT_FORMAT_DICT, H.DEFAULT_READING_PARAMETERS), dflt):
            a.clear()
            a.update(b)


# --------------------------------------------------------------- csv and nc


@st.composite
def selection(draw, names=("AMB_WD", "P", "REWS", "TI", "Q", "weight", "order", "AMB_REWS", "X")):
    k = draw(st.sampled_from(["none", "list", "dict", "dict", "idict"]))
    vs = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True))
    if k == "none":
        return dict(k="none")
    if k == "list":
        return dict(k="list", v=vs)
    d = {}
    for i, v in enumerate(vs):
        d[v] = draw(st.sampled_from([v, v, f"col {i}", f"{v}_new"]))
    if k == "idict":
        if draw(st.booleans()):
            d["state"] = draw(st.sampled_from(["time", "State"]))
        if draw(st.booleans()):
            d["turbine"] = draw(st.sampled_from(["wt", "turbine_id"]))
    return dict(k="dict", v=d)


@st.composite
def writes(draw):
    sel = draw(selection())
    w = dict(sel=sel, kind=draw(st.sampled_from(["csv", "csv", "csv", "nc"])), names=draw(st.booleans()), twice=draw(st.booleans()))
    if w["kind"] == "csv":
        w["stt"] = draw(st.sampled_from([False, False, True]))
        if w["stt"]:
            v = draw(st.sampled_from(["P", "REWS", "Q", "TI"]))
            w["sel"] = draw(st.sampled_from([dict(k="list", v=[v]), dict(k="dict", v={v: "val"}), dict(k="dict", v={v: v, "state": "time"})]))
        w["sep"] = draw(st.sampled_from([None, None, ";"]))
        w["file"] = draw(st.sampled_from(["out.csv", "out.csv", "out.csv.gz", "res.v1.csv"]))
        w["fmt"] = draw(st.sampled_from([{}, {}, {"P": "{:.1f}"}, {"Q": "{:.2e}", "REWS": "{:.7f}"}]))
        w["c2v"] = draw(st.booleans())
    else:
        w["round"] = draw(st.sampled_from(["dflt", "dflt", "none", "own"]))
        w["file"] = draw(st.sampled_from(["out.nc", "sub.v2.nc"]))
        w["cl"] = draw(st.sampled_from([9, 0, None, 3]))
    return w


@st.composite
def files(draw):
    c = draw(results())
    c["src"] = draw(st.sampled_from(["farm", "farm", "data"]))
    c["writes"] = draw(st.lists(writes(), min_size=1, max_size=3))
    return c


def read_csv(path, sep):
    op = gzip.open if path.endswith(".gz") else open
    with op(path, "rt", newline="") as f:
        rows = list(csv.reader(f, delimiter=sep or ","))
    return rows[0], rows[1:]


def same_state(a, x):
    """Does the text a mean state x?"""
    if isinstance(x, np.datetime64):
        return pd.Timestamp(a) == pd.Timestamp(x)
    if isinstance(x, (float, np.floating)):
        return abs(float(a) - x) < 1e-9
    return a == str(x)


def same_num(txt, x, nd=None, fmt=None):
    """Is this text the number x, with at least nd digits or the user format?"""
    if isinstance(x, str):
        return txt == x
    if isinstance(x, float) and math.isnan(x):
        return txt in ("", "nan")
    if fmt is not None:
        return txt == fmt.format(x)
    g = float(txt)
    if nd is not None:
        return abs(g - x) <= 0.500001 * 10.0**-nd + 1e-12 * abs(x)
    return abs(g - x) <= 1e-12 * abs(x)


def chosen(sel, ds):
    """Expected variables and names, index names"""
    allv = [v for v in ds.data_vars]
    if sel["k"] == "none":
        return {v: v for v in allv}, "state", "turbine"
    if sel["k"] == "list":
        return {v: v for v in sel["v"]}, "state", "turbine"
    d = {v: n for v, n in sel["v"].items() if v not in ("state", "turbine")}
    return d, sel["v"].get("state", "state"), sel["v"].get("turbine", "turbine")


def args(sel):
    return None if sel["k"] == "none" else list(sel["v"]) if sel["k"] == "list" else dict(sel["v"])


def run_files(c):
    import foxes

    ds = dataset(c)
    S, T, idx, tn = c["S"], c["T"], ds["state"].values, tnames(c)
    labs = set()
    with gen.scratch() as tmp:
        tmp = str(tmp)
        with untouched("constructing the writer", ds):
            if c["src"] == "farm":
                out = foxes.output.ResultsWriter(ds, out_dir=tmp)
            else:
                df = ds.to_dataframe().reset_index().set_index(["state", "turbine"])
                out = foxes.output.ResultsWriter(data=df, out_dir=tmp)
        for wi, w in enumerate(c["writes"]):
            sel = args(w["sel"])
            cols, sn, tnm = chosen(w["sel"], ds)
            path = os.path.join(tmp, w["file"])
            what = f"write {wi} ({w['file']}, {w['sel']}, names={w['names']}"
            objs = [ds] + ([sel] if sel is not None else []) + ([df] if c["src"] == "data" else [])
            for rep in range(2 if w["twice"] else 1):
                if os.path.exists(path):
                    os.unlink(path)
                if w["kind"] == "csv":
                    kw = dict(format_dict=dict(w["fmt"]))
                    if w["sep"]:
                        kw["sep"] = w["sep"]
                    if w["c2v"]:
                        kw["format_col2var"] = {n: v for v, n in cols.items()}
                    with untouched(what, *objs, *kw.values()):
                        out.write_csv(w["file"], sel, turbine_names=w["names"], state_turbine_table=w["stt"], verbosity=0, **kw)
                else:
                    kw = dict(round={"P": 5, "Q": 2}) if w["round"] == "own" else dict(round=None) if w["round"] == "none" else {}
                    with untouched(what, *objs, *kw.values()):
                        out.write_nc(w["file"], sel, turbine_names=w["names"], verbosity=0, complevel=w["cl"], **kw)
                if not os.path.isfile(path):
                    raise Violation(f"{what}: no file {w['file']}, found {os.listdir(tmp)}")
                (chk_csv if w["kind"] == "csv" else chk_nc)(f"{what}, repetition {rep})", path, w, ds, cols, sn, tnm, idx, tn)
            labs |= {w["kind"] + ("_table" if w.get("stt") else ""), w["sel"]["k"]}
    if S > 1 and T > 1 and any(w["sel"]["k"] != "none" for w in c["writes"]):
        labs.add("nt")
    return labs


def fmt_of(w, v, n):
    """The variable that determines the format of this column"""
    fv = v if w["c2v"] and not w.get("stt") else n
    return w["fmt"].get(fv), (digits(fv) if fv in DIGITS or fv[4:] in DIGITS else None)


def chk_csv(what, path, w, ds, cols, sn, tnm, idx, tn):
    S, T = len(idx), len(tn)
    head, rows = read_csv(path, w["sep"])
    if w["stt"]:
        (v, n), = cols.items()
        exp = [sn] + [f"{n}_{tn[t]}" if w["names"] else f"{n}_T{t:04d}" for t in range(T)]
        if head != exp:
            raise Violation(f"{what}: columns {head}, expecting {exp}")
        if len(rows) != S:
            raise Violation(f"{what}: {len(rows)} rows for {S} states")
        f, nd = fmt_of(w, v, n)
        for s, r in enumerate(rows):
            if not same_state(r[0], idx[s]):
                raise Violation(f"{what}: row {s} is for state {r[0]}, expecting {idx[s]}")
            for t in range(T):
                x = value(ds, v, s, t)
                if not same_num(r[1 + t], x, nd, f):
                    raise Violation(f"{what}: state {s}, turbine {t}: {r[1 + t]}, results {x}")
        return
    exp = [sn, "tname" if w["names"] else tnm] + list(cols.values())
    if w["sel"]["k"] == "none" and w["names"]:
        head2 = [h for h in head if h != "turbine"]
        exp = exp[:2] + [h for h in exp[2:] if h != "tname"]
    else:
        head2 = head
    if sorted(head2) != sorted(exp) or head2[:2] != exp[:2]:
        raise Violation(f"{what}: columns {head}, expecting {exp}")
    if w["sel"]["k"] != "none" and head2 != exp:
        raise Violation(f"{what}: columns {head}, expecting {exp}")
    if len(rows) != S * T:
        raise Violation(f"{what}: {len(rows)} rows for {S} states and {T} turbines")
    pos = {h: i for i, h in enumerate(head)}
    for i, r in enumerate(rows):
        s, t = divmod(i, T)
        if not same_state(r[0], idx[s]) or r[1] != (tn[t] if w["names"] else str(t)):
            raise Violation(f"{what}: row {i} is for state {r[0]}, turbine {r[1]}, expecting {idx[s]}, {t}")
        for v, n in cols.items():
            if v == "tname" and w["names"]:
                continue
            x = value(ds, v, s, t)
            f, nd = fmt_of(w, v, n)
            if not same_num(r[pos[n]], x, nd, f):
                raise Violation(f"{what}: state {s}, turbine {t}, {v} as {n}: {r[pos[n]]}, results {x}")


def chk_nc(what, path, w, ds, cols, sn, tnm, idx, tn):
    S, T = len(idx), len(tn)
    with xr.open_dataset(path) as f:
        g = f.load()
    if set(g.data_vars) != set(cols.values()):
        raise Violation(f"{what}: variables {sorted(g.data_vars)}, expecting {sorted(cols.values())}")
    if dict(g.sizes) != {sn: S, tnm: T}:
        raise Violation(f"{what}: dimensions {dict(g.sizes)}, expecting {({sn: S, tnm: T})}")
    gs = g[sn].values
    for s in range(S):
        ok = abs(gs[s] - idx[s]) < 1e-6 if isinstance(idx[s], (float, np.floating)) else gs[s] == idx[s]
        if not ok:
            raise Violation(f"{what}: state coordinate {gs}, expecting {idx}")
    gt = g[tnm].values.tolist()
    if gt != (list(tn) if w["names"] else list(range(T))):
        raise Violation(f"{what}: turbine coordinate {gt}")
    chk_nc_vars(what, g, w, ds, cols, S, T, sn, tnm)


def chk_nc_vars(what, g, w, ds, cols, S, T, sn, tnm):
    for v, n in cols.items():
        nd = None if w["round"] == "none" else digits(n)
        if w["round"] == "own" and n in ("P", "Q"):
            nd = {"P": 5, "Q": 2}[n]
        a = g[n]
        for s in range(S):
            for t in range(T):
                x = value(ds, v, s, t)
                y = a.values[tuple({sn: s, tnm: t}[d] for d in a.dims)]
                if isinstance(x, str):
                    ok = y == x
                elif np.isnan(x):
                    ok = np.isnan(y)
                else:
                    ok = abs(y - x) <= (0.500001 * 10.0**-nd if nd is not None else 0.0) + 1e-12 * abs(x)
                if not ok:
                    raise Violation(f"{what}: state {s}, turbine {t}, {v} as {n}: {y}, results {x}")


# ------------------------------------------------------- state-turbine tables


@st.composite
def tables(draw):
    c = draw(results())
    vs = draw(st.lists(st.sampled_from(["AMB_WD", "P", "REWS", "TI", "Q", "weight", "order", "tname"]), min_size=1, max_size=4, unique=True))
    nm = {}
    for i, v in enumerate(vs + ["state", "turbine"]):
        if draw(st.integers(0, 2)) == 0:
            nm[v] = f"n{i}"
    c["vs"], c["nm"] = vs, nm
    c["isel"] = draw(st.sampled_from([None, None, 0, -1]))
    c["sel"] = draw(st.booleans())
    c["file"] = draw(st.booleans())
    c["round"] = draw(st.sampled_from(["dflt", "none", "own"]))
    c["cl"] = draw(st.sampled_from([9, 0]))
    return c


def run_tables(c):
    import foxes

    ds = dataset(c)
    S, T, idx, tn = c["S"], c["T"], ds["state"].values, tnames(c)
    nm = c["nm"]
    sn, tnm = nm.get("state", "state"), nm.get("turbine", "turbine")
    kw, labs = {}, {c["idx"]}
    ss, ts = list(range(S)), list(range(T))
    if c["isel"] is not None:
        kw["isel"] = {sn: [c["isel"]]}
        ss = [ss[c["isel"]]]
    if c["sel"]:
        kw["sel"] = {tnm: [T - 1]}
        ts = [T - 1]
    with gen.scratch() as tmp:
        out = foxes.output.StateTurbineTable(ds, out_dir=str(tmp))
        for rep in range(2):
            if c["file"]:
                p = os.path.join(str(tmp), "table.nc")
                if os.path.exists(p):
                    os.unlink(p)
                kw.update(to_file="table.nc", verbosity=0, complevel=c["cl"], **(dict(round={"P": 5, "Q": 2}) if c["round"] == "own" else dict(round=None) if c["round"] == "none" else {}))
            vs = list(c["vs"])
            with untouched("get_dataset", ds, vs, nm, kw):
                t = out.get_dataset(vs, name_map=nm, **kw)
            cols = {v: nm.get(v, v) for v in c["vs"]}
            sub = ds.isel(state=ss, turbine=ts)
            what = f"table of {c['vs']}, names {nm}, repetition {rep}"
            gs = [("result", t, dict(round="none"))]
            if c["file"]:
                with xr.open_dataset(p) as f:
                    gs.append(("file", f.load(), c))
            for k, g, w in gs:
                if set(g.data_vars) != set(cols.values()):
                    raise Violation(f"{what}, {k}: variables {sorted(g.data_vars)}, expecting {sorted(cols.values())}")
                if set(g.sizes) - {sn, tnm} or g.sizes.get(sn) != len(ss) or g.sizes.get(tnm) != len(ts):
                    raise Violation(f"{what}, {k}: dimensions {dict(g.sizes)}, expecting {({sn: len(ss), tnm: len(ts)})}")
                for a, b in ((g[sn].values, idx[ss]), (g[tnm].values, np.array(ts))):
                    if not all((abs(x - y) < 1e-6 if isinstance(y, (float, np.floating)) else x == y) for x, y in zip(a, b)):
                        raise Violation(f"{what}, {k}: coordinate {a}, expecting {b}")
                chk_nc_vars(f"{what}, {k}", g, w, sub, cols, len(ss), len(ts), sn, tnm)
    if S > 1 and T > 1 and nm:
        labs.add("nt")
    return labs


# ------------------------------------------------------------------- roses


@st.composite
def roses(draw):
    c = draw(results(nmax=25, tmax=3))
    n = draw(st.one_of(st.sampled_from([1, 2, 3, 4, 6, 8, 12, 16, 36, 72]), st.integers(1, 80), st.sampled_from([161, 175, 227])))
    c["n"] = n
    d = 360.0 / n
    # directions at and next to the limits of sectors
    for s in range(c["S"]):
        for t in range(c["T"]):
            if draw(st.integers(0, 2)) == 0:
                k = draw(st.sampled_from([0, 1, n - 1, n // 2, n // 3]))
                e = draw(st.sampled_from([0.0, 0.0, 1e-3, -1e-3, 0.4 * d, -0.4 * d]))
                x = (k + 0.5) * d + e
                if draw(st.booleans()):
                    x = 360.0 - d / 2 + e
                c["d"]["AMB_WD"][s][t] = x if 0 <= x <= 360 else x % 360
    if draw(st.integers(0, 3)) == 0:
        s = draw(st.integers(0, c["S"] - 1))
        c["d"]["AMB_WD"][s][0] += draw(st.sampled_from([-360.0, 360.0, -720.0]))
    b = [draw(st.sampled_from([0.0, 0.0, 3.0]))]
    for _ in range(draw(st.integers(1, 6))):
        b.append(round(b[-1] + draw(fl(0.5, 9.0, 0.5)), 3))
    c["bins"] = b
    c["inf"] = draw(st.booleans())
    c["wsv"] = draw(st.sampled_from(["AMB_REWS", "REWS"]))
    c["pts"] = draw(st.booleans())
    c["t"] = draw(st.integers(0, c["T"] - 1))
    c["norm"] = draw(st.booleans())
    c["var"] = draw(st.sampled_from(["P", "Q", "REWS"]))
    c["con"] = draw(st.sampled_from(["weights", "mean_no_weights", "sum_no_weights"]))
    c["fig"] = draw(st.integers(0, 3)) == 0
    return c


def place(wd, n, tol=1e-9):
    """The sectors a direction may belong to"""
    d = 360.0 / n
    x = (wd + d / 2) % 360.0 / d
    k = int(math.floor(x)) % n
    f = x - math.floor(x)
    if f < tol:
        return {k, (k - 1) % n}
    if f > 1 - tol:
        return {k, (k + 1) % n}
    return {k}


def hist(c, wd, ws, w, x=None):
    """Sums of weights (times values) and possible additional sums per cell"""
    n = c["n"]
    b = list(c["bins"]) + ([math.inf] if c.get("useinf") else [])
    lo, hi = np.zeros((n, len(b) - 1)), np.zeros((n, len(b) - 1))
    amb = []
    for i in range(len(wd)):
        y = w[i] * (1.0 if x is None else x[i])
        js = {j for j in range(len(b) - 1) if b[j] <= ws[i] < b[j + 1]}
        if ws[i] == b[-1]:
            js = {len(b) - 2, None}
        ks = place(wd[i], n)
        if not js:
            continue
        cells = [(k, j) for k in ks for j in js]
        if len(cells) == 1:
            lo[cells[0]] += y
        else:
            amb.append((y, cells))
    return lo, amb


def judge(what, g, lo, amb, tol):
    """States at limits may be in one of several cells, but only once"""
    rest, up = g - lo, np.zeros_like(g)
    smin = smax = 0.0
    for y, cells in amb:
        smax += y
        smin += 0.0 if any(q[1] is None for q in cells) else y
        for q in cells:
            if q[1] is not None:
                up[q] += y
    bad = (rest < -tol) | (rest > up + tol)
    if np.any(bad):
        q = np.unravel_index(np.argmax(bad), rest.shape)
        raise Violation(f"{what}: sector {q[0]}, class {q[1]}: {g[q]}, differs by {rest[q]} from the sum over the states")
    if not smin - tol <= rest.sum() <= smax + tol:
        raise Violation(f"{what}: states at limits of sectors and classes sum up to {rest.sum()}, expecting between {smin} and {smax}")


def run_roses(c):
    import foxes

    pts = c["pts"]
    ds = dataset(c, "point" if pts else "turbine")
    if c["norm"]:
        s = ds["weight"].sum("state")
        ds["weight"] = ds["weight"] / s.where(s > 0, 1.0)
    t, n = c["t"], c["n"]
    w = ds["weight"].values if ds["weight"].ndim == 1 else ds["weight"].values[:, t]
    wd, ws = ds["AMB_WD"].values[:, t], ds[c["wsv"]].values[:, t]
    labs = {"pts" if pts else "farm", "limit" if any(len(place(x, n)) > 1 for x in wd) else "inside"}
    with gen.scratch() as tmp:
        o = foxes.output.RosePlotOutput(**(dict(point_results=ds) if pts else dict(farm_results=ds)), out_dir=str(tmp))
        bins = list(c["bins"])
        with untouched("rose", ds, bins):
            g = o.get_data(n, c["wsv"], bins, add_inf=c["inf"], **({"point": t} if pts else {"turbine": t}))
        f = g["frequency"]
        nb = len(c["bins"]) - 1 + int(c["inf"])
        what = f"rose with {n} sectors, classes {c['bins']}"
        if f.dims != ("AMB_WD", c["wsv"]) or f.shape != (n, nb):
            raise Violation(f"{what}: shape {f.shape}")
        lo, amb = hist(dict(c, useinf=c["inf"]), wd, ws, w)
        judge(what, f.values / 100.0, lo, amb, 1e-10 * (1 + np.sum(w)))
        d = 360.0 / n
        for nmx, e in (
            ("AMB_WD", np.arange(n) * d),
            ("bin_min_AMB_WD", (np.arange(n) - 0.5) * d),
            ("bin_max_AMB_WD", (np.arange(n) + 0.5) * d),
            (f"bin_min_{c['wsv']}", c["bins"][: nb]),
            (f"bin_max_{c['wsv']}", (c["bins"] + [np.inf])[1 : nb + 1]),
        ):
            if not np.allclose(g[nmx].values, e):
                raise Violation(f"{what}: {nmx} is {g[nmx].values}, expecting {e}")
        # all weight accounted once
        if c["inf"] and c["bins"][0] == 0.0 and abs(float(f.sum()) - 100 * w.sum()) > 1e-8 * (1 + w.sum()):
            raise Violation(f"{what}: frequencies sum up to {float(f.sum())} percent, weights to {w.sum()}")
        if c["fig"] and n <= 80:
            fig(c, o, n, w, f.values, tmp, ds, t)
        if not pts:
            binplot(c, ds, wd, w, n, t, labs, tmp)
    if c["S"] > 2 and len(set(w.tolist())) > 1:
        labs.add("nt")
    return labs


def fig(c, o, n, w, f, tmp, ds, t):
    import matplotlib.pyplot as plt

    try:
        with untouched("rose figure", ds):
            ax, data = o.get_figure(n, c["wsv"], c["bins"], add_inf=c["inf"], ret_data=True, freq_delta=max(1, int(100 * w.sum() / 5)), **({"point": t} if c["pts"] else {"turbine": t}))
        nb = f.shape[1]
        if not np.allclose(data["frequency"].values, f):
            raise Violation("the figure has other data")
        bars = [p for p in ax.patches if hasattr(p, "get_height")]
        if len(bars) != n * nb:
            raise Violation(f"rose figure: {len(bars)} bars for {n} sectors and {nb} classes")
        # each bar: position, height, bottom
        for i, p in enumerate(bars):
            j, k = divmod(i, n)
            ang = math.degrees(p.get_x() + p.get_width() / 2)
            if abs((ang - (90 - k * 360.0 / n) + 180) % 360 - 180) > 1e-6:
                raise Violation(f"rose figure: bar of sector {k} at angle {ang}")
            if abs(p.get_height() - f[k, j]) > 1e-9 * (1 + abs(f[k, j])) or abs(p.get_y() - f[k, :j].sum()) > 1e-9 * (1 + f[k].sum()):
                raise Violation(f"rose figure: bar of sector {k}, class {j}: from {p.get_y()}, height {p.get_height()}, expecting {f[k, :j].sum()}, {f[k, j]}")
    finally:
        plt.close("all")


def binplot(c, ds, wd, w, n, t, labs, tmp):
    import foxes

    o = foxes.output.WindRoseBinPlot(ds, out_dir=str(tmp))
    bins = list(c["bins"])
    v = c["var"]
    x = ds[v].values[:, t]
    ws = ds[c["wsv"]].values[:, t]
    ok = ~np.isnan(x)
    if v == c["wsv"] or not ok.all() or np.any(ws == bins[-1]):
        return
    # away from the limits of sectors
    wd = np.array([y + 1e-3 if len(place(y, n)) > 1 else y for y in wd])
    ds["AMB_WD"].values[:, t] = wd
    with untouched("bin plot", ds, bins):
        g = o.get_data(v, bins, wd_sectors=n, ws_var=c["wsv"], turbine=t, contraction=c["con"])
    z = g[v].values
    if g[v].dims != ("AMB_WD", c["wsv"]) or z.shape != (n, len(bins) - 1):
        raise Violation(f"bin plot: shape {z.shape}")
    if not np.allclose(g["AMB_WD"].values, np.arange(n) * 360.0 / n) or not np.allclose(g[c["wsv"]].values, 0.5 * (np.array(bins[1:]) + bins[:-1])):
        raise Violation(f"bin plot: coordinates {g['AMB_WD'].values}, {g[c['wsv']].values}")
    for k in range(n):
        for j in range(len(bins) - 1):
            m = [i for i in range(len(wd)) if place(wd[i], n) == {k} and bins[j] <= ws[i] < bins[j + 1]]
            a = sum(w[i] for i in m)
            if c["con"] == "weights":
                e = sum(w[i] * x[i] for i in m) / a if a > 0 else np.nan
            elif c["con"] == "mean_no_weights":
                e = sum(x[i] for i in m) / len(m) if m else np.nan
            else:
                e = sum(x[i] for i in m)
            if np.isnan(e) != np.isnan(z[k, j]) or abs(z[k, j] - e) > 1e-9 * (1 + abs(e)):
                raise Violation(f"bin plot of {v}, {c['con']}, {n} sectors: sector {k}, class {j}: {z[k, j]}, expecting {e}")
    labs.add("bin_" + c["con"])
    if c["fig"] and n <= 36:
        import matplotlib.pyplot as plt

        try:
            ax, data = o.get_figure(v, bins, wd_sectors=n, ws_var=c["wsv"], turbine=t, contraction=c["con"], ret_data=True)
            q = [m for m in ax.collections if hasattr(m, "get_coordinates")][0]
            a = np.ma.filled(q.get_array(), np.nan).reshape(z.shape)
            xy = q.get_coordinates()
            if not np.allclose(a, z, equal_nan=True):
                raise Violation("bin plot: figure shows other numbers")
            if not np.allclose(xy[0, :, 1], bins) or np.any(np.abs((np.degrees(xy[:, 0, 0]) - (90 - (np.arange(n + 1) - 0.5) * 360.0 / n) + 180) % 360 - 180) > 1e-6):
                raise Violation(f"bin plot: cells at {np.degrees(xy[:, 0, 0])}")
        finally:
            plt.close("all")


# ------------------------------------------------------- calculated results


@st.composite
def real(draw):
    sc = draw(gen.scenario(nmin=1, nmax=4, smin=1, smax=6, ti=True, grounds=False))
    S = len(sc["states"]["rows"])
    sc["states"]["weights"] = [draw(st.sampled_from([0.1, 0.5, 1.0, 2.0])) for _ in range(S)]
    sc["sel"] = draw(st.lists(st.sampled_from(["AMB_WD", "WD", "REWS", "AMB_REWS", "P", "AMB_P", "CT", "TI", "RHO", "YAW", "weight", "X", "order"]), min_size=1, max_size=4, unique=True))
    sc["kind"] = draw(st.sampled_from(["csv", "nc", "table", "rose", "states"]))
    sc["names"] = draw(st.booleans())
    sc["n"] = draw(st.sampled_from([4, 8, 12, 7, 16]))
    sc["pt"] = [draw(fl(-500.0, 500.0, 50.0)), draw(fl(-500.0, 500.0, 50.0)), draw(fl(20.0, 200.0, 10.0))]
    sc["map"] = draw(st.booleans())
    return sc


def run_real(sc):
    import foxes

    k = sc["kind"]
    bins = [0.0, 5.0, 8.0, 11.0, 14.0, 20.0, 60.0]
    if k == "states":
        rows = sc["states"]["rows"]
        w = np.array(sc["states"]["weights"], dtype=float)
        with gen.engine("single"), gen.scratch() as tmp:
            states = gen.build_states(sc["states"])
            with contextlib.redirect_stdout(io.StringIO()):
                o = foxes.output.StatesRosePlotOutput(states, sc["pt"], out_dir=str(tmp))
            g = o.get_data(sc["n"], "AMB_WS", bins)
        # a real turbine at that place
        t = dict(xy=sc["pt"][:2], H=sc["pt"][2], D=20.0, t=0, m=[])
        a = gen.run_farm(dict(sc, types=[{"b": "NREL5MW"}], turbines=[t], wakes=[], rotor="centre", partial=None))
        wd, ws = a["AMB_WD"].values[:, 0], a["AMB_REWS"].values[:, 0]
        lo, amb = hist(dict(n=sc["n"], bins=bins), wd, ws, w)
        judge("states rose", g["frequency"].values / 100.0, lo, amb, 1e-9 * (1 + w.sum()))
        return {k} | ({"nt"} if len(rows) > 1 else set())
    fr = gen.run_farm(sc)
    with gen.scratch() as tmp:
        tmp = str(tmp)
        S, T = fr.sizes["state"], fr.sizes["turbine"]
        idx = fr["state"].values
        tn = fr["tname"].values
        cols = {v: v for v in sc["sel"] if v in fr.data_vars}
        if not cols:
            cols = {"P": "P"}
        if k in ("csv", "nc"):
            out = foxes.output.ResultsWriter(fr, out_dir=tmp)
            w = dict(kind=k, sel=dict(k="list", v=list(cols)), names=sc["names"], sep=None, fmt={}, c2v=False, stt=False, round="dflt", file=f"r.{k}")
            with untouched("writing", fr):
                getattr(out, f"write_{k}")(w["file"], list(cols), turbine_names=sc["names"], verbosity=0)
            (chk_csv if k == "csv" else chk_nc)(f"results as {k}", os.path.join(tmp, w["file"]), w, fr, cols, "state", "turbine", idx, [str(x) for x in tn])
        elif k == "table":
            with untouched("table", fr):
                t = foxes.output.StateTurbineTable(fr, out_dir=tmp).get_dataset(list(cols))
            chk_nc_vars("table", t, dict(round="none"), fr, cols, S, T, "state", "turbine")
            if sc["map"]:
                tmap(fr, list(cols)[0], tmp)
        else:
            for t in range(T):
                w = fr["weight"].values if fr["weight"].ndim == 1 else fr["weight"].values[:, t]
                wd, ws = fr["AMB_WD"].values[:, t], fr["AMB_REWS"].values[:, t]
                lo, amb = hist(dict(n=sc["n"], bins=bins), wd, ws, w)
                g = foxes.output.RosePlotOutput(fr, out_dir=tmp).get_data(sc["n"], "AMB_REWS", bins, turbine=t)
                judge("rose", g["frequency"].values / 100.0, lo, amb, 1e-9 * (1 + w.sum()))
    return {k} | ({"nt"} if S > 1 and T > 1 else set())


def tmap(fr, v, tmp):
    import foxes
    import matplotlib.pyplot as plt

    if fr[v].ndim < 2:
        return
    try:
        with untouched("map", fr):
            ax = foxes.output.StateTurbineMap(fr, out_dir=tmp).plot_map(v)
        q = [m for m in ax.collections if hasattr(m, "get_coordinates")][0]
        a = np.asarray(q.get_array()).reshape(fr[v].shape)
        if not np.allclose(a, fr[v].values, equal_nan=True):
            raise Violation("the map shows other numbers")
        xy = q.get_coordinates()
        if not np.allclose(xy[:-1, 0, 0], fr["state"].values) or not np.allclose(xy[0, :, 1], np.arange(fr.sizes["turbine"] + 1)):
            raise Violation(f"map: cells at {xy[:, 0, 0]}, {xy[0, :, 1]}")
    finally:
        plt.close("all")


SUBS = [
    Sub("files", files(), run_files, quick=500),
    Sub("tables", tables(), run_tables, quick=400),
    Sub("roses", roses(), run_roses, quick=600),
    Sub("real", real(), run_real, quick=200),
]
