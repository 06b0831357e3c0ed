"""C17: tabulated inflow states reproduce the user's data"""
import os
import math
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C17"
RULE = (
    "generated inflow tables (data frames; csv, gz, bz2, zip and NetCDF files with generated separators), column mappings, fixed values, weights, "
    "extra columns, vertical profiles of every variable, index labels (integers, text, times), row selections by position or label, resets to other selections; "
    "parameter scans; single states; wind rose tab files (file and dataset, normalised or not); each with generated chunk sizes; ambient values at "
    "turbines and at points of various heights, state labels and weights compared with direct table look-up; non-trivial: more than one state and "
    "a mapping, fixed variable, profile, selection or weight in use"
)
ASSUMPTIONS = ["positive wind speeds (rotor models average wind vectors, the direction of calm states is undefined)", "files contain the full precision of the generated numbers"]

VARS = ["WS", "WD", "TI", "RHO"]
PROFS = ["ShearedProfile", "UniformProfile", "ABLLogNeutralWsProfile"]


@st.composite
def table_case(draw):
    n = draw(st.integers(1, 8))
    cols = {
        "WS": [draw(gen.fl(3.0, 25.0, 0.25)) for _ in range(n)],
        "WD": [draw(st.sampled_from([0.0, 359.5, 360.0, 12.25, 90.0, 181.5, 269.75, 300.0])) for _ in range(n)],
        "TI": [draw(gen.fl(0.01, 0.3, 0.01)) for _ in range(n)],
        "RHO": [draw(gen.fl(1.0, 1.4, 0.01)) for _ in range(n)],
    }
    c = dict(kind=draw(st.sampled_from(["table", "table", "ts"])), cols=cols)
    fixed = {}
    for v in ("WD", "TI", "RHO"):
        if draw(st.integers(0, 3)) == 0:
            fixed[v] = draw(st.sampled_from({"WD": [0, 270.0, 33.5], "TI": [0.05, 0.2], "RHO": [1.225, 1.1, 1]}[v]))
    c["fixed"] = fixed
    # fixed values override columns of that name, if those exist
    c["drop"] = [v for v in fixed if draw(st.booleans())]
    c["map"] = {v: f"col {v.lower()}" for v in VARS if draw(st.integers(0, 3)) == 0}
    # swapped column names
    if draw(st.integers(0, 7)) == 0 and not fixed:
        c["map"] = dict(TI="RHO", RHO="TI")
    c["weights"] = draw(st.one_of(st.none(), st.lists(gen.fl(0.0, 5.0, 0.25), min_size=n, max_size=n)))
    c["wmap"] = c["weights"] is not None and draw(st.booleans())
    c["extra"] = draw(st.booleans())
    c["colorder"] = draw(st.integers(0, 5))
    p = {}
    if draw(st.integers(0, 2)) == 0:
        p["WS"] = draw(st.sampled_from(PROFS))
        p["H"] = draw(st.sampled_from([80.0, 100.0]))
        p["par_in"] = draw(st.sampled_from(["fixed", "col"]))
        p["par"] = [draw(st.sampled_from([0.05, 0.1, 0.2])) for _ in range(n)]
        p["spec"] = draw(st.sampled_from(["str", "dict", "obj"]))
        p["H_in"] = draw(st.sampled_from(["fixed", "col"]))
    c["prof"] = p
    c["index"] = "time" if c["kind"] == "ts" else draw(st.sampled_from(["range", "ints", "text", "time"]))
    c["sel"] = draw(st.one_of(st.none(), selection(n)))
    c["reset"] = draw(st.one_of(st.none(), st.tuples(st.booleans(), st.one_of(st.none(), selection(n))))) if draw(st.integers(0, 2)) == 0 else None
    c["file"] = draw(st.sampled_from([None, None, "csv", "csv.gz", "csv.bz2", "csv.zip", "nc"]))
    if c["file"] == "nc" and c["index"] == "text":
        c["file"] = "csv"
    c["sep"] = c["file"] is not None and c["file"] != "nc" and draw(st.booleans())
    c["intcols"] = draw(st.booleans())
    c.update(common(draw))
    return c


def common(draw):
    nt = draw(st.integers(1, 3))
    return dict(
        cs=draw(st.sampled_from([None, 1, 2, 3])),
        trb=[[draw(gen.fl(0.0, 3000.0, 100.0)), draw(gen.fl(0.0, 3000.0, 100.0)), draw(st.sampled_from([70.0, 100.0, 131.0]))] for _ in range(nt)],
        pts=draw(st.lists(st.tuples(gen.fl(-9000.0, 9000.0, 500.0), gen.fl(-9000.0, 9000.0, 500.0), st.sampled_from([30.0, 80.0, 100.0, 250.0])), min_size=1, max_size=4)),
    )


@st.composite
def selection(draw, n):
    k = draw(st.sampled_from(["list", "slice", "range", "bool", "loc", "loc"]))
    if k in ("list", "loc"):
        return dict(k=k, v=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
    if k == "bool":
        b = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        return dict(k=k, v=b if any(b) else [True] * n)
    a = draw(st.integers(0, n - 1))
    b = draw(st.integers(a + 1, n))
    return dict(k=k, v=[a, b, draw(st.integers(1, 2))])


def sel_args(s, index):
    """The constructor arguments and the selected positions"""
    if s is None:
        return {}, list(range(len(index)))
    k, v = s["k"], s["v"]
    if k == "list":
        return dict(states_sel=list(v)), list(v)
    if k == "bool":
        return dict(states_sel=np.array(v)), [i for i, b in enumerate(v) if b]
    if k == "slice":
        return dict(states_sel=slice(*v)), list(range(*v))
    if k == "range":
        return dict(states_sel=range(*v)), list(range(*v))
    return dict(states_loc=[index[i] for i in v]), list(v)


def make_index(c, n):
    import pandas as pd

    if c["index"] == "time":
        return pd.date_range("2021-03-01 00:00", periods=n, freq="7min", name="Time")
    if c["index"] == "ints":
        return pd.Index([(5 * i + 3) % 97 for i in range(n)], name="my")
    if c["index"] == "text":
        return pd.Index([f"s{i}x" for i in range(n)], name="lab")
    return pd.RangeIndex(n, name="state")


def profile_ref(p, ws, par, z):
    if p["WS"] == "UniformProfile":
        return ws
    if p["WS"] == "ShearedProfile":
        return ws * (z / p["H"]) ** par
    return ws * math.log(z / par) / math.log(p["H"] / par)


def evaluate(c, states, what, n_ref, index_ref, want, weights, mb=None):
    """Compares ambient results with want(state, z) -> dict"""
    import foxes

    farm = foxes.WindFarm()
    for x, y, h in c["trb"]:
        farm.add_turbine(foxes.Turbine(xy=[x, y], H=h, turbine_models=["NREL5MW"]), verbosity=0)
    algo = foxes.algorithms.Downwind(farm, states, wake_models=[], verbosity=0)
    pts = np.array(c["pts"], dtype=float)
    with gen.engine("numpy", c["cs"]):
        fr = algo.calc_farm(ambient=True)
        pr = algo.calc_points(fr, np.repeat(pts[None], n_ref, axis=0), ambient=True)
    return check(c, fr, pr, pts, what, n_ref, index_ref, want, weights)


def close(v, a, b, tol=1e-9):
    if v == "WD":
        d = abs((a - b + 180.0) % 360.0 - 180.0)
        return d <= 1e-7
    return abs(a - b) <= tol * (1.0 + abs(b))


def check(c, fr, pr, pts, what, n_ref, index_ref, want, weights):
    for r, name in ((fr, "farm"), (pr, "points")):
        if r.sizes["state"] != n_ref:
            raise Violation(f"{what}: {r.sizes['state']} states in {name} results, expected {n_ref}")
        if index_ref is not None:
            got = list(r["state"].to_numpy()) if "state" in r.coords else list(range(n_ref))
            if [str(x) for x in got] != [str(x) for x in index_ref]:
                raise Violation(f"{what}: state labels {got} in {name} results, expected {list(index_ref)}")
    wt = fr["weight"].to_numpy()
    wt = wt.reshape(n_ref, -1)
    for i in range(n_ref):
        if np.max(np.abs(wt[i] - weights[i])) > 1e-12 * (1 + abs(weights[i])):
            raise Violation(f"{what}: weight {wt[i]} of state {i}, expected {weights[i]}")
    A = {"WS": "AMB_REWS", "WD": "AMB_WD", "TI": "AMB_TI", "RHO": "AMB_RHO"}
    F = {v: gen.vals(fr, a) for v, a in A.items() if a in fr}
    Q = {v: gen.vals(pr, f"AMB_{v}") for v in VARS if f"AMB_{v}" in pr}
    for i in range(n_ref):
        for j, (x, y, h) in enumerate(c["trb"]):
            w = want(i, h)
            for v in w:
                if v not in F:
                    raise Violation(f"{what}: {A[v]} missing in farm results")
                if not close(v, F[v][i, j], w[v]):
                    raise Violation(f"{what}: state {i}, turbine {j}: {A[v]}={F[v][i, j]}, expected {w[v]}")
        for j, (x, y, h) in enumerate(pts):
            w = want(i, h)
            for v in w:
                if v not in Q:
                    raise Violation(f"{what}: AMB_{v} missing in point results")
                if not close(v, Q[v][i, j], w[v]):
                    raise Violation(f"{what}: state {i}, point {j}: {v}={Q[v][i, j]}, expected {w[v]}")


def run_table(c):
    import foxes
    import pandas as pd

    n = len(c["cols"]["WS"])
    idx = make_index(c, n)
    m, fixed, p = c["map"], dict(c["fixed"]), c["prof"]
    data = {}
    for v in VARS:
        if v in c["drop"]:
            continue
        x = np.array(c["cols"][v], dtype=float)
        data[m.get(v, v)] = x
    if c["weights"] is not None:
        data["freq" if c["wmap"] else "weight"] = np.array(c["weights"])
    kw = {}
    var2col = dict(m)
    if c["wmap"]:
        var2col["weight"] = "freq"
    if p:
        pn = {"ShearedProfile": "shear", "ABLLogNeutralWsProfile": "z0"}.get(p["WS"])
        if p["H_in"] == "fixed":
            fixed["H"] = p["H"]
        else:
            data["H"] = np.full(n, p["H"])
        if pn is not None:
            if p["par_in"] == "fixed":
                fixed[pn] = p["par"][0]
            else:
                data["the par"] = np.array(p["par"])
                var2col[pn] = "the par"
        cls = getattr(foxes.models.vertical_profiles, p["WS"])
        if p["spec"] == "obj" and p["WS"] == "UniformProfile":
            pr = cls("WS")
        elif p["spec"] == "obj":
            pr = cls()
        elif p["WS"] == "UniformProfile":
            pr = dict(type=p["WS"], variable="WS")
        else:
            pr = p["WS"] if p["spec"] == "str" else dict(type=p["WS"])
        kw["profiles"] = {"WS": pr}
    if c["extra"]:
        data["unused"] = np.arange(n) * 1.5
    keys = list(data)
    k = c["colorder"] % len(keys)
    keys = keys[k:] + keys[:k]
    df = pd.DataFrame({q: data[q] for q in keys}, index=idx)
    if c["intcols"]:
        for q in df:
            if np.all(df[q] == np.round(df[q])):
                df[q] = df[q].astype(int)
    df0 = df.copy(deep=True)
    cls = foxes.input.states.Timeseries if c["kind"] == "ts" else foxes.input.states.StatesTable
    with gen.scratch() as d:
        src = df
        if c["file"] is not None:
            src = os.path.join(d, "states." + c["file"])
            if c["file"] == "nc":
                df.to_xarray().to_netcdf(src)
            else:
                df.to_csv(src, sep=";" if c["sep"] else ",")
                if c["sep"]:
                    kw["pd_read_pars"] = dict(sep=";")
            if c["index"] == "time" and c["kind"] == "table" and c["file"] != "nc":
                kw.setdefault("pd_read_pars", {})["parse_dates"] = [0]
        a, pos = sel_args(c["sel"], idx)
        states = cls(src, output_vars=VARS, var2col=var2col, fixed_vars=fixed, **kw, **a)

        def go(pos, what):
            def want(i, z):
                r = pos[i]
                w = {v: float(fixed[v]) if v in fixed else c["cols"][v][r] for v in VARS}
                if p:
                    w["WS"] = profile_ref(p, w["WS"], p["par"][0 if p["par_in"] == "fixed" else r], z)
                return w

            ww = [1.0 / len(pos)] * len(pos) if c["weights"] is None else [c["weights"][r] for r in pos]
            evaluate(c, states, what, len(pos), [idx.to_numpy()[r] for r in pos], want, ww)

        go(pos, "table")
        if c["reset"] is not None:
            a, pos2 = sel_args(c["reset"][1], idx)
            states.reset(**a)
            go(pos2, "table after reset")
    if not df.equals(df0):
        raise Violation("the user's data frame was modified")
    lb = {f"file_{c['file']}", f"index_{c['index']}"}
    if c["reset"] is not None:
        lb.add("reset")
    if c["sel"] is not None:
        lb.add(f"sel_{c['sel']['k']}")
    if n > 1 and (m or c["fixed"] or p or c["sel"] or c["weights"]):
        lb.add("nt")
    if p:
        lb.add(p["WS"])
    return lb


@st.composite
def scan_case(draw):
    vs = draw(st.permutations(VARS))
    sc = []
    vals = {"WS": [0.5, 5.0, 8.25, 13, 20.0], "WD": [0.0, 90, 270.5, 359.0], "TI": [0.05, 0.1, 0.2], "RHO": [1.0, 1.225, 1]}
    for v in vs:
        sc.append([v, draw(st.lists(st.sampled_from(vals[v]), min_size=1, max_size=3))])
    return dict(scans=sc, arr=draw(st.booleans()), **common(draw))


def run_scan(c):
    import itertools
    import foxes

    sc = {v: (np.array(x) if c["arr"] else x) for v, x in c["scans"]}
    states = foxes.input.states.ScanStates(sc)
    combos = list(itertools.product(*[x for _, x in c["scans"]]))
    names = [v for v, _ in c["scans"]]
    n = len(combos)
    evaluate(c, states, "scan", n, None, lambda i, z: {v: float(x) for v, x in zip(names, combos[i])}, [1.0 / n] * n)
    return {"nt"} if n > 1 else set()


@st.composite
def single_case(draw):
    p = {}
    if draw(st.booleans()):
        p = dict(WS=draw(st.sampled_from(PROFS)), H=draw(st.sampled_from([80.0, 100, 120.0])), par=[draw(st.sampled_from([0.05, 0.1, 0.2]))], spec=draw(st.sampled_from(["str", "dict", "obj"])))
    return dict(
        ws=draw(st.sampled_from([8.0, 9, 0.5, 25.25])), wd=draw(st.sampled_from([0, 0.0, 270.0, 359.9, 12])),
        ti=draw(st.sampled_from([0.0, 0.05, 0.3])), rho=draw(st.sampled_from([1.0, 1, 1.225])), prof=p, **common(draw)
    )


def run_single(c):
    import foxes

    p = c["prof"]
    kw = {}
    if p:
        pn = {"ShearedProfile": "shear", "ABLLogNeutralWsProfile": "z0"}.get(p["WS"])
        cls = getattr(foxes.models.vertical_profiles, p["WS"])
        if p["WS"] == "UniformProfile":
            pr = cls("WS") if p["spec"] == "obj" else dict(type=p["WS"], variable="WS")
        else:
            pr = cls() if p["spec"] == "obj" else (p["WS"] if p["spec"] == "str" else dict(type=p["WS"]))
        kw = dict(profiles={"WS": pr}, H=p["H"])
        if pn:
            kw[pn] = p["par"][0]
    states = foxes.input.states.SingleStateStates(ws=c["ws"], wd=c["wd"], ti=c["ti"], rho=c["rho"], **kw)
    evaluate(
        c, states, "single", 1, None,
        lambda i, z: dict(WS=profile_ref(p, c["ws"], p["par"][0], z) if p else c["ws"], WD=c["wd"], TI=c["ti"], RHO=c["rho"]), [1.0],
    )
    return {"nt"} if p else set()


@st.composite
def tab_case(draw):
    ns = draw(st.sampled_from([1, 2, 3, 4, 8, 12]))
    nw = draw(st.integers(2, 5))
    f = lambda: draw(st.one_of(st.just(0.0), gen.fl(0.0, 50.0, 0.5)))
    ws = [1.0]
    for _ in range(nw - 1):
        ws.append(ws[-1] + draw(st.sampled_from([1.0, 1.0, 2.5])))
    sf = [draw(gen.fl(0.5, 20.0, 0.5)) for _ in range(ns)]
    M = [[f() for _ in range(ns)] for _ in range(nw)]
    for j in range(ns):
        if sum(r[j] for r in M) == 0:
            M[0][j] = 10.0
    return dict(
        sf=sf, ws=ws, M=M, fac=draw(st.sampled_from([1.0, 1.0, 0.5])), norm=draw(st.sampled_from([True, True, False])),
        src=draw(st.sampled_from(["file", "ds", "path"])), tabs=draw(st.booleans()), pos=draw(st.booleans()),
        sel=draw(st.one_of(st.none(), st.integers(1, 3))), **common(draw)
    )


def run_tab(c):
    import foxes
    from pathlib import Path

    ns, nw = len(c["sf"]), len(c["ws"])
    with gen.scratch() as d:
        fp = os.path.join(d, "rose.tab")
        s = "\t" if c["tabs"] else " "
        with open(fp, "w") as f:
            f.write("some description\n")
            f.write(f"{s}55.0{s}14.0{s}100.0\n")
            f.write(f"{s}{ns}{s}{c['fac']}{s}0.0\n")
            f.write(s + s.join(str(x) for x in c["sf"]) + "\n")
            for w, r in zip(c["ws"], c["M"]):
                f.write(str(w) + s + s.join(str(x) for x in r) + "\n")
        from foxes.utils import read_tab_file

        src = fp if c["src"] == "file" else (Path(fp) if c["src"] == "path" else read_tab_file(fp, c["norm"]))
        # direct evaluation
        M, sf = np.array(c["M"]), np.array(c["sf"])
        if c["norm"]:
            M = M / M.sum(axis=0)[None, :] * 1000.0
            sf = sf / sf.sum() * 100.0
        rows = {}
        lo = 0.0
        for i, w in enumerate(c["ws"]):
            for j in range(ns):
                q = M[i, j] / 1000.0 * sf[j] / 100.0
                if q > 0:
                    rows[(round(0.5 * (lo + w) * c["fac"], 9), round(j * 360.0 / ns, 9))] = q
            lo = w
        kw = {}
        if c["sel"] is not None:
            kw["states_sel"] = slice(0, None, c["sel"])
        ov = [VARS] if c["pos"] else []
        if not c["pos"]:
            kw["output_vars"] = VARS
        states = foxes.input.states.TabStates(src, *ov, fixed_vars=dict(TI=0.07, RHO=1.2), normalize=c["norm"], **kw)
        # table rows come in the order speed, sector
        order = sorted(rows)
        if c["sel"] is not None:
            order = order[:: c["sel"]]
        n = len(order)
        evaluate(c, states, "tab file", n, None, lambda i, z: dict(WS=order[i][0], WD=order[i][1], TI=0.07, RHO=1.2), [rows[o] for o in order])
        if c["norm"] and abs(sum(rows.values()) - 1.0) > 1e-9:
            raise Violation("internal: reference weights")
    return {"nt"} if n > 1 else set()


@st.composite
def reject_case(draw):
    return dict(
        what=draw(st.sampled_from(["missing", "missing", "map", "weight", "both", "profile", "row", "label"])), v=draw(st.sampled_from(VARS)),
        n=draw(st.integers(1, 4)), prof=draw(st.sampled_from(["ShearedProfile", "ABLLogNeutralWsProfile"])),
        **common(draw),
    )


def run_reject(c):
    """Incomplete descriptions must be refused"""
    import foxes
    import pandas as pd

    n, v = c["n"], c["v"]
    df = pd.DataFrame(dict(WS=[8.0] * n, WD=[270.0] * n, TI=[0.1] * n, RHO=[1.2] * n))
    kw = dict(output_vars=VARS)
    if c["what"] == "missing":
        df = df.drop(columns=[v])
    elif c["what"] == "map":
        kw["var2col"] = {v: "other"}
    elif c["what"] == "weight":
        kw["var2col"] = {"weight": "other"}
    elif c["what"] == "both":
        kw.update(states_sel=[0], states_loc=[0])
    elif c["what"] == "profile":
        kw["profiles"] = {"WS": c["prof"]}
    elif c["what"] == "row":
        kw["states_sel"] = [0, n]
    else:
        kw["states_loc"] = [n]
    try:
        states = foxes.input.states.StatesTable(df, **kw)
        farm = foxes.WindFarm()
        farm.add_turbine(foxes.Turbine(xy=[0.0, 0.0], turbine_models=["NREL5MW"]), verbosity=0)
        algo = foxes.algorithms.Downwind(farm, states, wake_models=[], verbosity=0)
        with gen.engine("numpy", c["cs"]):
            algo.calc_farm(ambient=True)
    except (KeyError, ValueError, IndexError) as e:
        return {"nt", type(e).__name__}
    raise Violation(f"case {c['what']} for {v} gives results instead of an error")


SUBS = [
    Sub("table", table_case(), run_table, quick=500),
    Sub("scan", scan_case(), run_scan, quick=80),
    Sub("single", single_case(), run_single, quick=80),
    Sub("tab", tab_case(), run_tab, quick=120),
    Sub("reject", reject_case(), run_reject, quick=60),
]
