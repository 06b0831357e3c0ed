"""C21: turbine types return the user's power and thrust curves"""
import os
import math
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C21"
RULE = (
    "farms of one to three wake-free turbines of randomly generated types of every kind (P-ct table, two tables, cp-ct, two cp-ct tables, "
    "wind speed-turbulence and wind speed-density matrices, lookup tables, tbl files), data given as data frame or file with parameters in "
    "the file name, sheared inflow and multi-point rotors (different rotor effective wind speeds), densities, yaw; P and CT of every state "
    "and turbine compared with direct (bi-)linear interpolation at the reported rotor effective wind speed; non-trivial: some value between "
    "two nodes of the table"
)
ASSUMPTIONS = [
    "turbulence intensities and densities lie within the range of the matrices (outside, these types raise an error by default)",
    "cp-ct types tabulate the power in steps of 0.0001 m/s: relative tolerance 1e-4",
    "the thrust lookup of the wind speed-turbulence type uses the wind speed corrected by the square root of the density ratio, as in the code; "
    "other types do not correct the wind speed of the thrust lookup for density",
]

KINDS = ["pct", "pct", "two", "two", "cpct", "cptwo", "wsti", "wsrho", "lookup", "lookup", "tbl"]


@st.composite
def ws_nodes(draw):
    n = draw(st.integers(2, 9))
    a = draw(st.sampled_from([0.0, 2.5, 3.0, 4.0]))
    w = [a]
    for _ in range(n - 1):
        w.append(round(w[-1] + draw(st.sampled_from([0.5, 1.0, 2.0, 3.5])), 3))
    return w


@st.composite
def ttype(draw):
    k = draw(st.sampled_from(KINDS))
    t = dict(k=k)
    ws = draw(ws_nodes())
    P = lambda: draw(gen.fl(0.0, 5000.0, 50.0))
    ct = lambda: draw(gen.fl(0.0, 0.95, 0.05))
    t["ws"] = ws
    if k in ("pct", "tbl"):
        t["P"], t["ct"] = [P() for _ in ws], [ct() for _ in ws]
    elif k == "two":
        t["P"] = [P() for _ in ws]
        t["ws_ct"] = draw(ws_nodes())
        t["ct"] = [ct() for _ in t["ws_ct"]]
    elif k == "cpct":
        t["cp"], t["ct"] = [draw(gen.fl(0.0, 0.5, 0.02)) for _ in ws], [ct() for _ in ws]
    elif k == "cptwo":
        t["cp"] = [draw(gen.fl(0.0, 0.5, 0.02)) for _ in ws]
        t["ws_ct"] = draw(ws_nodes())
        t["ct"] = [ct() for _ in t["ws_ct"]]
    elif k in ("wsti", "wsrho"):
        grid = [[0.0, 0.1, 0.5], [0.0, 0.04, 0.08, 0.5]] if k == "wsti" else [[1.0, 1.225, 1.4], [1.0, 1.1, 1.2, 1.4]]
        t["c"] = draw(st.sampled_from(grid))
        t["c_ct"] = draw(st.sampled_from(grid))
        t["ws_ct"] = draw(ws_nodes())
        t["P"] = [[P() for _ in t["c"]] for _ in ws]
        t["ct"] = [[ct() for _ in t["c_ct"]] for _ in t["ws_ct"]]
    else:
        t["in"] = draw(st.sampled_from([["REWS"], ["REWS"], ["REWS", "TI"], ["RHO", "REWS"], ["REWS", "TI", "RHO"]]))
        t["c"] = {"TI": [0.0, 0.1, 0.5], "RHO": [1.0, 1.2, 1.4]}
        n = len(ws)
        for v in t["in"]:
            if v != "REWS":
                n *= 3
        t["P"], t["ct"] = [P() for _ in range(n)], [ct() for _ in range(n)]
        t["map"] = draw(st.booleans())
    t["shuffle"] = draw(st.integers(0, 2)) if k != "tbl" else 0
    t["file"] = k == "tbl" or draw(st.booleans())
    t["cols"] = k in ("pct", "two", "cpct", "cptwo") and draw(st.booleans())
    t["sep"] = t["file"] and k in ("pct", "two", "lookup") and draw(st.booleans())
    a = {}
    if draw(st.booleans()):
        a["rho"] = draw(st.sampled_from([1.0, 1.1, 1.225]))
    if draw(st.integers(0, 2)) == 0:
        a["p_ct"] = draw(st.sampled_from([None, 0.5, 1.0, 2.0]))
        a["p_P"] = draw(st.sampled_from([None, 1.4, 1.88, 3.0]))
    if draw(st.booleans()):
        a["var_ws_ct"] = draw(st.sampled_from(["REWS", "REWS2", "REWS3"]))
        a["var_ws_P"] = draw(st.sampled_from(["REWS", "REWS2", "REWS3"]))
    if k == "wsrho":
        a.pop("rho", None)
    t["args"] = a
    t["D"] = draw(st.sampled_from([80.0, 101.5, 126.0]))
    t["H"] = draw(st.sampled_from([90.0, 98.5, 120.0]))
    # parameters by file name, by argument, or both
    if k != "tbl":
        t["P_nominal"] = draw(st.sampled_from([None, 2000.0, 3400.0]))
        t["by"] = draw(st.sampled_from(["arg", "name", "both"])) if t["file"] else "arg"
        t["P_unit"] = draw(st.sampled_from([None, None, "kW", "MW", "W"]))
    else:
        t["P_nominal"] = 2000.0
        t["by"], t["P_unit"] = None, None
    return t


@st.composite
def case_(draw):
    nt = draw(st.integers(1, 3))
    types = [draw(ttype()) for _ in range(draw(st.integers(1, 2)))]
    tr = []
    for i in range(nt):
        d = dict(t=draw(st.integers(0, len(types) - 1)))
        if draw(st.integers(0, 3)) == 0:
            d["D"] = 150.0
        if draw(st.integers(0, 3)) == 0:
            d["H"] = 140.0
        tr.append(d)
    ns = draw(st.integers(1, 6))
    nodes = sorted(set(w for t in types for w in t["ws"] + t.get("ws_ct", [])))
    rows = []
    for _ in range(ns):
        w = draw(st.one_of(st.sampled_from(nodes), gen.fl(0.5, 30.0, 0.25), st.floats(1.0, 26.0)))
        rows.append([w, draw(gen.fl(0.0, 355.0, 5.0)), draw(gen.fl(0.01, 0.3, 0.01)), draw(gen.fl(1.05, 1.35, 0.01))])
    yaw = draw(st.one_of(st.none(), st.lists(st.lists(gen.fl(-40.0, 40.0, 5.0), min_size=nt, max_size=nt), min_size=ns, max_size=ns)))
    return dict(types=types, trb=tr, rows=rows, yaw=yaw, rotor=draw(st.sampled_from(["centre", "grid4", "grid9", "level3"])), shear=draw(st.booleans()))


def perm(n, k):
    """A fixed permutation"""
    i = np.arange(n)
    return i if k == 0 else (i[::-1] if k == 1 else np.roll(i, 1)[::-1])


def build_type(t, i, d):
    import foxes
    import pandas as pd

    T = foxes.models.turbine_types
    k = t["k"]
    p = perm(len(t["ws"]), t["shuffle"])
    cws, cP, cct, ccp = ("v", "power", "thrust", "cpow") if t["cols"] else ("ws", "P", "ct", "cp")
    args = dict(t["args"])
    pars = dict(D=t["D"], H=t["H"])
    if t["P_nominal"] is not None:
        pars["P_nominal"] = t["P_nominal"]
    stem = f"TYP{i}"
    if t["by"] in ("name", "both"):
        f = lambda x: str(float(x)).replace(".", "d")
        s = stem + (f"-{t['P_nominal']:g}kW" if t["P_nominal"] is not None else "")
        stem = s + f"-D{f(t['D'] if t['by'] == 'name' else 99.0)}-H{f(t['H'] if t['by'] == 'name' else 99.0)}"
        if t["by"] == "name":
            pars = {}
    if t["P_unit"] is not None:
        pars["P_unit"] = t["P_unit"]

    def src(df, sub, index=False):
        if not t["file"]:
            return df
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        fp = os.path.join(d, sub, stem + ".csv")
        df.to_csv(fp, index=index, sep=";" if t["sep"] else ",")
        return fp

    rp = dict(sep=";") if t["sep"] else {}
    df = None
    if k == "pct":
        df = pd.DataFrame({cws: t["ws"], cP: t["P"], cct: t["ct"]}).iloc[p]
        return T.PCtFile(src(df, "a"), col_ws=cws, col_P=cP, col_ct=cct, pd_file_read_pars=rp, **args, **pars), [df]
    if k == "two":
        df = pd.DataFrame({cws: t["ws"], cP: t["P"]}).iloc[p]
        d2 = pd.DataFrame({cws: t["ws_ct"], cct: t["ct"]}).iloc[perm(len(t["ws_ct"]), t["shuffle"])]
        return T.PCtFromTwo(src(df, "a"), src(d2, "b"), col_ws_P_file=cws, col_ws_ct_file=cws, col_P=cP, col_ct=cct, pd_file_read_pars_P=rp, pd_file_read_pars_ct=rp, **args, **pars), [df, d2]
    if k == "cpct":
        df = pd.DataFrame({cws: t["ws"], ccp: t["cp"], cct: t["ct"]}).iloc[p]
        if t["by"] == "both":
            pars["name"] = "x"
        return T.CpCtFile(src(df, "a"), col_ws=cws, col_cp=ccp, col_ct=cct, **args, **pars), [df]
    if k == "cptwo":
        df = pd.DataFrame({cws: t["ws"], ccp: t["cp"]}).iloc[p]
        d2 = pd.DataFrame({cws: t["ws_ct"], cct: t["ct"]}).iloc[perm(len(t["ws_ct"]), t["shuffle"])]
        return T.CpCtFromTwo(src(df, "a"), src(d2, "b"), col_ws_cp_file=cws, col_ws_ct_file=cws, col_cp=ccp, col_ct=cct, **args, **pars), [df, d2]
    if k in ("wsti", "wsrho"):
        q, q2 = perm(len(t["c"]), t["shuffle"]), perm(len(t["c_ct"]), t["shuffle"])
        df = pd.DataFrame(np.array(t["P"])[np.ix_(p, q)], index=pd.Index(np.array(t["ws"])[p], name="ws"), columns=[str(x) for x in np.array(t["c"])[q]])
        p2 = perm(len(t["ws_ct"]), t["shuffle"])
        d2 = pd.DataFrame(np.array(t["ct"])[np.ix_(p2, q2)], index=pd.Index(np.array(t["ws_ct"])[p2], name="ws"), columns=[str(x) for x in np.array(t["c_ct"])[q2]])
        cls = T.WsTI2PCtFromTwo if k == "wsti" else T.WsRho2PCtFromTwo
        return cls(src(df, "a", True), src(d2, "b", True), **args, **pars), [df, d2]
    if k == "lookup":
        ax = [t["ws"] if v == "REWS" else t["c"][v] for v in t["in"]]
        g = [a.reshape(-1) for a in np.meshgrid(*ax, indexing="ij")]
        nm = {v: f"my_{v}" for v in t["in"] + ["P", "CT"]} if t["map"] else {}
        df = pd.DataFrame({nm.get(v, v): a for v, a in zip(t["in"], g)})
        df[nm.get("P", "P")], df[nm.get("CT", "CT")] = t["P"], t["ct"]
        df = df.iloc[perm(len(df), t["shuffle"])]
        return T.FromLookupTable(src(df, "a"), input_vars=list(t["in"]), varmap=nm, pd_file_read_pars=rp, **args, **pars), [df]
    fp = os.path.join(d, f"t{i}.tbl")
    with open(fp, "w") as f:
        f.write(f"Some turbine\n{t['H']} {t['D']} 0.04 {t['P_nominal'] / 1e3}\n")
        for w, c, P in zip(t["ws"], t["ct"], t["P"]):
            f.write(f"{w} {c} {P}\n")
    return T.TBLFile(fp, **args), []


def lin(x, xs, ys):
    """Linear interpolation, zero outside; also whether strictly between nodes"""
    if x < xs[0] or x > xs[-1]:
        return 0.0, False
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            a = (x - xs[i]) / (xs[i + 1] - xs[i])
            return (1 - a) * ys[i] + a * ys[i + 1], 0.01 < a < 0.99
    return ys[-1], False


def bilin(x, c, xs, cs, M):
    if x < xs[0] or x > xs[-1]:
        return 0.0, False
    r = [lin(c, cs, row)[0] for row in M]
    return lin(x, xs, r)


def expected(t, q):
    """P, CT, relative tolerance of P"""
    k, a = t["k"], t["args"]
    wct, wP = q[a.get("var_ws_ct", "REWS2")], q[a.get("var_ws_P", "REWS3")]
    rho = a.get("rho", 1.225 if k in ("cpct", "cptwo", "tbl") else None)
    if k == "wsrho":
        rho = None
    if rho is not None:
        wP *= (q["RHO"] / rho) ** (1.0 / 3.0)
        if k == "wsti":
            wct *= (q["RHO"] / rho) ** 0.5
    if q["YAWM"] is not None:
        c = math.cos(math.radians(q["YAWM"]))
        pct, pP = a.get("p_ct", 1.0), a.get("p_P", 1.88)
        if pct is not None:
            wct *= math.sqrt(c**pct)
        if pP is not None:
            wP *= (c**pP) ** (1.0 / 3.0)
    nodes = (t["ws"], t.get("ws_ct", t["ws"]))
    edge = min(abs(wP - nodes[0][0]), abs(wP - nodes[0][-1])), min(abs(wct - nodes[1][0]), abs(wct - nodes[1][-1]))
    if k in ("pct", "two", "tbl"):
        P, b = lin(wP, t["ws"], t["P"])
        ct, _ = lin(wct, nodes[1], t["ct"])
    elif k in ("cpct", "cptwo"):
        cp, b = lin(wP, t["ws"], t["cp"])
        P = 0.5 * rho * math.pi * (t["D"] / 2) ** 2 * cp * wP**3 / {"kW": 1e3, "MW": 1e6, "W": 1.0}[t["P_unit"] or "kW"]
        ct, _ = lin(wct, nodes[1], t["ct"])
    elif k in ("wsti", "wsrho"):
        c = q["TI" if k == "wsti" else "RHO"]
        P, b = bilin(wP, c, t["ws"], t["c"], t["P"])
        ct, _ = bilin(wct, c, t["ws_ct"], t["c_ct"], t["ct"])
    else:

        def look(w, vals):
            ax = [t["ws"] if v == "REWS" else t["c"][v] for v in t["in"]]
            A = np.array(vals, dtype=float).reshape([len(x) for x in ax])
            for v, x in zip(t["in"], ax):
                z = w if v == "REWS" else q[v]
                if z < x[0] or z > x[-1]:
                    return 0.0
                i = min(max(int(np.searchsorted(x, z, side="right")) - 1, 0), len(x) - 2)
                f = (z - x[i]) / (x[i + 1] - x[i])
                A = (1 - f) * A[i] + f * A[i + 1]
            return float(A)

        P, ct = look(wP, t["P"]), look(wct, t["ct"])
        b = P > 0
    return P, ct, edge, b


def run(c):
    import foxes
    import pandas as pd

    with gen.scratch() as d:
        mb = foxes.ModelBook()
        built, frames = [], []
        for i, t in enumerate(c["types"]):
            tt, fr = build_type(t, i, d)
            mb.turbine_types[f"T{i}"] = tt
            built.append(tt)
            frames += [(f, f.copy(deep=True)) for f in fr]
        models = []
        if c["yaw"] is not None:
            m = foxes.models.turbine_models.SetFarmVars(pre_rotor=True)
            m.add_var("YAWM", np.array(c["yaw"]))
            mb.turbine_models["set_yawm"] = m
            models = ["set_yawm", "yawm2yaw"]
        farm = foxes.WindFarm()
        for i, q in enumerate(c["trb"]):
            kw = {x: q[x] for x in ("D", "H") if x in q}
            farm.add_turbine(foxes.Turbine(xy=[3000.0 * i, 1000.0 * i], turbine_models=models + [f"T{q['t']}"], **kw), verbosity=0)
        rows = np.array(c["rows"], dtype=float)
        df = pd.DataFrame(rows, columns=["WS", "WD", "TI", "RHO"])
        kw = dict(fixed_vars=dict(H=100.0, shear=0.25), profiles={"WS": "ShearedProfile"}) if c["shear"] else {}
        states = foxes.input.states.StatesTable(df, output_vars=["WS", "WD", "TI", "RHO"], **kw)
        algo = foxes.algorithms.Downwind(farm, states, wake_models=[], rotor_model=c["rotor"], mbook=mb, verbosity=0)
        with gen.engine("numpy", None):
            fr = algo.calc_farm()
        from foxes.output import FarmResultsEval

        hasnom = all(t.P_nominal is not None for t in built)
        if hasnom:
            FarmResultsEval(fr).add_capacity(algo)
    for f, g in frames:
        if not f.equals(g):
            raise Violation("the user's curve data frame was modified")
    V = {v: gen.vals(fr, v) for v in ("REWS", "P", "CT", "TI", "RHO", "D", "H") if v in fr}
    for v in ("REWS2", "REWS3", "YAWM", "CAP"):
        if v in fr:
            V[v] = gen.vals(fr, v)
    lb = set()
    for ti, q in enumerate(c["trb"]):
        t = c["types"][q["t"]]
        lb |= {f"k_{t['k']}", "file" if t["file"] else "frame", f"by_{t['by']}"}
        eD, eH = q.get("D", t["D"]), q.get("H", t["H"])
        if np.any(np.abs(V["D"][:, ti] - eD) > 1e-9):
            raise Violation(f"turbine {ti} of {t['k']}: diameter {V['D'][:, ti]}, expected {eD}")
        if np.any(np.abs(V["H"][:, ti] - eH) > 1e-9):
            raise Violation(f"turbine {ti} of {t['k']}: hub height {V['H'][:, ti]}, expected {eH}")
        nom = t["P_nominal"]
        if nom is None and "P" in t and t["k"] not in ("wsti", "wsrho"):
            nom = max(t["P"])
        got = built[q["t"]].P_nominal
        if nom is not None and (got is None or abs(got - nom) > 1e-6 * max(nom, 1.0)):
            raise Violation(f"turbine {ti} of {t['k']}: rated power {got}, expected {nom}")
        for si in range(len(rows)):
            qq = {v: float(x[si, ti]) for v, x in V.items()}
            qq["YAWM"] = c["yaw"][si][ti] if c["yaw"] is not None else None
            for v in ("REWS2", "REWS3"):
                if v not in qq:
                    if v in (t["args"].get("var_ws_ct", "REWS2"), t["args"].get("var_ws_P", "REWS3")):
                        raise Violation(f"{v} is missing in the results, needed by {t['k']}")
            if not c["shear"] and c["yaw"] is None:
                for v in ("REWS", "REWS2", "REWS3"):
                    if v in qq and abs(qq[v] - rows[si, 0]) > 1e-6:
                        raise Violation(f"{v}={qq[v]} in uniform inflow of {rows[si, 0]}")
            P, ct, edge, between = expected(t, qq)
            tol = 1e-6 * (1.0 + max(np.max(t.get("P", [0.0])), 1.0) * 1e-2)
            tolP = max(tol, 2e-3 * abs(P) * 0.1 + 1e-4 * abs(P)) if t["k"] in ("cpct", "cptwo") else tol
            if t["k"] in ("cpct", "cptwo") and edge[0] < 1e-3:
                tolP = np.inf
            if edge[0] > 1e-7 and not abs(qq["P"] - P) <= tolP:
                raise Violation(f"state {si}, turbine {ti}, type {t['k']}: P={qq['P']}, expected {P} for {qq}")
            tolc = 5e-3 if t["k"] == "cpct" else 1e-8
            if edge[1] > (1e-3 if t["k"] == "cpct" else 1e-7) and not abs(qq["CT"] - ct) <= tolc:
                raise Violation(f"state {si}, turbine {ti}, type {t['k']}: CT={qq['CT']}, expected {ct} for {qq}")
            if hasnom and nom and abs(qq["CAP"] - qq["P"] / got) > 1e-6 * (1 + abs(qq["P"] / got)):
                raise Violation(f"state {si}, turbine {ti}: capacity {qq['CAP']}, expected {qq['P'] / got}")
            if between:
                lb.add("nt")
            if P == 0.0:
                lb.add("outside")
    if c["yaw"] is not None:
        lb.add("yaw")
    return lb


SUBS = [Sub("types", case_(), run, quick=900)]
