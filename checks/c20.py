"""C20: vertical profiles"""
import math
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C20"
RULE = (
    "every vertical profile with random parameters (scalars, per-state and per-point arrays, mixed stabilities, friction velocity input), "
    "evaluated stand-alone and within table, time series and single state inflow by point and farm calculations, compared with a scalar "
    "evaluation of the formulas; non-trivial: heights differ from the reference height and the profile is not constant"
)
ASSUMPTIONS = ["heights are at least the roughness length", "the monotonicity is checked for the neutral, stable and power law profiles with positive exponents"]

KAPPA = 0.41
PROFS = ["ShearedProfile", "ABLLogNeutralWsProfile", "ABLLogStableWsProfile", "ABLLogUnstableWsProfile", "ABLLogWsProfile", "UniformProfile", "DataProfile"]


def psi(z, L):
    if L is None or math.isnan(L) or L == 0.0 or math.isinf(L):
        return 0.0
    if L > 0:
        return -5.0 * min(z, L) / L
    x = (1.0 - 16.0 * z / L) ** 0.25
    return 2.0 * math.log((1.0 + x) / 2.0) + math.log((1.0 + x * x) / 2.0) - 2.0 * math.atan(x) + math.pi / 2.0


def formula(p, z, q):
    """Profile p at height z, for scalar parameters q"""
    t = p["type"]
    if t == "UniformProfile":
        return q["WS"]
    if t == "DataProfile":
        zz, vv = p["z"], p["v"]
        for i in range(len(zz) - 1):
            if zz[i] <= z <= zz[i + 1]:
                a = (z - zz[i]) / (zz[i + 1] - zz[i])
                return vv[i] + a * (vv[i + 1] - vv[i])
        raise ValueError(z)
    if t == "ShearedProfile":
        return q["WS"] * (z / q["H"]) ** q["shear"]
    L = q.get("MOL", 0.0) if t != "ABLLogNeutralWsProfile" else 0.0
    us = q["USTAR"] if p["ustar"] else q["WS"] * KAPPA / (math.log(max(q["H"], q["z0"]) / q["z0"]) - psi(q["H"], L))
    return us / KAPPA * (math.log(max(z, q["z0"]) / q["z0"]) - psi(z, L))


def needed(p):
    t = p["type"]
    if t == "UniformProfile":
        return ["WS"]
    if t == "DataProfile":
        return []
    if t == "ShearedProfile":
        return ["WS", "H", "shear"]
    v = ["USTAR", "z0"] if p["ustar"] else ["WS", "H", "z0"]
    return v + ([] if t == "ABLLogNeutralWsProfile" else ["MOL"])


@st.composite
def param(draw, v, p):
    if v == "WS":
        return draw(gen.fl(3.0, 25.0, 0.5))
    if v == "H":
        return draw(st.sampled_from([10.0, 50.0, 80.0, 100.0, 150.0]))
    if v == "z0":
        return draw(st.sampled_from([0.0002, 0.01, 0.03, 0.1, 0.5, 1.0]))
    if v == "shear":
        return draw(st.sampled_from([0.0, 0.05, 0.14, 0.2, 0.33, -0.05]))
    if v == "USTAR":
        return draw(st.sampled_from([0.1, 0.25, 0.4, 0.7, 1.1]))
    sg = {"ABLLogStableWsProfile": [1.0], "ABLLogUnstableWsProfile": [-1.0]}.get(p["type"], [1.0, -1.0])
    L = draw(st.sampled_from([20.0, 50.0, 120.0, 500.0, 2000.0, 1e9])) * draw(st.sampled_from(sg))
    if p["type"] == "ABLLogWsProfile":
        return draw(st.sampled_from([L, L, L, 0.0, "nan"]))
    return L


@st.composite
def profile(draw):
    t = draw(st.sampled_from(PROFS))
    p = dict(type=t, ustar=t.startswith("ABL") and draw(st.integers(0, 2)) == 0)
    if t == "DataProfile":
        n = draw(st.integers(2, 5))
        zs = sorted(draw(st.lists(st.integers(1, 60), min_size=n, max_size=n, unique=True)))
        p["z"] = [0.0] + [5.0 * z for z in zs] + [500.0]
        p["v"] = [draw(gen.fl(3.0, 25.0, 0.5)) for _ in p["z"]]
        p["shuffle"] = draw(st.booleans())
    return p


def fx(x):
    return float("nan") if x == "nan" else x


def build(p):
    import foxes
    import pandas as pd
    from foxes.core import VerticalProfile

    kw = {}
    if p["type"] == "DataProfile":
        z, v = list(p["z"]), list(p["v"])
        if p["shuffle"]:
            z, v = z[::-1], v[::-1]
        return VerticalProfile.new("DataProfile", pd.DataFrame(dict(z=z, u=v)), "WS", col_z="z", col_var="u")
    if p["type"] == "UniformProfile":
        return VerticalProfile.new("UniformProfile", "WS")
    if p["ustar"]:
        kw["ustar_input"] = True
    return VerticalProfile.new(p["type"], **kw)


hgt = st.one_of(gen.fl(5.0, 300.0, 5.0), st.floats(2.0, 400.0))


@st.composite
def alone_case(draw):
    p = draw(profile())
    s = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    n = int(np.prod(s))
    q = {}
    for v in needed(p):
        k = draw(st.sampled_from(["scalar", "full", "first"]))
        m = 1 if k == "scalar" else (n if k == "full" else s[0])
        q[v] = dict(k=k, v=[draw(param(v, p)) for _ in range(m)])
    return dict(p=p, shape=s, z=[draw(hgt) for _ in range(n)], q=q)


def run_alone(c):
    p = c["p"]
    s = tuple(c["shape"])
    z = np.array(c["z"]).reshape(s)
    data, full = {}, {}
    for v, d in c["q"].items():
        a = np.array([fx(x) for x in d["v"]], dtype=float)
        if d["k"] == "scalar":
            data[v] = float(a[0])
        elif d["k"] == "full":
            data[v] = a.reshape(s)
        else:
            data[v] = a.reshape((s[0],) + (1,) * (len(s) - 1))
        full[v] = np.broadcast_to(data[v], s)
    prof = build(p)
    if set(prof.input_vars()) != set(needed(p)):
        raise Violation(f"input variables {prof.input_vars()}, expected {needed(p)}")
    # broadcasting by the stability specific profiles is left to numpy
    z0, d0 = z.copy(), {v: np.copy(x) for v, x in data.items()}
    out = np.broadcast_to(np.asarray(prof.calculate(data, z)), s)
    if not np.array_equal(z, z0) or any(not np.array_equal(d0[v], data[v], equal_nan=True) for v in d0):
        raise Violation("the profile modifies its input")
    lb = {p["type"], "ustar" if p["ustar"] else "ref"}
    for i in np.ndindex(*s):
        q = {v: float(x[i]) for v, x in full.items()}
        e = formula(p, z[i], q)
        if not abs(out[i] - e) <= 1e-9 * (1.0 + abs(e)):
            raise Violation(f"{p['type']} at z={z[i]}, {q}: {out[i]}, expected {e}")
        if "H" in q and p["type"] != "UniformProfile":
            if abs(z[i] - q["H"]) > 1.0 and abs(e - q["WS"]) > 1e-6:
                lb.add("nt")
        elif p["type"] in ("DataProfile",) or p["ustar"]:
            lb.add("nt")
    # reference value at the reference height
    if "H" in full:
        zr = np.array(full["H"])
        r = np.broadcast_to(np.asarray(prof.calculate(data, zr)), s)
        if np.any(np.abs(r - full["WS"]) > 1e-9 * full["WS"]):
            raise Violation(f"{p['type']} at the reference height: {r}, expected {full['WS']}")
    # positive and increasing with height
    if p["type"] in ("ABLLogNeutralWsProfile", "ABLLogStableWsProfile") or (p["type"] == "ShearedProfile" and np.all(full["shear"] > 0)):
        a = np.broadcast_to(np.asarray(prof.calculate(data, z)), s)
        b = np.broadcast_to(np.asarray(prof.calculate(data, z + 10.0)), s)
        if np.any(a <= 0.0) or np.any(b <= a):
            raise Violation(f"{p['type']} is not positive and increasing: {a} -> {b}")
    # neutral limit
    if "MOL" in full:
        for sg in (1.0, -1.0):
            if p["type"] == "ABLLogStableWsProfile" and sg < 0 or p["type"] == "ABLLogUnstableWsProfile" and sg > 0:
                continue
            dd = dict(data, MOL=np.full(s, sg * 1e12))
            a = np.broadcast_to(np.asarray(prof.calculate(dd, z)), s)
            for i in np.ndindex(*s):
                e = formula(dict(p, type="ABLLogNeutralWsProfile"), z[i], {v: float(x[i]) for v, x in full.items()})
                if abs(a[i] - e) > 1e-6 * (1 + abs(e)):
                    raise Violation(f"{p['type']} for very large Obukhov length: {a[i]}, neutral {e}")
        lb.add("limit")
    return lb


@st.composite
def states_case(draw):
    p = draw(profile())
    kind = draw(st.sampled_from(["table", "table", "ts", "single"]))
    n = 1 if kind == "single" else draw(st.integers(1, 4))
    q = {}
    for v in needed(p):
        k = "fixed" if kind == "single" else draw(st.sampled_from(["fixed", "col", "col", "mapped"]))
        q[v] = dict(k=k, v=[draw(param(v, p)) for _ in range(1 if k == "fixed" else n)])
        if "nan" in q[v]["v"] and k == "fixed":
            q[v]["v"] = [0.0]
    for v, lo, hi in (("WD", 0.0, 355.0), ("TI", 0.02, 0.2), ("RHO", 1.1, 1.3)):
        k = "fixed" if kind == "single" else draw(st.sampled_from(["fixed", "col"]))
        q[v] = dict(k=k, v=[draw(gen.fl(lo, hi, (hi - lo) / 20)) for _ in range(1 if k == "fixed" else n)])
    pts = [[draw(gen.fl(-500.0, 500.0, 50.0)), draw(gen.fl(-500.0, 500.0, 50.0)), draw(hgt)] for _ in range(draw(st.integers(1, 5)))]
    return dict(p=p, kind=kind, n=n, q=q, pts=pts, as_obj=draw(st.booleans()) or p["type"] == "DataProfile", H=draw(st.sampled_from([80.0, 100.0, 143.0])), cs=draw(st.sampled_from([None, 1, 2])))


def run_states(c):
    import foxes
    import pandas as pd
    import foxes.variables as FV

    p, kind, n = c["p"], c["kind"], c["n"]
    if c["as_obj"]:
        pr = build(p)
    else:
        pr = dict(type=p["type"])
        if p["type"] == "UniformProfile":
            pr["variable"] = "WS"
        if p["ustar"]:
            pr["ustar_input"] = True
    if kind == "single":
        kw = {v: d["v"][0] for v, d in c["q"].items()}
        args = dict(wd=kw.pop("WD"), ti=kw.pop("TI"), rho=kw.pop("RHO"))
        if "WS" in kw:
            args["ws"] = kw.pop("WS")
        states = foxes.input.states.SingleStateStates(profiles={"WS": pr}, **args, **kw)
    else:
        cols, var2col, fixed = {}, {}, {}
        for v, d in c["q"].items():
            if d["k"] == "fixed":
                fixed[v] = d["v"][0]
            else:
                cn = v if d["k"] == "col" else f"my_{v}"
                if cn != v:
                    var2col[v] = cn
                cols[cn] = [fx(x) for x in d["v"]]
        idx = np.arange(n) if kind == "table" else pd.date_range("2020-01-01", periods=n, freq="10min")
        df = pd.DataFrame(cols, index=idx)
        cls = foxes.input.states.StatesTable if kind == "table" else foxes.input.states.Timeseries
        states = cls(df, output_vars=["WS", "WD", "TI", "RHO"], var2col=var2col, fixed_vars=fixed, profiles={"WS": pr})
    farm = foxes.WindFarm()
    farm.add_turbine(foxes.Turbine(xy=[0.0, 0.0], H=c["H"], D=50.0, turbine_models=["null_type"]), verbosity=0)
    algo = foxes.algorithms.Downwind(farm, states, wake_models=[], rotor_model="centre", mbook=foxes.ModelBook(), verbosity=0)
    with gen.engine("numpy", c["cs"]):
        fr = algo.calc_farm()
        pts = np.broadcast_to(np.array(c["pts"])[None], (n, len(c["pts"]), 3)).copy()
        pt = algo.calc_points(fr, pts)
    lb = {p["type"], kind, "ustar" if p["ustar"] else "ref"}
    ws, amb = gen.vals(pt, "WS"), gen.vals(pt, "AMB_WS")
    fws = gen.vals(fr, "AMB_REWS")
    for i in range(n):
        q = {v: fx(d["v"][0 if d["k"] == "fixed" else i]) for v, d in c["q"].items()}
        for j, x in enumerate(c["pts"]):
            e = formula(p, x[2], q)
            if not abs(ws[i, j] - e) <= 1e-8 * (1 + abs(e)) or not abs(amb[i, j] - e) <= 1e-8 * (1 + abs(e)):
                raise Violation(f"{p['type']} in states '{kind}', state {i}, z={x[2]}, {q}: WS {ws[i, j]}, AMB_WS {amb[i, j]}, expected {e}")
            for v in ("WD", "TI", "RHO"):
                if abs(gen.vals(pt, v)[i, j] - q[v]) > 1e-9:
                    raise Violation(f"{v} in states '{kind}', state {i}: {gen.vals(pt, v)[i, j]}, expected {q[v]}")
            if "WS" not in q or abs(e - q["WS"]) > 1e-6:
                lb.add("nt")
        e = formula(p, c["H"], q)
        if not abs(fws[i, 0] - e) <= 1e-8 * (1 + abs(e)):
            raise Violation(f"{p['type']} in states '{kind}', state {i}, hub height {c['H']}, {q}: AMB_REWS {fws[i, 0]}, expected {e}")
    return lb


SUBS = [
    Sub("alone", alone_case(), run_alone, quick=3000),
    Sub("states", states_case(), run_states, quick=600),
]
