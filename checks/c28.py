"""C28: farm result statistics equal the directly computed weighted sums and means"""
import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C28"
RULE = (
    "farm results (generated data sets with state or state-turbine weights, normalised or not, numbered or time-stamped states; and calculated results of "
    "generated mixed farms) x reductions over states, turbines, or both with all operators, yields in all units and periods, capacity factors, efficiencies, "
    "ambient and waked; against plain loops over the numbers; results must stay as they are except for added variables; "
    "non-trivial: several states and turbines with unequal weights"
)
ASSUMPTIONS = ["the operator 'weights' for turbines means the sum over turbines of values weighted by the state weights"]

OPS = ["weights", "mean_no_weights", "sum", "min", "max"]
VARS = ["P", "AMB_P", "REWS", "Q"]


@st.composite
def synth(draw):
    S, T = draw(st.integers(1, 6)), draw(st.integers(1, 4))
    x = st.one_of(gen.fl(-5.0, 5.0, 0.25), gen.fl(0.0, 5000.0, 12.5))
    p = st.one_of(st.just(0.0), gen.fl(0.0, 5000.0, 12.5))
    w = st.sampled_from([0.0, 0.1, 0.2, 0.5, 1.0, 2.0])
    c = dict(
        d={v: [[draw(p if v in ("P", "AMB_P") else x) for _ in range(T)] for _ in range(S)] for v in VARS},
        wst=draw(st.booleans()),
        norm=draw(st.integers(0, 3)) > 0,
        time=draw(st.sampled_from([None, None, "ns", "ns", "s", "us"])),
        dt=[draw(st.sampled_from([600, 1800, 3600, 7200, 90])) for _ in range(S)],
        regular=draw(st.booleans()),
        delta=draw(st.sampled_from([None, None, [30, "m"], [2, "h"], [1, "D"]])),
        hours=draw(st.sampled_from([None, 24, 8760, 100.5])),
        annual=draw(st.booleans()),
        unit=draw(st.sampled_from([1.0, 1e3, 1e6])),
        ops=[[draw(st.sampled_from(OPS)), draw(st.sampled_from(OPS))] for _ in VARS],
        pnom=[draw(gen.fl(1000.0, 5000.0, 250.0)) for _ in range(T)],
        unc=draw(st.sampled_from([None, 0.1, 0.05])),
        nan=draw(st.lists(st.tuples(st.integers(0, S - 1), st.integers(0, T - 1)).map(list), max_size=2)),
    )
    c["w"] = [[draw(w) for _ in range(T if c["wst"] else 1)] for _ in range(S)]
    for j in range(len(c["w"][0])):
        if sum(r[j] for r in c["w"]) == 0:
            c["w"][0][j] = 1.0
    return c


def dataset(c):
    W = np.array(c["w"], dtype=float)
    if c["norm"]:
        W = W / W.sum(axis=0)
    S, T = len(c["d"]["P"]), len(c["d"]["P"][0])
    if c["time"] is None:
        idx = np.arange(S)
    else:
        dt = [c["dt"][0]] * S if c["regular"] else c["dt"]
        t = np.datetime64("2023-02-27T22:30:00", "s") + np.concatenate([[0], np.cumsum(dt[:-1])]).astype("timedelta64[s]")
        idx = t.astype(f"datetime64[{c['time']}]")
    data = {v: (("state", "turbine"), np.array(c["d"][v], dtype=float)) for v in VARS}
    data["weight"] = (("state", "turbine"), W) if c["wst"] else (("state",), W[:, 0])
    return xr.Dataset(data, coords={"state": idx, "turbine": np.arange(T)}), np.broadcast_to(W, (S, T))


def reduce(op, xs, ws=None):
    xs = [float(x) for x in xs]
    if op == "weights":
        return sum(w * x for w, x in zip(ws, xs))
    if op == "mean_no_weights":
        return sum(xs) / len(xs)
    if op == "std":
        m = sum(xs) / len(xs)
        return (sum((x - m) ** 2 for x in xs) / len(xs)) ** 0.5
    return {"sum": sum, "min": min, "max": max}[op](xs)


def chk(what, g, e, atol=1e-9):
    g, e = np.asarray(g, dtype=float), np.asarray(e, dtype=float)
    if g.shape != e.shape:
        raise Violation(f"{what}: shape {g.shape}, expecting {e.shape}")
    bad = np.abs(g - e) > 1e-9 * np.abs(e) + atol
    if np.any(bad | (np.isnan(g) != np.isnan(e))):
        raise Violation(f"{what}: {g.tolist()}, directly computed {e.tolist()}")


def same(ds0, ds1, what, new=()):
    if set(ds1.data_vars) != set(ds0.data_vars) | set(new):
        raise Violation(f"{what}: results variables are now {sorted(ds1.data_vars)}")
    for v in ds0.variables:
        a, b = ds0[v].to_numpy(), ds1[v].to_numpy()
        if a.dtype.kind in "fiubM" and not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
            raise Violation(f"{what}: {v} of the results changed from {a.tolist()} to {b.tolist()}")


def stats(fr, W, ops, vs, hours_kw, period, annual, units, pnoms, unc, algo=None, unit=None, nan=()):
    """All statistics, against plain loops"""
    from foxes.output import FarmResultsEval

    S, T = W.shape
    fr0 = fr.copy(deep=True)
    o = FarmResultsEval(fr)
    D = {v: gen.vals(fr, v) for v in vs}

    def red_s(v, op):
        return [reduce(op, D[v][:, t], W[:, t]) for t in range(T)]

    so, to = {v: a for v, (a, b) in zip(vs, ops)}, {v: b for v, (a, b) in zip(vs, ops)}
    r = o.reduce_states(so)
    if list(r.columns) != list(vs) or r.index.name != "turbine" or list(r.index) != list(range(T)):
        raise Violation(f"reduce_states: columns {list(r.columns)}, index {list(r.index)}")
    for v in vs:
        chk(f"reduce_states {v} {so[v]}", r[v], red_s(v, so[v]))
    r = o.reduce_turbines(to)
    if list(r.index) != list(pd.Index(fr["state"].to_numpy())) or r.index.name != "state":
        raise Violation(f"reduce_turbines: index {list(r.index)}")
    for v in vs:
        e = [sum(W[s, t] * D[v][s, t] for t in range(T)) if to[v] == "weights" else reduce(to[v], D[v][s]) for s in range(S)]
        chk(f"reduce_turbines {v} {to[v]}", r[v], e)
    r = o.reduce_all(so, to)
    for v in vs:
        x = red_s(v, so[v])
        if to[v] == "weights":
            x = [sum(W[:, t]) * y if so[v] != "weights" else y for t, y in enumerate(x)]
            e = sum(x)
        else:
            e = reduce(to[v], x)
        chk(f"reduce_all {v} {so[v]} {to[v]}", r[v], e)
    r, r2 = o.calc_states_mean(list(vs)), o.calc_states_mean(vs[0], use_weights=False)
    chk("calc_states_mean", r2[vs[0]], red_s(vs[0], "mean_no_weights"))
    q = dict(sum=o.calc_states_sum(list(vs)), std=o.calc_states_std(list(vs)), weights=r)
    for op, r in q.items():
        for v in vs:
            chk(f"calc_states {op} {v}", r[v], red_s(v, op))
    rm, rs = o.calc_turbine_mean(list(vs)), o.calc_turbine_sum(list(vs))
    fm, fs = o.calc_farm_mean(list(vs)), o.calc_farm_sum(list(vs))
    for v in vs:
        chk(f"calc_turbine_mean {v}", rm[v], [reduce("mean_no_weights", D[v][s]) for s in range(S)])
        chk(f"calc_turbine_sum {v}", rs[v], [reduce("sum", D[v][s]) for s in range(S)])
        chk(f"calc_farm_mean {v}", fm[v], sum(red_s(v, "weights")) / T)
        chk(f"calc_farm_sum {v}", fs[v], float(D[v].sum()))
        chk(f"sum over states then turbines {v}", float(rs[v].sum()), float(q["sum"][v].sum()))

    # powers, yields, capacity, efficiency
    mp = {}
    for amb in (False, True):
        v = "AMB_P" if amb else "P"
        mp[amb] = sum(red_s(v, "weights"))
        chk(f"calc_mean_farm_power ambient={amb}", o.calc_mean_farm_power(ambient=amb), mp[amb])
        kw = dict(algo=algo) if unit is None else dict(P_unit_W=unit)
        kw.update(annual=annual, ambient=amb, **hours_kw)
        h = 8760 if annual else period
        e = np.array([m * units[t] * h / 1e9 for t, m in enumerate(red_s(v, "weights"))])
        yld = o.calc_turbine_yield(**kw)
        yv = "AMB_YLD" if amb else "YLD"
        if list(yld.columns) != [yv] or list(yld.index) != list(range(T)):
            raise Violation(f"calc_turbine_yield: columns {list(yld.columns)}")
        chk(f"calc_turbine_yield {kw}", yld[yv], e, 1e-16)
        for fkw in (dict(turbine_yield=yld), kw):
            f = o.calc_farm_yield(power_uncert=unc, **fkw)
            if unc is None:
                chk(f"calc_farm_yield ambient={amb}", f, e.sum(), 1e-16)
            else:
                chk(f"calc_farm_yield ambient={amb}", np.array(f), e.sum() * np.array([1, 1 - 0.675 * unc, 1 - 1.282 * unc]), 1e-16)
    eff = o.calc_farm_efficiency()
    chk("calc_farm_efficiency", eff, min(mp[False] / mp[True], 1.0) if mp[True] > 0 else (0.0 if mp[False] == 0 else 1.0))

    # nan values in data: weighted means over the remaining states
    if nan:
        x = D["P"].copy()
        for s, t in nan:
            x[s, t] = np.nan
        ok = ~np.any(np.isnan(x), axis=1)
        if np.all(W[ok].sum(axis=0) > 0):
            x0 = x.copy()
            for rhs in ("t", ""):
                e = [sum(W[ok][:, t] * x[ok][:, t]) * sum(W[:, t]) / sum(W[ok][:, t]) for t in range(T)]
                chk("weinsum with nan", o.weinsum(rhs, x), e if rhs == "t" else sum(e))
            if not np.array_equal(x, x0, equal_nan=True):
                raise Violation("weinsum changed the given data")

    same(fr0, o.results, "statistics")
    new = []
    for amb in (False, True):
        o.add_capacity(**(dict(algo=algo) if unit is None else dict(P_nom=list(pnoms))), ambient=amb, verbosity=0)
        new.append("AMB_CAP" if amb else "CAP")
        chk(f"{new[-1]}", gen.vals(o.results, new[-1]), D["AMB_P" if amb else "P"] / np.asarray(pnoms)[None, :])
    o.add_efficiency(verbosity=0)
    e = [[0.0 if p < 1e-10 else min(p / max(a, 1e-12), 1.0) for p, a in zip(x, y)] for x, y in zip(D["P"], D["AMB_P"])]
    chk("EFF", gen.vals(o.results, "EFF"), e)
    same(fr0, o.results, "adding variables", new + ["EFF"])


def run_synth(c):
    fr, W = dataset(c)
    S, T = W.shape
    if c["time"] is None:
        if c["hours"] is None:
            c = dict(c, annual=True)
        kw, period = (dict() if c["hours"] is None else dict(hours=c["hours"])), c["hours"]
    else:
        dt = [c["dt"][0]] * S if c["regular"] else c["dt"]
        d = c["delta"]
        kw = {}
        if d is not None or S == 1:
            d = d or [30, "m"]
            kw["delta_t"] = np.timedelta64(d[0], d[1])
            last = d[0] * {"m": 60, "h": 3600, "D": 86400}[d[1]]
        else:
            last = dt[S - 2]
        period = (sum(dt[: S - 1]) + last) / 3600
    stats(fr, W, c["ops"], VARS, kw, period, c["annual"], [c["unit"]] * T, c["pnom"], c["unc"], unit=c["unit"], nan=c["nan"])
    uneq = len({round(float(x), 9) for x in W.reshape(-1)}) > 1
    return {c["time"] or "numbered", "w_st" if c["wst"] else "w_s"} | ({"nt"} if S > 1 and T > 1 and uneq else set())


UNITS = {"W": 1.0, "kW": 1e3, "MW": 1e6}


@st.composite
def farm(draw):
    sc = draw(gen.scenario(nmin=1, nmax=4, smin=1, smax=5))
    S = len(sc["states"]["rows"])
    sc["time"] = draw(st.sampled_from([None, "ns", "s"]))
    sc["weights"] = [draw(st.sampled_from([0.1, 0.5, 1.0, 2.0])) for _ in range(S)]
    sc["wcol"] = draw(st.booleans())
    sc["units"] = [draw(st.sampled_from(list(UNITS))) for _ in sc["types"]]
    sc["hours"] = draw(st.sampled_from([24, 8760, 720.0]))
    sc["annual"] = draw(st.booleans())
    sc["unc"] = draw(st.sampled_from([None, 0.08]))
    sc["ops"] = [[draw(st.sampled_from(OPS)), draw(st.sampled_from(OPS))] for _ in range(4)]
    sc["norm"] = draw(st.booleans())
    sc["normalize"] = draw(st.booleans())
    return sc


def run_farm(sc):
    import foxes

    rows = sc["states"]["rows"]
    S = len(rows)
    df = gen.table_df(rows)
    oc = [x for x in ("WS", "WD", "TI", "RHO")]
    df = pd.DataFrame({v: [r[i] for r in rows] for i, v in enumerate(oc)})
    w = np.array(sc["weights"])
    if sc["time"] and S > 1:
        df.index = pd.date_range("2021-12-31 20:00", periods=S, freq="10min", unit=sc["time"])
        states = foxes.input.states.Timeseries(df, output_vars=oc)
        w = np.full(S, 1.0 / S)
    else:
        df["w"] = w
        states = foxes.input.states.StatesTable(df, output_vars=oc, var2col={"weight": "w"})
        if sc["norm"]:
            df["w"] = w / w.sum()
        w = w / w.sum() if sc["norm"] else w
    algo = gen.build_algo(sc, states=states)
    for i, tt in enumerate(sc["types"]):
        n = gen.type_name(sc, i)
        algo.mbook.turbine_types[n].P_unit = sc["units"][i]
    with gen.engine("single"):
        fr = algo.calc_farm(**(dict(normalize=True) if sc["normalize"] else {}))
    w = w / w.sum() if sc["normalize"] else w
    T = len(sc["turbines"])
    units = [UNITS[sc["units"][t["t"]]] for t in sc["turbines"]]
    # several types may be the same model object
    names = [gen.type_name(sc, t["t"]) for t in sc["turbines"]]
    units = [UNITS[algo.mbook.turbine_types[n].P_unit] for n in names]
    pn = [gen.type_Pn(sc["types"][t["t"]]) for t in sc["turbines"]]
    W = np.broadcast_to(w[:, None], (S, T))
    chk("weights in the farm results", np.broadcast_to(np.atleast_2d(gen.vals(fr, "weight").reshape(S, -1)), (S, T)), W)
    if sc["time"] and S > 1:
        kw, period = {}, S / 6
    else:
        kw, period = dict(hours=sc["hours"]), sc["hours"]
    fr = fr.load()
    stats(fr, W, sc["ops"], ["P", "AMB_P", "REWS", "TI"], kw, period, sc["annual"], units, pn, sc["unc"], algo=algo)
    return {"farm", "time" if kw == {} else "hours"} | ({"nt"} if S > 1 and T > 1 and gen.has_wakes(fr) else set())


SUBS = [
    Sub("synth", synth(), run_synth, quick=800),
    Sub("farm", farm(), run_farm, quick=200),
]
