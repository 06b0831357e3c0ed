"""C32: point data models add exactly their documented quantities to states and point results"""
import copy
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import gen
from vf.gen import fl
from vf.runner import Sub, Violation, Skip

PROPERTY = "C32"
RULE = (
    "generated farms, states tables with additional columns, wake models and chains of one to four point models (uniform data as scalars, frame or csv file; TKE2TI, Ustar2TI with and without "
    "limit, WakeDeltas, own models); attached to the states in all documented ways and compared to a states table that contains the modified data, or given to calc_points by name "
    "or object and compared to the documented formulas applied to the results without them; non-trivial: the models change results, and the farm has wakes"
)
ASSUMPTIONS = [
    "models given to calc_points do not modify the inputs of wake effects, except TI which is then fully replaced",
    "wake deltas of purely ambient calculations are not judged",
]
COLS = ["WS", "WD", "TI", "RHO", "TKE", "USTAR"]
VAR2AMB = dict(WS="AMB_WS", WD="AMB_WD", TI="AMB_TI", RHO="AMB_RHO")


def own_models():
    from foxes.core import PointDataModel

    class Scale(PointDataModel):
        """v -> a * v + b"""

        def __init__(self, v, a, b):
            super().__init__()
            self.v, self.a, self.b = v, a, b

        def output_point_vars(self, algo):
            return [self.v]

        def calculate(self, algo, mdata, fdata, tdata):
            return {self.v: self.a * tdata[self.v] + self.b}

    class Combine(PointDataModel):
        """new variable from two others"""

        def __init__(self, v, u, w, a):
            super().__init__()
            self.v, self.u, self.w, self.a = v, u, w, a

        def output_point_vars(self, algo):
            return [self.v]

        def calculate(self, algo, mdata, fdata, tdata):
            return {self.v: tdata[self.u] + self.a * tdata[self.w]}

    return Scale, Combine


# ----------------------------------------------------------------- generator


@st.composite
def uniform(draw, S, variables):
    vs = draw(st.lists(st.sampled_from(variables), min_size=1, max_size=3, unique=True))
    src = draw(st.sampled_from(["dict", "frame", "frame", "csv"]))
    val = dict(WS=fl(4.0, 14.0, 0.3), WD=fl(0.0, 350.0, 7.1), TI=fl(0.03, 0.2, 0.01), RHO=fl(1.0, 1.3, 0.03), TKE=fl(0.2, 3.0, 0.1), USTAR=fl(0.1, 0.8, 0.05), own=fl(-3.0, 3.0, 0.5), own2=fl(1.0, 9.0, 0.5))
    d = {v: draw(val[v]) if src == "dict" else [draw(val[v]) for _ in range(S)] for v in vs}
    return ["set", d, src, draw(st.booleans())]


@st.composite
def base(draw):
    sc = draw(gen.scenario(nmin=1, nmax=4, smin=1, smax=5, profile=False))
    S = len(sc["states"]["rows"])
    sc["extra"] = [[draw(fl(0.2, 3.0, 0.1)), draw(fl(0.1, 0.8, 0.05))] for _ in range(S)]
    sc["eng"] = draw(st.sampled_from([["single", None, None, None], ["numpy", 2, 3, None], ["numpy", 1, 2, None], ["threads", 2, 2, 2]]))
    sc["pts"] = [[draw(fl(-500.0, 3000.0, 50.0)), draw(fl(-500.0, 3000.0, 50.0)), draw(fl(30.0, 200.0, 10.0))] for _ in range(draw(st.integers(1, 5)))]
    sc["index"] = draw(st.sampled_from([None, "time", "labels"]))
    return sc


@st.composite
def ext(draw):
    c = draw(base())
    S = len(c["extra"])
    ch = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["set", "set", "tke2ti", "ustar2ti", "scale", "combine"]))
        if k == "set":
            ch.append(draw(uniform(S, COLS + ["own"])))
        elif k == "ustar2ti":
            ch.append([k, draw(st.sampled_from([None, 0.05, 0.1, 0.2]))])
        elif k == "scale":
            v, a, b = draw(st.sampled_from([("WS", 1.05, 0.1), ("WD", 1.0, 33.7), ("TI", 1.2, 0.01), ("RHO", 0.9, 0.05)]))
            ch.append([k, v, a, b])
        elif k == "combine":
            ch.append([k, "TI", "TI", "USTAR", 0.05])
        else:
            ch.append([k])
    c["chain"] = ch
    c["how"] = draw(st.sampled_from(["ctor", "each", "list", "append", "ext", "plist", "nested", "sum"]))
    c["algo"] = draw(st.sampled_from(["Downwind", "Downwind", "Iterative"]))
    return c


@st.composite
def points(draw):
    c = draw(base())
    S = len(c["extra"])
    ch = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["set", "set", "tke2ti", "ustar2ti", "combine"]))
        if k == "set":
            ch.append(draw(uniform(S, ["TI", "TKE", "USTAR", "own", "own2"])))
        elif k == "ustar2ti":
            ch.append([k, draw(st.sampled_from([None, 0.05, 0.1, 0.2]))])
        elif k == "combine":
            ch.append([k, draw(st.sampled_from(["own", "own2"])), draw(st.sampled_from(["WS", "RHO", "TKE"])), draw(st.sampled_from(["WS", "WD", "USTAR"])), draw(fl(-2.0, 2.0, 0.5))])
        else:
            ch.append([k])
    # the models run twice, for ambient and waked data
    ch.sort(key=lambda m: m[0] != "set")
    if draw(st.booleans()):
        ch.append(["deltas", draw(st.lists(st.sampled_from(["WS", "TI", "RHO"]), min_size=1, max_size=2, unique=True)), draw(st.booleans())])
    c["chain"] = ch
    c["profile"] = draw(st.booleans())
    c["names"] = draw(st.booleans())
    c["kw"] = draw(st.sampled_from([{}, {}, dict(ambient=True), dict(isel=1), dict(isel=2)]))
    c["outs"] = draw(st.booleans())
    c["algo"] = draw(st.sampled_from(["Downwind", "Downwind", "Iterative"]))
    c["again"] = draw(st.booleans())
    return c


# ------------------------------------------------------------------- builder


def table(c, rows=None):
    """Data frame of the base states"""
    df = pd.DataFrame([list(r) + list(e) for r, e in zip(c["states"]["rows"], c["extra"])] if rows is None else rows, columns=COLS, dtype=float)
    if c["index"] == "time":
        df.index = pd.Timestamp("2021-03-01") + pd.to_timedelta(np.arange(len(df)) * 30, unit="min")
        df.index.name = "Time"
    elif c["index"] == "labels":
        df.index = [10 * i + 7 for i in range(len(df))]
        df.index.name = "case"
    return df


def states(c, df):
    import foxes

    kw = {}
    if c.get("profile"):
        kw.update(profiles=dict(WS=dict(type="ABLLogNeutralWsProfile")), fixed_vars=dict(H=100.0, z0=0.05))
    return foxes.input.states.StatesTable(df, output_vars=list(COLS), **kw)


def build_chain(c, tmp):
    import foxes.models.point_models as pm

    Scale, Combine = own_models()
    out = []
    for i, m in enumerate(c["chain"]):
        k = m[0]
        if k == "set":
            d, src, ren = m[1], m[2], m[3]
            v2c = {v: f"col_{v.lower()}" for v in d} if ren else {}
            data = {v2c.get(v, v): x for v, x in d.items()}
            data["unused"] = 1.0 if src == "dict" else [1.0] * len(c["extra"])
            if src != "dict":
                data = pd.DataFrame(data, index=table(c).index)
            if src == "csv":
                f = f"{tmp}/uniform_{i}.csv"
                data.to_csv(f)
                data = f
            mod = pm.SetUniformData(data, output_vars=list(d), **(dict(var2col=v2c) if ren else {}))
        elif k == "tke2ti":
            mod = pm.TKE2TI()
        elif k == "ustar2ti":
            mod = pm.Ustar2TI(max_ti=m[1]) if m[1] is not None else pm.Ustar2TI()
        elif k == "deltas":
            mod = pm.WakeDeltas(list(m[1]), normalize=m[2])
        elif k == "scale":
            mod = Scale(*m[1:])
        else:
            mod = Combine(*m[1:])
        out.append(mod)
    return out


def apply(m, e, amb=None):
    """The documented effect, on arrays with first dimension state"""
    k = m[0]
    if k == "set":
        for v, x in m[1].items():
            shape = e["WS"].shape
            x = np.asarray(x, dtype=float)
            e[v] = np.broadcast_to(x.reshape(x.shape + (1,) * (len(shape) - 1) if x.ndim else ()), shape).copy()
    elif k == "tke2ti":
        e["TI"] = np.sqrt(1.5 * e["TKE"]) / e["WS"]
    elif k == "ustar2ti":
        t = e["USTAR"] / 0.41 / e["WS"]
        e["TI"] = t if m[1] is None else np.minimum(t, m[1])
    elif k == "scale":
        e[m[1]] = m[2] * e[m[1]] + m[3]
    elif k == "combine":
        e[m[1]] = e[m[2]] + m[4] * e[m[3]]
    elif amb is not None:
        for v in m[1]:
            d = e[v] - amb[v]
            e[f"DELTA_{v}"] = d / amb[v] if m[2] else d


def expect(what, v, got, want, tol=1e-9):
    r = gen.diff(v, got, want, tol)
    if r.size and r.max() > 1:
        i = np.unravel_index(np.argmax(r), r.shape)
        raise Violation(f"{what}: {v} is {np.asarray(got)[i]}, expecting {np.broadcast_to(want, r.shape)[i]} at {i}")


# ----------------------------------------------------------------- sub checks


def attach(how, s, mods):
    from foxes.core import ExtendedStates, PointDataModelList

    if how == "ctor":
        return ExtendedStates(s, list(mods))
    if how == "list":
        return s + list(mods)
    if how == "append":
        e = ExtendedStates(s, mods[:1])
        for m in mods[1:]:
            e.append(m)
        return e
    if how == "ext":
        # two extensions of the same states
        k = len(mods) // 2
        return (s + ExtendedStates(s, mods[:k])) + ExtendedStates(s, mods[k:])
    if how == "plist":
        l = PointDataModelList()
        for m in mods:
            l.append(m)
        if len(PointDataModelList().models):
            raise Violation("a new empty list of point models has entries")
        return s + l
    if how == "nested":
        return ExtendedStates(s + mods[:1], list(mods[1:]))
    if how == "sum":
        l = mods[0]
        for m in mods[1:]:
            l = l + m
        return s + (l.models if len(mods) > 1 else [l])
    e = s
    for m in mods:
        e = e + m
    return e


def run_ext(c):
    from foxes.utils import Dict

    if c["algo"] == "Iterative" and len(c["turbines"]) > 1 and c.get("frame") != "rotor_wd":
        c["algo"] = "Downwind"
    with gen.scratch() as tmp:
        mods = build_chain(c, tmp)
        df = table(c)
        env = {v: df[v].to_numpy(dtype=float) for v in COLS}
        for m in c["chain"]:
            apply(m, env)
        env["WD"] = env["WD"] if np.all((env["WD"] >= 0) & (env["WD"] < 1e4)) else env["WD"] % 360
        if env["WS"].min() < 0.5:
            raise Skip("calm")
        own = env.pop("own", None)
        s0 = states(c, df)
        s1 = attach(c["how"], s0, mods)
        ref = states(c, table(c, np.stack([env[v] for v in COLS], axis=-1)))
        if s1.size() != len(df):
            raise Violation(f"size {s1.size()}, the table has {len(df)} rows") if s0.size() else Skip("size")
        res = []
        for s in (ref, s1):
            algo = gen.build_algo(c, states=s, algo=c["algo"])
            with gen.engine(*(["single"] + [None] * 3 if s is ref else c["eng"])):
                fr = algo.calc_farm()
                if list(algo.states.index()) != list(df.index):
                    raise Violation(f"states index {list(algo.states.index())}, the table has {list(df.index)}") if s is s1 else Skip("index")
                pr = algo.calc_points(fr, gen.points_array(c["pts"], algo))
                algo.finalize()
            res.append((fr, pr))
        (f0, p0), (f1, p1) = res
        for w, a, b in (("farm results", f0, f1), ("point results", p0, p1)):
            if list(a["state"].values) != list(b["state"].values):
                raise Violation(f"{w}: states {b['state'].values}, expecting {a['state'].values}")
            for v in a.data_vars:
                if v in ("tname", "order_ssel", "order", "order_inv"):
                    continue
                if v not in b:
                    raise Violation(f"{w}: variable {v} is missing, found {sorted(b.data_vars)}")
                expect(f"{w} ({c['how']})", v, gen.vals(b, v), gen.vals(a, v), 1e-8)
        if own is not None:
            if "own" not in p1:
                raise Violation(f"point results: variable own is missing, found {sorted(p1.data_vars)}")
            expect("point results", "own", gen.vals(p1, "own"), own[:, None])
        # the states that were extended
        algo = gen.build_algo(c, states=s0, algo=c["algo"])
        with gen.engine():
            b0 = algo.calc_farm()
        for v, u in (("WS", "AMB_REWS"), ("TI", "AMB_TI"), ("RHO", "AMB_RHO")):
            if c.get("rotor") == "centre" or v != "WS":
                expect("original states afterwards", u, gen.vals(b0, u), df[v].to_numpy()[:, None])
    changed = any(not np.array_equal(env[v], df[v].to_numpy()) for v in ("WS", "WD", "TI", "RHO"))
    labs = {c["how"]} | {m[0] for m in c["chain"]}
    if (changed or own is not None) and gen.has_wakes(f0):
        labs.add("nt")
    return labs


def run_points(c):
    with gen.scratch() as tmp:
        mods = build_chain(c, tmp)
        df = table(c)
        mb = gen.build_mbook(c)
        given = list(mods)
        if c["names"]:
            for i, m in enumerate(mods):
                mb.point_models[f"pm{i}"] = m
                given[i] = f"pm{i}"
                if c["chain"][i] == ["tke2ti"]:
                    given[i] = "tke2ti"
                elif c["chain"][i] == ["ustar2ti", None]:
                    given[i] = "ustar2ti"
        if len(given) == 1:
            given = given[0]
        algo = gen.build_algo(c, states=states(c, df), mbook=mb, algo=c["algo"])
        amb = c["kw"].get("ambient", False)
        n = len(df)
        sel = list(range(n))
        with gen.engine(*c["eng"]):
            fr = algo.calc_farm()
            p = gen.points_array(c["pts"], algo)
            pr0 = algo.calc_points(fr, p)
            kw = {}
            if amb:
                kw["ambient"] = True
            if "isel" in c["kw"] and n > 1:
                sel = [n - 1] if c["kw"]["isel"] == 1 else list(range(1, n))
                kw["states_isel"] = sel
                p = p[sel]
            # expected
            S = slice(None)
            ea = {v: gen.vals(pr0, VAR2AMB.get(v, v)) for v in COLS}
            ew = {v: gen.vals(pr0, v) for v in COLS}
            for m in c["chain"]:
                apply(m, ea)
            for m in c["chain"]:
                apply(m, ew, ea)
            want = {}
            for v, x in (ea if amb else ew).items():
                if not (amb and v in VAR2AMB):
                    want[v] = x
            for v, a in VAR2AMB.items():
                want[a] = ea[v]
            if c["outs"]:
                kw["outputs"] = sorted(want)[:: 2 if len(want) > 3 else 1] + ["AMB_WS"]
                kw["outputs"] = sorted(set(kw["outputs"]))
                want = {v: want[v] for v in kw["outputs"]}
            for rep in range(2 if c["again"] else 1):
                pr1 = algo.calc_points(fr, p, point_models=given, **kw)
                for v, x in want.items():
                    if v not in pr1:
                        raise Violation(f"variable {v} is missing, found {sorted(pr1.data_vars)}")
                    expect(f"point results, run {rep}, models {[m[0] for m in c['chain']]}", v, gen.vals(pr1, v), x[sel], 1e-9)
            # without models again
            pr2 = algo.calc_points(fr, gen.points_array(c["pts"], algo))
        for v in pr0.data_vars:
            if v not in pr2:
                raise Violation(f"variable {v} is missing in later results without models")
            expect("later results without models", v, gen.vals(pr2, v), gen.vals(pr0, v))
    labs = {m[0] for m in c["chain"]} | set(c["kw"])
    if amb or np.any(np.abs(gen.vals(pr0, "WS") - gen.vals(pr0, "AMB_WS")) > 1e-4):
        labs.add("nt")
    return labs


SUBS = [
    Sub("ext", ext(), run_ext, 350),
    Sub("points", points(), run_points, 350),
]
