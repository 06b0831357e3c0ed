"""C15: repeated calculations with shared objects give the results of fresh objects, and inputs are not modified"""
import copy
import json
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import gen
from vf.gen import fl
from vf.runner import Sub, Violation, quiet

PROPERTY = "C15"
RULE = (
    "generated histories of constructing algorithms (Downwind, Iterative, Sequential) for two to four configurations that share a model book, farms, states, models, data frames, convergence criteria and "
    "parameter dictionaries, and of farm calculations, point calculations, initializations and finalizations in any order; every result is compared to the same call on objects created for "
    "it alone, and all inputs and all earlier results are compared to their initial values at the end; non-trivial: at least two algorithms share objects, and some farm has wakes"
)
ASSUMPTIONS = [
    "an algorithm that still holds the shared models (finalize=False) is finalized before another one that shares them is used, and with it the point models it was given",
    "entries that the model book adds to itself for requested names are not regarded as modifications",
]
NAMES = ["Aa", "Bb", "Cc", "Dd", "Ee", "Ff"]


# ----------------------------------------------------------------- generator


@st.composite
def config(draw, nf, ns, kinds, nS, like=None, dyn=False):
    w = draw(gen.wake_models())
    rot = draw(st.sampled_from(["centre", "centre", "grid4", "level5", "grid9", "rv"]))
    alg = draw(st.sampled_from(["Downwind", "Downwind", "Downwind", "Iterative", "Iterative", "Sequential"]))
    s = draw(st.integers(0, ns - 1))
    if dyn:
        alg = "Iterative"
    if alg == "Sequential" and kinds[s] in ("nc", "onepoint"):
        alg = "Iterative"
    frames = ["rotor_wd", "rotor_wd", "yawed"] + (["rotor_wd_farmo"] if alg == "Iterative" else [])
    if alg == "Iterative" and kinds[s] == "ts" and nS > 1:
        frames += ["timelines", "dyn_wakes", "dyn_wakes"]
    fr = draw(st.sampled_from(frames[-3:] if dyn and "timelines" in frames else frames))
    if like is not None and like["frame"] in frames and draw(st.integers(0, 2)) > 0:
        fr = like["frame"]
    return dict(
        algo=alg, farm=draw(st.integers(0, nf - 1)), states=s, wakes=w, rotor=rot, frame=fr, partial=draw(gen.partial(w, rot)), ground=draw(gen.ground(w)),
        conv=draw(st.booleans()), cut=draw(st.sampled_from([None, None, {}, dict(modify_ct=False), dict(modify_P=True)])),
    )


ENGINES = [["single", None, None, None], ["numpy", 2, 3, None], ["numpy", 1, 1, None], ["threads", 1, 2, 2]]
TMODELS = ["sec", "lut", "fac", "yset", "calc", "mask", "thrust", "kTI_02", "kTI_amb_03"]


@st.composite
def case(draw, dyn=False):
    types, ts = draw(gen.turbines(2, 5))
    farms = [ts]
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.integers(0, 2))
        if k == 0:
            t2 = [dict(t) for t in draw(st.permutations(ts))]
        elif k == 1:
            t2 = [dict(t) for t in ts[: draw(st.integers(1, len(ts)))]]
        else:
            t2 = [dict(t, xy=[-t["xy"][1], t["xy"][0]], t=draw(st.integers(0, len(types) - 1))) for t in ts]
        farms.append(t2)
    tm = draw(st.lists(st.sampled_from(TMODELS), max_size=3, unique=True))
    fs = []
    for f in farms:
        rw = draw(st.integers(0, 2)) == 0
        f = [dict(t, rw=rw) for t in f]
        names = draw(st.permutations(NAMES))[: len(f)]
        for t, n in zip(f, names):
            t["name"] = n
            t["m"] = list(t.get("m", [])) + [m for m in tm if m == "yset" or draw(st.integers(0, 3)) > 0]
        fs.append(f)
    nS = draw(st.integers(2, 5)) if dyn else draw(st.integers(1, 4))
    states = []
    for _ in range(draw(st.integers(1, 3))):
        rows = draw(gen.table(nS, nS, ws_lo=4.0, ws_hi=16.0))
        k = draw(st.integers(0, 3))
        s = dict(kind="ts", rows=rows) if dyn else dict(kind="table", rows=rows) if k < 2 else draw(gen.other_states(rows))
        if s["kind"] == "ts":
            s["dt"] = draw(st.sampled_from([30, 60, 120, 600, 3600]))
        if s["kind"] == "table":
            s["profile"] = draw(st.sampled_from([None, None, "ShearedProfile", "ABLLogNeutralWsProfile"]))
            s["src"] = draw(st.sampled_from(["df", "df", "csv", "cols"]))
            s["q"] = draw(st.booleans())
        states.append(s)
    kinds = [s["kind"] for s in states]
    cfgs = []
    for _ in range(draw(st.integers(1, 3))):
        cfgs.append(draw(config(len(fs), len(states), kinds, nS, like=cfgs[0] if cfgs else None, dyn=dyn)))
    pts = [[[draw(fl(-500.0, 3000.0, 50.0)), draw(fl(-500.0, 3000.0, 50.0)), draw(fl(30.0, 200.0, 10.0))] for _ in range(draw(st.integers(1, 3)))] for _ in range(2)]
    ops = [["new", draw(st.integers(0, len(cfgs) - 1))] for _ in range(draw(st.integers(1, 3)))]
    n = len(ops)
    for _ in range(draw(st.integers(3, 8))):
        o = draw(st.sampled_from(["farm", "points", "points", "points", "init", "final"] if dyn else ["new", "farm", "farm", "farm", "points", "points", "init", "final", "eval"])) if n else "new"
        if o == "new":
            ops.append(["new", draw(st.integers(0, len(cfgs) - 1))])
            n += 1
            continue
        s = draw(st.integers(0, n - 1))
        fin = draw(st.sampled_from([True, True, True, False]))
        if o == "farm":
            ops.append([o, s, dict(
                finalize=fin, ambient=draw(st.sampled_from([False, False, False, True])), outputs=draw(st.sampled_from([None, None, "default", ["REWS", "P", "AMB_TI"]])),
                cpars=draw(st.sampled_from([None, None, "empty"])), normalize=draw(st.booleans()),
            )])
        elif o == "points":
            ops.append([o, s, dict(
                finalize=fin, ambient=draw(st.sampled_from([False, False, True])), pts=draw(st.integers(0, 1)), pm=draw(st.sampled_from([None, None, "own", "set", "name"])),
                outputs=draw(st.sampled_from([None, None, ["WS", "AMB_WS"]])), cpars=draw(st.sampled_from([None, None, "empty"])),
            )])
        else:
            ops.append([o, s])
    c = dict(types=types, farms=fs, states=states, cfgs=cfgs, tm=tm, pts=pts, ops=ops, eng=draw(st.sampled_from(ENGINES)))
    if draw(st.booleans()) and all(q["algo"] != "Sequential" for q in cfgs):
        # the engine of each step
        c["engs"] = [draw(st.sampled_from(ENGINES)) for _ in ops]
    return c


# --------------------------------------------------------------------- world


class World:
    """All objects of a case, created once"""

    def __init__(self, c):
        import foxes
        import foxes.models as fm

        self.c = c
        self.frames = {}
        mb = fm.ModelBook()
        gen.build_mbook(dict(types=c["types"]), mb)
        TM = fm.turbine_models
        F = self.frames
        F["sec"] = pd.DataFrame(dict(tname=[n for n in NAMES for _ in range(2)], WD_min=[10.0 * i for i in range(12)], WD_max=[10.0 * i + 170.0 for i in range(12)], S1=[0.5 + 0.1 * i for i in range(12)]))
        F["sec"] = F["sec"].iloc[::2] if len(c["tm"]) % 2 else F["sec"].iloc[1::2]
        F["sec"].index = [5, 3, 8, 1, 0, 2]
        names = sorted({t["name"] for f in c["farms"] for t in f})
        used = set(names) if len(c["farms"]) == 1 else set.intersection(*[{t["name"] for t in f} for f in c["farms"]])
        F["sec"] = F["sec"][F["sec"]["tname"].isin(sorted(used))]
        self.no_sec = not used
        F["lut"] = pd.DataFrame(dict(WD=[0.0, 120.0, 240.0, 360.0], res=[0.03, 0.06, 0.045, 0.03]))
        F["fac"] = pd.DataFrame(np.array([[1.0, 0.9], [0.8, 0.95], [0.7, 0.9]]), index=[0.0, 1.0, 1e6], columns=["-10", "400"])
        F["curve"] = pd.DataFrame(dict(ws=[3.0, 6.0, 9.0, 12.0, 15.0, 25.0], P=[0.0, 400.0, 1500.0, 2900.0, 3000.0, 3000.0], ct=[0.0, 0.85, 0.8, 0.6, 0.3, 0.1]))
        mb.turbine_types["rwt"] = fm.turbine_types.PCtFile(F["curve"], var_ws_ct="REWS", var_ws_P="REWS", D=110.0, H=95.0)
        self.dicts = {}
        D = self.dicts
        D["varmap"] = {"k": "res"}
        mb.turbine_models["sec"] = TM.SectorManagement(F["sec"], range_vars=["WD"], target_vars=["S1"], col_tnames="tname")
        mb.turbine_models["lut"] = TM.LookupTable(F["lut"], input_vars=["WD"], output_vars=["k"], varmap=D["varmap"])
        mb.turbine_models["fac"] = TM.TableFactors(F["fac"], "TI", "WD", ["P"])
        x = TM.SetFarmVars(pre_rotor=False)
        x.add_var("YAWM", 12.0)
        mb.turbine_models["yset"] = x
        mb.turbine_models["calc"] = TM.Calculator(in_vars=["REWS", "CT"], out_vars=["Q3"], func=lambda a, b, st_sel: (a * b,))
        x = TM.SetFarmVars(pre_rotor=False)
        x.add_var("MAXP", 1500.0)
        mb.turbine_models["mset"] = x
        mb.turbine_models["mask"] = TM.PowerMask(var_ws_P="REWS")
        x = TM.SetFarmVars(pre_rotor=False)
        x.add_var("T", 5e3)
        mb.turbine_models["tset"] = x
        mb.turbine_models["thrust"] = TM.Thrust2Ct(var_ws_ct="REWS")
        D["cvars"] = ["REWS", "REWS2", "REWS3", "TI", "WD", "RHO"]
        mb.rotor_models["rv"] = fm.rotor_models.GridRotor(n=2, calc_vars=D["cvars"])
        self.mbook = mb
        self.turbines = []
        self.farms = []
        for f in c["farms"]:
            farm = foxes.WindFarm()
            for t in f:
                tn = "rwt" if t.get("rw") else gen.type_name(c, t["t"])
                ms = list(t.get("m0", [])) + (["yset", "yawm2yaw"] if "yset" in t["m"] else []) + [tn]
                for m in t["m"]:
                    if m == "sec" and self.no_sec:
                        continue
                    ms += {"yset": [], "mask": ["mset", "mask"], "thrust": ["tset", "thrust"]}.get(m, [m])
                ms = [m for m in ms if m not in ("mask",)] + (["mask"] if "mask" in ms else [])
                tt = foxes.Turbine(xy=np.array(t["xy"], dtype=float), turbine_models=ms, H=t.get("H"), D=t.get("D"), name=t["name"])
                farm.add_turbine(tt, verbosity=0)
                self.turbines.append(tt)
            self.farms.append(farm)
        self.states = []
        for i, s in enumerate(c["states"]):
            if s["kind"] == "table":
                df = gen.table_df(s["rows"])
                if s["q"]:
                    df["q5"] = df["WS"] * 0.1
                kw = dict(output_vars=["WS", "WD", "TI", "RHO"] + ["q5"] * s["q"], var2col={}, fixed_vars={}, profiles={})
                if s["profile"] is not None:
                    kw["profiles"] = {"WS": dict(type=s["profile"])}
                    kw["fixed_vars"] = dict(H=100.0, z0=0.05) if s["profile"].startswith("ABL") else dict(H=100.0, shear=0.14)
                if s["src"] == "cols":
                    df = df.rename(columns=dict(WS="u"))
                    kw["var2col"] = dict(WS="u")
                F[f"st{i}"] = df
                D[f"st{i}"] = kw
                src = df
                if s["src"] == "csv":
                    src = gen.scratch_file([s["rows"], s["q"]], ".csv", lambda p: df.to_csv(p))
                self.states.append(foxes.input.states.StatesTable(src, **kw))
            else:
                self.states.append(gen.build_states(s))
        self.args = []
        for q in c["cfgs"]:
            self.args.append(dict(wake_models=list(q["wakes"]), rotor_model=q["rotor"], wake_frame=q["frame"], partial_wakes=copy.deepcopy(q["partial"]), ground_models=copy.deepcopy(q["ground"])))
        from foxes.algorithms.iterative.models import ConvCrit, ConvVarDelta

        D["crit"] = {"REWS": 1e-8, "CT": 1e-8}
        self.conv = ConvVarDelta(D["crit"])
        self.cuts = [copy.deepcopy(q["cut"]) for q in c["cfgs"]]
        Scale, Comb = own_models()
        self.pms = dict(own=[Scale("WS", 1.1), Scale("TI", 0.9)], set=foxes.models.point_models.SetUniformData(data_source=D.setdefault("uni", {"RHO": 1.1}), output_vars=["RHO"]), name="tke2x")
        mb.point_models["tke2x"] = Scale("TI", 1.3)
        self.pts = [np.array(p) for p in c["pts"]]
        self.cpars = {k: {"basic_ctrl": {}, "InitFarmData": {}} for k in ("farm", "points")}
        self.outs = {}

    def algo(self, i):
        import foxes

        q = self.c["cfgs"][i]
        kw = dict(self.args[i])
        if q["algo"] != "Downwind":
            if self.cuts[i] is not None:
                kw["mod_cutin"] = self.cuts[i]
            if q["conv"]:
                kw["conv_crit"] = self.conv
        return getattr(foxes.algorithms, q["algo"])(self.farms[q["farm"]], self.states[q["states"]], mbook=self.mbook, verbosity=0, **kw)

    def inputs(self):
        """Copies of all data that were given by the user"""
        out = {}
        for k, f in self.frames.items():
            out[f"frame {k}"] = f.to_dict(orient="split"), str(f.index.name), [str(t) for t in f.dtypes]
        for k, d in self.dicts.items():
            out[f"dict {k}"] = repr(d)
        for i, a in enumerate(self.args):
            out[f"args {i}"] = repr(a) + repr(self.cuts[i])
        for i, f in enumerate(self.farms):
            out[f"farm {i}"] = repr([(t.name, t.index, t.xy.tolist(), t.H, t.D, list(t.models), [None if s is None else np.array(s).tolist() for s in t.mstates_sel]) for t in f.turbines])
        out["points"] = repr([p.tolist() for p in self.pts])
        out["calc_parameters"] = repr(self.cpars)
        out["outs"] = repr(self.outs)
        out["point models"] = repr([type(m).__name__ for m in self.pms["own"]])
        return out


def own_models():
    from foxes.core import PointDataModel

    class Scale(PointDataModel):
        def __init__(self, v, a):
            super().__init__()
            self.v, self.a = v, a

        def output_point_vars(self, algo):
            return [self.v]

        def calculate(self, algo, mdata, fdata, tdata):
            return {self.v: self.a * tdata[self.v]}

    return Scale, None


def snap(ds):
    return {v: (d.dims, np.array(d.values, copy=True)) for v, d in list(ds.data_vars.items()) + list(ds.coords.items())}


def same(what, a, b, engs=False):
    for v in sorted(set(a) | set(b)):
        if engs and v == "order_ssel":
            continue  # indices within chunks
        if v not in a or v not in b:
            raise Violation(f"{what}: variable {v} {'missing' if v not in a else 'unexpected'}")
        if a[v][0] != b[v][0] or a[v][1].shape != b[v][1].shape:
            raise Violation(f"{what}: dimensions of {v}: {a[v][0]} {a[v][1].shape}, expected {b[v][0]} {b[v][1].shape}")
        x, y = a[v][1], b[v][1]
        if x.dtype.kind in "fc" and y.dtype.kind in "fc":
            ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= (1e-8 if engs else 1e-11) * np.abs(y))
            if not np.all(ok):
                i = np.argwhere(~np.asarray(ok))[0]
                raise Violation(f"{what}: {v}{i.tolist()} = {x[tuple(i)]}, expected {y[tuple(i)]}")
        elif not np.array_equal(x, y):
            raise Violation(f"{what}: {v} = {x.tolist()}, expected {y.tolist()}")


# ----------------------------------------------------------------------- run


def farm_call(w, a, o):
    kw = dict(ambient=o["ambient"], normalize=o["normalize"] and o["outputs"] is None)
    if o["outputs"] is not None:
        kw["outputs"] = w.outs.setdefault(str(o["outputs"]), copy.deepcopy(o["outputs"]))
    if o["cpars"]:
        kw["calc_parameters"] = w.cpars["farm"]
    return a.calc_farm(finalize=o["finalize"], **kw)


def points_call(w, a, fr, o):
    kw = dict(ambient=o["ambient"])
    if o["outputs"] is not None:
        kw["outputs"] = w.outs.setdefault(str(o["outputs"]), copy.deepcopy(o["outputs"]))
    if o["pm"] is not None:
        kw["point_models"] = w.pms[o["pm"]]
    if o["cpars"]:
        kw["calc_parameters"] = w.cpars["points"]
    return a.calc_points(fr, w.pts[o["pts"]], finalize=o["finalize"], **kw)


def evaluate(a, fr):
    import foxes

    fr = fr.copy(deep=True)
    with quiet():
        ev = foxes.output.FarmResultsEval(fr)
        ev.add_capacity(algo=a)
        ev.add_capacity(algo=a, ambient=True)
        ev.add_efficiency()
        y = ev.calc_farm_yield(algo=a, **(dict(delta_t=np.timedelta64(600, "s")) if np.issubdtype(fr["state"].dtype, np.datetime64) else dict(hours=1000.0)))
        hh, dd = a.farm.get_hub_heights(algo=a), a.farm.get_rotor_diameters(algo=a)
    fr["yld"], fr["hh"], fr["dd"] = ((), float(y)), (("turbine",), np.array(hh, dtype=float)), (("turbine",), np.array(dd, dtype=float))
    return fr


def sequential(w, a):
    for _ in a:
        pass
    return a.farm_results


FULL = dict(ambient=False, finalize=True, outputs=None, cpars=None, normalize=False)


class Ref:
    """Results of fresh objects"""

    def __init__(self, c):
        self.c, self.mem, self.full = c, {}, {}

    def get(self, ci, op, o, k):
        eng = self.c["engs"][k] if "engs" in self.c else self.c["eng"]
        key = json.dumps([ci, op, eng, {k: v for k, v in o.items() if k not in ("finalize", "cpars")}])
        if key not in self.mem:
            w = World(self.c)
            if op in ("eval", "points"):
                self.farm(ci)
            with gen.engine(*eng):
                a = w.algo(ci)
                o = dict(o, finalize=True, cpars=None)
                if op == "seq":
                    r = sequential(w, a)
                elif op == "farm":
                    r = farm_call(w, a, o)
                elif op == "eval":
                    farm_call(w, a, FULL)
                    r = evaluate(a, self.farm(ci))
                else:
                    if not o["ambient"] and self.c["cfgs"][ci]["frame"] == "dyn_wakes":
                        farm_call(w, a, FULL)
                    r = points_call(w, a, self.farm(ci), o)
                self.mem[key] = snap(r)
        return self.mem[key]

    def farm(self, ci):
        """Full results, fresh objects"""
        if ci not in self.full:
            from foxes.core.engine import get_engine

            w = World(self.c)
            if get_engine(error=False, default=False) is None:
                with gen.engine(*self.c["eng"]):
                    self.full[ci] = farm_call(w, w.algo(ci), FULL)
            else:
                self.full[ci] = farm_call(w, w.algo(ci), FULL)
        return self.full[ci].copy(deep=True)


def run(c):
    with gen.scratch():
        w = World(c)
        ins = w.inputs()
        ref = Ref(c)
        slots, full, results, ran = [], {}, [], set()
        busy = None  # slot that holds initialized models
        labels = set()
        wakes = False
        dynok = {}  # points in dynamic wakes rely on the farm calculation by the same algorithm
        # references first, since engines cannot be nested
        cis = []
        for k, op in enumerate(c["ops"]):
            if op[0] == "new":
                cis.append(op[1])
            elif op[0] in ("farm", "points", "eval"):
                ci = cis[op[1]]
                if op[0] == "eval" and (c["cfgs"][ci]["algo"] == "Sequential" or np.isnan(ref.farm(ci)["P"].values).any()):
                    continue
                if c["cfgs"][ci]["algo"] == "Sequential":
                    ref.get(ci, "seq", {}, k)
                else:
                    ref.get(ci, op[0], op[2] if len(op) > 2 else {}, k)

        def close(a):
            if a.initialized:
                a.finalize()
            for m in w.pms["own"] + [w.pms["set"], w.mbook.point_models["tke2x"]]:
                if m.initialized:
                    m.finalize(a)

        def steps(k0=0, k1=len(c["ops"])):
            nonlocal busy, wakes
            for k, op in list(enumerate(c["ops"]))[k0:k1]:
                what = f"step {k} {op}"
                s = len(slots) if op[0] == "new" else op[1]
                if busy is not None and busy != s and op[0] != "new":
                    close(slots[busy][1])
                    busy = None
                    labels.add("autofinal")
                if op[0] == "new":
                    slots.append([op[1], w.algo(op[1])])
                    continue
                ci, a = slots[s]
                seq = c["cfgs"][ci]["algo"] == "Sequential"
                if op[0] == "init":
                    if not seq and not a.initialized:
                        a.initialize()
                        busy = s
                        labels.add("init")
                    continue
                if op[0] == "final":
                    if a.initialized:
                        close(a)
                        busy = None if busy == s else busy
                        labels.add("final")
                    continue
                if op[0] == "eval":
                    if seq or s not in ran or np.isnan(ref.farm(ci)["P"].values).any():
                        continue
                    r = evaluate(a, ref.farm(ci))
                    e = ref.get(ci, "eval", {}, k)
                    labels.add("eval")
                elif seq:
                    r = sequential(w, a)
                    e = ref.get(ci, "seq", {}, k)
                    busy = s
                    labels.add("seq")
                elif op[0] == "farm":
                    r = farm_call(w, a, op[2])
                    e = ref.get(ci, "farm", op[2], k)
                    if op[2]["outputs"] is None and not op[2]["ambient"] and not op[2]["normalize"]:
                        full[ci] = r
                        wakes = wakes or gen.has_wakes(r)
                    busy = None if op[2]["finalize"] else s
                    dynok[s] = not op[2]["ambient"]
                    labels.add("farm")
                    ran.add(s)
                else:
                    if not op[2]["ambient"] and c["cfgs"][ci]["frame"] == "dyn_wakes" and not dynok.get(s) and not c.get("fresh"):
                        farm_call(w, a, FULL)
                        dynok[s] = True
                    r = points_call(w, a, full[ci] if ci in full else ref.farm(ci), op[2])
                    e = ref.get(ci, "points", op[2], k)
                    busy = None if op[2]["finalize"] else s
                    labels.add("points")
                if busy is None:
                    close(a)
                sn = snap(r)
                same(what, sn, e, "engs" in c)
                results.append((what, r, sn))

        if "engs" in c:
            for k, e in enumerate(c["engs"]):
                with gen.engine(*e):
                    steps(k, k + 1)
            labels.add("engines")
        else:
            with gen.engine(*c["eng"]):
                steps()
        for what, r, sn in results:
            same(f"result of {what} at the end", snap(r), sn)
        now = w.inputs()
        for k in ins:
            if k != "outs" and now[k] != ins[k]:
                raise Violation(f"input {k} was modified: {now[k]}, was {ins[k]}")
        for k, v in w.outs.items():
            if str(v) != k:
                raise Violation(f"outputs list modified: {v}")
        wakes = wakes or any(gen.has_wakes(r) for r in ref.full.values())
        if len(results) >= 2 and len(slots) >= 2 and wakes:
            labels.add("nt")
        return labels


SUBS = [Sub("histories", case(), run, quick=450), Sub("dynamic", case(dyn=True), run, quick=150)]
