"""C27: farm layouts: all input ways, bounds, and files written and read"""
import copy
import json
import math
import os
import warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C27"
RULE = (
    "sequences of layout input calls on one farm (row, grid, ring, random, data frame, csv plain and compressed, json, file by path, single turbines), with "
    "indices, names, heights, diameters, models and state selections, against a list of expected turbines built independently; user data must stay as it was; "
    "written layouts (csv, json, xyh, from the farm or from results) read back; bounds; results carry the positions, heights, diameters and names in farm order; "
    "non-trivial: several calls with at least three turbines"
)
ASSUMPTIONS = ["the distance between turbines of a ring is the arc length along the ring"]

xy = lambda: st.tuples(gen.fl(-3000.0, 3000.0, 0.5), gen.fl(-3000.0, 3000.0, 0.5)).map(list)
ints = lambda: st.tuples(st.integers(-3000, 3000), st.integers(-3000, 3000)).map(list)
MODELS = [["NREL5MW"], ["DTU10MW", "kTI_02"], ["NREL5MW", "kTI_amb_02", "thrust2ct"], []]


@st.composite
def call(draw, k):
    c = dict(
        kind=draw(st.sampled_from(["row", "grid", "ring", "random", "df", "df", "csv", "gz", "json", "turbine"])),
        models=draw(st.sampled_from([None, 0, 1, 2, 3])),
        H=draw(st.sampled_from([None, 90.0, 120])),
        D=draw(st.sampled_from([None, 126.0, 80])),
    )
    K = c["kind"]
    n = draw(st.one_of(st.integers(1, 5), st.sampled_from([7, 9, 11]) if K in ("row", "ring", "random") else st.integers(1, 5)))
    if K in ("row", "ring"):
        c.update(base=draw(st.one_of(xy(), ints())), n=n)
        if K == "row":
            c["step"] = draw(st.one_of(xy(), ints()))
        else:
            c["dist"] = draw(st.one_of(gen.fl(100.0, 900.0, 0.5), st.integers(100, 900)))
            c["off"] = draw(st.one_of(st.none(), st.integers(-360, 360), gen.fl(-400.0, 400.0, 0.5)))
    elif K == "grid":
        steps = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
        n = steps[0] * steps[1]
        c.update(base=draw(st.one_of(xy(), ints())), steps=steps, vecs=[draw(st.one_of(xy(), ints())), draw(xy())], n=n)
    elif K == "random":
        c.update(n=n, mind=draw(st.sampled_from([50.0, 200, 433.3])), centre=draw(st.one_of(st.none(), xy(), ints())), seed=draw(st.integers(0, 5)))
    elif K == "turbine":
        n = 1
        c.update(xy=draw(st.one_of(xy(), ints())))
    else:
        c["xys"] = [draw(xy()) for _ in range(n)]
        if draw(st.integers(0, 3)) == 0:
            c["xys"] = [[int(a), int(b)] for a, b in c["xys"]]
        h = st.sampled_from([None, 85.0, 100.5])
        c["Hs"] = draw(st.one_of(st.none(), st.lists(h, min_size=n, max_size=n)))
        c["Ds"] = draw(st.one_of(st.none(), st.lists(h, min_size=n, max_size=n)))
    c["names"] = [f"c{k}t{i}" for i in range(n)] if draw(st.booleans()) or K == "json" else None
    c["ids"] = [draw(st.integers(0, 50)) for _ in range(n)] if draw(st.booleans()) else None
    if K in ("df", "csv", "gz"):
        c.update(
            idx=draw(st.sampled_from([None, None, [7, 3, 12, 5, 9]])),
            ids_col=draw(st.booleans()),
            shift=draw(st.booleans()),
            base_name=draw(st.sampled_from([None, "WT", "A_"])),
            type_col=[draw(st.sampled_from(["NREL5MW", "IEA15MW"])) for _ in range(n)] if draw(st.booleans()) else None,
            pre=[draw(st.sampled_from(["kTI_02", "kTI_amb_04"])) for _ in range(n)] if draw(st.booleans()) else None,
            post=[draw(st.sampled_from(["PMask", "thrust2ct"])) for _ in range(n)] if draw(st.booleans()) else None,
            colxy=draw(st.sampled_from([None, ["east", "north"]])),
        )
    if K == "json":
        c["jm"] = [draw(st.sampled_from([None, ["NREL5MW"]])) for _ in range(n)]
        c["via"] = draw(st.booleans())
    if K in ("csv", "gz"):
        c["via"] = draw(st.booleans())
        c["path"] = draw(st.booleans())
    if K == "gz":
        c["via"] = True
    c["sel"] = draw(st.integers(0, 3)) == 0
    c["add"] = draw(st.sampled_from([None, None, 0]))
    return c


@st.composite
def build(draw):
    n = draw(st.integers(1, 4))
    return dict(
        calls=[draw(call(k)) for k in range(n)],
        bnd=draw(st.sampled_from([None, None, "poly", "polyint", "circle"])),
        extra=draw(st.sampled_from([None, 100, 33.5, "2D", "0.5D"])),
        diam=draw(gen.fl(60.0, 200.0, 2.5)),
        hub=draw(gen.fl(60.0, 200.0, 2.5)),
    )


def params(c):
    kw = dict(verbosity=0)
    if c["models"] is not None:
        kw["turbine_models"] = list(MODELS[c["models"]])
    if c["H"] is not None:
        kw["H"] = c["H"]
    if c["D"] is not None:
        kw["D"] = c["D"]
    return kw


def write_table(c, tmp, k):
    """The data frame, keyword arguments, and file path"""
    n = len(c["xys"])
    cx, cy = c["colxy"] or ["x", "y"]
    d = {"extra": list(range(n)), cy: [p[1] for p in c["xys"]], cx: [p[0] for p in c["xys"]]}
    kw = {}
    if c["colxy"]:
        kw.update(col_x=cx, col_y=cy)
    if c["names"]:
        d["label"], kw["col_name"] = c["names"], "label"
    if c["ids"]:
        if c["ids_col"]:
            d["no"], kw["col_id"] = c["ids"], "no"
        else:
            kw["turbine_ids"] = list(c["ids"])
    for q, key in (("Hs", "col_H"), ("Ds", "col_D")):
        if c[q]:
            d[q], kw[key] = [np.nan if x is None else x for x in c[q]], q
    if c["type_col"]:
        d["type"], kw["col_turbine_type"] = c["type_col"], "type"
    for q, key in (("pre", "cols_models_pre"), ("post", "cols_models_post")):
        if c[q]:
            d[q], kw[key] = c[q], [q]
    if c["base_name"]:
        kw["turbine_base_name"] = c["base_name"]
    if c["shift"]:
        kw["turbine_base_name_count_shift"] = True
    df = pd.DataFrame(d)
    if c["idx"]:
        df.index = c["idx"][:n]
        df.index.name = "ii"
    if c["kind"] == "df":
        return df, kw, None
    f = os.path.join(tmp, f"layout_{k}.csv" + (".gz" if c["kind"] == "gz" else ""))
    df.to_csv(f, index=bool(c["idx"]))
    if c["idx"]:
        kw["col_index"] = "ii"
    return df, kw, f


def apply(farm, c, k, tmp, exp):
    """Calls the input function, and extends the list of expected turbines"""
    import foxes
    from pathlib import Path

    fl = foxes.input.farm_layout
    K = c["kind"]
    kw = params(c)
    n = c.get("n", len(c.get("xys", [0])))
    pos, H, D = None, [c["H"]] * n, [c["D"]] * n
    models = [list(MODELS[c["models"]]) if c["models"] is not None else [] for _ in range(n)]
    ids, names = c["ids"], c["names"]
    if K in ("row", "grid", "ring"):
        if ids:
            kw["indices"] = list(ids)
        if names:
            kw["names"] = list(names)
    if c["sel"] and K in ("row", "grid", "ring", "random", "turbine") and c["models"] is not None:
        kw["models_state_sel"] = [None] * len(MODELS[c["models"]])
    kw0 = copy.deepcopy(kw)
    if K == "row":
        base, step = np.array(c["base"]), np.array(c["step"])
        fl.add_row(farm, base, step, n, **kw)
        if base.tolist() != c["base"] or step.tolist() != c["step"]:
            raise Violation("input arrays of the row changed")
        pos = [[c["base"][j] + i * c["step"][j] for j in (0, 1)] for i in range(n)]
    elif K == "grid":
        base, vecs = np.array(c["base"]), np.array(c["vecs"])
        fl.add_grid(farm, base, vecs, steps=list(c["steps"]), **kw)
        if base.tolist() != c["base"]:
            raise Violation("input arrays of the grid changed")
        pos = [
            [c["base"][j] + a * c["vecs"][0][j] + b * c["vecs"][1][j] for j in (0, 1)]
            for a in range(c["steps"][0])
            for b in range(c["steps"][1])
        ]
    elif K == "ring":
        a = {} if c["off"] is None else dict(offset_deg=c["off"])
        fl.add_ring(farm, np.array(c["base"]), c["dist"], n, **a, **kw)
        R = n * c["dist"] / (2 * math.pi)
        ph = [math.radians((c["off"] or 0) + i * 360.0 / n) for i in range(n)]
        pos = [[c["base"][0] + R * math.sin(p), c["base"][1] + R * math.cos(p)] for p in ph]
    elif K == "random":
        ids = names = None
        a = {} if c["centre"] is None else dict(centre=c["centre"])
        n0 = farm.n_turbines
        fl.add_random(farm, n, c["mind"], seed=c["seed"], **a, **kw)
        pos = [t.xy.tolist() for t in farm.turbines[n0:]]
        if len(pos) != n:
            raise Violation(f"{len(pos)} random turbines, requested {n}")
        cen = c["centre"] or [0.0, 0.0]
        m = np.mean(pos, axis=0)
        if np.max(np.abs(m - cen)) > 1e-6 * (1 + np.max(np.abs(cen))):
            raise Violation(f"random layout centred at {m}, requested {cen}")
        for i in range(n):
            for j in range(i):
                if math.dist(pos[i], pos[j]) < c["mind"] * (1 - 1e-9):
                    raise Violation(f"random turbines {j}, {i} at distance {math.dist(pos[i], pos[j])}, requested at least {c['mind']}")
        f2 = foxes.WindFarm()
        fl.add_random(f2, n, c["mind"], seed=c["seed"], **a, verbosity=0)
        if not np.array_equal(f2.xy_array, np.array(pos)):
            raise Violation(f"random layout differs for the same seed {c['seed']}")
    elif K == "turbine":
        t = foxes.Turbine(np.array(c["xy"]), index=ids[0] if ids else None, name=names[0] if names else None, **{q: v for q, v in kw.items() if q != "verbosity"})
        farm.add_turbine(t, verbosity=0)
        pos = [c["xy"]]
    elif K == "json":
        d = {}
        for i, p in enumerate(c["xys"]):
            q = {"UTMX": p[0], "UTMY": p[1]}
            if ids:
                q["id"] = ids[i]
            if c["Hs"] and c["Hs"][i] is not None:
                q["H"] = H[i] = c["Hs"][i]
            if c["Ds"] and c["Ds"][i] is not None:
                q["D"] = D[i] = c["Ds"][i]
            if c["jm"][i] is not None:
                q["turbine_models"] = c["jm"][i]
                models[i] = c["jm"][i] + models[i]
            d[names[i]] = q
        f = os.path.join(tmp, f"layout_{k}.json")
        with open(f, "w") as h:
            json.dump({f"farm_{k}": d}, h)
        (fl.add_from_file if c["via"] else fl.add_from_json)(farm, f, **kw)
        if farm.name != f"farm_{k}":
            raise Violation(f"farm is called {farm.name}, file says farm_{k}")
        pos = c["xys"]
    else:
        df, tkw, f = write_table(c, tmp, k)
        df0 = df.copy(deep=True)
        tkw0 = copy.deepcopy(tkw)
        if K == "df":
            fl.add_from_df(farm, df, **tkw, **kw)
        else:
            (fl.add_from_file if c["via"] else fl.add_from_csv)(farm, Path(f) if c["path"] else f, **tkw, **kw)
        if not df.equals(df0) or list(df.columns) != list(df0.columns) or tkw != tkw0:
            raise Violation("the data frame or arguments were changed by reading a layout")
        pos = c["xys"]
        for q, X in (("Hs", H), ("Ds", D)):
            if c[q]:
                for i in range(n):
                    if c[q][i] is not None:
                        X[i] = c[q][i]
        if names is None:
            ix = list(df.index)
            names = [f"{c['base_name'] or 'T'}{j + (1 if c['shift'] else 0)}" for j in ix]
        for i in range(n):
            m = []
            if c["pre"]:
                m.append(c["pre"][i])
            if c["type_col"]:
                m.append(c["type_col"][i])
            m += models[i]
            if c["post"]:
                m.append(c["post"][i])
            models[i] = m
    if kw != kw0:
        raise Violation(f"arguments were changed: {kw} != {kw0}")
    for i in range(n):
        j = len(exp)
        ix = j if ids is None else ids[i]
        exp.append(dict(xy=pos[i], H=H[i], D=D[i], index=ix, name=f"T{ix}" if names is None else names[i], models=list(models[i])))


def verify(farm, exp, what):
    if farm.n_turbines != len(exp) or len(farm.turbines) != len(exp):
        raise Violation(f"{what}: {farm.n_turbines} turbines, expected {len(exp)}")
    for i, (t, e) in enumerate(zip(farm.turbines, exp)):
        g = dict(xy=[float(x) for x in t.xy], H=t.H, D=t.D, index=t.index, name=t.name, models=list(t.models))
        if len(g["xy"]) != 2 or not np.allclose(g["xy"], e["xy"], rtol=1e-9, atol=1e-6):
            raise Violation(f"{what}: turbine {i} at {g['xy']}, expected {e['xy']}")
        for q in ("H", "D", "index", "name", "models"):
            if g[q] != e[q]:
                raise Violation(f"{what}: turbine {i} has {q} = {g[q]!r}, expected {e[q]!r}")
        if len(t.mstates_sel) != len(t.models):
            raise Violation(f"{what}: turbine {i} has {len(t.models)} models and {len(t.mstates_sel)} state selections")
    if farm.turbine_names != [e["name"] for e in exp]:
        raise Violation(f"{what}: turbine names {farm.turbine_names}")
    if exp and not np.allclose(farm.xy_array, [e["xy"] for e in exp], rtol=1e-9, atol=1e-6):
        raise Violation(f"{what}: position array {farm.xy_array}")


def boundary(kind):
    from foxes.utils import geom2d

    if kind == "poly":
        return geom2d.ClosedPolygon(np.array([[-100.5, -50.0], [900.0, 20.0], [400.0, 777.0]])), [-100.5, -50.0], [900.0, 777.0]
    if kind == "polyint":
        return geom2d.ClosedPolygon(np.array([[-100, -50], [900, 20], [400, 777]])), [-100, -50], [900, 777]
    if kind == "circle":
        return geom2d.Circle(np.array([100, 50]), 300.0), [-200.0, -250.0], [400.0, 350.0]
    return None, None, None


def run_build(case):
    import foxes

    for x in foxes.Turbine.__init__.__defaults__ or ():
        if isinstance(x, list):
            x.clear()  # whatever an earlier case left there
    b, lo, hi = boundary(case["bnd"])
    farm = foxes.WindFarm(boundary=b)
    exp = []
    labs = set()
    with gen.scratch() as tmp:
        for k, c in enumerate(case["calls"]):
            apply(farm, c, k, tmp, exp)
            labs.add(c["kind"])
            if c["add"] is not None and exp:
                # models of one turbine are its own
                j = len(exp) - 1
                farm.turbines[j].add_model("kTI_05")
                exp[j]["models"] = exp[j]["models"] + ["kTI_05"]
                if len(exp) % 2:
                    farm.turbines[j].insert_model(0, "kTI_03")
                    exp[j]["models"] = ["kTI_03"] + exp[j]["models"]
            verify(farm, exp, f"after call {k} ({c['kind']})")
        # bounds
        P = np.array([e["xy"] for e in exp], dtype=float)
        Ds = np.array([case["diam"] if e["D"] is None else e["D"] for e in exp], dtype=float)
        Hs = np.array([case["hub"] if e["H"] is None else e["H"] for e in exp], dtype=float)

        class FC:
            turbine_types = [foxes.models.turbine_types.NullType(D=case["diam"], H=case["hub"], P_nominal=1.0)] * len(exp)

        class Algo:
            farm_controller = FC

        if not np.allclose(farm.get_rotor_diameters(Algo), Ds) or not np.allclose(farm.get_hub_heights(Algo), Hs):
            raise Violation(f"rotor diameters {farm.get_rotor_diameters(Algo)} and hub heights {farm.get_hub_heights(Algo)}, expected {Ds} and {Hs}")
        x = case["extra"]
        for _ in range(2):
            g = farm.get_xy_bounds(extra_space=x, algo=Algo)
            m = 0.0 if x is None else (float(x[:-1]) * Ds if isinstance(x, str) else np.full(len(exp), float(x)))
            m = np.broadcast_to(m, (len(exp),))[:, None]
            if b is None:
                e = np.min(P - m, axis=0), np.max(P + m, axis=0)
            else:
                e = np.array(lo) - np.max(m), np.array(hi) + np.max(m)
            if not np.allclose(g, e):
                raise Violation(f"bounds {g}, expected {e} with extra space {x}")
        verify(farm, exp, "after asking for bounds")
    t = foxes.Turbine(np.zeros(2))
    if t.models or t.mstates_sel:
        raise Violation(f"a new turbine without models has models {t.models}")
    n = len(exp)
    return labs | {f"bnd_{case['bnd']}"} | ({"nt"} if n >= 3 and len(case["calls"]) > 1 else set())


# --------------------------------------------------------------- files


@st.composite
def files(draw):
    n = draw(st.integers(1, 4))
    sc = draw(gen.scenario(nmin=1, nmax=4, smin=1, smax=3, profile=False, grounds=False))
    sc["names"] = [draw(st.sampled_from(["A", "B 2", "x_1", "ü"])) + str(i) for i in range(4)] if draw(st.booleans()) else None
    sc["fname"] = draw(st.sampled_from(["wind_farm", "My farm"]))
    sc["ids"] = [draw(st.integers(0, 60)) for _ in range(4)] if draw(st.booleans()) else None
    sc["np_ids"] = draw(st.booleans())
    sc["res"] = draw(st.sampled_from([None, None, 0, 1]))
    sc["state"] = draw(st.integers(0, 2))
    sc["file"] = draw(st.booleans())
    sc["col"] = draw(st.sampled_from([None, "mean_REWS", "sum_P", "min_REWS", "max_TI"]))
    sc["off"] = [draw(gen.fl(-5e5, 5e5, 0.125)), draw(gen.fl(-5e6, 5e6, 0.125))]
    return sc


def run_files(sc):
    import foxes
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    fl = foxes.input.farm_layout
    T = len(sc["turbines"])
    farm = gen.build_farm(sc)
    farm.name = sc["fname"]
    for i, t in enumerate(farm.turbines):
        t.xy = np.array(t.xy) + sc["off"]
        if sc["names"]:
            t.name = sc["names"][i]
        if sc["ids"]:
            t.index = np.int64(sc["ids"][i]) if sc["np_ids"] else sc["ids"][i]
    algo = gen.build_algo(sc, farm=farm)
    with gen.engine("single"), gen.scratch() as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fr = algo.calc_farm()
        S = fr.sizes["state"]
        # results in farm order
        types = [sc["types"][t["t"]] for t in sc["turbines"]]
        for i, t in enumerate(farm.turbines):
            D, H = (t.D, t.H)
            d0, h0 = gen.type_dh(types[i])
            e = dict(X=t.xy[0], Y=t.xy[1], D=d0 if D is None else D, H=h0 if H is None else H)
            for v, x in e.items():
                if not np.allclose(gen.vals(fr, v)[:, i], x, rtol=1e-9):
                    raise Violation(f"{v} of turbine {i} in the results: {gen.vals(fr, v)[:, i]}, expected {x}")
            if str(fr["tname"].to_numpy()[i]) != t.name:
                raise Violation(f"name {fr['tname'].to_numpy()[i]} of turbine {i}, expected {t.name}")
        if fr.sizes["turbine"] != T:
            raise Violation("number of turbines in the results")
        s = min(sc["state"], S - 1)
        for v in ("X", "Y", "H"):
            # results may vary with the state
            fr[v] = fr[v] + 7.0 * np.arange(S)[:, None]
        kw = dict(out_dir=tmp)
        if sc["res"] is not None:
            kw.update(farm_results=fr, from_results=bool(sc["res"]), results_state=s)
        elif sc["col"]:
            kw.update(farm_results=fr)
        out = foxes.output.FarmLayoutOutput(farm, **kw)
        XY = np.array([t.xy for t in farm.turbines], dtype=float)
        fromres = sc["res"] == 1
        if fromres:
            XY = XY + 7.0 * s
        Hs = gen.vals(fr, "H")[s] if fromres else np.array([np.nan if t.H is None else t.H for t in farm.turbines], dtype=float)
        lay = out.get_layout_data()
        if lay.shape != (T, 3) or not np.allclose(lay[:, :2], XY, rtol=1e-12) or not np.allclose(lay[:, 2], Hs, equal_nan=True):
            raise Violation(f"layout data {lay}, expected {XY}, {Hs}")
        sfx = sc["file"]
        out.write_csv(*(["my.csv"] if sfx else []))
        out.write_json(*(["my.json"] if sfx else []))
        out.write_xyh(*(["my.xyh"] if sfx else []))
        f = lambda e: os.path.join(tmp, ("my" if sfx else sc["fname"]) + e)
        for e in (".csv", ".json", ".xyh"):
            if not os.path.isfile(f(e)):
                raise Violation(f"no layout file {os.path.basename(f(e))}: {os.listdir(tmp)}")
        g = np.atleast_2d(np.loadtxt(f(".xyh")))
        if g.shape != (T, 3) or not np.allclose(g[:, :2], XY, rtol=1e-12) or not np.allclose(g[:, 2], Hs, equal_nan=True):
            raise Violation(f"xyh file holds {g}")
        for kind in ("csv", "json"):
            f2 = foxes.WindFarm()
            if kind == "csv":
                fl.add_from_file(f2, f(".csv"), col_name="name", col_H="h", col_D="D", verbosity=0, turbine_models=["NREL5MW"])
            else:
                fl.add_from_file(f2, f(".json"), verbosity=0, turbine_models=["NREL5MW"])
            tol = 6e-5 if kind == "csv" else 1e-9
            if f2.n_turbines != T:
                raise Violation(f"{kind}: {f2.n_turbines} turbines read, {T} written")
            for i, (a, b) in enumerate(zip(farm.turbines, f2.turbines)):
                if np.max(np.abs(XY[i] - np.array(b.xy))) > tol:
                    raise Violation(f"{kind}: turbine {i} read at {b.xy}, written at {XY[i]}")
                if a.name != b.name:
                    raise Violation(f"{kind}: turbine {i} read as {b.name}, written as {a.name}")
                eH = Hs[i] if fromres else (np.nan if a.H is None else a.H)
                for q, x, y in (("H", eH, b.H), ("D", np.nan if a.D is None else a.D, b.D)):
                    if np.isnan(x) != (y is None) or (y is not None and abs(float(y) - x) > max(tol, 1e-9)):
                        raise Violation(f"{kind}: {q} of turbine {i} read as {y}, written {x}")
                if kind == "json" and a.index != b.index:
                    raise Violation(f"json: index of turbine {i} read as {b.index}, written as {a.index}")
            if kind == "json" and f2.name != sc["fname"]:
                raise Violation(f"json: farm read as {f2.name}")
        # picture
        try:
            a = dict(color_by=sc["col"]) if sc["col"] and out.fres is not None else {}
            ax, im = out.get_figure(ret_im=True, **a)
            o = np.asarray(im.get_offsets())
            if not np.allclose(o, XY, rtol=1e-12):
                raise Violation(f"turbines drawn at {o}, expected {XY}")
            if a:
                k, v = sc["col"].split("_")
                x = gen.vals(fr, v)
                w = gen.vals(fr, "weight")
                w = w if w.ndim == 2 else w[:, None]
                e = dict(mean=(x * w).sum(axis=0), sum=x.sum(axis=0), min=x.min(axis=0), max=x.max(axis=0))[k]
                if not np.allclose(np.asarray(im.get_array(), dtype=float), e, rtol=1e-9):
                    raise Violation(f"turbines coloured by {np.asarray(im.get_array())}, expected {e} for {sc['col']}")
        finally:
            plt.close("all")
    nt = T >= 2 and len({(t.D, t.H) for t in farm.turbines}) > 1
    return {"res" if fromres else "farm"} | ({"nt"} if nt else set())


SUBS = [
    Sub("build", build(), run_build, quick=3000),
    Sub("files", files(), run_files, quick=300),
]
