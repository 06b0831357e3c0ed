"""C09: several wakes combine by the chosen superposition rule"""
import numpy as np
from hypothesis import strategies as st
from vf import gen, ref
from vf.runner import Sub, Violation, Skip

PROPERTY = "C09"
RULE = (
    "farms whose thrust coefficients are pinned per turbine, such that the single-turbine effects (measured by one-turbine runs "
    "with linear local superposition) stay valid in the farm; the combined effect at points and at downstream rotors is compared "
    "with the documented rule applied to them; all named rules and custom exponents, limits and scalings; sheared ambient flow; "
    "turbine order permuted; non-trivial: at least two turbines have an effect at one location"
)
ASSUMPTIONS = ["effects below 1e-12 of the ambient value count as no wake"]

WS_MODELS = ["Jensen", "Jensen", "Bastankhah2014", "Bastankhah025B", "TurbOPark", "Bastankhah2016"]
TI_MODELS = ["IECTI2019", "IECTI2005", "IECTI2019k", "CH"]


@st.composite
def ws_rule(draw):
    if draw(st.booleans()):
        return dict(name=draw(st.sampled_from(gen.WS_SUP + gen.WS_SUP_LIM)))
    cl = draw(st.sampled_from(["WSLinear", "WSLinearLocal", "WSQuadratic", "WSQuadraticLocal", "WSPow", "WSPowLocal", "WSMax", "WSMaxLocal", "WSProduct"]))
    kw = {}
    if not cl.endswith("Local") and cl != "WSProduct":
        kw["scale_amb"] = draw(st.booleans())
    if "Pow" in cl:
        kw["pow"] = draw(st.sampled_from([1, 1.5, 2, 3, 5]))
    if draw(st.booleans()):
        kw["lim_low"] = draw(gen.fl(0.1, 8.0, 0.1))
    if draw(st.booleans()):
        kw["lim_high"] = draw(gen.fl(4.0, 15.0, 0.5))
    return dict(cls=cl, kw=kw)


@st.composite
def ti_rule(draw):
    if draw(st.booleans()):
        return dict(name=draw(st.sampled_from(gen.TI_SUP)))
    cl = draw(st.sampled_from(["TILinear", "TIQuadratic", "TIPow", "TIMax"]))
    kw = dict(superp_to_amb=draw(st.sampled_from(["linear", "quadratic"])))
    if cl == "TIPow":
        kw["pow"] = draw(st.sampled_from([1, 1.5, 2, 3, 5]))
    return dict(cls=cl, kw=kw)


@st.composite
def case(draw, ti=False):
    """a front of turbines, more behind it, and points further downstream"""
    wd = draw(gen.fl(0.0, 359.0, 0.5)) + 0.137
    nf = draw(st.integers(2, 4))
    ts, loc = [], []
    types = draw(st.lists(gen.any_type(), min_size=1, max_size=2))
    for i in range(nf):
        x = draw(gen.fl(0.0, 1500.0, 50.0))
        y = draw(gen.fl(-150.0, 150.0, 5.0))
        loc.append([x + 7.0 * i, y])
    for i in range(draw(st.integers(0, 2))):
        loc.append([draw(gen.fl(1700.0, 2500.0, 50.0)) + 11.0 * i, draw(gen.fl(-150.0, 150.0, 5.0))])
    a = np.deg2rad(wd)
    n = -np.array([np.sin(a), np.cos(a)])
    m = np.array([-n[1], n[0]])

    def xy(l):
        p = l[0] * n + l[1] * m
        return [round(float(p[0]), 4), round(float(p[1]), 4)]

    for l in loc:
        t = dict(xy=xy(l), t=draw(st.integers(0, len(types) - 1)), m=["vct"])
        if draw(st.integers(0, 2)) == 0:
            t["H"] = draw(gen.fl(90.0, 150.0, 5.0))
        gen.clear_ground(types[t["t"]], t)
        ts.append(t)
    rows = [[draw(gen.fl(5.0, 14.0, 0.5)) + 0.013, round(wd, 4), draw(gen.fl(0.03, 0.2, 0.01)), 1.225]]
    base = draw(st.sampled_from(TI_MODELS if ti else WS_MODELS))
    k = draw(st.sampled_from(["_k004", "_k0075", "_k01", "_ambka04"]))
    sc = dict(
        types=types, turbines=ts, states=dict(kind="table", rows=rows),
        rotor="centre", frame="rotor_wd", ground=None, base=base, k=k,
        rule=draw(ti_rule() if ti else ws_rule()), ti=ti,
        set={"vct": {"vars": {"CT": [[draw(gen.fl(0.1, 0.95, 0.05)) for _ in ts]]}}},
        points=[xy([draw(gen.fl(500.0, 4000.0, 50.0)), draw(gen.fl(-150.0, 150.0, 10.0))]) + [draw(gen.fl(40.0, 160.0, 10.0))] for _ in range(3)],
        perm=draw(st.permutations(range(len(ts)))),
    )
    # one point upstream of everything
    sc["points"].append(xy([-500.0, 0.0]) + [100.0])
    pr = draw(st.sampled_from([None, "ShearedProfile"]))
    if pr:
        sc["states"]["profile"] = pr
    return sc


def run_with(sc, rule, idx=None):
    import foxes.models as fm

    c = dict(sc)
    order = list(range(len(sc["turbines"]))) if idx is None else list(idx)
    mb = gen.build_mbook(c, order=order)
    pre = "ti" if sc["ti"] else "ws"
    if "name" in rule:
        sup = rule["name"]
    else:
        mb.wake_superpositions[f"{pre}_vcustom"] = getattr(fm.wake_superpositions, rule["cls"])(**rule["kw"])
        sup = "vcustom"
    if sc["base"] == "CH":
        kk = dict(k=0.04) if not sc["k"].startswith("_ambka") else dict(ka=0.4, ti_var="AMB_TI")
        mb.wake_models["VCH"] = fm.wake_models.ti.CrespoHernandezTIWake(superposition=f"{pre}_{sup}", use_ambti=True, **kk)
        w = "VCH"
    else:
        w = f"{sc['base']}_{sup}" + ("" if sc["base"] in ("IECTI2019", "IECTI2005") else sc["k"])
    c["wakes"] = [w]
    c["partial"] = {w: sc.get("partial") or "centre"}
    algo = gen.build_algo(c, mbook=mb, order=order)
    with gen.engine("single"):
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, gen.points_array(sc["points"], algo))
    return fr, pr


@st.composite
def rotor_case(draw):
    sc = draw(case(ti=draw(st.sampled_from([False, False, True]))))
    sc["rotor"] = draw(st.sampled_from(["grid4", "grid9", "level3", "level5", "grid16"]))
    sc["partial"] = "rotor_points"
    sc["states"]["profile"] = "ShearedProfile"
    rule = sc["rule"]
    if not sc["ti"] and draw(st.booleans()):
        # limits inside the range of the waked wind speeds
        if "cls" not in rule:
            rule = dict(cls=draw(st.sampled_from(["WSLinear", "WSLinearLocal", "WSQuadratic", "WSMax", "WSPowLocal", "WSProduct"])), kw={})
            if rule["cls"].startswith("WSPow"):
                rule["kw"]["pow"] = 3
            elif not rule["cls"].endswith("Local") and rule["cls"] != "WSProduct":
                rule["kw"]["scale_amb"] = draw(st.booleans())
        ws = sc["states"]["rows"][0][0]
        rule["kw"]["lim_low"] = round(ws * draw(gen.fl(0.3, 0.9, 0.05)), 4)
        sc["rule"] = rule
    return sc


def run_rotor(sc):
    """the rule holds at every rotor point separately"""
    ti = sc["ti"]
    V, FVAR = ("TI", "TI") if ti else ("WS", "REWS")
    fr, _ = run_with(dict(sc, points=[[0.0, 0.0, 100.0]]), sc["rule"])
    n = len(sc["turbines"])
    wd = np.deg2rad(sc["states"]["rows"][0][1])
    m = np.array([np.cos(wd), -np.sin(wd)])
    off, wgt = ref.grid_points(sc["rotor"])
    pts = []
    for t in sc["turbines"]:
        D, H = gen.type_dh(sc["types"][t["t"]])
        D, H = t.get("D", D), t.get("H", H)
        for o in off:
            q = np.array(t["xy"]) + D / 2 * o[0] * m
            pts.append([float(q[0]), float(q[1]), H + D / 2 * o[1]])
    lin = dict(cls="TILinear", kw=dict(superp_to_amb="linear")) if ti else dict(cls="WSLinearLocal", kw={})
    eff = []
    for i in range(n):
        ci = dict(sc, points=pts, partial="centre", turbines=[sc["turbines"][i]], set={"vct": {"vars": {"CT": [[sc["set"]["vct"]["vars"]["CT"][0][i]]]}}})
        _, p1 = run_with(ci, lin)
        a, w = gen.vals(p1, "AMB_" + V)[0], gen.vals(p1, V)[0]
        eff.append((w - a) if ti else (w - a) / a)
    amb = a.reshape(n, len(off))
    R, AR = gen.vals(fr, "REWS")[0], gen.vals(fr, "AMB_REWS")[0]
    o = gen.vals(fr, "order")[0].astype(int).tolist()
    lb = set()
    if not ti and np.any(R <= 0.1):
        raise Skip("no wind")
    for j in range(n):
        got, w = gen.vals(fr, FVAR)[0, j], []
        varied = False
        for k in range(len(off)):
            e = [(eff[i][j * len(off) + k], R[i], AR[i]) for i in range(n) if i != j and abs(eff[i][j * len(off) + k]) > 1e-12]
            w.append(amb[j, k] + (0.0 if o.index(j) == 0 else combine(sc["rule"], e, amb[j, k], ti)))
            varied |= len(e) > 1
        if not ti and min(w) <= 0.0:
            raise Skip("negative wind speed")
        want = float(np.sum(wgt * np.array(w)))
        if np.max(gen.diff(FVAR, got, want, 2e-6)) > 1:
            raise Violation(f"{FVAR} of turbine {j}: {got!r}, rule at the rotor points gives mean {want!r} of {w}")
        if varied:
            lb |= {"nt", "rotors"}
            if max(w) - min(w) > 1e-3:
                lb.add("inhomogeneous")
    return lb


def combine(rule, effects, amb, ti):
    """effects: list of (normalized effect, REWS, AMB_REWS) of the wakes present"""
    if "name" in rule:
        return ref.superpose(rule["name"], "TI" if ti else "WS", effects, amb)
    c, kw = rule["cls"], rule["kw"]
    if ti:
        e = [x[0] for x in effects]
        w = 0.0
        if e:
            p = {"TILinear": 1, "TIQuadratic": 2}.get(c, kw.get("pow"))
            w = max(e) if c == "TIMax" else sum(v**p for v in e) ** (1 / p)
        return w if kw["superp_to_amb"] == "linear" else np.sqrt(w * w + amb * amb) - amb
    if c == "WSProduct":
        d = amb * np.prod([1 + x[0] for x in effects]) - amb if effects else 0.0
    else:
        s = [amb if c.endswith("Local") else (x[2] if kw["scale_amb"] else x[1]) for x in effects]
        e = [x[0] * y for x, y in zip(effects, s)]
        if not e:
            d = 0.0
        elif "Linear" in c:
            d = sum(e)
        elif "Max" in c:
            d = -max(abs(v) for v in e)
        else:
            p = kw.get("pow", 2)
            d = -sum(abs(v) ** p for v in e) ** (1 / p)
    if kw.get("lim_low") is not None:
        d = max(d, kw["lim_low"] - amb)
    if kw.get("lim_high") is not None:
        d = min(d, kw["lim_high"] - amb)
    return d


def run(sc):
    ti = sc["ti"]
    V = "TI" if ti else "WS"
    FVAR = "TI" if ti else "REWS"
    fr, pr = run_with(sc, sc["rule"])
    n = len(sc["turbines"])
    lin = dict(cls="TILinear", kw=dict(superp_to_amb="linear")) if ti else dict(cls="WSLinearLocal", kw={})
    sgl = []
    # effects of each turbine alone, at the points and at the other hubs
    hubs = []
    for t in sc["turbines"]:
        H = t.get("H", gen.type_dh(sc["types"][t["t"]])[1])
        hubs.append(list(t["xy"]) + [H])
    c1 = dict(sc, points=sc["points"] + hubs)
    for i in range(n):
        ci = dict(c1, turbines=[sc["turbines"][i]], set={"vct": {"vars": {"CT": [[sc["set"]["vct"]["vars"]["CT"][0][i]]]}}})
        _, p1 = run_with(ci, lin)
        a, w = gen.vals(p1, "AMB_" + V)[0], gen.vals(p1, V)[0]
        sgl.append((w - a) if ti else (w - a) / a)
    lb = set()
    R, AR = gen.vals(fr, "REWS")[0], gen.vals(fr, "AMB_REWS")[0]
    if not ti and np.any(R <= 0.0):
        raise Skip("negative source speeds")
    npt = len(sc["points"])
    for j in range(npt + n):
        if j < npt:
            amb, got = gen.vals(pr, "AMB_" + V)[0, j], gen.vals(pr, V)[0, j]
            what = f"point {j}"
        else:
            amb, got = gen.vals(fr, "AMB_" + FVAR)[0, j - npt], gen.vals(fr, FVAR)[0, j - npt]
            what = f"turbine {j - npt}"
        eff = [(sgl[i][j], R[i], AR[i]) for i in range(n) if abs(sgl[i][j]) > 1e-12 and i != j - npt]
        o = gen.vals(fr, "order")[0].astype(int).tolist()
        if j >= npt and o.index(j - npt) == 0:
            # the most upstream turbine is not evaluated for wakes
            want = amb
        else:
            want = amb + combine(sc["rule"], eff, amb, ti)
        if np.max(gen.diff(V, got, want, 2e-6)) > 1:
            raise Violation(f"{V} at {what}: {got!r}, rule gives {want!r} for effects {[e[0] for e in eff]}, ambient {amb!r}")
        if not eff and not any(k.startswith("lim") for k in sc["rule"].get("kw", {})):
            if abs(got - amb) > 1e-12 * max(1.0, abs(amb)):
                raise Violation(f"{V} at {what} without any wake: {got!r}, ambient {amb!r}")
            lb.add("no_wake")
        if len(eff) > 1:
            lb.add("nt")
            lb.add("points" if j < npt else "rotors")
    fr2, pr2 = run_with(sc, sc["rule"], idx=sc["perm"])
    gen.compare(pr, pr2, "turbines added in other order", tol=1e-8)
    return lb


SUBS = [
    Sub("ws", case(ti=False), run, quick=700),
    Sub("rotor", rotor_case(), run_rotor, quick=400),
    Sub("ti", case(ti=True), run, quick=350),
]
