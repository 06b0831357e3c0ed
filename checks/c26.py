"""C26: model names describe the models they give, malformed names are rejected"""
import re
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vf import gen
from vf.gen import fl
from vf.runner import Sub, Violation, Skip

PROPERTY = "C26"
RULE = (
    "generated names of wake models, superpositions, rotor models, partial wakes, wake frames, ground models and turbine models with embedded parameters, used in generated "
    "farm and point calculations, against explicitly constructed models registered under other names (bitwise comparable numbers); the same name gives the same object and the same "
    "numbers in a new book; names with random edits against an independent grammar: names outside it have to raise; random factory templates against direct rendering; class names; "
    "non-trivial: calculation with wakes, or a name that has to be rejected"
)
ASSUMPTIONS = ["a number in a name is anything Python reads as number, with leading zero meaning decimals", "names may be rejected when the calculation is set up or starts"]

WS = {"linear": ("WSLinear", {}), "quadratic": ("WSQuadratic", {}), "max": ("WSMax", {}), "cubic": ("WSPow", dict(pow=3)), "quartic": ("WSPow", dict(pow=4))}
WS_NAMES = {}
for _n, (_c, _k) in WS.items():
    WS_NAMES[_n] = (_c, dict(_k, scale_amb=False))
    WS_NAMES[_n + "_amb"] = (_c, dict(_k, scale_amb=True))
    WS_NAMES[_n + "_loc"] = (_c + "Local", dict(_k))
    WS_NAMES[_n + "_loc_lim"] = (_c + "Local", dict(_k, lim_low=1e-4))
for _n in ("linear", "quadratic"):
    WS_NAMES[_n + "_lim"] = (WS[_n][0], dict(scale_amb=False, lim_low=1e-4))
    WS_NAMES[_n + "_amb_lim"] = (WS[_n][0], dict(scale_amb=True, lim_low=1e-4))
WS_NAMES["product"] = ("WSProduct", {})
WS_NAMES["product_lim"] = ("WSProduct", dict(lim_low=1e-4))
TI_NAMES = {
    "linear": ("TILinear", {}),
    "quadratic": ("TIQuadratic", {}),
    "cubic": ("TIPow", dict(pow=3)),
    "quartic": ("TIPow", dict(pow=4)),
    "max": ("TIMax", {}),
}
WIND = {
    "Jensen": ("JensenWake", dict(), "Betz"),
    "Bastankhah2014": ("Bastankhah2014", dict(sbeta_factor=0.2), "Madsen"),
    "Bastankhah2014B": ("Bastankhah2014", dict(sbeta_factor=0.2), "Betz"),
    "Bastankhah025": ("Bastankhah2014", dict(sbeta_factor=0.25), "Madsen"),
    "Bastankhah025B": ("Bastankhah2014", dict(sbeta_factor=0.25), "Betz"),
    "Bastankhah2016": ("Bastankhah2016", dict(), "Madsen"),
    "Bastankhah2016B": ("Bastankhah2016", dict(), "Betz"),
    "TurbOPark": ("TurbOParkWake", dict(), "Madsen"),
    "TurbOParkB": ("TurbOParkWake", dict(), "Betz"),
    "TurbOParkIX": ("TurbOParkWakeIX", dict(), "Madsen"),
}
TI = {
    "CrespoHernandez": ("CrespoHernandezTIWake", dict(use_ambti=False), True),
    "IECTI2019": ("IECTIWake", dict(iec_type="2019"), False),
    "IECTI2005": ("IECTIWake", dict(iec_type="2005"), False),
    "IECTI2019k": ("IECTIWake", dict(iec_type="2019", opening_angle=None), True),
    "IECTI2005k": ("IECTIWake", dict(iec_type="2005", opening_angle=None), True),
}
IND = {"RHB": "RankineHalfBody", "VortexSheet": "VortexSheet", "Rathmann": "Rathmann", "SelfSimilar": "SelfSimilar", "SelfSimilar2020": "SelfSimilar2020"}


def num(s):
    """The value written in a name"""
    return float("0." + s[1:]) if s[0] == "0" else float(s)


K = lambda: st.sampled_from(["004", "0375", "02", "01", "0075", "05", "0204", "00512"])
KB = lambda: st.sampled_from(["001", "0004", "003", "002", "00035"])


@st.composite
def wk(draw):
    """Suffix and parameters of the wake growth"""
    m = draw(st.sampled_from(["", "k", "ka", "kab", "ambka", "ambka", "ambkab"]))
    if m == "":
        return "", dict(ti_var="TI")
    if m == "k":
        v = draw(K())
        return f"_k{v}", dict(k=num(v), ti_var="TI")
    a, b = draw(K()), draw(KB())
    amb = m.startswith("amb")
    d = dict(ka=num(a), ti_var="AMB_TI" if amb else "TI")
    s = f"_{'amb' if amb else ''}ka{a}"
    if m.endswith("b"):
        s, d["kb"] = s + f"_kb{b}", num(b)
    return s, d


@st.composite
def focus(draw):
    f = draw(st.sampled_from(["wind"] * 6 + ["ti"] * 3 + ["ind"] * 2 + ["rotor", "rotor", "rotor", "partial", "partial", "yawed", "yawed", "stream", "ground", "tmodel", "tmodel", "time"]))
    d = dict(f=f)
    if f == "wind":
        m = draw(st.sampled_from(list(WIND)))
        s, p = draw(wk())
        sup = draw(st.sampled_from(list(WS_NAMES)))
        d.update(m=m, sup=sup, par=p, name=f"{m}_{sup}{s}")
        if m == "TurbOParkIX":
            dx = draw(st.sampled_from(["60", "45.5", "100"]))
            k = draw(K())
            d.update(name=f"{m}_{sup}_k{k}_dx{dx}", par=dict(k=num(k), ti_var="TI", dx=float(dx)))
    elif f == "ti":
        m = draw(st.sampled_from(list(TI)))
        s, p = draw(wk()) if TI[m][2] else ("", {})
        sup = draw(st.sampled_from(list(TI_NAMES)))
        d.update(m=m, sup=sup, par=p, name=f"{m}_{sup}{s}")
    elif f == "ind":
        m = draw(st.sampled_from(list(IND)))
        sup = draw(st.sampled_from([None] + list(WS_NAMES))) if m != "RHB" else None
        d.update(m=m, sup=sup, name=m + (f"_{sup}" if sup else ""))
    elif f == "rotor":
        t = draw(st.sampled_from(["grid", "level", "centre"]))
        n = draw(st.sampled_from([3, 4, 5, 2, 6, 1]))
        raw = draw(st.booleans())
        d.update(t=t, n=n, raw=raw, name="centre" if t == "centre" else f"{t}{n * n if t == 'grid' else n}" + ("_raw" if raw else ""))
    elif f == "partial":
        t = draw(st.sampled_from(["axiwake", "grid", "rotor_points", "top_hat", "centre"]))
        n = draw(st.integers(1, 8 if t == "axiwake" else 5))
        d.update(t=t, n=n, name=f"axiwake{n}" if t == "axiwake" else (f"grid{n * n}" if t == "grid" else t))
    elif f == "yawed":
        s, p = draw(wk())
        d.update(name="yawed" + s, par=p)
    elif f == "stream":
        x = draw(st.sampled_from(["50", "120", "33.5"]))
        d.update(name=f"streamlines_{x}", par=dict(step=float(x)))
    elif f == "ground":
        h = draw(st.sampled_from(["300", "512.5", "1000", None]))
        d.update(name=f"blh_mirror_h{h}" if h else "ground_mirror", par=[0.0] + ([float(h)] if h else []))
    elif f == "tmodel":
        a, b = draw(K()), draw(st.one_of(st.none(), KB()))
        amb = draw(st.booleans())
        d.update(name="kTI_" + ("amb_" if amb else "") + a + (f"_{b}" if b else ""), par=dict(kTI=num(a), ti_var="AMB_TI" if amb else "TI"))
        if b:
            d["par"]["kb"] = num(b)
    else:
        t = draw(st.sampled_from(["timelines", "dyn", "seq"]))
        s, v = draw(st.sampled_from([("600s", 10.0), ("10min", 10.0), ("300s", 5.0), ("5min", 5.0), ("90s", 1.5)]))
        l, lv = draw(st.sampled_from([("2km", 2.0), ("800m", 0.8), ("10km", 10.0)]))
        d.update(t=t)
        if t == "timelines":
            d.update(name=f"timelines_{s}", par=dict(dt_min=v), dt=v)
        elif t == "dyn":
            d.update(name=f"dyn_wakes_{l}", par=dict(max_length_km=lv), dt=draw(st.sampled_from([1.5, 5.0, 10.0])))
        else:
            d.update(name=f"seq_dyn_wakes_{s}", par=dict(dt_min=v), dt=v)
    return d


@st.composite
def names(draw):
    f = draw(focus())
    sc = draw(gen.scenario(nmin=2, nmax=4, smin=1, smax=3, ti=True, grounds=False))
    sc["focus"] = f
    need_k = True
    sc["kmodel"] = draw(st.sampled_from(["kTI_amb_03", "kTI_02_001"]))
    if f["f"] in ("ind", "yawed", "stream", "time"):
        sc["wakes"] = [draw(gen.wind_wake(sup=["linear_amb", "quadratic"], models=["Jensen", "Bastankhah2014"])), "CrespoHernandez_max_k003"]
        sc["partial"] = None
        sc["rotor"] = "centre"
    if f["f"] == "wind":
        sc["wakes"] = [f["name"]] + (["CrespoHernandez_max_k003"] if f["m"] == "TurbOParkIX" or "ka" in f["name"] or draw(st.booleans()) else [])
        sc["partial"] = None
    elif f["f"] == "ti":
        sc["wakes"] = [w for w in sc["wakes"] if w.split("_")[0] not in TI][:1] + [f["name"]]
        sc["partial"] = None
    elif f["f"] == "ind":
        sc["wakes"] = sc["wakes"] + [f["name"]]
    elif f["f"] == "rotor":
        sc["rotor"] = f["name"]
        sc["wakes"] = ["Bastankhah2014_linear_k003"]
        sc["partial"] = "rotor_points"
    elif f["f"] == "partial":
        sc["wakes"] = [draw(gen.wind_wake(models=["Jensen"] if f["name"] == "top_hat" else ["Jensen", "Bastankhah2014"]))]
        sc["partial"] = f["name"]
    elif f["f"] == "ground":
        sc["ground"] = f["name"]
    if f["f"] == "yawed":
        draw(gen.add_yaw(sc))
    if f["f"] in ("yawed", "stream", "time"):
        sc["frame"] = f["name"]
    if f["f"] == "tmodel":
        sc["kmodel"] = f["name"]
        sc["wakes"] = [f"{draw(st.sampled_from(['Jensen', 'Bastankhah2014', 'TurbOPark']))}_linear", "CrespoHernandez_max"]
        sc["partial"] = None
    if f["f"] == "time":
        xy = [[0.0, 0.0], [draw(gen.fl(500.0, 900.0, 50.0)), draw(gen.fl(-60.0, 60.0, 10.0))], [1500.0, draw(gen.fl(-80.0, 80.0, 10.0))]]
        sc["turbines"] = sc["turbines"][:2]
        for t, p in zip(sc["turbines"], xy):
            t["xy"] = p
        n = draw(st.integers(3, 6))
        sc["states"] = dict(rows=[[draw(gen.fl(6.0, 11.0, 0.5)), draw(gen.fl(262.0, 278.0, 2.0)), 0.08, 1.225] for _ in range(n)])
    return sc


def sup_obj(fm, kind, name):
    if kind == "ti":
        c, k = TI_NAMES[name]
        return getattr(fm.wake_superpositions, c)(superp_to_amb="quadratic", **k)
    c, k = WS_NAMES[name]
    return getattr(fm.wake_superpositions, c)(**k)


def explicit(sc, mb):
    """Registers explicitly built models, returns the case with the name of the explicit model"""
    import foxes.models as fm

    f = sc["focus"]
    ai = {"Betz": fm.axial_induction.BetzAxialInduction, "Madsen": fm.axial_induction.MadsenAxialInduction}
    sc = dict(sc)
    k = f["f"]
    swap = lambda: sc.update(wakes=["explicit" if w == f["name"] else w for w in sc["wakes"]])
    if k == "wind":
        c, p, i = WIND[f["m"]]
        mb.wake_superpositions["ws_explicit"] = sup_obj(fm, "ws", f["sup"])
        mb.wake_models["explicit"] = getattr(fm.wake_models.wind, c)(superposition="ws_explicit", induction=ai[i](), **p, **f["par"])
        swap()
    elif k == "ti":
        c, p, _ = TI[f["m"]]
        mb.wake_superpositions["ti_explicit"] = sup_obj(fm, "ti", f["sup"])
        mb.wake_models["explicit"] = getattr(fm.wake_models.ti, c)(superposition="ti_explicit", **p, **f["par"])
        swap()
    elif k == "ind":
        a = {}
        if f["sup"]:
            mb.wake_superpositions["ws_explicit"] = sup_obj(fm, "ws", f["sup"])
            a = dict(superposition="ws_explicit")
        mb.wake_models["explicit"] = getattr(fm.wake_models.induction, IND[f["m"]])(**a)
        swap()
    elif k == "rotor":
        if f["t"] == "centre":
            mb.rotor_models["explicit"] = fm.rotor_models.CentreRotor()
        else:
            mb.rotor_models["explicit"] = getattr(fm.rotor_models, dict(grid="GridRotor", level="LevelRotor")[f["t"]])(n=f["n"], reduce=not f["raw"])
        sc["rotor"] = "explicit"
    elif k == "partial":
        pw = fm.partial_wakes
        mb.partial_wakes["explicit"] = dict(
            axiwake=lambda: pw.PartialAxiwake(n=f["n"]),
            grid=lambda: pw.PartialGrid(n=f["n"]),
            rotor_points=lambda: pw.RotorPoints(),
            top_hat=lambda: pw.PartialTopHat(),
            centre=lambda: pw.PartialCentre(),
        )[f["t"]]()
        sc["partial"] = "explicit"
    elif k == "ground":
        mb.ground_models["explicit"] = fm.ground_models.WakeMirror(heights=f["par"])
        sc["ground"] = "explicit"
    elif k == "tmodel":
        mb.turbine_models["explicit"] = fm.turbine_models.kTI(**f["par"])
        sc["kmodel"] = "explicit"
    else:
        c = dict(yawed="YawedWakes", stream="Streamlines2D", timelines="Timelines", dyn="DynamicWakes", seq="SeqDynamicWakes")[f.get("t", k)]
        mb.wake_frames["explicit"] = getattr(fm.wake_frames, c)(**f["par"])
        sc["frame"] = "explicit"
    return sc


def calc(sc, mb, points):
    import foxes

    f = sc["focus"]
    mb = gen.build_mbook(sc, mbook=mb)
    sc = dict(sc, turbines=[dict(t, m=list(t.get("m", [])) + [sc["kmodel"]]) for t in sc["turbines"]])
    kw, algo, states = {}, "Downwind", None
    if f["f"] == "ind":
        algo = "Iterative"
    if f["f"] == "time":
        r = sc["states"]["rows"]
        df = pd.DataFrame(r, columns=["WS", "WD", "TI", "RHO"])
        df.index = pd.Timestamp("2023-07-07 12:00") + pd.to_timedelta(np.arange(len(r)) * f["dt"] * 60, unit="s")
        states = foxes.input.states.Timeseries(df, output_vars=["WS", "WD", "TI", "RHO"])
        algo = "Sequential" if f["t"] == "seq" else "Iterative"
    # (a sequential run uses its own engine)
    with gen.engine("single"):
        if algo == "Sequential":
            a = gen.build_algo(sc, mbook=mb, states=states, algo=algo)
            rs = [next_res for next_res in a]
            fr = a.farm_results if hasattr(a, "farm_results") else None
            return rs[-1] if fr is None else fr, None
        a = gen.build_algo(sc, mbook=mb, states=states, algo=algo)
        fr = a.calc_farm()
        p = np.broadcast_to(np.array(points)[None], (a.n_states, len(points), 3)).copy()
        pr = a.calc_points(fr, p)
    return fr, pr


PTS = [[300.0, 20.0, 90.0], [1200.0, -40.0, 120.0], [-250.0, 5.0, 90.0], [2500.0, 100.0, 60.0]]


def run_names(sc):
    import foxes

    f = sc["focus"]
    name = f["name"]
    mb0, mb1, mb2 = (foxes.ModelBook() for _ in range(3))
    src = dict(wind="wake_models", ti="wake_models", ind="wake_models", rotor="rotor_models", partial="partial_wakes", ground="ground_models", tmodel="turbine_models").get(f["f"], "wake_frames")
    if name not in mb0.sources[src]:
        raise Violation(f"name {name} not known")
    fr0, pr0 = calc(sc, mb0, PTS)
    if mb0.sources[src][name] is not mb0.sources[src][name] or mb0.get(src, name) is not mb0[src][name]:
        raise Violation(f"{name} gives several models")
    sc1 = explicit(sc, mb1)
    fr1, pr1 = calc(sc1, mb1, PTS)
    gen.compare(fr0, fr1, f"{name} against explicit model, farm", tol=1e-11)
    if pr0 is not None:
        gen.compare(pr0, pr1, f"{name} against explicit model, points", tol=1e-11)
    if f["f"] in ("wind", "tmodel", "rotor"):
        fr2, pr2 = calc(sc, mb2, PTS)
        gen.compare(fr0, fr2, f"{name} from another book, farm", tol=1e-12)
    return {f["f"]} | ({"nt"} if gen.has_wakes(fr0) else set())


# ----------------------------------------------------------- superpositions


@st.composite
def superpositions(draw):
    """Clusters of strong wakes, reaching the limits"""
    kind = draw(st.sampled_from(["ws", "ws", "ws", "ti"]))
    m = draw(st.sampled_from(["Jensen", "Jensen", "Bastankhah2014B"])) if kind == "ws" else draw(st.sampled_from(["CrespoHernandez", "IECTI2019k", "IECTI2005k"]))
    sup = draw(st.sampled_from(list(WS_NAMES if kind == "ws" else TI_NAMES)))
    k = draw(st.sampled_from(["004", "0075", "02"]))
    f = dict(f="wind" if kind == "ws" else "ti", m=m, sup=sup, par=dict(k=num(k), ti_var="TI"), name=f"{m}_{sup}_k{k}")
    ct = draw(st.sampled_from([0.98, 0.97, 0.9, 0.6]))
    tt = dict(ws=[0.0, 5.0, 30.0], P=[0.0, 2000.0, 3000.0], ct=[ct, ct, round(ct - draw(fl(0.0, 0.2, 0.05)), 3)], D=100.0, H=90.0, Pn=3000.0)
    n = draw(st.integers(2, 12))
    xy = [[draw(fl(-30.0, 30.0, 10.0)), round(8.0 * (i - n // 2), 1)] for i in range(n)]
    x = 0.0
    for _ in range(draw(st.integers(1, 3))):
        x += draw(fl(300.0, 700.0, 50.0))
        xy.append([x, draw(fl(-40.0, 40.0, 10.0))])
    rows = [[draw(fl(6.0, 14.0, 0.5)), 270.0, draw(fl(0.04, 0.16, 0.02)), 1.225] for _ in range(2)]
    return dict(
        types=[tt],
        turbines=[dict(xy=p, t=0) for p in xy],
        states=dict(kind="table", rows=rows),
        wakes=[f["name"]] if kind == "ws" else ["Jensen_linear_amb_lim_k004", f["name"]],
        rotor="centre",
        frame="rotor_wd",
        partial=None,
        ground=None,
        focus=f,
        kmodel="kTI_02",
    )


def run_superpositions(sc):
    import foxes

    f = sc["focus"]
    mb0, mb1 = foxes.ModelBook(), foxes.ModelBook()
    pts = [[300.0, 0.0, 90.0], [900.0, 15.0, 70.0], [1500.0, -30.0, 100.0], [5000.0, 0.0, 90.0]]
    fr0, pr0 = calc(sc, mb0, pts)
    fr1, pr1 = calc(explicit(sc, mb1), mb1, pts)
    gen.compare(fr0, fr1, f"{f['name']} against explicit model, farm", tol=1e-11)
    gen.compare(pr0, pr1, f"{f['name']} against explicit model, points", tol=1e-11)
    return {f["f"] + ":" + f["sup"]} | ({"nt"} if gen.has_wakes(fr0) else set())


# --------------------------------------------------------------- malformed

LENIENT_K = r"(_k(?P<k>.+)|_(amb)?ka(?P<ka>.+?)(_kb(?P<kb>.+))?)?"


def _ok(s):
    try:
        num(s)
        return True
    except (ValueError, IndexError):
        return False


def _isf(s, t=float):
    try:
        t(s)
        return True
    except (ValueError, OverflowError):
        return False


def known(kind, name):
    """Could this name be meant to be valid (lenient about numbers)?"""
    ws = "|".join(sorted(WS_NAMES, key=len, reverse=True))
    ti = "|".join(sorted(TI_NAMES, key=len, reverse=True))

    def kk(pre, post=""):
        for pat in ("", "_k(.+)", "_ka(.+)", "_ambka(.+)", "_ka(.+)_kb(.+)", "_ambka(.+)_kb(.+)"):
            m = re.fullmatch(pre + pat + post, name, re.S)
            if m and all(_ok(x) if not (post and i == len(m.groups()) - 1) else _isf(x) for i, x in enumerate(m.groups()) if x is not None):
                return True
        return False

    if kind == "wake":
        for m in WIND:
            if m == "TurbOParkIX":
                if kk(f"{m}_(?:{ws})", "_dx(.+)"):
                    return True
            elif kk(f"{m}_(?:{ws})"):
                return True
        for m in TI:
            if (kk(f"{m}_(?:{ti})") if TI[m][2] else re.fullmatch(f"{m}_(?:{ti})", name)):
                return True
        for m in IND:
            if name == m or (m != "RHB" and re.fullmatch(f"{m}_(?:{ws})", name)):
                return True
        return False
    if kind == "rotor":
        if name == "centre":
            return True
        m = re.fullmatch("grid(.+?)(_raw)?", name, re.S)
        if m:
            try:
                x = float(m.group(1))
                return round(x**0.5) ** 2 == x
            except Exception:
                return False
        m = re.fullmatch("level(.+?)(_raw)?", name, re.S)
        return bool(m) and _isf(m.group(1), int)
    if kind == "partial":
        if name in ("rotor_points", "top_hat", "centre"):
            return True
        m = re.fullmatch("grid(.+)", name, re.S)
        if m:
            try:
                x = float(m.group(1))
                return round(x**0.5) ** 2 == x
            except Exception:
                return False
        m = re.fullmatch("axiwake(.+)", name, re.S)
        return bool(m) and _isf(m.group(1), int)
    if kind == "frame":
        if name in ("rotor_wd", "rotor_wd_farmo", "timelines", "dyn_wakes", "seq_dyn_wakes"):
            return True
        if kk("yawed"):
            return True
        m = re.fullmatch("streamlines_(.+)", name, re.S)
        if m:
            return _isf(m.group(1))
        m = re.fullmatch("(?:seq_dyn_wakes|timelines)_(.+?)(s|min)", name, re.S)
        if m:
            return _isf(m.group(1))
        m = re.fullmatch("dyn_wakes_(.+?)(km|m)", name, re.S)
        return bool(m) and _isf(m.group(1))
    if kind == "ground":
        if name in ("no_ground", "ground_mirror"):
            return True
        m = re.fullmatch("blh_mirror_h(.+)", name, re.S)
        return bool(m) and _isf(m.group(1))
    if kind == "tmodel":
        if name in ("kTI", "kTI_amb", "thrust2ct", "PMask", "yaw2yawm", "yawm2yaw", "hubh_data"):
            return True
        for pat in ("kTI_(.+)", "kTI_amb_(.+)", "kTI_(.+)_(.+)", "kTI_amb_(.+)_(.+)"):
            m = re.fullmatch(pat, name, re.S)
            if m and all(_ok(x) for x in m.groups()):
                return True
        return False
    if kind == "type":
        return name in ("null_type", "NREL5MW", "DTU10MW", "IEA15MW", "IWT7.5MW")
    raise KeyError(kind)


@st.composite
def malformed(draw):
    f = draw(focus())
    kind = dict(wind="wake", ti="wake", ind="wake", yawed="frame", stream="frame", time="frame").get(f["f"], f["f"])
    name = f["name"]
    if draw(st.integers(0, 7)) == 0:
        kind, name = "type", draw(st.sampled_from(["NREL5MW", "DTU10MW"]))
    if draw(st.integers(0, 7)) == 0:
        # not a square
        kind = draw(st.sampled_from(["rotor", "partial"]))
        name = f"grid{draw(st.integers(2, 40))}" + (draw(st.sampled_from(["", "_raw"])) if kind == "rotor" else "")
        if not known(kind, name):
            return dict(kind=kind, name=name)
    for _ in range(draw(st.integers(1, 2))):
        op = draw(st.sampled_from(["del", "ins", "app", "pre", "swap", "case", "drop"]))
        i = draw(st.integers(0, max(0, len(name) - 1)))
        ch = draw(st.sampled_from(["_", "x", "k", "0", "5", "B", " ", "raw", "_raw", "kb", ".", "-", "s", "<n>", "linear"]))
        if op == "del":
            name = name[:i] + name[i + 1 :]
        elif op == "ins":
            name = name[:i] + ch + name[i:]
        elif op == "app":
            name = name + ch
        elif op == "pre":
            name = ch + name
        elif op == "swap" and i + 1 < len(name):
            name = name[:i] + name[i + 1] + name[i] + name[i + 2 :]
        elif op == "case":
            name = name[:i] + name[i].swapcase() + name[i + 1 :] if name else name
        elif op == "drop":
            p = name.split("_")
            j = draw(st.integers(0, len(p) - 1))
            name = "_".join(p[:j] + p[j + 1 :])
    return dict(kind=kind, name=name)


def run_malformed(c):
    import foxes

    kind, name = c["kind"], c["name"]
    if known(kind, name):
        raise Skip("still a name of the grammar")
    mb = foxes.ModelBook()
    kw = dict(wakes=["Jensen_linear_k004"], rotor="centre", frame="rotor_wd", partial=None, ground=None)
    tm = []
    tt = "NREL5MW"
    if kind == "wake":
        kw["wakes"] = ["Jensen_linear_k004", name] if not name.startswith("Jensen_linear_k004") else [name]
    elif kind in ("rotor", "partial", "ground", "frame"):
        kw[kind] = name
    elif kind == "tmodel":
        tm = [name]
    else:
        tt = name
    sc = dict(types=[{"b": "NREL5MW"}], turbines=[], states=dict(kind="table", rows=[[8.0, 270.0, 0.08, 1.225]]), **kw)
    src = dict(rotor="rotor_models", partial="partial_wakes", frame="wake_frames", ground="ground_models", tmodel="turbine_models", type="turbine_types").get(kind)
    try:
        if kind in ("rotor", "partial", "frame", "ground", "tmodel", "type"):
            if name in mb.sources[src]:
                raise Violation(f"{kind} name {name!r} is said to be known")
            try:
                m = mb.get(src, name)
            except Exception:
                m = None
            if m is not None:
                raise Violation(f"{kind} name {name!r} gives {m}")
            try:
                m = mb[src][name]
            except Exception:
                m = None
            if m is not None:
                raise Violation(f"{kind} name {name!r} gives {m}")
        n = mb.sources["wake_models" if kind == "wake" else src]
        farm = foxes.WindFarm()
        for x in (0.0, 700.0):
            farm.add_turbine(foxes.Turbine(xy=np.array([x, 0.0]), turbine_models=[tt, "kTI_02"] + tm), verbosity=0)
        import contextlib, io

        with contextlib.redirect_stdout(io.StringIO()):
            try:
                with gen.engine("single"):
                    algo = gen.build_algo(sc, mbook=mb, farm=farm)
                    fr = algo.calc_farm()
            except Exception:
                fr = None
        if fr is not None:
            raise Violation(f"{kind} name {name!r} gives results instead of an error")
    finally:
        pass
    return {kind, "nt"}


# --------------------------------------------------------------- templates


class Made:
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs


@st.composite
def templates(draw):
    n = draw(st.integers(1, 3))
    pre = [draw(st.sampled_from(["abc_", "m", "Name_"]))] + [draw(st.sampled_from(["_q", "_zz", "-w", "_y_"])) + str(i) for i in range(1, n)]
    suf = draw(st.sampled_from(["", "", "_end", "X"]))
    vs = [f"v{i}" for i in range(n)]
    kinds = [draw(st.sampled_from(["int", "float", "list", "dict", "str"])) for _ in vs]
    vals = [draw(st.integers(0, 99)) for _ in vs]
    return dict(pre=pre, suf=suf, kinds=kinds, vals=vals, arg=draw(st.booleans()), kw=draw(st.booleans()), more=draw(st.booleans()), store=draw(st.booleans()), bad=draw(st.sampled_from(["", "!", "_end_", "1x"])))


def run_templates(c):
    from foxes.utils import FDict

    n = len(c["pre"])
    vs = [f"v{i}" for i in range(n)]
    tmpl = "".join(p + f"<{v}>" for p, v in zip(c["pre"], vs)) + c["suf"]
    opts, ex, txt = {}, {}, []
    for v, k, x in zip(vs, c["kinds"], c["vals"]):
        if k == "int":
            opts[v], t, e = int, str(x), x
        elif k == "float":
            opts[v], t, e = (lambda s: float(s) / 2), str(x), x / 2
        elif k == "list":
            opts[v] = [7 * i for i in range(10)]
            e = 7 * (x % 10)
            t = str(e)
        elif k == "dict":
            opts[v] = {f"o{i}": i * i for i in range(10)}
            t, e = f"o{x % 10}", (x % 10) ** 2
        else:
            t = e = f"t{x}"
        ex[v] = e
        txt.append(t)
    v2a = {vs[0]: "first"} if c["arg"] else {}
    if c["arg"]:
        ex["first"] = ex.pop("v0")
    kw = dict(fixed=3) if c["kw"] else {}
    ex.update(kw)
    d = FDict(name="test", store_created=c["store"])
    if c["more"]:
        # a shorter template with the same prefix
        d.add_factory(Made, c["pre"][0] + "<x>" + c["suf"], x=lambda s: {"only": 1}[s] if s == "only" else int("no"), kwargs=dict(short=True))
    d.add_factory(Made, tmpl, args=(11,), kwargs=kw, var2arg=v2a, **opts)
    d["plain"] = Made()
    name = "".join(p + t for p, t in zip(c["pre"], txt)) + c["suf"]
    for rep in range(2):
        if name not in d:
            raise Violation(f"template {tmpl}: {name} not found")
        m = d.get_item(name, prnt=False)
        if m.args != (11,) or m.kwargs != ex:
            raise Violation(f"template {tmpl}: {name} gives {m.args}, {m.kwargs}, expected {ex}")
    if c["store"] and d[name] is not d[name]:
        raise Violation(f"{name} gives several objects")
    if (name in d.keys()) != c["store"]:
        raise Violation(f"stored objects: {list(d.keys())}")
    if c["more"]:
        s = c["pre"][0] + "only" + c["suf"]
        if d[s].kwargs != dict(x=1, short=True):
            raise Violation(f"{s} gives {d[s].kwargs}")
    bad = ["q" + name, "plain2", "lain", ""]
    if c["bad"] and (c["suf"] or c["kinds"][-1] != "str"):
        bad.append(name + c["bad"])
    if c["suf"] and not c["suf"].isdigit():
        bad.append(name[: -len(c["suf"])])
    if c["kinds"][-1] in ("list", "dict") and n > 1:
        bad.append(name[: len(name) - len(c["suf"])] + "9" + c["suf"])
    for b in bad:
        if b in d:
            raise Violation(f"template {tmpl}: {b!r} is said to be known")
        try:
            m = d[b]
        except KeyError:
            continue
        raise Violation(f"template {tmpl}: {b!r} gives {m.kwargs}")
    return {"n%d" % n} | ({"nt"} if n > 1 or c["suf"] else set())


# ------------------------------------------------------------- class names

BASES = [
    "PointDataModel", "FarmDataModel", "RotorModel", "TurbineType", "TurbineModel", "FarmController", "PartialWakesModel", "WakeFrame", "WakeSuperposition",
    "WakeModel", "AxialInductionModel", "GroundModel", "States", "VerticalProfile", "Algorithm", "Engine",
]


@st.composite
def classes(draw):
    return dict(base=draw(st.sampled_from(BASES)), pick=draw(st.integers(0, 200)), edit=draw(st.sampled_from(["x", "", "s", "_", "2"])), cut=draw(st.booleans()))


def run_classes(c):
    import foxes
    import foxes.core as fc
    from foxes.utils import all_subclasses, new_cls, new_instance

    base = getattr(fc, c["base"])
    subs = {}
    for s in all_subclasses(base):
        subs.setdefault(s.__name__, []).append(s)
    nm = sorted(subs)[c["pick"] % len(subs)]
    got = new_cls(base, nm)
    if got.__name__ != nm or not issubclass(got, base) or got not in subs[nm]:
        raise Violation(f"{c['base']}: class name {nm} gives {got}")
    bad = (nm[:-1] if c["cut"] else nm) + c["edit"]
    alias = ["default", "threads", "process", "xarray", "dask", "multiprocess", "local_cluster", "slurm_cluster", "mpi", "ray", "numpy", "single"]
    if bad not in subs and not (c["base"] == "Engine" and bad in alias):
        for f in (lambda: new_cls(base, bad), lambda: base.new(bad), lambda: new_instance(base, bad)):
            try:
                m = f()
            except KeyError:
                continue
            raise Violation(f"{c['base']}: unknown class name {bad} gives {m}")
    if c["base"] == "Engine":
        al = dict(default="DefaultEngine", threads="ThreadsEngine", process="ProcessEngine", xarray="XArrayEngine", multiprocess="MultiprocessEngine", numpy="NumpyEngine", single="SingleChunkEngine")
        k = sorted(al)[c["pick"] % len(al)]
        e = base.new(k, verbosity=0)
        if type(e).__name__ != al[k]:
            raise Violation(f"engine name {k} gives {type(e).__name__}")
    if c["base"] == "WakeModel":
        mb = foxes.ModelBook()
        m = mb.get("wake_models", "mine", "JensenWake", superposition="ws_linear", k=0.05)
        if type(m).__name__ != "JensenWake" or mb.wake_models["mine"] is not m or "mine" not in mb.wake_models:
            raise Violation(f"model 'mine' is {m}")
        m = mb.get("rotor_models", "grid_fine", "GridRotor", n=3)
        if type(m).__name__ != "GridRotor" or mb.rotor_models["grid_fine"] is not m:
            raise Violation(f"rotor model 'grid_fine' is {m}")
    return {c["base"], "nt"}


SUBS = [
    Sub("names", names(), run_names, quick=700),
    Sub("superpositions", superpositions(), run_superpositions, quick=300),
    Sub("malformed", malformed(), run_malformed, quick=700),
    Sub("templates", templates(), run_templates, quick=600),
    Sub("classes", classes(), run_classes, quick=80),
]
