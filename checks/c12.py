"""C12: ground models reflect wakes like image turbines"""
import math
import numpy as np
from hypothesis import strategies as st
from vf import gen, ref
from vf.runner import Sub, Violation, Skip

PROPERTY = "C12"
RULE = (
    "farms with pinned thrust coefficients and reflecting planes (ground, boundary layer height, arbitrary lists); the effect of an "
    "image turbine at height z is the effect of the turbine itself at the height reflected about the plane, measured without "
    "ground model by one-turbine runs; points: all superposition rules; rotors: a passive target rotor, every partial wakes "
    "model, compared with target rotors placed at the reflected heights; far: planes far away, empty lists and no ground model "
    "agree; non-trivial: a mirror image changes the result"
)
ASSUMPTIONS = []
GAUSS = ["Bastankhah2014", "Bastankhah025B", "TurbOPark"]
MODELS = ["Jensen", "Jensen"] + GAUSS + ["Bastankhah2016"]


@st.composite
def ground(draw):
    o = draw(st.sampled_from(["ground", "blh", "blh", "list"]))
    if o == "ground":
        return "ground_mirror", [0.0]
    if o == "blh":
        h = draw(st.sampled_from([220.0, 300.0, 500.0]))
        return f"blh_mirror_h{int(h)}", [0.0, h]
    return None, [draw(gen.fl(-60.0, 0.0, 10.0)) for _ in range(draw(st.integers(0, 1)))] + [draw(gen.fl(250.0, 500.0, 10.0))]


def set_ground(mb, g):
    import foxes.models as fm

    if g[0] is not None:
        return g[0]
    mb.ground_models["vmirror"] = fm.ground_models.WakeMirror(heights=list(g[1]))
    return "vmirror"


def frame(wd):
    a = math.radians(wd)
    n = np.array([-math.sin(a), -math.cos(a)])
    return n, np.array([-n[1], n[0]])


TYP = dict(ws=[0.0, 40.0], P=[0.0, 1000.0], ct=[0.5, 0.5], D=100.0, H=100.0, Pn=1000.0)


@st.composite
def base(draw, nmax=4):
    wd = draw(gen.fl(0.0, 359.0, 0.5)) + 0.137
    n = draw(st.integers(1, nmax))
    ts = []
    for i in range(n):
        D = draw(st.sampled_from([60.0, 100.0, 140.0]))
        ts.append(
            dict(
                x=draw(gen.fl(0.0, 1500.0, 50.0)) + 7.0 * i, y=draw(gen.fl(-150.0, 150.0, 5.0)),
                D=D, H=round(D / 2 + draw(gen.fl(10.0, 60.0, 2.0)), 2), ct=draw(gen.fl(0.2, 0.95, 0.05)),
            )
        )
    ti = draw(st.integers(0, 4)) == 0
    w = draw(st.sampled_from(["IECTI2019", "IECTI2005k"] if ti else MODELS))
    k = "" if w == "IECTI2019" else draw(st.sampled_from(["_k004", "_k0075", "_k01", "_ambka04"]))
    return dict(wd=round(wd, 4), ws=draw(gen.fl(5.0, 14.0, 0.5)), ti=draw(gen.fl(0.04, 0.2, 0.01)), ts=ts, w=w, k=k, TI=ti, ground=draw(ground()))


def build(c, ts, wake, ground=None, partial=None, rotor="centre", algo="Downwind"):
    n, m = frame(c["wd"])
    tt = []
    for t in ts:
        p = t["x"] * n + t["y"] * m
        tt.append(dict(xy=p.tolist(), t=0, D=t["D"], H=t["H"], m=["vct"]))
    sc = dict(
        types=[TYP], turbines=tt, states=dict(kind="table", rows=[[c["ws"], c["wd"], c["ti"], 1.2]]),
        set={"vct": {"vars": {"CT": [[t["ct"] for t in ts]]}}}, rotor=rotor, wakes=[wake],
        partial=None if partial == "default" else {wake: partial or "centre"},
    )
    mb = gen.build_mbook(sc)
    if ground is not None:
        sc["ground"] = set_ground(mb, ground) if not isinstance(ground, (dict, str)) else ground
        if c.get("dict_ground") and isinstance(sc["ground"], str):
            sc["ground"] = {wake: sc["ground"]}
    return gen.build_algo(sc, mbook=mb, algo=algo)


def glob(c, p):
    n, m = frame(c["wd"])
    q = p[0] * n + p[1] * m
    return [float(q[0]), float(q[1]), p[2]]


@st.composite
def points_case(draw):
    c = draw(base())
    c["rule"] = draw(st.sampled_from(gen.TI_SUP if c["TI"] else gen.WS_SUP + gen.WS_SUP_LIM))
    c["points"] = [[draw(gen.fl(200.0, 4000.0, 50.0)) + 3.0, draw(gen.fl(-200.0, 200.0, 10.0)), draw(gen.fl(2.0, 240.0, 7.0))] for _ in range(4)]
    c["dict_ground"] = draw(st.booleans())
    return c


def run_points(c):
    V = "TI" if c["TI"] else "WS"
    FVAR = "TI" if c["TI"] else "REWS"
    n = len(c["ts"])
    hs = c["ground"][1]
    # downstream rotors (partial wakes 'centre') as further locations
    hubs = [[t["x"], t["y"], t["H"]] for t in c["ts"]]
    loc = c["points"] + hubs
    algo = build(c, c["ts"], f"{c['w']}_{c['rule']}{c['k']}", ground=c["ground"])
    with gen.engine():
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, gen.points_array([glob(c, p) for p in c["points"]], algo))
    R, AR = gen.vals(fr, "REWS")[0], gen.vals(fr, "AMB_REWS")[0]
    if not c["TI"] and np.any(R <= 0):
        raise Skip("negative source speeds")
    # effects of every turbine alone, at all locations and their reflections
    zs = [[p[2]] + [2 * h - p[2] for h in hs] for p in loc]
    lin = "linear" if c["TI"] else "linear_loc"
    sgl = []
    for t in c["ts"]:
        a1 = build(c, [t], f"{c['w']}_{lin}{c['k']}")
        P = [glob(c, [p[0], p[1], z]) for p, zz in zip(loc, zs) for z in zz]
        with gen.engine():
            f1 = a1.calc_farm()
            p1 = a1.calc_points(f1, gen.points_array(P, a1))
        w, a = gen.vals(p1, V)[0], gen.vals(p1, "AMB_" + V)[0]
        e = np.sqrt(np.maximum(w * w - a * a, 0.0)) if c["TI"] else (w - a) / a
        sgl.append(np.array(e).reshape(len(loc), -1))
    lb = set()
    o = gen.vals(fr, "order")[0].astype(int).tolist()
    for j in range(len(loc)):
        jt = j - len(c["points"])
        if jt >= 0:
            amb, got = gen.vals(fr, "AMB_" + FVAR)[0, jt], gen.vals(fr, FVAR)[0, jt]
        else:
            amb, got = gen.vals(pr, "AMB_" + V)[0, j], gen.vals(pr, V)[0, j]
        eff = [(e, R[i], AR[i]) for i in range(n) for e in sgl[i][j] if abs(e) > 1e-9 and i != jt]
        img = any(abs(e) > 1e-6 for i in range(n) for e in sgl[i][j][1:] if i != jt)
        if jt >= 0 and o.index(jt) == 0:
            want = amb
        else:
            want = amb + ref.superpose(c["rule"], V, eff, amb)
        if np.max(gen.diff(V, got, want, 2e-6)) > 1:
            raise Violation(f"{V} at location {loc[j]}: {got!r}, image turbines give {want!r}")
        if img and jt != o[0]:
            lb |= {"nt", "rotor" if jt >= 0 else "point"}
    return lb


@st.composite
def rotor_case(draw):
    c = draw(base(nmax=2))
    c["rule"] = "linear" if c["TI"] else "linear_amb"
    D = draw(st.sampled_from([60.0, 100.0, 160.0]))
    c["target"] = dict(
        x=draw(gen.fl(1650.0, 4000.0, 50.0)), y=draw(gen.fl(-200.0, 200.0, 10.0)), D=D,
        H=round(D / 2 + draw(gen.fl(5.0, 80.0, 5.0)), 2), ct=0.0,
    )
    top = c["w"].startswith(("Jensen", "IEC"))
    o = ["centre", "grid4", "grid9", "rotor_points", "default"]
    if top:
        o += ["top_hat", "top_hat"]
    if c["w"] != "Bastankhah2016":
        o += ["axiwake6", "axiwake10"]
    c["pw"] = draw(st.sampled_from(o))
    c["rotor"] = draw(st.sampled_from(["centre", "grid4", "grid9", "level3"]))
    c["algo"] = draw(st.sampled_from(["Downwind", "Downwind", "Iterative"]))
    c["dict_ground"] = draw(st.booleans())
    return c


def run_rotor(c):
    hs = c["ground"][1]
    V = "TI" if c["TI"] else "REWS"
    t = c["target"]
    wake = f"{c['w']}_{c['rule']}{c['k']}"

    def effect(srcs, H, ground=None):
        ts = srcs + [dict(t, H=H)]
        algo = build(c, ts, wake, ground=ground, partial=c["pw"], rotor=c["rotor"], algo=c["algo"])
        with gen.engine():
            fr = algo.calc_farm()
        w, a = gen.vals(fr, V)[0, -1], gen.vals(fr, "AMB_" + V)[0, -1]
        return math.sqrt(max(w * w - a * a, 0.0)) if c["TI"] else w - a

    # pairs of sources would interact in their rotor speeds, which linear_amb does not use
    got = effect(c["ts"], t["H"], c["ground"])
    tot, main = 0.0, 0.0
    if c["TI"]:
        srcs = [[c["ts"][0]]]
        got = effect(srcs[0], t["H"], c["ground"])
    else:
        srcs = [[q] for q in c["ts"]]
    for s in srcs:
        main += effect(s, t["H"])
        for h in hs:
            tot += effect(s, 2 * h - t["H"])
    if c["TI"] and c["w"] != "IECTI2019" and c["pw"] in ("grid4", "grid9", "rotor_points"):
        # points average after the non-linear superposition with ambient
        raise Skip("non-linear")
    if c["TI"] and c["pw"] in ("grid4", "grid9", "rotor_points"):
        raise Skip("non-linear")
    if c["ws"] + main + tot < 0.2:
        raise Skip("negative speeds")
    want = main + tot
    if abs(got - want) > 3e-6 * (1.0 if c["TI"] else c["ws"]):
        raise Violation(f"effect at the rotor ({c['pw']}): {got!r}, turbines {main!r} plus images {tot!r}")
    lb = {str(c["pw"])}
    if abs(tot) > 1e-5:
        lb.add("nt")
    return lb


@st.composite
def far_case(draw):
    sc = draw(gen.scenario(nmin=2, nmax=5, smax=2, grounds=False, profile=False))
    sc["points"] = [[draw(gen.fl(-500.0, 5000.0, 50.0)), draw(gen.fl(-500.0, 5000.0, 50.0)), draw(gen.fl(10.0, 200.0, 10.0))] for _ in range(3)]
    sc["mode"] = draw(st.sampled_from(["far", "empty", "no_ground", "none_dict"]))
    return sc


def run_far(sc):
    import foxes.models as fm

    f0, p0 = gen.run_both(dict(sc, ground=None), sc["points"])
    mb = gen.build_mbook(sc)
    if sc["mode"] == "far":
        mb.ground_models["vfar"] = fm.ground_models.WakeMirror(heights=[-1e7, 1e7])
        g = "vfar"
    elif sc["mode"] == "empty":
        mb.ground_models["vfar"] = fm.ground_models.WakeMirror(heights=[])
        g = "vfar"
    elif sc["mode"] == "no_ground":
        g = "no_ground"
    else:
        g = {w: "no_ground" for w in sc["wakes"]}
    algo = gen.build_algo(dict(sc, ground=g), mbook=mb)
    with gen.engine():
        f1 = algo.calc_farm()
        p1 = algo.calc_points(f1, gen.points_array(sc["points"], algo))
    gen.compare(f0, f1, f"farm, {sc['mode']}", tol=1e-7)
    gen.compare(p0, p1, f"points, {sc['mode']}", tol=1e-7)
    lb = {sc["mode"]}
    if gen.has_wakes(f0):
        lb.add("nt")
    return lb


SUBS = [
    Sub("points", points_case(), run_points, quick=600),
    Sub("rotor", rotor_case(), run_rotor, quick=500),
    Sub("far", far_case(), run_far, quick=250),
]
