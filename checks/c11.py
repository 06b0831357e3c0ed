"""C11: partial wakes give the rotor average of the wake"""
import math
import numpy as np
from hypothesis import strategies as st
from vf import gen, ref
from vf.runner import Sub, Violation, Skip

PROPERTY = "C11"
RULE = (
    "one turbine in the wake of another (all relative positions, sizes, hub heights), every partial wakes model; "
    "points: rotor points and grids against the weighted mean of the effect at these points as returned by calc_points of the "
    "farm without the target; tophat: against the overlap area of two discs; axi: against a fine disc quadrature of calc_points, "
    "with a bound that shrinks with the number of rings, and within the extremes over the disc; many: several wakes at one rotor. "
    "non-trivial: the target rotor sees an effect"
)
ASSUMPTIONS = [
    "axiwake errors with n rings: up to 1.6/n of the largest effect for top-hat wakes (a ring counts fully or not at all), 1/n**2 + 0.002 of it for Gaussian wakes",
]
TYP = dict(ws=[0.0, 40.0], P=[0.0, 1000.0], ct=[0.5, 0.5], D=100.0, H=100.0, Pn=1000.0)


@st.composite
def pair(draw, models, rotors=("centre",), partials=None):
    wd = draw(gen.fl(0.0, 359.0, 0.5)) + 0.137
    D0, D1 = draw(st.sampled_from([60.0, 100.0, 160.0])), draw(st.sampled_from([40.0, 100.0, 240.0]))
    x = draw(gen.fl(100.0, 2500.0, 25.0))
    y = draw(st.one_of(st.just(0.0), gen.fl(-250.0, 250.0, 1.0), gen.fl(-60.0, 60.0, 1.0)))
    H0 = draw(gen.fl(130.0, 180.0, 5.0))
    H1 = draw(st.one_of(st.just(H0), gen.fl(130.0, 260.0, 1.0)))
    w = draw(st.sampled_from(models))
    sup = draw(st.sampled_from(["linear_amb", "linear", "linear_loc", "quadratic_amb"]))
    ti = w.startswith(("Crespo", "IEC"))
    if ti:
        sup = draw(st.sampled_from(["linear", "quadratic", "max"]))
    k = draw(st.sampled_from(["_k002", "_k004", "_k0075", "_k01", "_ambka04"]))
    name = f"{w}_{sup}" + ("" if w in ("IECTI2019", "IECTI2005") else k)
    c = dict(
        wd=round(wd, 4), ws=draw(gen.fl(5.0, 18.0, 0.5)), ti=draw(gen.fl(0.03, 0.2, 0.01)),
        D=[D0, D1], H=[H0, H1], pos=[x, y], ct=draw(gen.fl(0.1, 0.95, 0.05)), wake=name,
        rotor=draw(st.sampled_from(list(rotors))), algo=draw(st.sampled_from(["Downwind", "Downwind", "Iterative"])),
        shift=[draw(gen.fl(-500.0, 500.0, 50.0)), draw(gen.fl(-500.0, 500.0, 50.0))], swap=draw(st.booleans()),
        ctm=draw(gen.fl(0.1, 0.9, 0.1)),
    )
    if partials:
        c["pw"] = draw(st.sampled_from(partials))
    return c


def frame(wd):
    a = math.radians(wd)
    n = np.array([-math.sin(a), -math.cos(a)])
    return n, np.array([-n[1], n[0]])


def run_pair(c, pts, pw, mb_extra=None):
    """effect at the target rotor, and at points given in the rotor plane of the target (y, z offsets, metres)"""
    n, m = frame(c["wd"])
    p0 = np.array(c["shift"])
    p1 = p0 + c["pos"][0] * n + c["pos"][1] * m
    t0 = dict(xy=p0.tolist(), t=0, D=c["D"][0], H=c["H"][0], m=["vct"])
    t1 = dict(xy=p1.tolist(), t=0, D=c["D"][1], H=c["H"][1], m=["vct"])
    ts = [t1, t0] if c["swap"] else [t0, t1]
    cts = [c["ctm"], c["ct"]] if c["swap"] else [c["ct"], c["ctm"]]
    sc = dict(
        types=[TYP], turbines=ts, states=dict(kind="table", rows=[[c["ws"], c["wd"], c["ti"], 1.2]]),
        set={"vct": {"vars": {"CT": [cts]}}}, rotor=c["rotor"], wakes=[c["wake"]], partial={c["wake"]: pw},
    )
    if c.get("yaw"):
        y = [c["yaw"], 0.0] if c["swap"] else [0.0, c["yaw"]]
        sc["set"]["vyaw"] = {"vars": {"YAWM": [y]}}
        for t in ts:
            t["m0"] = ["vyaw", "yawm2yaw"]
    mb = gen.build_mbook(sc)
    algo = gen.build_algo(sc, mbook=mb, algo=c["algo"])
    with gen.engine():
        fr = algo.calc_farm()
    it = 0 if c["swap"] else 1
    V = "TI" if c["wake"].startswith(("Crespo", "IEC")) else "REWS"
    eff = gen.vals(fr, V)[0, it] - gen.vals(fr, "AMB_" + V)[0, it]
    if abs(gen.vals(fr, V)[0, 1 - it] - gen.vals(fr, "AMB_" + V)[0, 1 - it]) > 1e-12:
        raise Violation("the upstream turbine is waked")
    pe = None
    if pts is not None:
        s1 = dict(sc, turbines=[t0], set={"vct": {"vars": {"CT": [[c["ct"]]]}}})
        t0.pop("m0", None)
        al1 = gen.build_algo(s1)
        P = [list(p1 + q[0] * m + (q[2] * n if len(q) > 2 else 0.0)) + [c["H"][1] + q[1]] for q in pts]
        with gen.engine():
            f1 = al1.calc_farm()
            pr = al1.calc_points(f1, gen.points_array(P, al1))
        v = "TI" if V == "TI" else "WS"
        pe = gen.vals(pr, v)[0] - gen.vals(pr, "AMB_" + v)[0]
    return eff, pe


ALLW = ["Jensen", "CrespoHernandez", "IECTI2019", "IECTI2005k", "Bastankhah2014", "Bastankhah025B", "TurbOPark", "Bastankhah2016"]


@st.composite
def grids(draw):
    c = draw(pair(ALLW, rotors=["centre", "grid4", "grid9", "level3", "grid16"], partials=["rotor_points", "grid4", "grid9", "grid16", "grid25", "centre"]))
    if draw(st.integers(0, 3)) == 0:
        c["yaw"] = draw(gen.fl(-40.0, 40.0, 5.0))
        if c["pw"] not in ("rotor_points", "centre"):
            # the points of a yawed grid differ in downstream distance, which the wake models neglect by design
            c.pop("yaw")
    return c


def run_grids(c):
    off, wgt = ref.grid_points(c["rotor"] if c["pw"] == "rotor_points" else c["pw"])
    R = c["D"][1] / 2
    pts = []
    for o in off:
        y, z = R * o[0], R * o[1]
        pts.append([y, z])
    eff, pe = run_pair(c, pts, c["pw"])
    cand = [float(np.sum(wgt * pe))]
    if c["wake"].startswith(("Jensen", "Crespo", "IEC")):
        # points exactly on the edge of a top-hat wake are not judged
        d = [run_pair(c, [[q[0] * f, q[1] * f] + list(q[2:]) for q in pts], c["pw"])[1] for f in (1 - 1e-7, 1 + 1e-7)]
        if np.max(np.abs(d[0] - d[1])) > 1e-4 * max(1e-9, np.max(np.abs(pe))):
            raise Skip("edge")
    s = c["ws"] if not c["wake"].startswith(("Crespo", "IEC")) else 1.0
    if min(abs(eff - q) for q in cand) > 2e-6 * s:
        raise Violation(f"effect at the rotor {eff!r}, weighted mean over the points {cand}")
    lb = {c["pw"], c["wake"].split("_")[0]}
    if abs(eff) > 1e-4:
        lb.add("nt")
        if np.any(np.abs(pe) < 1e-12) or np.ptp(pe) > 1e-3:
            lb.add("partly")
    return lb


def run_tophat(c):
    w = ref.Wake(c["wake"])
    t = ref.T()
    t.D, t.CT, t.TI, t.AMB_TI, t.REWS = c["D"][0], c["ct"], c["ti"], c["ti"], c["ws"]
    x, y, z = c["pos"][0], c["pos"][1], c["H"][1] - c["H"][0]
    wr, R = w.radius(t, x), math.hypot(y, z)
    R1 = c["D"][1] / 2
    f = ref.lens(R1, wr, R) / (math.pi * R1**2)
    e = w.centre(t, x) * f
    amb = c["ti"] if w.var == "TI" else c["ws"]
    want = ref.superpose(w.sup, w.var, [(e, c["ws"], c["ws"])] if e != 0 else [], amb)
    eff, pe = run_pair(c, [[0.0, 0.0], [-y, -z]], "top_hat")
    if c["rotor"] != "centre":
        # uniform over the rotor
        pass
    tol = 2e-6 * (1.0 if w.var == "TI" else c["ws"])
    if abs(eff - want) > tol:
        raise Violation(f"top hat effect {eff!r}, overlap fraction {f} gives {want!r}")
    lb = {w.base}
    if R + R1 < wr * (1 - 1e-9):
        lb.add("inside")
        if abs(eff - pe[1]) > tol:
            raise Violation(f"rotor fully inside sees {eff!r} instead of {pe[1]!r}")
    elif R - R1 > wr * (1 + 1e-9):
        lb.add("outside")
        if eff != 0.0:
            raise Violation(f"rotor outside the wake sees {eff!r}")
    elif R + wr < R1:
        lb.add("nested")
    else:
        lb.add("partial")
    if abs(eff) > 1e-6:
        lb.add("nt")
    return lb


def disc(nr, nphi):
    """midpoint quadrature of the unit disc"""
    r = np.sqrt((np.arange(nr) + 0.5) / nr)
    out = []
    for i, q in enumerate(r):
        ph = (np.arange(nphi) + (0.5 if i % 2 else 0.0)) * 2 * np.pi / nphi
        out.append(np.stack([q * np.cos(ph), q * np.sin(ph)], axis=-1))
    return np.concatenate(out)


@st.composite
def axi(draw):
    th = draw(st.booleans())
    c = draw(pair(["Jensen", "CrespoHernandez", "IECTI2019"] if th else ["Bastankhah2014", "Bastankhah025", "TurbOPark"], rotors=["centre", "grid4"]))
    c["wake"] = c["wake"].replace("quadratic_amb", "linear_amb").replace("_quadratic", "_linear").replace("_max", "_linear")
    c["n"] = draw(st.sampled_from([3, 6, 10, 20, 50, 100]))
    return c


def run_axi(c, report=False):
    th = c["wake"].startswith(("Jensen", "Crespo", "IEC"))
    # undo the superposition with ambient TI, which is not linear
    lin = (lambda d: np.sqrt(np.maximum((np.asarray(d) + c["ti"]) ** 2 - c["ti"] ** 2, 0.0))) if c["wake"].startswith(("Crespo", "IEC")) else (lambda d: d)
    q = disc(24, 48)
    eff, pe = run_pair(c, [list(v) for v in q * c["D"][1] / 2], f"axiwake{c['n']}")
    pe, eff = lin(pe), float(lin(eff))
    ex = float(np.mean(pe))
    big = float(np.max(np.abs(pe)))
    y, z = c["pos"][1], c["H"][1] - c["H"][0]
    # includes the wake centre, if within the disc
    R = math.hypot(y, z)
    if R <= c["D"][1] / 2:
        big = max(big, abs(float(lin(run_pair(c, [[-y, -z]], "centre")[1])[0])))
    err = abs(eff - ex)
    if report:
        return err, big, th
    n = c["n"]
    if th:
        # exact average of the top hat
        w = ref.Wake(c["wake"])
        t = ref.T()
        t.D, t.CT, t.TI, t.AMB_TI, t.REWS = c["D"][0], c["ct"], c["ti"], c["ti"], c["ws"]
        R1, wr = c["D"][1] / 2, w.radius(t, c["pos"][0])
        big = abs(w.centre(t, c["pos"][0]))
        if w.var == "WS":
            big *= c["ws"]
        err = abs(abs(eff) - big * ref.lens(R1, wr, R) / (math.pi * R1**2))
        tol = 1.6 / n * big
    else:
        tol = (1.0 / n**2 + 2e-3) * big
    if abs(eff) > big * (1 + 1e-2) + 1e-9:
        raise Violation(f"axiwake effect {eff!r} exceeds the largest effect over the disc {big!r}")
    if np.sign(eff) * np.sign(ex) < 0:
        raise Violation("wrong sign")
    if err > tol + 1e-9:
        raise Violation(f"axiwake{n} effect {eff!r}, disc average {ex!r}, largest effect {big!r}")
    lb = {"tophat" if th else "gauss", f"n{n}"}
    if abs(eff) > 1e-4:
        lb.add("nt")
    return lb


SUBS = [
    Sub("points", grids(), run_grids, quick=700),
    Sub("tophat", pair(["Jensen", "CrespoHernandez", "IECTI2019", "IECTI2005k", "IECTI2005"], rotors=["centre", "grid4"]), run_tophat, quick=600),
    Sub("axi", axi(), run_axi, quick=500),
]
