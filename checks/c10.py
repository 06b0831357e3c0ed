"""C10: induction models give the published flow change"""
import math
import numpy as np
from hypothesis import strategies as st
from vf import gen, ref
from vf.runner import Sub, Violation, Skip

PROPERTY = "C10"
RULE = (
    "single: one turbine with pinned thrust coefficient, points all around it (also exactly in the rotor plane, inside the half "
    "body, behind the disc), all models, options, superpositions, sizes, directions, against a scalar evaluation of the formula; "
    "farm: several turbines with one or two induction models (and a wake model) under the iterative algorithm, points and the fixed "
    "point of the rotor speeds; decay: size and symmetry of the effect. non-trivial: some nonzero effect"
)
ASSUMPTIONS = [
    "points closer than 1e-6 rotor radii to a region boundary of a model are not judged (except exactly in the rotor plane)",
    "the Rathmann formula is taken with the angle under which the disc is seen (eqn 19), on both sides of 90 degrees",
]
EPS = 1e-6


class Edge(Exception):
    pass


def near(a, b):
    if abs(a - b) < EPS * (1.0 + abs(b)):
        raise Edge()


def induction(name, ct):
    return ref.betz(ct) if name == "Betz" else ref.madsen(ct)


def effect(m, x, y, z, ct, R, plane=False):
    """
    Normalized axial effect (share of the reference wind speed); for the
    Rankine body the two velocity components in units of the rotor speed
    """
    if ct <= 1e-8:
        return (0.0, 0.0) if m["cls"] == "RankineHalfBody" else 0.0
    ind = m.get("induction", "Madsen")
    r = math.hypot(y, z)
    if not plane and abs(x) < EPS * R:
        raise Edge()
    if m["cls"] == "RankineHalfBody":
        a = induction(ind, ct)
        # source strength over (4 pi), in units of REWS
        s = 0.5 * a * R * R
        d = math.sqrt(x * x + r * r)
        xs = -math.sqrt(s)
        # body surface: cos(theta) - (r sin(theta))^2 / (a R^2) = -1
        body = (x / d if d > 0 else 1.0) - r * r / (a * R * R)
        near(body, -1.0)
        near(x / R, xs / R)
        if body < -1.0 or x < xs:
            return s * x / d**3, s * y / d**3
        if x <= 0:
            return -s / xs**2, 0.0
        return 0.0, 0.0
    up = x <= 0
    if not up:
        near(r / R, 1.0)
        if m.get("pre_rotor_only") or r <= R:
            return 0.0
    sgn = -1.0 if up else 1.0
    xi, rho = -abs(x) / R, r / R
    if m["cls"] == "VortexSheet":
        q = math.sqrt(x * x + r * r) / R
        return sgn * induction(ind, ct) * (1 - q / math.sqrt(1 + q * q))
    mu = 1 + xi / math.sqrt(1 + xi * xi)
    if m["cls"] == "Rathmann":
        # half of the angle between the lines of sight to the disc edges
        t = 0.5 * (math.atan2(1 - rho, -xi) + math.atan2(1 + rho, -xi))
        sb = 1 / math.sqrt(xi * xi + rho * rho + 1)
        return sgn * induction(ind, ct) * mu * math.sin(t) * sb * (1 + xi * xi)
    if m["cls"] == "SelfSimilar":
        a0 = induction(ind, m.get("gamma", 1.1) * ct)
        rh = math.sqrt(0.587 * (1.32 + xi * xi))
    else:
        f = lambda v: 1 + v / math.sqrt(1 + v * v)
        xn = min(max(xi, -6.0), -1.0)
        c = (f(xn) - f(-1.0)) / (f(-6.0) - f(-1.0))
        far = -0.06489 * math.sin((ct - 0.4911) / 0.1577) + 1.116
        nr = -1.381 * ct**3 + 2.627 * ct**2 - 1.524 * ct + 1.336
        a0 = induction(ind, (c * far + (1 - c) * nr) * ct)
        rh = -0.672 * xi + 0.4897
    return sgn * a0 * mu * (1 / math.cosh(math.sqrt(2) * rho / rh)) ** (8 / 9)


CLS = ["RankineHalfBody", "VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"]
SUPS = ["linear", "linear_amb", "linear_loc", "product", "linear_lim"]


@st.composite
def model(draw, sups=SUPS):
    cls = draw(st.sampled_from(CLS))
    m = dict(cls=cls)
    if draw(st.booleans()):
        m["induction"] = draw(st.sampled_from(["Betz", "Madsen"]))
    if cls != "RankineHalfBody":
        if draw(st.booleans()):
            m["pre_rotor_only"] = draw(st.booleans())
        m["sup"] = draw(st.sampled_from(sups))
    if cls == "SelfSimilar" and draw(st.booleans()):
        m["gamma"] = draw(gen.fl(0.8, 1.3, 0.05))
    return m


def book_name(m):
    """Name of the model in the default model book, if any"""
    if set(m) - {"cls", "sup"}:
        return None
    if m["cls"] == "RankineHalfBody":
        return "RHB"
    return f"{m['cls']}_{m['sup']}"


def make(m, mb, i):
    import foxes.models as fm

    n = book_name(m)
    if n is not None:
        return n
    kw = {k: v for k, v in m.items() if k not in ("cls", "sup")}
    if "sup" in m:
        kw["superposition"] = "ws_" + m["sup"]
    n = f"VIND{i}"
    mb.wake_models[n] = getattr(fm.wake_models.induction, m["cls"])(**kw)
    return n


@st.composite
def single(draw):
    D = draw(st.sampled_from([80.0, 126.0, 200.0]))
    special = draw(st.integers(0, 3)) == 0
    wd = 270.0 if special else draw(gen.fl(0.0, 359.0, 0.5)) + 0.137
    R = D / 2
    xy = [draw(gen.fl(-1000.0, 1000.0, 50.0)), draw(gen.fl(-1000.0, 1000.0, 50.0))]
    H = draw(gen.fl(110.0, 160.0, 5.0))
    pts = []
    for _ in range(draw(st.integers(3, 8))):
        near_ = draw(st.booleans())
        if near_:
            x = draw(gen.fl(-1.2, 1.2, 0.01)) + 0.0013
            y = draw(gen.fl(-1.3, 1.3, 0.05)) + 0.0017
            z = draw(gen.fl(-1.1, 1.1, 0.1)) + 0.0019
        else:
            x = draw(gen.fl(-12.0, 12.0, 0.05)) + 0.0013
            y = draw(gen.fl(-6.0, 6.0, 0.05)) + 0.0017
            z = draw(gen.fl(-1.1, 4.0, 0.1)) + 0.0019
        if special and draw(st.integers(0, 2)) == 0:
            x = 0.0
        pts.append([round(x * R, 4), round(y * R, 4), round(z * R, 4)])
    return dict(
        D=D, H=H, xy=xy, ws=draw(gen.fl(3.0, 20.0, 0.5)), wd=round(wd, 4),
        ct=draw(st.one_of(st.just(0.0), gen.fl(0.02, 0.98, 0.02), gen.fl(0.02, 0.98, 0.02))),
        model=draw(model()), pts=pts, special=special,
    )


TYP = dict(ws=[0.0, 30.0], P=[0.0, 1000.0], ct=[0.5, 0.5], D=100.0, H=100.0, Pn=1000.0)


def frame(wd):
    a = math.radians(wd)
    n = np.array([-math.sin(a), -math.cos(a)])
    return n, np.array([-n[1], n[0]])


def to_global(p, t, wd):
    n, m = frame(wd)
    if wd == 270.0:
        n, m = np.array([1.0, 0.0]), np.array([0.0, 1.0])
    q = np.array(t["xy"]) + p[0] * n + p[1] * m
    return [float(q[0]), float(q[1]), t["H"] + p[2]]


def run_single(c):
    t = dict(xy=c["xy"], t=0, H=c["H"], D=c["D"], m=["vct"])
    sc = dict(
        types=[TYP], turbines=[t], states=dict(kind="table", rows=[[c["ws"], c["wd"], 0.06, 1.2]]),
        set={"vct": {"vars": {"CT": [[c["ct"]]]}}}, rotor="centre",
    )
    mb = gen.build_mbook(sc)
    sc["wakes"] = [make(c["model"], mb, 0)]
    pts = [to_global(p, t, c["wd"]) for p in c["pts"]]
    algo = gen.build_algo(sc, mbook=mb)
    with gen.engine():
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, gen.points_array(pts, algo))
    lb = set()
    n, m = frame(c["wd"])
    if gen.vals(fr, "REWS")[0, 0] != gen.vals(fr, "AMB_REWS")[0, 0]:
        raise Violation("a single turbine sees its own induction")
    for j, p in enumerate(pts):
        d = np.array(p[:2]) - np.array(c["xy"])
        if c["special"]:
            x, y = d
        else:
            x, y = d @ n, d @ m
        try:
            e = effect(c["model"], float(x), float(y), p[2] - c["H"], c["ct"], c["D"] / 2, plane=c["special"] and x == 0.0)
        except Edge:
            lb.add("edge")
            continue
        ws, wd = gen.vals(pr, "WS")[0, j], gen.vals(pr, "WD")[0, j]
        if isinstance(e, tuple):
            v = c["ws"] * ((1 + e[0]) * n + e[1] * m)
            want, wdw = float(np.hypot(*v)), math.degrees(math.atan2(-v[0], -v[1])) % 360.0
            if abs((wd - wdw + 180) % 360 - 180) > 1e-6:
                raise Violation(f"WD at {c['pts'][j]}: {wd!r}, formula {wdw!r}")
            e = e[0]
        else:
            want = c["ws"] * (1 + e)
            if abs((wd - c["wd"] + 180) % 360 - 180) > 1e-9:
                raise Violation(f"WD changed: {wd}")
        if c["model"].get("sup", "").endswith("lim"):
            want = max(want, 1e-4)
        if not abs(ws - want) <= 1e-8 * c["ws"]:
            raise Violation(f"WS at {c['pts'][j]} (x, y, z relative to the hub): {ws!r}, formula {want!r}")
        if e != 0:
            lb |= {"nt", "up" if x <= 0 else "down"}
            if x == 0:
                lb.add("plane")
        elif c["ct"] > 0:
            lb.add("none")
    lb.add(c["model"]["cls"])
    return lb


@st.composite
def farm(draw):
    sc = dict(types=[TYP])
    n = draw(st.integers(2, 4))
    pos = draw(gen.layout(n, n, spacing=300.0, jitter="always"))
    sc["turbines"] = [
        dict(xy=p, t=0, D=draw(st.sampled_from([80.0, 100.0, 150.0])), H=draw(gen.fl(90.0, 130.0, 5.0)), m=["vct"])
        for p in pos
    ]
    sc["states"] = dict(kind="table", rows=draw(gen.table(1, 2)))
    ns = len(sc["states"]["rows"])
    sc["set"] = {"vct": {"vars": {"CT": [[draw(gen.fl(0.0, 0.95, 0.05)) for _ in range(n)] for _ in range(ns)]}}}
    sc["models"] = draw(st.lists(model(["linear", "linear_amb", "linear_loc"]), min_size=1, max_size=2))
    sc["wake"] = draw(st.sampled_from([None, "Jensen_linear_loc_k0075", "Bastankhah2014_quadratic_amb_k004", "Bastankhah025_linear_k002"]))
    sc["first"] = draw(st.booleans())
    sc["pw"] = draw(st.sampled_from(["centre", "grid4", None]))
    sc["points"] = [[draw(gen.fl(-600.0, 2000.0, 7.0)), draw(gen.fl(-600.0, 2000.0, 7.0)), draw(gen.fl(10.0, 200.0, 10.0))] for _ in range(4)]
    return sc


def run_farm(sc):
    mb = gen.build_mbook(sc)
    names = [make(m, mb, i) for i, m in enumerate(sc["models"])]
    if len(set(names)) < len(names):
        names, sc = names[:1], dict(sc, models=sc["models"][:1])
    c = dict(sc, wakes=list(names), rotor="centre", partial={w: sc["pw"] or "grid9" for w in names})
    if sc["wake"]:
        if sc["first"]:
            c["wakes"].insert(0, sc["wake"])
        else:
            c["wakes"].append(sc["wake"])
        c["partial"][sc["wake"]] = "centre"
    if sc["pw"] is None:
        for w in names:
            c["partial"].pop(w)
        c["partial"] = c["partial"] or None
    algo = gen.build_algo(c, mbook=mb, algo="Iterative", max_it=100)
    with gen.engine():
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, gen.points_array(sc["points"], algo))
    off, wgt = ref.grid_points("centre" if sc["pw"] == "centre" else (sc["pw"] or "grid9"))
    wake = ref.Wake(sc["wake"]) if sc["wake"] else None
    lb = set()
    nt = len(sc["turbines"])
    for si, (ws0, wd, ti, rho) in enumerate(sc["states"]["rows"]):
        n, m = frame(wd)
        rews, arews = gen.vals(fr, "REWS")[si], gen.vals(fr, "AMB_REWS")[si]
        WD = gen.vals(fr, "WD")[si]
        CT = sc["set"]["vct"]["vars"]["CT"][si]
        if np.max(np.abs(gen.vals(fr, "CT")[si] - CT)) > 1e-12:
            raise Violation("CT not as set")

        def coos(i, p):
            t = sc["turbines"][i]
            d = np.array(p[:2]) - np.array(t["xy"])
            # the frame follows the wind direction at the rotor
            ni, mi = frame(WD[i])
            return float(d @ ni), float(d @ mi), p[2] - t["H"], t["D"] / 2

        def one(mod, p, skip=None):
            """change of the wind vector (along n, m) by all turbines"""
            eff, U, V = [], 0.0, 0.0
            for i in range(nt):
                if i == skip:
                    continue
                x, y, z, R = coos(i, p)
                e = effect(mod, x, y, z, CT[i], R)
                if isinstance(e, tuple):
                    U += rews[i] * e[0]
                    V += rews[i] * e[1]
                elif e != 0.0:
                    eff.append((e, rews[i], arews[i]))
            if mod["cls"] == "RankineHalfBody":
                return np.array([math.hypot(ws0 + U, V) - ws0, -math.atan2(V, ws0 + U)])
            return np.array([ref.superpose(mod["sup"], "WS", eff, ws0), 0.0])

        def onew(p, skip=None):
            if wake is None:
                return 0.0
            eff = []
            for i in range(nt):
                if i == skip:
                    continue
                x, y, z, R = coos(i, p)
                t = ref.T()
                t.D, t.CT, t.TI, t.AMB_TI = 2 * R, CT[i], ti, ti
                e = wake.effect(t, x, y, z)
                if wake.tophat:
                    near(math.hypot(y, z) / R, wake.radius(t, max(x, 1.0)) / R)
                if e is not None:
                    eff.append((e, rews[i], arews[i]))
            return ref.superpose(wake.sup, "WS", eff, ws0)

        for j, p in enumerate(sc["points"]):
            try:
                want = ws0 + sum(one(mod, p)[0] for mod in sc["models"]) + onew(p)
            except Edge:
                lb.add("edge")
                continue
            got = gen.vals(pr, "WS")[si, j]
            if not abs(got - want) <= 1e-8 * ws0:
                raise Violation(f"WS at point {j} state {si}: {got!r}, formula {want!r}")
            if abs(want - ws0) > 1e-8:
                lb.add("nt")
        for j, t in enumerate(sc["turbines"]):
            try:
                d = np.zeros(2)
                for mod in sc["models"]:
                    for o, w in zip(off, wgt):
                        q = np.array(t["xy"]) + t["D"] / 2 * o[0] * m
                        d += w * one(mod, [q[0], q[1], t["H"] + t["D"] / 2 * o[1]], skip=j)
                d[0] += onew(list(t["xy"]) + [t["H"]], skip=j)
            except Edge:
                lb.add("edge")
                continue
            # component along the rotor axis, which follows the ambient wind
            want = max((ws0 + d[0]) * math.cos(d[1]), 0.0)
            # the iteration stops at changes below 1e-6
            if not abs(rews[j] - want) <= 1e-5 * ws0:
                raise Violation(f"REWS of turbine {j} state {si}: {rews[j]!r}, formula {want!r}")
            if abs(d[0]) > 1e-5:
                lb |= {"nt", "rotor"}
    return lb


@st.composite
def decay(draw):
    c = draw(single())
    c["ct"] = draw(gen.fl(0.1, 0.95, 0.05))
    c["special"] = False
    c["wd"] = round(draw(gen.fl(0.0, 359.0, 0.5)) + 0.137, 4)
    c["model"].pop("sup", None)
    c["H"] = 2000.0
    th = draw(gen.fl(0.0, 6.2, 0.1))
    x, r = draw(gen.fl(-8.0, 8.0, 0.1)) + 0.0123, draw(gen.fl(0.1, 8.0, 0.1)) + 0.0123
    f = draw(gen.fl(1.2, 6.0, 0.2))
    R = c["D"] / 2
    c["pts"] = [
        [x * R, r * R * math.cos(th), r * R * math.sin(th)],
        [x * R, r * R * math.cos(th + 2.1), r * R * math.sin(th + 2.1)],
        [x * R, -r * R * math.cos(th), r * R * math.sin(th)],
    ]
    # the same points further away from the rotor, and far away
    c["pts"] += [[f * v for v in c["pts"][0]], [300 * R * np.sign(x), 0.0, 300 * R]]
    c["pts"] = [[round(float(v), 6) for v in p] for p in c["pts"]]
    return c


def run_decay(c):
    t = dict(xy=c["xy"], t=0, H=c["H"], D=c["D"], m=["vct"])
    sc = dict(
        types=[TYP], turbines=[t], states=dict(kind="table", rows=[[c["ws"], c["wd"], 0.06, 1.2]]),
        set={"vct": {"vars": {"CT": [[c["ct"]]]}}}, rotor="centre",
    )
    mb = gen.build_mbook(sc)
    m = c["model"]
    sc["wakes"] = [make(dict(m, sup="linear") if m["cls"] != "RankineHalfBody" else m, mb, 0)]
    pts = [to_global(p, t, c["wd"]) for p in c["pts"]]
    algo = gen.build_algo(sc, mbook=mb)
    with gen.engine():
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, gen.points_array(pts, algo))
    d = gen.vals(pr, "WS")[0] - c["ws"]
    wdd = (gen.vals(pr, "WD")[0] - c["wd"] + 180.0) % 360.0 - 180.0
    tol = 1e-5 * c["ws"]
    if m["cls"] != "RankineHalfBody":
        if max(abs(d[1] - d[0]), abs(d[2] - d[0])) > tol:
            raise Violation(f"effect not symmetric about the axis: {d[:3].tolist()}")
        x = c["pts"][0][0]
        if (x < 0 and d[0] > tol) or (x > 0 and d[0] < -tol):
            raise Violation(f"wrong sign of the effect at x={x}: {d[0]}")
        if abs(d[3]) > abs(d[0]) + tol and not (x > 0 and d[0] == 0.0):
            raise Violation(f"effect grows with distance: {d[0]} to {d[3]}")
    else:
        if abs(d[2] - d[0]) > tol or abs(wdd[2] + wdd[0]) > 1e-4:
            raise Violation(f"effect not symmetric about the axis: {d[:3].tolist()}, {wdd[:3].tolist()}")
    if abs(d[4]) > 1e-4 * c["ws"] or abs(wdd[4]) > 1e-2:
        raise Violation(f"effect does not vanish far away: {d[4]}, {wdd[4]}")
    lb = {m["cls"]}
    if abs(d[0]) > 1e-4 * c["ws"]:
        lb.add("nt")
    return lb


SUBS = [
    Sub("single", single(), run_single, quick=900),
    Sub("farm", farm(), run_farm, quick=250),
    Sub("decay", decay(), run_decay, quick=400),
]
