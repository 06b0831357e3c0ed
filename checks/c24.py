"""C24: wind vector, angle, circle overlap and cubic root helpers"""
import math
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C24"
RULE = (
    "random arrays of zero to three dimensions (and plain scalars) of wind directions, speeds, circle radii and distances, and cubic "
    "polynomials built from chosen roots; every element is compared with a scalar evaluation by the math module; non-trivial: wrapped "
    "angles, partially overlapping circles, or polynomials with non-zero discriminant, respectively"
)
ASSUMPTIONS = [
    "cubic polynomials with two roots closer than 1e-3 of the root scale but not equal are left out (ill-conditioned)",
]

shape = st.lists(st.integers(1, 4), min_size=0, max_size=3)


def nel(s):
    return int(np.prod(s)) if s else 1


angle = st.one_of(
    st.floats(0.0, 360.0, allow_nan=False),
    st.floats(-1440.0, 1440.0, allow_nan=False),
    st.sampled_from([0.0, 90.0, 180.0, 270.0, 360.0, 359.999, 1e-9, -1e-9, 179.99999, 180.00001, 540.0, 541.0, -180.0, -539.0]),
)


@st.composite
def wind_case(draw):
    s = draw(shape)
    n = nel(s)
    c = dict(shape=s, wd=draw(st.lists(angle, min_size=n, max_size=n)), wd2=draw(st.lists(angle, min_size=n, max_size=n)))
    k = draw(st.sampled_from(["one", "scalar", "array"]))
    c["ws"] = None if k == "one" else (draw(st.floats(0.01, 40.0)) if k == "scalar" else draw(st.lists(st.floats(0.01, 40.0), min_size=n, max_size=n)))
    c["axis"] = draw(st.integers(-(len(s) + 1), len(s)))
    c["plain"] = not s and draw(st.booleans())
    return c


def run_wind(c):
    from foxes.utils import wd2uv, wd2wdvec, uv2wd, wdvec2wd, delta_wd

    s = tuple(c["shape"])
    ax = c["axis"]
    wd = np.array(c["wd"]).reshape(s)
    wd2 = np.array(c["wd2"]).reshape(s)
    ws = c["ws"]
    if isinstance(ws, list):
        ws = np.array(ws).reshape(s)
    a, b = (float(wd), float(wd2)) if c["plain"] else (wd, wd2)
    w = ws if not c["plain"] or ws is None else float(ws)
    kw = {} if ws is None else dict(ws=w)
    uv = wd2uv(a, axis=ax, **kw)
    vec = wd2wdvec(a, axis=ax, **kw)
    full = np.broadcast_to(1.0 if ws is None else ws, s)
    pos = ax if ax >= 0 else ax + len(s) + 1
    es = s[:pos] + (2,) + s[pos:]
    if uv.shape != es or vec.shape != es:
        raise Violation(f"shapes {uv.shape}, {vec.shape}, expected {es}")
    u, v = np.moveaxis(uv, ax, 0)
    vu, vv = np.moveaxis(vec, ax, 0)
    for i in np.ndindex(*s):
        t = math.radians(wd[i])
        e = (-full[i] * math.sin(t), -full[i] * math.cos(t))
        if abs(u[i] - e[0]) > 1e-10 * full[i] or abs(v[i] - e[1]) > 1e-10 * full[i]:
            raise Violation(f"wd2uv({wd[i]}, {full[i]}) = {u[i], v[i]}, expected {e}")
        if abs(vu[i] + u[i]) > 1e-10 * full[i] or abs(vv[i] + v[i]) > 1e-10 * full[i]:
            raise Violation(f"wd2wdvec({wd[i]}, {full[i]}) = {vu[i], vv[i]}, expected {-u[i], -v[i]}")
        if abs(math.hypot(u[i], v[i]) - full[i]) > 1e-10 * full[i]:
            raise Violation(f"length of {u[i], v[i]} is not {full[i]}")
    kx = {} if ax == -1 else dict(axis=ax)
    for nm, back in (("uv2wd", uv2wd(uv, **kx)), ("wdvec2wd", wdvec2wd(vec, **kx))):
        back = np.asarray(back)
        if back.shape != s:
            raise Violation(f"{nm}: shape {back.shape}, expected {s}")
        if np.any(back < 0.0) or np.any(back > 360.0):
            raise Violation(f"{nm}: outside [0, 360]: {back}")
        d = np.abs(back - wd) % 360.0
        d = np.minimum(d, 360.0 - d)
        if np.any(d > 1e-8):
            raise Violation(f"{nm}: {back} is not {wd}")
    a0 = np.array(a) if not c["plain"] else a
    dl = np.asarray(delta_wd(a, b))
    if not c["plain"] and not np.array_equal(a0, a):
        raise Violation("delta_wd modifies its input")
    if dl.shape != s:
        raise Violation(f"delta_wd: shape {dl.shape}, expected {s}")
    lb = set()
    for i in np.ndindex(*s):
        r = (wd2[i] - wd[i]) % 360.0
        e = r if r <= 180.0 else r - 360.0
        ok = abs(dl[i] - e) < 1e-8 or (abs(r - 180.0) < 1e-8 and abs(abs(dl[i]) - 180.0) < 1e-8)
        if not ok:
            raise Violation(f"delta_wd({wd[i]}, {wd2[i]}) = {dl[i]}, expected {e}")
        if abs(wd2[i] - wd[i]) > 180.0:
            lb |= {"nt", "wrap"}
        if abs(wd2[i] - wd[i]) > 540.0:
            lb.add("multi_wrap")
    lb |= {f"dim{len(s)}", "ws" if ws is not None else "unit"}
    return lb


@st.composite
def circ_case(draw):
    s = draw(shape)
    n = nel(s)
    els = []
    for _ in range(n):
        r1 = draw(st.one_of(st.floats(0.5, 150.0), st.integers(1, 100).map(float)))
        r2 = draw(st.one_of(st.just(r1), st.floats(0.5, 150.0), st.integers(1, 100).map(float)))
        k = draw(st.sampled_from(["any", "zero", "touch_out", "touch_in", "frac", "frac", "frac", "near"]))
        lo, hi = abs(r1 - r2), r1 + r2
        d = {
            "any": lambda: draw(st.floats(0.0, 400.0)),
            "zero": lambda: 0.0,
            "touch_out": lambda: hi,
            "touch_in": lambda: lo,
            "frac": lambda: lo + draw(st.floats(0.0, 1.0)) * (hi - lo),
            "near": lambda: max(lo + draw(st.floats(-1e-3, 1e-3)) * hi, 0.0),
        }[k]()
        els.append([r1, r2, d])
    return dict(shape=s, els=els, bc=draw(st.sampled_from([None, None, "r1", "r2", "d"])), plain=not s and draw(st.booleans()))


def overlap(r1, r2, d):
    if d >= r1 + r2:
        return 0.0
    if d <= abs(r1 - r2):
        return math.pi * min(r1, r2) ** 2
    c1 = min(1.0, max(-1.0, (d * d + r1 * r1 - r2 * r2) / (2 * d * r1)))
    c2 = min(1.0, max(-1.0, (d * d + r2 * r2 - r1 * r1) / (2 * d * r2)))
    k = (-d + r1 + r2) * (d + r1 - r2) * (d - r1 + r2) * (d + r1 + r2)
    return r1 * r1 * math.acos(c1) + r2 * r2 * math.acos(c2) - 0.5 * math.sqrt(max(k, 0.0))


def run_circ(c):
    from foxes.utils.two_circles import calc_area

    s = tuple(c["shape"])
    e = np.array(c["els"])
    r1, r2, d = [e[:, i].reshape(s).copy() for i in range(3)]
    if c["bc"] == "r1":
        r1 = np.full(s, e[0, 0])
        args = (float(e[0, 0]), r2, d)
    elif c["bc"] == "r2":
        r2 = np.full(s, e[0, 1])
        args = (r1, float(e[0, 1]), d)
    elif c["bc"] == "d":
        d = np.full(s, e[0, 2])
        args = (r1, r2, float(e[0, 2]))
    elif c["plain"]:
        args = (float(r1), float(r2), float(d))
    else:
        args = (r1, r2, d)
    A = np.asarray(calc_area(*args))
    B = np.asarray(calc_area(args[1], args[0], args[2]))
    if A.shape != s:
        raise Violation(f"shape {A.shape}, expected {s}")
    lb = {f"dim{len(s)}", f"bc_{c['bc']}"}
    for i in np.ndindex(*s):
        x = overlap(r1[i], r2[i], d[i])
        tol = 1e-6 * math.pi * max(r1[i], r2[i]) ** 2
        if not abs(A[i] - x) <= tol:
            raise Violation(f"calc_area({r1[i]}, {r2[i]}, {d[i]}) = {A[i]}, expected {x}")
        if not abs(A[i] - B[i]) <= tol:
            raise Violation(f"calc_area not symmetric for {r1[i]}, {r2[i]}, {d[i]}: {A[i]}, {B[i]}")
        if abs(r1[i] - r2[i]) < d[i] < r1[i] + r2[i]:
            lb.add("nt")
        elif d[i] >= r1[i] + r2[i]:
            lb.add("disjoint")
        else:
            lb.add("nested")
    # whole numbers given as integers
    if c["bc"] is None and np.all(e == np.round(e)) and s:
        C = np.asarray(calc_area(r1.astype(int), r2.astype(int), d.astype(int)))
        if np.any(np.abs(C - A) > 1e-9 * np.maximum(r1, r2) ** 2):
            raise Violation(f"calc_area of integers {C}, of floats {A}")
        lb.add("int")
    return lb


@st.composite
def cubic_case(draw):
    n = draw(st.integers(1, 6))
    ps = []
    rt = st.one_of(st.integers(-6, 6).map(float), gen.fl(-8.0, 8.0, 0.25), st.floats(-10.0, 10.0))
    for _ in range(n):
        k = draw(st.sampled_from(["three", "three", "double", "triple", "one", "one", "power"]))
        f = draw(st.sampled_from([1.0, 1.0, 2.0, -1.0, 4.0, -0.5, 3.3]))
        if k == "three":
            r = [draw(rt) for _ in range(3)]
        elif k == "double":
            x, y = draw(st.integers(-6, 6).map(float)), draw(st.integers(-6, 6).map(float))
            r = [x, x, y]
        elif k == "triple":
            r = [draw(st.sampled_from([0.0, 1.0, -2.0, 3.0]))] * 3
        elif k == "power":
            # x**3 = c
            ps.append(dict(kind=k, c=[draw(rt), 0.0, 0.0], f=f))
            continue
        else:
            # one real root, complex pair p +- iq
            ps.append(dict(kind=k, r=draw(rt), p=draw(rt), q=draw(st.floats(0.1, 8.0)), f=f))
            continue
        ps.append(dict(kind=k, roots=r, f=f))
    return dict(polys=ps, monic=draw(st.booleans()))


def coeffs(p):
    """Coefficients a0, a1, a2 of the monic polynomial, and its distinct real roots"""
    if "roots" in p:
        x, y, z = p["roots"]
        return [-x * y * z, x * y + y * z + x * z, -(x + y + z)], sorted(set(p["roots"]))
    if p["kind"] == "power":
        c = p["c"][0]
        return [-c, 0.0, 0.0], [math.copysign(abs(c) ** (1.0 / 3.0), c)]
    r, a, b = p["r"], p["p"], p["q"]
    m = a * a + b * b
    return [-r * m, m + 2 * a * r, -(r + 2 * a)], [r]


def run_cubic(c):
    from foxes.utils import cubic_roots

    cs, rs, fs = [], [], []
    for p in c["polys"]:
        co, ro = coeffs(p)
        sc = 1.0 + max(abs(x) for x in ro)
        if any(0 < abs(x - y) < 1e-3 * sc for x in ro for y in ro):
            continue
        if p["kind"] == "power" and 0.0 < abs(p["c"][0]) < 1e-6:
            continue
        cs.append(co)
        rs.append((ro, p["kind"]))
        fs.append(p["f"])
    if not cs:
        return {"empty"}
    a = np.array(cs)
    f = np.array(fs)
    if c["monic"]:
        out = cubic_roots(a[:, 0], a[:, 1], a[:, 2])
    else:
        out = cubic_roots(a[:, 0] * f, a[:, 1] * f, a[:, 2] * f, f)
    if out.shape != (len(cs), 3):
        raise Violation(f"shape {out.shape}")
    lb = {"monic" if c["monic"] else "scaled"}
    for i, (ro, kind) in enumerate(rs):
        got = out[i][~np.isnan(out[i])]
        sc = 1.0 + max(max(abs(x) for x in ro), float(np.max(np.abs(a[i]))) ** 0.5)
        tol = (1e-4 if kind in ("double", "triple") else 1e-5) * sc
        if len(got) == 0:
            raise Violation(f"no root of polynomial {cs[i]} found, expected {ro}")
        for x in got:
            if min(abs(x - y) for y in ro) > tol:
                raise Violation(f"{x} is not a root of {cs[i]}: {ro}, got {list(out[i])}")
        for y in ro:
            # round-off may split a double root into a complex pair
            if min(abs(x - y) for x in got) > tol and not (kind in ("double",) or len(ro) == 2):
                raise Violation(f"root {y} of {cs[i]} not found: {list(out[i])}")
        if len(ro) == 1 and kind in ("one", "power") and len(got) > 1 and np.ptp(got) > tol:
            raise Violation(f"several roots of {cs[i]}: {list(out[i])}")
        if np.isnan(out[i, 0]):
            raise Violation(f"first column nan for {cs[i]}: {list(out[i])}")
        lb.add(f"k_{kind}")
        if kind in ("three", "one"):
            lb.add("nt")
    return lb


SUBS = [
    Sub("wind", wind_case(), run_wind, quick=1600),
    Sub("circles", circ_case(), run_circ, quick=1600),
    Sub("cubic", cubic_case(), run_cubic, quick=1600),
]
