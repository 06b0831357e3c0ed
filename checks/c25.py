"""C25: two-dimensional area geometry"""
import math
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C25"
RULE = (
    "random trees of unions, intersections, differences and inversions (built by classes or by operators) over random circles, half planes "
    "and simple polygons; query points random plus centres, vertices and close to boundaries; membership compared with the Boolean "
    "combination of directly computed memberships, distances and nearest points of primitives with direct computation, of combined areas "
    "with the documented combination of the parts; non-trivial: points inside and outside, at least one combination"
)
ASSUMPTIONS = [
    "points within 1e-6 of a boundary are left out of membership comparisons",
    "inside overlapping unions the reported distance is that to the farthest boundary of the parts containing the point, a lower bound of the "
    "distance to the boundary of the union; bounding boxes of inverted and intersected areas are checked to contain the area, not to be tight",
]

co = gen.fl(-100.0, 100.0, 5.0)


@st.composite
def prim(draw):
    k = draw(st.sampled_from(["circle", "plane", "polygon", "rect"]))
    if k == "circle":
        return dict(k="circle", c=[draw(co), draw(co)], r=draw(gen.fl(5.0, 80.0, 5.0)))
    if k == "plane":
        n = draw(st.sampled_from([[1, 0], [-1, 0], [0, 1], [0, -1], None, None]))
        if n is None:
            t = draw(st.integers(1, 628)) / 100.0
            m = draw(gen.fl(0.5, 4.0, 0.5))
            n = [m * math.cos(t), m * math.sin(t)]
        return dict(k="plane", c=[draw(co), draw(co)], n=n)
    if k == "rect":
        x, y = draw(co), draw(co)
        w, h = draw(gen.fl(10.0, 100.0, 5.0)), draw(gen.fl(10.0, 100.0, 5.0))
        p = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
    else:
        # star-shaped polygon around a centre, convex or not
        x, y = draw(co), draw(co)
        n = draw(st.integers(3, 7))
        t0 = draw(st.floats(0.0, 6.28))
        p = []
        for i in range(n):
            t = t0 + 2 * math.pi * i / n
            r = draw(gen.fl(10.0, 80.0, 5.0))
            p.append([x + r * math.cos(t), y + r * math.sin(t)])
    if draw(st.booleans()):
        p = p[::-1]
    if draw(st.booleans()):
        p = p + [p[0]]
    isint = draw(st.booleans())
    if isint:
        p = [[round(a), round(b)] for a, b in p]
        # rounding may give neighbours the same position
        q = [p[0]]
        for a in p[1:]:
            if a != q[-1]:
                q.append(a)
        p = q
    return dict(k="polygon", p=p, int=isint)


def tree(depth):
    if depth == 0:
        return prim()

    @st.composite
    def node(draw):
        op = draw(st.sampled_from(["prim", "union", "inter", "inv", "add", "sub", "addl", "subl", "union", "inter", "sub"]))
        if op == "prim":
            return draw(prim())
        if op == "inv":
            return dict(k="inv", a=[draw(tree(depth - 1))])
        if op in ("add", "sub"):
            return dict(k=op, a=[draw(tree(depth - 1)), draw(tree(depth - 1))])
        n = draw(st.integers(2, 3)) if op in ("addl", "subl") else draw(st.integers(1, 3))
        return dict(k=op, a=[draw(tree(depth - 1)) for _ in range(n)])

    return node()


def prims(t):
    if t["k"] in ("circle", "plane", "polygon"):
        return [t]
    return [p for a in t["a"] for p in prims(a)]


@st.composite
def tree_case(draw):
    t = draw(tree(draw(st.sampled_from([1, 2, 2, 3]))))
    pts = [[draw(st.floats(-200.0, 200.0)), draw(st.floats(-200.0, 200.0))] for _ in range(draw(st.integers(1, 12)))]
    ps = prims(t)
    for _ in range(draw(st.integers(0, 4))):
        p = draw(st.sampled_from(ps))
        if p["k"] == "polygon":
            c = list(draw(st.sampled_from(p["p"])))
        else:
            c = list(p["c"])
        if draw(st.booleans()):
            c = [c[0] + draw(st.sampled_from([-0.1, 0.1, 5.0])), c[1] + draw(st.sampled_from([-0.1, 0.1, 5.0]))]
        pts.append(c)
    return dict(tree=t, pts=pts)


def build(t):
    from foxes.utils import geom2d as g

    k = t["k"]
    if k == "circle":
        return g.Circle(t["c"], t["r"])
    if k == "plane":
        return g.HalfPlane(t["c"], t["n"])
    if k == "polygon":
        return g.ClosedPolygon(np.array(t["p"], dtype=int if t["int"] else float))
    a = [build(x) for x in t["a"]]
    if k == "inv":
        return a[0].inverse()
    if k == "add":
        return a[0] + a[1]
    if k == "sub":
        return a[0] - a[1]
    if k == "addl":
        return a[0] + a[1:]
    if k == "subl":
        return a[0] - a[1:]
    return (g.AreaUnion if k == "union" else g.AreaIntersection)(a)


def seg_nearest(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    t = 0.0 if l2 == 0 else min(1.0, max(0.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2))
    q = (a[0] + t * dx, a[1] + t * dy)
    return math.hypot(p[0] - q[0], p[1] - q[1]), q


def inside(t, p):
    """Membership in the tree, direct evaluation"""
    k = t["k"]
    if k == "circle":
        return math.hypot(p[0] - t["c"][0], p[1] - t["c"][1]) < t["r"]
    if k == "plane":
        return (p[0] - t["c"][0]) * t["n"][0] + (p[1] - t["c"][1]) * t["n"][1] > 0
    if k == "polygon":
        v = t["p"]
        r = False
        for i in range(len(v)):
            a, b = v[i], v[(i + 1) % len(v)]
            if (a[1] > p[1]) != (b[1] > p[1]) and p[0] < a[0] + (p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1]):
                r = not r
        return r
    m = [inside(a, p) for a in t["a"]]
    if k == "inv":
        return not m[0]
    if k in ("union", "add", "addl"):
        return any(m)
    if k == "inter":
        return all(m)
    return m[0] and not any(m[1:])


def bdist(t, p):
    """Distance to the boundary of a primitive, nearest points"""
    k = t["k"]
    if k == "circle":
        d = math.hypot(p[0] - t["c"][0], p[1] - t["c"][1])
        return abs(d - t["r"])
    if k == "plane":
        return abs((p[0] - t["c"][0]) * t["n"][0] + (p[1] - t["c"][1]) * t["n"][1]) / math.hypot(*t["n"])
    v = t["p"]
    return min(seg_nearest(p, v[i], v[(i + 1) % len(v)])[0] for i in range(len(v)))


def norm(t, neg=False):
    """Expresses the tree by unions of (possibly inverted) trees: ("p", prim), ("u", [...]), ("i", [...])"""
    k = t["k"]
    if k in ("circle", "plane", "polygon"):
        return ("p", t, neg)
    if k == "inv":
        return norm(t["a"][0], not neg)
    if k in ("union", "add", "addl"):
        return ("i" if neg else "u", [norm(a, neg) for a in t["a"]])
    if k == "inter":
        return ("u" if neg else "i", [norm(a, neg) for a in t["a"]])
    r = [norm(t["a"][0], neg)] + [norm(a, not neg) for a in t["a"][1:]]
    return ("u" if neg else "i", r)


def ndist(n, p):
    """(inside, distance) by the rule of unions: outside the nearest part, inside the largest distance of containing parts"""
    if n[0] == "p":
        return inside(n[1], p) != n[2], bdist(n[1], p)
    r = [ndist(a, p) for a in n[1]]
    if n[0] == "u":
        ins = [d for i, d in r if i]
        return (True, max(ins)) if ins else (False, min(d for _, d in r))
    # intersections: complement of the union of complements
    out = [d for i, d in r if not i]
    return (False, max(out)) if out else (True, min(d for _, d in r))


def run_tree(c):
    t = c["tree"]
    g = build(t)
    pts = np.array(c["pts"], dtype=float)
    p0 = pts.copy()
    ps = prims(t)
    ins = g.points_inside(pts)
    dist = g.points_distance(pts)
    dist2, near = g.points_distance(pts, return_nearest=True)
    pmin, pmax = np.array(g.p_min(), dtype=float), np.array(g.p_max(), dtype=float)
    inv = g.inverse().points_inside(pts)
    if not np.array_equal(p0, pts):
        raise Violation("query points were modified")
    if ins.shape != (len(pts),) or dist.shape != (len(pts),) or near.shape != pts.shape:
        raise Violation(f"shapes {ins.shape} {dist.shape} {near.shape}")
    lb = {f"k_{t['k']}"}
    nrm = norm(t)
    nin = 0
    for i, p in enumerate(c["pts"]):
        db = min(bdist(q, p) for q in ps)
        if abs(dist[i] - dist2[i]) > 1e-9:
            raise Violation(f"distance of {p}: {dist[i]} without, {dist2[i]} with nearest point")
        if abs(math.hypot(*(near[i] - pts[i])) - dist[i]) > 1e-4:
            raise Violation(f"nearest point {near[i]} of {p} is not at the reported distance {dist[i]}")
        if min(bdist(q, near[i]) for q in ps) > 1e-4:
            raise Violation(f"nearest point {near[i]} of {p} is not on the boundary of any part")
        if db < 1e-6:
            lb.add("on_boundary")
            continue
        e = inside(t, p)
        if bool(ins[i]) != e:
            raise Violation(f"membership of {p}: {ins[i]}, expected {e}")
        if bool(inv[i]) == e:
            raise Violation(f"membership of {p} in the inverted area: {inv[i]}, expected {not e}")
        ei, ed = ndist(nrm, p)
        if abs(dist[i] - ed) > 1e-4:
            raise Violation(f"distance of {p} ({'inside' if e else 'outside'}): {dist[i]}, expected {ed}")
        if e:
            nin += 1
            if np.any(pts[i] < pmin - 1e-9) or np.any(pts[i] > pmax + 1e-9):
                raise Violation(f"point {p} is inside but not within the bounding box {pmin}, {pmax}")
    if t["k"] in ("circle", "plane", "polygon"):
        if t["k"] == "circle":
            e0, e1 = np.array(t["c"]) - t["r"], np.array(t["c"]) + t["r"]
        elif t["k"] == "polygon":
            e0, e1 = np.min(t["p"], axis=0), np.max(t["p"], axis=0)
        else:
            e0, e1 = np.full(2, -np.inf), np.full(2, np.inf)
            n = t["n"]
            if n[1] == 0:
                (e0 if n[0] > 0 else e1)[0] = t["c"][0]
            if n[0] == 0:
                (e0 if n[1] > 0 else e1)[1] = t["c"][1]
        if np.any(~np.isclose(pmin, e0)) or np.any(~np.isclose(pmax, e1)):
            raise Violation(f"bounding box of {t}: {pmin}, {pmax}, expected {e0}, {e1}")
    elif t["k"] in ("union", "addl", "add"):
        b = [build(a) for a in t["a"]]
        e0 = np.min([x.p_min() for x in b], axis=0)
        e1 = np.max([x.p_max() for x in b], axis=0)
        if np.any(~np.isclose(pmin, e0)) or np.any(~np.isclose(pmax, e1)):
            raise Violation(f"bounding box of the union: {pmin}, {pmax}, expected {e0}, {e1}")
    if 0 < nin < len(pts) and len(ps) > 1:
        lb.add("nt")
    if not lb & {"nt"} and 0 < nin < len(pts):
        lb.add("prim_both")
    return lb


SUBS = [
    Sub("trees", tree_case(), run_tree, quick=4000),
]
