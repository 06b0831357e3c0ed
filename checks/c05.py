"""C05: translation and rotation invariance of the whole site"""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation, Skip
from checks.c02 import points as gpoints

PROPERTY = "C05"
RULE = (
    "random farms (with and without yaw), homogeneous (vertically sheared) inflow tables, wake/rotor/partial/ground "
    "models and frames; site and points shifted by up to 200 km and rotated by a generated angle together with the "
    "wind; non-trivial: wakes present"
)
ASSUMPTIONS = [
    "no two turbines within 1 cm of the same downwind coordinate (a rotation may break such a tie either way)",
    "wind direction results compare modulo 360 degrees",
]
FRAMES = ["rotor_wd", "rotor_wd", "rotor_wd_farmo", "streamlines_100", "streamlines_250", "yawed_k004", "yawed"]


@st.composite
def case(draw):
    sc = draw(
        gen.scenario(nmin=1, nmax=5, smin=1, smax=5, jitter="always", frames=FRAMES)
    )
    if sc["frame"].startswith("yawed") or draw(st.integers(0, 5)) == 0:
        draw(gen.add_yaw(sc))
    sc["points"] = draw(gpoints(1, 5))
    sc["shift"] = [
        draw(st.one_of(st.just(0.0), gen.fl(-2e5, 2e5, 0.5))),
        draw(st.one_of(st.just(0.0), gen.fl(-2e5, 2e5, 0.5))),
    ]
    sc["rot"] = draw(st.one_of(st.just(0.0), st.sampled_from([90.0, 180.0, -90.0, 360.0]), gen.fl(-360.0, 360.0, 0.25)))
    return sc


def rot(p, a):
    a = np.deg2rad(a)
    p = np.array(p, dtype=float)
    q = p.copy()
    q[..., 0] = p[..., 0] * np.cos(a) + p[..., 1] * np.sin(a)
    q[..., 1] = -p[..., 0] * np.sin(a) + p[..., 1] * np.cos(a)
    return q


def no_ties(sc):
    xy = np.array([t["xy"] for t in sc["turbines"]])
    pts = np.array(sc.get("points", np.zeros((0, 3))))
    if len(pts):
        allp = np.concatenate([xy, pts[:, :2]])
    else:
        allp = xy
    for r in sc["states"]["rows"]:
        a = np.deg2rad(r[1])
        d = allp[:, 0] * np.sin(a) + allp[:, 1] * np.cos(a)
        d0 = d[: len(xy)]
        D = np.abs(d0[:, None] - d[None, :])
        D[np.arange(len(xy)), np.arange(len(xy))] = 1e9
        if np.any(D < 0.01):
            raise Skip("tie")


def run(sc):
    no_ties(sc)
    fr0, pr0 = gen.run_both(sc, sc["points"])
    a = sc["rot"]
    c2 = dict(sc)
    sh = np.array(sc["shift"])
    c2["turbines"] = [
        dict(t, xy=list(map(float, rot(t["xy"], a) + sh))) for t in sc["turbines"]
    ]
    c2["states"] = dict(
        sc["states"], rows=[[r[0], (r[1] + a) % 360.0, r[2], r[3]] for r in sc["states"]["rows"]]
    )
    p2 = rot(sc["points"], a)
    p2[:, :2] += sh
    fr1, pr1 = gen.run_both(c2, p2)

    def s1(v, x):
        return x - a if v in ("WD", "AMB_WD", "YAW", "AMB_YAW") else x

    what = f"rotation {a}, shift {sc['shift']}"
    gen.compare(fr0, fr1, what, sel1=s1, skip=("X", "Y"), tol=1e-5)
    gen.compare(pr0, pr1, "points, " + what, sel1=s1, tol=1e-5)
    lb = {f"frame:{sc['frame']}"}
    if "set" in sc:
        lb.add("yaw")
    w = gen.has_wakes(fr0)
    if w:
        lb.add("waked")
        if a % 360 != 0 or np.any(sh != 0):
            lb.add("nt")
    if np.any(np.abs(gen.vals(pr0, "WS") - gen.vals(pr0, "AMB_WS")) > 1e-6):
        lb.add("waked points")
    return lb


SUBS = [Sub("site", case(), run, quick=1000)]
