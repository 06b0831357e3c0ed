"""C04: turbine order in the farm is irrelevant"""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.runner import Sub, Violation

PROPERTY = "C04"
RULE = (
    "random farms with mixed types, heights, diameters and turbine models; farm rebuilt with a generated "
    "permutation of turbines; non-trivial: wakes present and the permutation is not the identity"
)
ASSUMPTIONS = [
    "no two turbines at the same downwind coordinate in a state with wakes between them (ties may be broken by input order)"
]

TM = st.sampled_from(
    [
        [],
        [],
        ["kTI_02"],
        ["kTI_amb_04_002"],
        ["hubh_data"],
        ["thrust2ct_x"],
    ]
).map(lambda m: [x for x in m if x != "thrust2ct_x"])


@st.composite
def case(draw):
    sc = draw(gen.scenario(nmin=2, nmax=6, smin=1, smax=5))
    n = len(sc["turbines"])
    if draw(st.booleans()):
        # wake growth from turbine models, different per turbine
        for t in sc["turbines"]:
            t["m"] = [draw(st.sampled_from(["kTI_02", "kTI_amb_04", "kTI_03_002"]))]
        sc["wakes"] = [w.split("_k")[0].split("_ambk")[0] for w in sc["wakes"]]
        if isinstance(sc["partial"], dict):
            sc["partial"] = {w.split("_k")[0].split("_ambk")[0]: p for w, p in sc["partial"].items()}
    sc["perm"] = draw(st.permutations(list(range(n))))
    return sc


def downwind_pos(xy, wd):
    a = np.deg2rad(wd)
    return -(xy[..., 0] * np.sin(a) + xy[..., 1] * np.cos(a))


def run(sc):
    ref = gen.run_farm(sc)
    perm = list(sc["perm"])
    fr = gen.run_farm(sc, order=perm)
    n = len(perm)

    def s0(v, x):
        return x[:, perm] if x.ndim == 2 and x.shape[1] == n else x

    gen.compare(ref, fr, f"permutation {perm}", sel0=s0, skip=("order", "order_inv", "weight"))
    for f, xyp in ((ref, list(range(n))), (fr, perm)):
        xy = np.array([sc["turbines"][i]["xy"] for i in xyp])
        o = f["order"].to_numpy()
        oi = f["order_inv"].to_numpy()
        wd = gen.vals(f, "AMB_WD")
        for s in range(o.shape[0]):
            if sorted(o[s]) != list(range(n)):
                raise Violation(f"order of state {s} is no permutation: {o[s]}")
            if list(o[s][oi[s]]) != list(range(n)) or list(oi[s][o[s]]) != list(range(n)):
                raise Violation(f"order {o[s]} and order_inv {oi[s]} are not inverse to each other")
            d = downwind_pos(xy, wd[s, 0])[o[s]]
            if np.any(np.diff(d) < -1e-3):
                raise Violation(f"order of state {s} is not from upstream to downstream: {d}")
        if not np.allclose(gen.vals(f, "X")[0], xy[:, 0]) or not np.allclose(gen.vals(f, "Y")[0], xy[:, 1]):
            raise Violation("X, Y of results are not the turbine positions")
    names = [str(x) for x in fr["tname"].to_numpy()]
    if names != [f"T{i}" for i in range(n)]:
        raise Violation(f"turbine names {names}")
    return {"nt"} if gen.has_wakes(ref) and perm != sorted(perm) else set()


SUBS = [Sub("permutation", case(), run, quick=900)]
