"""
Reference model: scalar evaluation of the documented wake formulas, turbine by
turbine, for homogeneous inflow. Written from the documented formulas, without
using the calculation code of foxes.

The downwind sweep follows the documented order: the wake models are applied
in the listed order, each one in a sweep from the most upstream to the most
downstream turbine; the source values are those of the wake causing turbine at
that moment.
"""

import os
import math
import functools
import numpy as np

from . import boot
from .runner import Skip

RHO_BUILTIN = 1.225


def num(s):
    """Value rule of names with numbers: a leading zero stands for '0.'"""
    return float("0." + s[1:]) if s[0] == "0" else float(s)


def parse_wake(name):
    """Splits a wake model name: base, superposition, dict of wake growth"""
    parts = name.split("_")
    base = parts[0]
    k = {}
    rest = []
    for p in parts[1:]:
        if p.startswith("ambka") and p[5:6].isdigit():
            k["ka"], k["amb"] = num(p[5:]), True
        elif p.startswith("ka") and p[2:3].isdigit():
            k["ka"] = num(p[2:])
        elif p.startswith("kb") and p[2:3].isdigit():
            k["kb"] = num(p[2:])
        elif p.startswith("k") and p[1:2].isdigit():
            k["k"] = num(p[1:])
        else:
            rest.append(p)
    return base, "_".join(rest), k


def betz(ct):
    return 0.5 * (1.0 - math.sqrt(1.0 - min(ct, 0.99999)))


def madsen(ct):
    return 0.2460 * ct + 0.0586 * ct**2 + 0.0883 * ct**3


@functools.lru_cache(None)
def builtin_curve(name):
    fn = {
        "NREL5MW": "NREL-5MW-D126-H90.csv",
        "DTU10MW": "DTU-10MW-D178d3-H119.csv",
        "IEA15MW": "IEA-15MW-D240-H150.csv",
        "IWT7.5MW": "IWT-7d5MW-D164-H100.csv",
    }[name]
    path = os.path.join(boot.REPO, "foxes", "data", "power_ct_curves", fn)
    rows = []
    with open(path, encoding="utf-8-sig") as f:
        next(f)
        for l in f:
            if l.strip():
                rows.append([float(x) for x in l.split(",")[:3]])
    rows.sort()
    a = np.array(rows)
    return a[:, 0], a[:, 1], a[:, 2]


def interp0(x, xs, ys):
    """Linear interpolation, zero outside the table"""
    if x < xs[0] or x > xs[-1]:
        return 0.0
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            if xs[i + 1] == xs[i]:
                continue
            t = (x - xs[i]) / (xs[i + 1] - xs[i])
            return ys[i] + t * (ys[i + 1] - ys[i])
    return float(ys[-1])


class T:
    """A turbine in one state"""


def grid_points(name):
    """Offsets (units of D/2) and weights of a grid/level/centre rotor"""
    if name == "centre":
        return np.zeros((1, 2)), np.ones(1)
    raw = name.endswith("_raw")
    base = name[:-4] if raw else name
    if base.startswith("grid"):
        n = int(round(math.sqrt(int(base[4:]))))
        c = [-1 + (2 * i + 1) / n for i in range(n)]
        pts = [(a, b) for a in c for b in c]
        half = (1.0 / n, 1.0 / n)
    else:
        n = int(base[5:])
        c = [-1 + (2 * i + 1) / n for i in range(n)]
        pts = [(0.0, b) for b in c]
        # horizontal strips over the full width of the disc
        half = (None, 1.0 / n)
    if raw:
        return np.array(pts), np.full(len(pts), 1.0 / len(pts))
    w = cell_weights(tuple(pts), half)
    sel = w > 0
    return np.array(pts)[sel], w[sel] / w[sel].sum()


@functools.lru_cache(None)
def cell_weights(pts, half):
    """Fraction of each square cell inside the unit disc, 200 x 200 sampling (documented default nint)"""
    out = []
    for a, b in pts:
        hx = np.linspace(1, -1, 200) if half[0] is None else a - half[0] + (np.arange(200) + 0.5) * half[0] / 100
        hy = b - half[1] + (np.arange(200) + 0.5) * half[1] / 100
        X, Y = np.meshgrid(hx, hy, indexing="ij")
        out.append(np.mean(np.hypot(X, Y) <= 1.0))
    return np.array(out)


def lens(R1, R2, d):
    """Overlap area of two circles"""
    if d >= R1 + R2:
        return 0.0
    if d <= abs(R1 - R2):
        return math.pi * min(R1, R2) ** 2
    a = math.acos(max(-1, min(1, (d * d + R1 * R1 - R2 * R2) / (2 * d * R1))))
    b = math.acos(max(-1, min(1, (d * d + R2 * R2 - R1 * R1) / (2 * d * R2))))
    return R1 * R1 * (a - math.sin(2 * a) / 2) + R2 * R2 * (b - math.sin(2 * b) / 2)


class Wake:
    """Formula of one wake model"""

    def __init__(self, name):
        self.name = name
        self.base, self.sup, self.kp = parse_wake(name)
        self.var = "TI" if self.base.startswith(("Crespo", "IECTI")) else "WS"
        self.tophat = self.base in ("Jensen", "CrespoHernandez") or self.base.startswith("IECTI")
        self.ind = betz if (self.base == "Jensen" or self.base.endswith("B") or self.var == "TI") else madsen

    def k(self, t):
        if "k" in self.kp:
            return self.kp["k"]
        if "ka" in self.kp:
            return self.kp["ka"] * (t.AMB_TI if self.kp.get("amb") else t.TI) + self.kp.get("kb", 0.0)
        return t.K

    def radius(self, t, x):
        b = self.base
        if b == "Jensen":
            return t.D / 2 + self.k(t) * x
        if b in ("IECTI2019", "IECTI2005"):
            return math.tan(math.radians(21.6 / 2)) * x
        if b in ("IECTI2019k", "IECTI2005k"):
            return t.D / 2 + self.k(t) * x
        if b == "CrespoHernandez":
            a = betz(t.CT)
            return 2 * (self.k(t) * x + 0.25 * math.sqrt((1 - a) / (1 - 2 * a)) * t.D)
        raise KeyError(b)

    def centre(self, t, x):
        b = self.base
        if b == "Jensen":
            return -2 * betz(t.CT) * ((t.D / 2) / self.radius(t, x)) ** 2
        if b.startswith("IECTI2019"):
            return 1.0 / (1.5 + 0.8 * x / t.D / math.sqrt(t.CT))
        if b.startswith("IECTI2005"):
            return math.sqrt(0.9) / (1.5 + 0.3 * x / t.D * math.sqrt(t.REWS))
        if b == "CrespoHernandez":
            twoa = 2 * betz(t.CT)
            xn = (2**0.83 * 0.362 / (0.73 * t.TI ** (-0.0325)) * twoa ** (1 - 0.83)) ** (1 / -0.32)
            if x < xn * t.D:
                return 0.362 * twoa
            return 0.73 * (twoa / 2) ** 0.83 * t.TI ** (-0.0325) * (x / t.D) ** (-0.32)
        raise KeyError(b)

    def sigma(self, t, x):
        b = self.base
        a = self.ind(t.CT)
        beta = (1 - a) / (1 - 2 * a)
        if b.startswith("Bastankhah2014"):
            return self.k(t) * x + 0.2 * math.sqrt(beta) * t.D
        if b.startswith("Bastankhah025"):
            return self.k(t) * x + 0.25 * math.sqrt(beta) * t.D
        if b.startswith("TurbOPark"):
            al = 1.5 * t.AMB_TI
            be = 0.8 * t.AMB_TI / math.sqrt(t.CT)
            q = al + be * x / t.D
            s1, s0 = math.sqrt(q * q + 1), math.sqrt(1 + al * al)
            return t.D * (
                0.25 * math.sqrt(beta)
                + self.k(t) / be * (s1 - s0 - math.log((s1 + 1) * al / ((s0 + 1) * q)))
            )
        raise KeyError(b)

    def effect(self, t, x, y, z):
        """Normalized wake effect (or added TI) at wake coordinates; None if no wake"""
        if x <= 1e-8 or t.CT <= 1e-8:
            return None
        r = math.hypot(y, z)
        if self.tophat:
            return self.centre(t, x) if r < self.radius(t, x) else None
        if self.base.startswith("Bastankhah2016"):
            return self._b16(t, x, y, z, r)
        s = self.sigma(t, x)
        amp = max(-2 * self.ind(t.CT / (8 * (s / t.D) ** 2)), -1.0)
        return amp * math.exp(-0.5 * (r / s) ** 2)

    def b16_pars(self, t):
        g = math.radians(getattr(t, "YAWM", 0.0))
        cosg = math.cos(g)
        twoa = 2 * self.ind(t.CT)
        x0 = t.D * cosg * (2 - twoa) / (math.sqrt(2) * (4 * 0.58 * t.TI + 0.07 * twoa))
        return g, cosg, twoa, x0

    def _b16(self, t, x, y, z, r):
        g, cosg, twoa, x0 = self.b16_pars(t)
        sy0, sz0 = t.D * cosg / math.sqrt(8), t.D / math.sqrt(8)
        if x < x0:
            twoac = 2 * self.ind(t.CT * cosg)
            uR = 0.5 * t.CT * cosg / twoac
            u0 = 1 - twoa
            rpc = 0.5 * t.D * math.sqrt(uR / u0) * (1 - x / x0)
            f = 1.0 if r <= rpc else math.exp(-0.5 * ((r - rpc) / (x / x0 * sy0)) ** 2)
            return (u0 - 1) * f
        k = self.k(t)
        sy, sz = k * (x - x0) + sy0, k * (x - x0) + sz0
        amp = max(-2 * self.ind(t.CT * cosg * t.D**2 / (8 * sy * sz)), -1.0)
        return amp * math.exp(-0.5 * (y / sy) ** 2) * math.exp(-0.5 * (z / sz) ** 2)


POW = {"quadratic": 2, "cubic": 3, "quartic": 4}


def superpose(sup, var, contrib, amb):
    """
    contrib: list of (effect, REWS of source, AMB_REWS of source)
    Returns the final change of the variable
    """
    parts = sup.split("_")
    rule, opts = parts[0], parts[1:]
    if var == "TI":
        e = [c[0] for c in contrib]
        if not e:
            return 0.0
        if rule == "linear":
            w = sum(e)
        elif rule == "max":
            w = max(e)
        else:
            w = sum(v ** POW[rule] for v in e) ** (1.0 / POW[rule])
        return math.sqrt(w * w + amb * amb) - amb
    if rule == "product":
        p = 1.0
        for c in contrib:
            p *= 1.0 + c[0]
        d = amb * p - amb
    else:
        if "loc" in opts:
            e = [c[0] * amb for c in contrib]
        elif "amb" in opts:
            e = [c[0] * c[2] for c in contrib]
        else:
            e = [c[0] * c[1] for c in contrib]
        if not e:
            d = 0.0
        elif rule == "linear":
            d = sum(e)
        elif rule == "max":
            d = -max(abs(v) for v in e)
        else:
            d = -sum(abs(v) ** POW[rule] for v in e) ** (1.0 / POW[rule])
    if "lim" in opts:
        d = max(d, 1e-4 - amb)
    return d


class Ref:
    """Reference evaluation of a case (homogeneous table states)"""

    def __init__(self, case):
        self.case = case
        self.wakes = [Wake(w) for w in case["wakes"]]
        self.rot = grid_points(case.get("rotor", "centre"))
        self.pw = []
        for w in self.wakes:
            p = (case.get("partial") or {}).get(w.name)
            if p is None:
                p = "top_hat" if w.tophat else ("grid9" if w.base.startswith("Bastankhah2016") else None)
            self.pw.append(p)
        g = case.get("ground")
        self.heights = [] if g is None else ([0.0] if g == "ground_mirror" else [0.0, float(g.split("_h")[1])])

    def _type(self, i):
        t = self.case["types"][i]
        if "b" in t:
            ws, P, ct = builtin_curve(t["b"])
            return ws, P, ct, RHO_BUILTIN
        o = sorted(range(len(t["ws"])), key=lambda j: t["ws"][j])
        return (
            np.array(t["ws"])[o], np.array(t["P"])[o], np.array(t["ct"])[o],
            t.get("kw", {}).get("rho"),
        )

    def _curves(self, t, rews2, rews3, rho):
        ws, P, ct, rho0 = self._type(t.t)
        w3 = rews3 * (rho / rho0) ** (1 / 3) if rho0 is not None else rews3
        w2 = rews2
        if t.has_yawm:
            c = math.cos(math.radians(t.YAWM))
            w2 *= math.sqrt(c)
            w3 *= (c**1.88) ** (1 / 3)
        t.P, t.CT = interp0(w3, ws, P), interp0(w2, ws, ct)

    def _rotor(self, t, wsp):
        """rotor effective speeds from the wind speeds at the rotor points"""
        w = self.rot[1]
        # yaw set by models after the rotor evaluation does not change the projection
        c = 1.0
        if np.any(wsp <= 0):
            raise Skip("negative wind speed")
        t.REWS = max(float(np.sum(w * wsp)) * c, 0.0)
        s2 = float(np.sum(w * np.sign(wsp) * wsp**2))
        t.REWS2 = math.sqrt(max(s2, 0.0)) * c
        s3 = float(np.sum(w * wsp**3))
        t.REWS3 = max(s3, 0.0) ** (1 / 3) * c

    def state(self, si, points=None):
        from .gen import type_dh

        ws0, wd, ti0, rho = self.case["states"]["rows"][si][:4]
        a = math.radians(wd)
        n = np.array([-math.sin(a), -math.cos(a)])
        m = np.array([-n[1], n[0]])
        ts = []
        vset = self.case.get("set", {}).get("vset", {}).get("vars", {}).get("YAWM")
        for i, q in enumerate(self.case["turbines"]):
            t = T()
            t.i, t.t = i, q["t"]
            D, H = type_dh(self.case["types"][q["t"]])
            t.D, t.H = q.get("D", D), q.get("H", H)
            t.xy = np.array(q["xy"], dtype=float)
            t.has_yawm = vset is not None
            t.YAWM = 0.0 if vset is None else vset[si][i]
            t.AMB_TI = t.TI = ti0
            ya = math.radians(wd + t.YAWM)
            t.ax = np.array([-math.sin(ya), -math.cos(ya)])
            t.side = np.array([-t.ax[1], t.ax[0]])
            self._rotor(t, np.full(len(self.rot[1]), ws0))
            t.AMB_REWS, t.AMB_REWS2, t.AMB_REWS3 = t.REWS, t.REWS2, t.REWS3
            self._curves(t, t.REWS2, t.REWS3, rho)
            t.AMB_P, t.AMB_CT = t.P, t.CT
            t.wsp = np.full(len(self.rot[1]), ws0)
            for mn in q.get("m", []):
                if mn.startswith("kTI"):
                    t.kmod = mn
            t.K = self._kval(t)
            ts.append(t)
        order = sorted(range(len(ts)), key=lambda i: float(ts[i].xy @ n))

        def images(t):
            return [t.H] + [2 * h - t.H for h in self.heights]

        def contribs(w, t, p, pw=None, tgt=None):
            """list of contributions of turbine t at point p"""
            out = []
            for h in images(t):
                d = np.array(p[:2]) - t.xy
                x, y, z = float(d @ n), float(d @ m), p[2] - h
                if pw == "top_hat":
                    if x <= 1e-8 or t.CT <= 1e-8:
                        continue
                    wr, R = w.radius(t, x), math.hypot(y, z)
                    A = lens(tgt.D / 2, wr, R) / (math.pi * (tgt.D / 2) ** 2)
                    if A > 0:
                        out.append((A * w.centre(t, x), t.REWS, t.AMB_REWS))
                else:
                    e = w.effect(t, x, y, z)
                    if e is not None:
                        out.append((e, t.REWS, t.AMB_REWS))
            return out

        def wake_points(t, pw):
            if pw in ("centre", "top_hat"):
                return [np.array([t.xy[0], t.xy[1], t.H])], np.ones(1)
            off, wgt = self.rot if pw == "rotor_points" else grid_points(pw)
            pts = []
            for o in off:
                q = t.xy + t.D / 2 * o[0] * (m if pw == "rotor_points" else t.side)
                pts.append(np.array([q[0], q[1], t.H + t.D / 2 * o[1]]))
            return pts, wgt

        # the wake of the listed models, one sweep each
        for w, pw in zip(self.wakes, self.pw):
            acc = {}
            for j in order:
                acc[j] = [[] for _ in wake_points(ts[j], pw)[0]]
            for oi, j in enumerate(order):
                t = ts[j]
                if oi > 0:
                    pts, wgt = wake_points(t, pw)
                    if w.var == "WS":
                        d = np.array([superpose(w.sup, "WS", c, ws0) for c in acc[j]])
                        t.wsp = t.wsp + (d if pw == "rotor_points" or (len(d) == len(t.wsp) and pw in ("centre", "top_hat")) else float(np.sum(wgt * d)))
                    else:
                        d = np.array([superpose(w.sup, "TI", c, ti0) for c in acc[j]])
                        t.TI = t.TI + float(np.sum(wgt * d))
                    self._rotor(t, t.wsp)
                    self._curves(t, t.REWS2, t.REWS3, rho)
                    t.K = self._kval(t)
                for oj in order[oi + 1:]:
                    pts, _ = wake_points(ts[oj], pw)
                    for pi, p in enumerate(pts):
                        acc[oj][pi] += contribs(w, t, p, pw, ts[oj])
        res = dict(ts=ts, order=order)
        if points is not None:
            pr = []
            for p in points:
                WS, TI = ws0, ti0
                for w in self.wakes:
                    c = []
                    for j in order:
                        c += contribs(w, ts[j], p)
                    if w.var == "WS":
                        WS += superpose(w.sup, "WS", c, ws0)
                    else:
                        TI += superpose(w.sup, "TI", c, ti0)
                pr.append((WS, TI))
            res["points"] = pr
        return res

    def _kval(self, t):
        k = getattr(t, "kmod", None)
        if k is None:
            return None
        p = k.split("_")[1:]
        amb = p[0:1] == ["amb"]
        if amb:
            p = p[1:]
        kti = num(p[0])
        kb = num(p[1]) if len(p) > 1 else 0.0
        return kti * (t.AMB_TI if amb else t.TI) + kb
