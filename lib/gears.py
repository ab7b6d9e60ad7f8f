"""Generated gear specifications (JSON) -> wrapper gear objects, and a reference model of
their nominal dimensions written from the documented parameters (module 1 units)."""

import math

import numpy as np
from hypothesis import strategies as st

import gggears as gg
from lib.gens import PI, fl, rotmat, rotvec, vec

DEG = PI / 180

EXTERNAL = ["spur", "invo", "helical", "bevel", "cyc", "cycbevel"]
RINGS = ["ring", "helring", "cycring"]


def place(pos=60.0):
    """Placement of a gear: centre, angle, orientation (rotation vector)."""
    return st.fixed_dictionaries(
        {"c": vec(-pos, pos, 2), "a": fl(-4, 4, 3), "rv": rotvec}
    )


HOME = {"c": [0.0, 0.0, 0.0], "a": 0.0, "rv": [0.0, 0.0, 0.0]}


@st.composite
def gear(
    draw,
    fams=tuple(EXTERNAL + RINGS),
    nmin=8,
    nmax=60,
    shift=True,
    fillets=True,
    backlash=True,
    crowning=True,
    placed=True,
    undercut=None,
    ucrf=False,
    wide=False,
):
    """wide: also specs far from the usual proportions (few or many teeth, high or stub
    teeth, pointed tips, fillets that fill the gap)"""
    fat = wide == "fat"
    wide = bool(wide) and draw(st.booleans())
    fat = fat and wide
    fam = draw(st.sampled_from(list(fams)))
    ring = fam in RINGS
    cyc = fam.startswith("cyc")
    s = {"fam": fam}
    lo = max(nmin, 18) if ring else nmin
    if wide:
        s["N"] = draw(
            st.one_of(st.integers(lo, max(nmax, lo)), st.integers(61, 160))
        )
    else:
        s["N"] = draw(st.integers(lo, max(nmax, lo)))
    s["m"] = draw(st.sampled_from([0.5, 1.0, 1.0, 1.5, 2.0, 3.0]))
    s["anchor"] = draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 0.3]))
    s["bl"] = draw(st.one_of(st.just(0.0), fl(0.0, 0.08, 3))) if backlash else 0.0
    s["crown"] = (
        draw(st.one_of(st.just(0.0), st.integers(0, 80).map(float)))
        if crowning
        else 0.0
    )
    s["beta"] = 0.0
    s["cone"] = 0.0
    if fam in ("helical", "helring"):
        s["beta"] = draw(st.integers(-35, 35)) * DEG
        s["herr"] = draw(st.booleans())
    if fam in ("bevel", "cycbevel"):
        s["cone"] = draw(st.integers(20, 150)) * DEG
        s["beta"] = draw(st.sampled_from([0.0, 0.0, 15.0, -25.0])) * DEG
        if fam == "cycbevel":
            s["beta"] = 0.0
    if fam in ("invo", "cyc"):
        s["beta"] = draw(st.sampled_from([0.0, 0.0, 0.0, 15.0, -25.0])) * DEG
    # face width: at most a third of the cone length for conical gears
    hmax = 6.0
    if s["cone"]:
        hmax = min(6.0, s["N"] / 2 / math.sin(s["cone"] / 2) * 0.33)
    s["h"] = round(draw(fl(0.3, 1.0, 2)) * hmax * s["m"], 3)
    s["uc"] = False
    s["rf"] = s["tf"] = 0.0
    s["tt"] = draw(st.sampled_from([0.1, 0.1, 0.0, 0.2, 0.3]))
    if fam == "ring":
        s["ro"] = draw(st.sampled_from([2.0, 2.5, 3.5]))
    s["x"] = 0.0
    if cyc:
        s["add"] = draw(fl(0.6, 1.0, 2))
        s["ded"] = round(s["add"] + draw(fl(0.05, 0.2, 2)), 3)
        s["ci"] = draw(st.sampled_from([0.5, 0.5, 0.3, 0.4]))
        s["co"] = draw(st.sampled_from([0.5, 0.5, 0.3, 0.4, 0.25]))
        if ring:
            s["add"], s["ded"] = s["ded"], s["add"]
    else:
        s["alpha"] = draw(st.sampled_from([20.0, 20.0, 14.5, 17.5, 22.5, 25.0, 28.0])) * DEG
        if ring:
            s["ded"] = draw(fl(0.7, 1.0, 2))
            s["add"] = round(s["ded"] + draw(fl(0.05, 0.25, 2)), 3)
        else:
            s["add"] = draw(fl(0.7, 1.1, 2))
            s["ded"] = round(s["add"] + draw(fl(0.05, 0.25, 2)), 3)
        if shift:
            s["x"] = draw(st.one_of(st.just(0.0), fl(-0.2, 0.5, 2)))
        if not ring:
            s["uc"] = draw(st.booleans()) if undercut is None else undercut
    if wide:
        _widen(draw, s, fam, ring, cyc)
    if fillets:
        kind = draw(st.sampled_from(["none", "none", "root", "tip", "both"]))
        if kind in ("root", "both"):
            # the trochoid of an undercut tooth already is tangent to the root circle:
            # a fillet on top of it degenerates to a zero length arc
            if not s["uc"] or (ucrf and s["cone"] == 0):
                s["rf"] = draw(fl(0.05, (0.5 if s["cone"] else 1.2) if fat else 0.3, 2))
        if kind in ("tip", "both"):
            s["tf"] = draw(fl(0.03, 0.4 if fat else 0.15, 2))
    fit = (0.8 if fat else 0.3) * (s["add"] + s["ded"])
    if wide and s["rf"] + s["tf"] > fit:
        # both fillets have to fit on the flank
        k = fit / (s["rf"] + s["tf"])
        s["rf"], s["tf"] = round(s["rf"] * k, 3), round(s["tf"] * k, 3)
    s["pl"] = draw(place()) if placed else dict(HOME)
    return s


def _widen(draw, s, fam, ring, cyc):
    what = draw(st.sampled_from(["tall", "stub", "shift", "angle", "none"]))
    hi, lo = ("ded", "add") if ring else ("add", "ded")
    if what == "tall":
        s[hi] = draw(fl(1.1, 1.3 if s["cone"] else 1.7, 2))
        s[lo] = round(s[hi] + draw(fl(0.0, 0.25, 2)), 3)
        s["tt"] = draw(st.sampled_from([0.0, 0.0, 0.1, 0.3]))
    elif what == "stub":
        s[hi] = draw(fl(0.3, 0.7, 2))
        s[lo] = round(s[hi] + draw(fl(0.05, 0.25, 2)), 3)
    if (s["cone"] and what == "tall") or what == "stub":
        s["x"] = 0.0
    if not cyc:
        if what == "shift":
            x = draw(fl(-0.6, 1.0, 2))
            s["x"] = round(max(min(x, s["ded"] - 0.3), 0.3 - s["add"]), 3)
        elif what == "angle":
            s["alpha"] = draw(fl(14 if s["cone"] else 10, 33, 1)) * DEG


def build(s):
    """Construct the gear of a spec with the public wrapper classes."""
    fam = s["fam"]
    pl = s.get("pl", HOME)
    kw = dict(
        number_of_teeth=s["N"],
        module=s["m"],
        height=s["h"],
        center=np.array(pl["c"], float),
        angle=pl["a"],
        root_fillet=s["rf"],
        tip_fillet=s["tf"],
        addendum_coefficient=s["add"],
        dedendum_coefficient=s["ded"],
        backlash=s["bl"],
    )
    if fam in ("cyc", "cycbevel", "cycring"):
        g = gg.CycloidGear(
            helix_angle=s["beta"],
            cone_angle=s["cone"],
            inside_cycloid_coefficient=s["ci"],
            outside_cycloid_coefficient=s["co"],
            inside_teeth=fam == "cycring",
            tip_truncation=s["tt"],
            crowning=s["crown"],
            z_anchor=s["anchor"],
            **kw,
        )
    else:
        kw.update(
            profile_shift=s["x"],
            pressure_angle=s["alpha"],
            z_anchor=s["anchor"],
            tip_truncation=s["tt"],
        )
        if fam == "ring":
            kw["enable_undercut"] = False
            g = gg.SpurRingGear(
                crowning=s["crown"], outside_ring_coefficient=s["ro"], **kw
            )
        elif fam == "helring":
            kw["enable_undercut"] = False
            g = gg.HelicalRingGear(
                helix_angle=s["beta"],
                herringbone=s["herr"],
                crowning=s["crown"],
                **kw,
            )
        else:
            kw["enable_undercut"] = s["uc"]
            kw["crowning"] = s["crown"]
            if fam == "spur":
                g = gg.SpurGear(**kw)
            elif fam == "helical":
                g = gg.HelicalGear(
                    helix_angle=s["beta"], herringbone=s["herr"], **kw
                )
            elif fam == "bevel":
                g = gg.BevelGear(helix_angle=s["beta"], cone_angle=s["cone"], **kw)
            else:
                g = gg.InvoluteGear(helix_angle=s["beta"], cone_angle=s["cone"], **kw)
    g.gearcore.transform.orientation = rotmat(pl["rv"])
    return g


class Nominal:
    """Textbook dimensions of a spec, in the transverse plane, in units of the
    (transverse) module, at height parameter z in [0, 1] of the body."""

    def __init__(self, s):
        self.s = s
        fam = s["fam"]
        cb = math.cos(s["beta"]) if fam in ("helical", "helring") else 1.0
        self.N = s["N"]
        self.rp = s["N"] / 2
        self.mt = s["m"] / cb
        self.ha = s["add"] * cb
        self.hd = s["ded"] * cb
        self.x = s["x"] * cb
        self.ha += self.x
        self.hd -= self.x
        self.ho = s.get("ro", 2.0) * (-1 if fam in RINGS else 1)
        self.pitch = 2 * PI / s["N"]
        self.gamma = s["cone"] / 2
        self.zh = s["h"] / self.mt
        if "alpha" in s:
            self.alpha = math.atan(math.tan(s["alpha"]) / cb)
            self.rb = self.rp * math.cos(self.alpha)
        else:
            self.alpha = 0.0

    def z(self, ratio):
        """core z value (module units) of a height ratio"""
        return self.zh * (ratio - self.s["anchor"])

    def half_angle(self, ratio):
        """half tooth angle on the pitch circle (half of the gap for ring gears)"""
        c = self.s["crown"] * 1e-3 * (2 * ratio - 1) ** 2
        thin = (self.s["bl"] + c) * (-1 if self.s["fam"] in RINGS else 1)
        return self.pitch / 4 + (self.x * math.tan(self.alpha) - thin) / self.rp

    def scale(self, ratio):
        return 1 - self.z(ratio) * math.sin(self.gamma) / self.rp

    def twist(self, ratio):
        if self.s.get("herr"):
            ratio = 0.5 - abs(0.5 - ratio)
        return self.z(ratio) * math.tan(self.s["beta"]) / self.rp

    def radius_at(self, out):
        """radius and axial position of the circle at height `out` over the pitch circle,
        measured along the sphere for conical gears (module 1, section frame)"""
        if self.gamma == 0:
            return self.rp + out, 0.0
        R = self.rp / math.sin(self.gamma)
        th = self.gamma + out / R
        return R * math.sin(th), self.rp / math.tan(self.gamma) - R * math.cos(th)

    def inv_half_angle(self, r, ratio):
        """half tooth angle of an ideal involute tooth at radius r (>= base radius)"""
        ar = math.acos(min(1.0, self.rb / r))
        return (
            self.half_angle(ratio)
            + math.tan(self.alpha)
            - self.alpha
            - math.tan(ar)
            + ar
        )

    def to_polar(self, p):
        """local point (module 1, section frame) -> (out, angle); out = 0 on the pitch
        circle for conical sections measured along the sphere, radius - rp otherwise"""
        p = np.atleast_2d(p)
        ang = np.arctan2(p[:, 1], p[:, 0])
        if self.gamma == 0:
            return np.hypot(p[:, 0], p[:, 1]) - self.rp, ang
        R = self.rp / math.sin(self.gamma)
        apex = np.array([0, 0, self.rp / math.tan(self.gamma)])
        d = p - apex
        th = np.arctan2(np.hypot(d[:, 0], d[:, 1]), -d[:, 2])
        return (th - self.gamma) * R, ang


def sample(curve, n):
    return np.array([curve(t) for t in np.linspace(0, 1, n)])


def dist_to_polyline(P, poly):
    """Distance of each point to a 3D polyline."""
    P = np.atleast_2d(P)
    a, b = poly[:-1], poly[1:]
    d = b - a
    L2 = np.maximum((d**2).sum(1), 1e-300)
    t = np.clip(((P[:, None] - a) * d).sum(2) / L2, 0, 1)
    q = a + t[..., None] * d
    return np.linalg.norm(P[:, None] - q, axis=2).min(1)
