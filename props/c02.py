"""C02: gear dimensions follow module, tooth count, coefficients, shift and backlash."""

import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

import gggears as gg
from lib import gears as G
from lib.gens import PI, fl, rotmat, rotz
from lib.harness import Part
from lib.util import close, need

RULE = "gear spec with shift, backlash, crowning, helix or cone, or a changed coefficient"
ASSUMPTIONS = [
    "the root land exists (fillets do not fill the gap), teeth as in C01",
    "undercut bevel roots may deviate by 0.02 module (rack tip on a sphere)",
]


def nontrivial(case):
    s = case["g"]
    return bool(
        s["x"] or s["bl"] or s["crown"] or s["beta"] or s["cone"] or s["add"] != 1.0
    )


def flank_azimuth(n, curve, u0):
    """azimuth where the flank crosses the circle at height u0, or None"""
    f = lambda t: n.to_polar(curve(t))[0][0] - u0  # noqa: E731
    ts = np.linspace(0, 1, 33)
    fs = np.array([f(t) for t in ts])
    k = np.nonzero((fs[:-1] < 0) & (fs[1:] >= 0))[0]
    if len(k) == 0:
        return None
    t = brentq(f, ts[k[-1]], ts[k[-1] + 1], xtol=1e-12)
    return n.to_polar(curve(t))[1][0]


def tip_height(n, s, r):
    """nominal tip height after truncating a tooth that comes to a point, None if the
    pointed tip is not described in closed form for this family"""
    if s["cone"] or s["fam"].startswith("cyc"):
        return None
    ra = n.rp + n.ha
    g = lambda rr: n.inv_half_angle(rr, r)  # noqa: E731
    if g(ra + s["tt"]) > 0:
        return n.ha
    r_point = brentq(g, max(n.rb, n.rp - 0.5), ra + s["tt"] + 1e-9)
    return min(n.ha, r_point - n.rp - s["tt"])


def check_dims(case):
    s = case["g"]
    g = G.build(s)
    n = G.Nominal(s)
    r = case["r"]
    z = n.z(r)
    sc = n.scale(r) * n.mt
    lab = [s["fam"]]
    need(g.number_of_teeth == s["N"], "number of teeth")
    close(g.module, n.mt, 1e-9, "module")
    close(g.pitch_radius, n.mt * s["N"] / 2, 1e-9 * n.rp * n.mt, "pitch radius")
    close(g.rp, n.mt * s["N"] / 2, 1e-9 * n.rp * n.mt, "rp")
    close(g.pitch_angle, n.pitch, 1e-12, "pitch angle")
    close(g.cone_angle, s["cone"], 1e-12, "cone angle")
    need(bool(g.inside_teeth) == (s["fam"] in G.RINGS), "inside_teeth")
    # --- tooth thickness on the pitch circle
    p = g.gearcore.curve_gen_at_z(z)
    az = flank_azimuth(n, p.tooth_curve, 0.0)
    need(az is not None, "flank does not cross the pitch circle")
    half = n.half_angle(r)
    severe = s["uc"] and n.hd > 2.5 * n.rp * math.sin(n.alpha) ** 2
    if severe:
        # heavy undercut may take away a little at the pitch circle
        lab.append("severe undercut")
        need(
            -half * n.rp - 1e-5 < az * n.rp < -half * n.rp + 0.05,
            "half tooth thickness %g, expected %g",
            -az * n.rp,
            half * n.rp,
        )
        half = -az
    close(az * n.rp, -half * n.rp, 1e-5, "half tooth thickness at the pitch circle")
    az2 = flank_azimuth(
        n, type("R", (), {"__call__": lambda _, t: p.tooth_curve_mirror(1 - t)})(), 0.0
    )
    close(az2 * n.rp, half * n.rp, 1e-5, "half thickness of the other side")
    # --- tip, root and outside circles
    ctol = 1e-5 if s["cone"] == 0 else 2e-3
    rad = g.radii_data_gen(z)
    th = tip_height(n, s, r)
    tipped = th is not None and th < n.ha
    if th is None:
        # a conical or cycloid tooth: nominal unless it comes to a point before
        th = n.to_polar(p.tooth_curve(1))[0][0]
        need(th < n.ha + ctol, "tip is above the addendum by %g", th - n.ha)
        if th < n.ha - ctol:
            tipped = True
            # the truncated tip has to be narrow: this only happens near a point
            w = abs(n.to_polar(p.tooth_curve(1))[1][0]) * n.rp
            # both flanks meet at most the truncation higher up
            need(
                w < 1.2 * max(s["tt"], 0.02) + 0.05,
                "tip lowered by %g although it is %g wide",
                n.ha - th,
                2 * w,
            )
    if tipped:
        lab.append("pointed tip")
    pts = np.concatenate(
        [G.sample(p.profile, 121), [p.tooth_curve(0), p.tooth_curve(1)]]
    )
    u, _ = n.to_polar(pts)
    land = p.ra_curve.active and p.ra_curve.length > 1e-3
    need(u.max() < th + ctol * 5, "outline is above the tip by %g", u.max() - th)
    if (s["tt"] > 0 or not tipped) and (s["tf"] == 0 or land):
        close(rad.r_a_curve.radius, n.radius_at(th)[0] * sc, ctol * sc * 5, "tip radius")
        close(u.max(), th, ctol * 5, "highest point of the outline")
    gap = p.rd_curve.active and p.rd_curve.length > 1e-3
    if gap:
        dtol = 0.02 if (s["cone"] and s["uc"]) else ctol * 5
        close(rad.r_d_curve.radius, n.radius_at(-n.hd)[0] * sc, dtol * sc, "root radius")
        close(u.min(), -n.hd, dtol, "lowest point of the outline")
    else:
        lab.append("no root land")
        need(u.min() > -n.hd - 5e-3, "outline is below the root by %g", -n.hd - u.min())
    ro, zo = n.radius_at(-n.ho)
    close(rad.r_o_curve.radius, ro * sc, 1e-6 * n.rp * sc + 1e-4 * sc, "outside ring radius")
    close(rad.r_p_curve.radius, n.rp * sc, 1e-9 * n.rp * sc, "pitch circle radius")
    # --- reported circles are where the section is
    pl = s["pl"]
    M = rotmat(pl["rv"])
    for name, curve, out in (
        ("pitch", rad.r_p_curve, 0.0),
        ("tip", rad.r_a_curve, th),
        ("outside", rad.r_o_curve, -n.ho),
    ):
        if name == "tip" and ((tipped and s["tt"] == 0) or (s["tf"] and not land)):
            continue
        rr, zz = n.radius_at(out)
        zc = (z * math.cos(n.gamma) + zz * n.scale(r)) * n.mt
        want_c = M @ np.array([0, 0, zc]) + np.array(pl["c"])
        close(curve.center, want_c, 1e-2 * n.mt if s["cone"] else 1e-6 * n.mt * n.rp, name + " circle centre")
        q = (np.array([curve(t) for t in (0.0, 0.3, 0.77)]) - want_c) @ M
        close(
            np.hypot(q[:, 0], q[:, 1]),
            np.full(3, rr * sc),
            (2e-3 if s["cone"] else 1e-4) * sc + 1e-6 * n.rp * sc,
            name + " circle radius in place",
        )
        close(q[:, 2], np.zeros(3), 1e-2 * n.mt if s["cone"] else 1e-6 * n.mt * n.rp, name + " circle plane")
    # --- scalar reports refer to the bottom section
    bottom = g.radii_data_gen(n.z(0.0))
    close(g.addendum_radius, bottom.r_a_curve.radius, 1e-7 * n.rp * n.mt, "addendum_radius")
    close(g.dedendum_radius, bottom.r_d_curve.radius, 1e-7 * n.rp * n.mt, "dedendum_radius")
    top = g.radii_data_gen(n.z(1.0))
    big = max(
        c.radius for d in (bottom, top) for c in (d.r_a_curve, d.r_o_curve)
    )
    need(g.max_outside_radius > big - 1e-6 * n.rp * n.mt, "max_outside_radius too small")
    mid = g.radii_data_gen(n.z(0.5))
    big = max(big, mid.r_a_curve.radius)
    need(
        g.max_outside_radius < big * (1 + 1e-3) + 1e-6,
        "max_outside_radius %g, largest circle %g",
        g.max_outside_radius,
        big,
    )
    close(
        [c.r_p_curve.radius for c in (g.radii_data_bottom, g.radii_data_top)],
        [n.rp * n.scale(0) * n.mt, n.rp * n.scale(1) * n.mt],
        1e-8 * n.rp * n.mt,
        "radii_data_bottom/top pitch radius",
    )
    # --- base circle
    if "alpha" in s and s["cone"] == 0:
        close(g.r_base, n.rb * n.mt, 1e-7 * n.rb * n.mt, "base radius")
        inv = math.tan(n.alpha) - n.alpha
        close(
            g.angle_base,
            -(n.half_angle(0.5) + inv),
            1e-6,
            "angle of the involute start",
        )
        bc = g.circle_involute_base(r)
        close(bc.radius, n.rb * sc, 1e-7 * n.rb * sc, "base circle radius")
        close(
            bc.center,
            M @ np.array([0, 0, z * n.mt]) + np.array(pl["c"]),
            1e-7 * (n.rb * sc + 100),
            "base circle centre",
        )
    if s["cone"]:
        R = n.rp / math.sin(n.gamma) * n.mt
        close(g.radius_spherical, R, 1e-8 * R, "spherical radius")
        outs = [-n.ho, -n.hd, 0.0, th]
        want = np.array([n.gamma + o * n.mt / R for o in outs])
        if want.max() < 1.45:
            got = np.array(g.cone_angles_at_z(z))
            tolv = 0.05 / n.rp * math.tan(want.max())
            close(got[[0, 2, 3]], want[[0, 2, 3]], max(tolv * 0.2, 1e-3), "cone angles")
    return lab


DEFAULTS = {
    "SpurGear": dict(add=1.0, ded=1.2, ho=2.0),
    "HelicalGear": dict(add=1.0, ded=1.2, ho=2.0),
    "SpurRingGear": dict(add=1.2, ded=1.0, ho=-2.5),
    "HelicalRingGear": dict(add=1.2, ded=1.0, ho=-2.0),
    "CycloidGear": dict(add=1.0, ded=1.2, ho=2.0),
}


def check_defaults(case):
    cls = getattr(gg, case["cls"])
    d = DEFAULTS[case["cls"]]
    N, m = case["N"], case["m"]
    kw = {"number_of_teeth": N, "module": m}
    cb = 1.0
    if case["cls"].startswith("Helical"):
        kw["helix_angle"] = case["beta"]
        cb = math.cos(case["beta"])
    g = cls(**kw)
    mt = m / cb
    close(g.pitch_radius, mt * N / 2, 1e-9 * N * m, "pitch radius")
    if case["cls"] != "CycloidGear" or N > 14:
        close(g.addendum_radius, mt * N / 2 + d["add"] * m, 2e-3 * m, "default tip radius")
    close(g.dedendum_radius, mt * N / 2 - d["ded"] * m, 2e-3 * m, "default root radius")
    if case["cls"] == "SpurRingGear":
        close(g.max_outside_radius, mt * N / 2 + 2.5 * m, 2e-3 * m, "outside ring")
    if case["cls"] != "CycloidGear":
        at = math.atan(math.tan(20 * G.DEG) / cb)
        close(g.r_base, mt * N / 2 * math.cos(at), 1e-6 * m * N, "default base radius")
    return [case["cls"]]


ratio = st.one_of(st.sampled_from([0.0, 0.5, 1.0]), fl(0, 1, 2))


def case(fams, **kw):
    return st.fixed_dictionaries({"g": G.gear(fams=fams, **kw), "r": ratio})


PARTS = [
    Part("involute", case(["spur", "invo", "helical"], wide=True), check_dims, 190, 4000, nontrivial, RULE),
    Part("ring", case(["ring", "helring"], wide=True), check_dims, 100, 2500, nontrivial, RULE),
    Part("bevel", case(["bevel"], nmin=10, wide=True), check_dims, 100, 2000, nontrivial, RULE),
    Part("cycloid", case(["cyc", "cycring", "cycbevel"], nmin=10, wide=True), check_dims, 110, 2500, nontrivial, RULE),
    Part(
        "defaults",
        st.fixed_dictionaries(
            {
                "cls": st.sampled_from(sorted(DEFAULTS)),
                "N": st.integers(20, 50),
                "m": st.sampled_from([0.5, 1.0, 2.5]),
                "beta": fl(-0.6, 0.6, 2),
            }
        ),
        check_defaults,
        60,
        400,
        lambda c: c["m"] != 1.0,
        "module other than 1",
    ),
]
