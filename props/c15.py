"""C15: shape varies along the height as specified: helix, cone, crowning, anchor."""

import math

import numpy as np
from hypothesis import strategies as st

from lib import gears as G
from lib.gens import PI, fl, rotmat, rotz
from lib.harness import Part
from lib.util import close, need

RULE = "gear with helix, cone, crowning or a moved anchor"
ASSUMPTIONS = [
    "teeth as in C01 (undercut and root fillet not combined on bevel gears)",
    "the anchor is the plane of nominal module and zero twist",
]


def section(p):
    """one pitch of the section, corners included"""
    out = []
    for c in (p.rd_curve, p.tooth_curve, p.ra_curve, p.tooth_curve_mirror):
        if getattr(c, "active", True) and c.length > 1e-9:
            out.append(G.sample(c, 25))
    return np.concatenate(out)


def tooth_azimuth(pts):
    """azimuth of the middle of the flank pair (pts in a frame with the axis as z)"""
    return math.atan2(pts[:, 1].mean(), pts[:, 0].mean())


def wrap(a, p=2 * PI):
    return (a + p / 2) % p - p / 2


def check_sections(case):
    s = case["g"]
    g = G.build(s)
    n = G.Nominal(s)
    M = rotmat(s["pl"]["rv"])
    c0 = np.array(s["pl"]["c"])
    lab = [s["fam"]]
    ratios = [0.0, 0.5, 1.0, case["r1"], case["r2"]]
    size = np.abs(c0).max() + n.rp * n.mt + s["h"] + 1
    zv = np.array(g.gearcore.z_vals, float)
    need(np.all(np.diff(zv) > 0), "z values are not increasing: %s", zv)
    close(zv[[0, -1]], [n.z(0), n.z(1)], 1e-9 * (1 + n.zh), "z range of the body")
    ref = {}
    for r in ratios:
        z = n.z(r)
        close(g.p2z(r), z, 1e-9 * (1 + n.zh), "p2z")
        p = g.gearcore.curve_gen_at_z(z)
        # the section in world coordinates, through the gear's own transform
        tr = g.gearcore.transform * p.transform
        sc = n.scale(r) * n.mt
        fl_ = G.sample(p.tooth_curve, 21)
        fm = G.sample(p.tooth_curve_mirror, 21)
        W = np.array([tr(q) for q in np.concatenate([fl_, fm])])
        L = (W - c0) @ M
        # axial position, scale and twist seen from outside
        mid = 0.5 * (L[0] + L[-1])
        az = math.atan2(mid[1], mid[0])
        close(
            wrap(az - s["pl"]["a"] - n.twist(r)) * n.rp, 0.0, 1e-5,
            "azimuth of the tooth at height %g" % r,
        )
        if s["cone"] == 0:
            close(L[:, 2], np.full(len(L), z * n.mt), 1e-6 * size, "section height")
        # pitch points
        u, a = n.to_polar(fl_)
        q0 = (L @ rotz(-s["pl"]["a"] - n.twist(r)).T) / n.mt - [0, 0, z * math.cos(n.gamma)]
        close(q0 / n.scale(r), np.concatenate([fl_, fm]), 1e-6 * size / n.mt, "section scale")
        ref[r] = section(p)
        # --- reported centres
        wc = c0 + M @ np.array([0, 0, z * math.cos(n.gamma) * n.mt])
        close(g.center_point_at_z(z), wc, 1e-7 * size, "center_point_at_z")
        loc = g.center_location_at_z(z)
        close(np.array(tuple(loc.position)), wc, 1e-6 * size, "center_location_at_z")
        T = loc.wrapped.Transformation()
        R = np.array([[T.Value(i, j) for j in (1, 2, 3)] for i in (1, 2, 3)])
        close(R, M @ rotz(s["pl"]["a"] + n.twist(r)), 1e-6, "orientation of center_location_at_z")
        # base circle
        if "alpha" in s and s["cone"] == 0:
            cb = g.circle_involute_base(r)
            close(cb.radius, n.rb * sc, 1e-7 * size, "base circle radius")
            close(cb.center, wc, 1e-7 * size, "base circle centre")
    for nm, r in (("bottom", 0.0), ("middle", 0.5), ("top", 1.0)):
        wc = c0 + M @ np.array([0, 0, n.z(r) * math.cos(n.gamma) * n.mt])
        close(getattr(g, "center_point_" + nm), wc, 1e-7 * size, "center_point_" + nm)
        loc = getattr(g, "center_location_" + nm)
        close(np.array(tuple(loc.position)), wc, 1e-6 * size, "center_location_" + nm)
    close(g.z_height, s["h"] * math.cos(n.gamma), 1e-7 * size, "z_height")
    for nm, r in (("bottom", 0.0), ("top", 1.0)):
        loc = getattr(g, "face_location_" + nm)
        rr, zz = n.radius_at(-n.ho)
        zf = (n.z(r) * math.cos(n.gamma) + zz * n.scale(r)) * n.mt
        wf = c0 + M @ np.array([0, 0, zf])
        close(np.array(tuple(loc.position)), wf, 1e-3 * n.mt + 1e-6 * size, "face_location_" + nm)
        T = loc.wrapped.Transformation()
        R = np.array([[T.Value(i, j) for j in (1, 2, 3)] for i in (1, 2, 3)])
        close(R, M @ rotz(s["pl"]["a"] + n.twist(r)), 1e-6, "orientation of face_location_" + nm)
        rd = getattr(g, "radii_data_" + nm)
        close(rd.r_p_curve.radius, n.rp * n.scale(r) * n.mt, 1e-7 * size, "pitch radius at " + nm)
    need(len(g.radii_data_array) == len(zv), "one set of circles per z value")
    for z, rd in zip(zv, g.radii_data_array):
        r = z / n.zh + s["anchor"]
        close(rd.r_p_curve.radius, n.rp * n.scale(r) * n.mt, 1e-7 * size, "radii_data_array")
    # --- the shape itself
    if s["crown"] == 0:
        for r in ratios[1:]:
            close(ref[r], ref[0.0], 2e-6 if s["cone"] == 0 else 1e-4, "section at %g against the bottom" % r)
    else:
        lab.append("crowned")
        r = case["r1"]
        # mirrored height has the same section
        pm = section(g.gearcore.curve_gen_at_z(n.z(1 - r)))
        need(pm.shape == ref[r].shape, "sections at mirrored heights differ")
        close(pm, ref[r], 1e-5, "sections at mirrored heights")
        # crowning is backlash that varies along the height
        s2 = dict(s, crown=0.0, bl=s["bl"] + s["crown"] * 1e-3 * (2 * r - 1) ** 2)
        alt = section(G.build(s2).gearcore.curve_gen_at_z(n.z(r)))
        if alt.shape == ref[r].shape:
            close(ref[r], alt, 1e-4, "crowned section against a thinner gear")
        else:
            need(
                G.dist_to_polyline(alt, ref[r]).max() < 5e-3,
                "crowned section against a thinner gear",
            )
    # --- the cone
    if s["cone"]:
        lab.append("cone")
        Rs = n.rp / math.sin(n.gamma) * n.mt
        close(g.radius_spherical, Rs, 1e-7 * Rs, "spherical radius")
        close(g.cone_data.height, Rs * math.cos(n.gamma), 1e-7 * Rs, "cone height")
        apex = c0 + M @ np.array([0, 0, n.rp / math.tan(n.gamma) * n.mt])
        close(g.center_spherical, apex, 1e-6 * (size + Rs), "cone apex")
        for r in ratios:
            z = n.z(r)
            want_R = Rs * n.scale(r)
            # the width of the teeth is measured along the cone
            close(Rs - want_R, z * n.mt, 1e-6 * (1 + Rs), "cone distance at %g" % r)
            rd = g.radii_data_gen(z)
            d = np.linalg.norm(np.array(rd.r_p_curve(0.3)) - apex)
            close(d, want_R, 1e-6 * (size + Rs), "pitch circle distance from the apex")
            # reported cone angles: outside, root, pitch, tip
            wants = [n.gamma - n.ho / (Rs / n.mt), None, n.gamma, None]
            got = g.cone_angles_at_z(z)
            need(len(got) == 4, "four cone angles")
            for w, v, c in zip(
                wants, got, (rd.r_o_curve, rd.r_d_curve, rd.r_p_curve, rd.r_a_curve)
            ):
                q = (np.array(c(0.3)) - apex) @ M
                geo = math.atan2(math.hypot(q[0], q[1]), -q[2])
                if geo < 85 * G.DEG:
                    # circle arcs lie off the sphere by the fit of the numeric profile
                    close(v, geo, 0.02 / math.cos(geo), "reported cone angle")
                if w is not None and w < 85 * G.DEG:
                    close(v, w, 1e-3, "reported cone angle")
        close(g.cone_angle_limits_bottom, g.cone_angles_at_z(zv[0]), 1e-9, "cone_angle_limits_bottom")
        close(g.cone_angle_limits_top, g.cone_angles_at_z(zv[-1]), 1e-9, "cone_angle_limits_top")
    if s["beta"]:
        lab.append("helix")
        # the twist per height is that of the helix angle, whatever the module: lead
        r1, r2 = 0.1, 0.4
        t = [
            (g.gearcore.transform * g.gearcore.curve_gen_at_z(n.z(r)).transform)
            for r in (r1, r2)
        ]
        dz = (r2 - r1) * s["h"]
        da = wrap(t[1].angle - t[0].angle)
        close(
            wrap(da - dz * math.tan(s["beta"]) / (n.rp * n.mt)), 0.0, 1e-8,
            "twist between two heights",
        )
    return lab


# ---------------------------------------------------------------- anchor


def check_anchor(case):
    """Moving the anchor: cylindrical gears keep their shape, the body moves."""
    s = dict(case["g"])
    s["crown"] = case["crown"]
    a1, a2 = case["a"]
    s1, s2 = dict(s, anchor=a1), dict(s, anchor=a2)
    g1, g2 = G.build(s1), G.build(s2)
    n1, n2 = G.Nominal(s1), G.Nominal(s2)
    r = case["r"]
    W = []
    for g, n in ((g1, n1), (g2, n2)):
        p = g.gearcore.curve_gen_at_z(n.z(r))
        tr = g.gearcore.transform * p.transform
        W.append(np.array([tr(q) for q in section(p)]))
    M, c0 = rotmat(s["pl"]["rv"]), np.array(s["pl"]["c"])
    L1, L2 = ((w - c0) @ M for w in W)
    need(L1.shape == L2.shape, "sections have the same parts")
    dz = (a1 - a2) * s["h"]
    if s["cone"] == 0:
        dt = (a1 - a2) * s["h"] * math.tan(s["beta"]) / (n1.rp * n1.mt)
        want = L1 @ rotz(dt).T + [0, 0, dz]
        close(L2, want, 1e-5 * (n1.rp * n1.mt + s["h"] + 1), "body moved by the anchor")
    else:
        # the same cone, cut at another distance from the apex: sections are similar
        k1, k2 = n1.scale(r), n2.scale(r)
        ap = np.array([0, 0, n1.rp / math.tan(n1.gamma) * n1.mt])
        dt = n2.twist(r) - n1.twist(r)
        want = (L1 - ap) @ rotz(dt).T * (k2 / k1) + ap
        close(L2, want, 2e-4 * n1.mt, "conical body moved by the anchor")
    return [s["fam"]]


strat = st.fixed_dictionaries({"g": G.gear(placed=True, wide=True), "r1": fl(0, 1, 3), "r2": fl(0, 1, 3)})
anchor_strat = st.fixed_dictionaries(
    {
        "g": G.gear(placed=True, wide=True),
        "a": st.sampled_from([[0.0, 1.0], [0.5, 0.0], [0.0, 0.5], [1.0, 0.3], [0.0, 0.25]]),
        "r": fl(0, 1, 3),
        "crown": st.sampled_from([0.0, 30.0, 80.0]),
    }
)


def nontrivial(c):
    s = c["g"]
    return bool(s["beta"] or s["cone"] or s["crown"] or s["anchor"])


PARTS = [
    Part("sections", strat, check_sections, 250, 4000, nontrivial=nontrivial, rule=RULE),
    Part(
        "anchor", anchor_strat, check_anchor, 300, 5000,
        nontrivial=lambda c: True, rule="every case compares two anchors",
    ),
]
