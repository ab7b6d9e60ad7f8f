"""C03: tooth flanks obey the involute / cycloid / octoid law."""

import math

import numpy as np
from hypothesis import strategies as st

import gggears.gearteeth as gt
from gggears.gggears_base_classes import ToothLimitParam
from lib import gears as G
from lib.gens import PI, fl
from lib.harness import Part
from lib.util import assume, close, need

RULE = "flank point between root and tip features of a gear with at least one changed parameter"
ASSUMPTIONS = [
    "points within 1.7 fillet radii of the root and the tip, or where the gap or the tooth is "
    "narrower than the fillet, are left out",
    "below the base circle a flank without undercut is only required to stay behind the "
    "involute's base point (radial extension)",
    "the trochoid of an undercut bevel gear is compared within 0.02 module",
]


def flank(p, n, count=70):
    pts = G.sample(p.tooth_curve, count)
    u, a = n.to_polar(pts)
    return u, a


def keep_zone(s, n, u, a):
    """heights between the root and tip features"""
    lo = -n.hd + 1.7 * s["rf"] + 1e-6
    hi = min(n.ha, u.max()) - 1.7 * s["tf"] - 1e-6
    # a fillet wider than the gap (or the tooth) is where it fits
    narrow = u[(n.pitch / 2 + a) * n.rp < 1.25 * s["rf"]]
    if s["rf"] and len(narrow):
        lo = max(lo, narrow.max() + 0.1)
    narrow = u[-a * n.rp < 1.25 * s["tf"]]
    if s["tf"] and len(narrow):
        hi = min(hi, narrow.min() - 0.1)
    return lo, hi


# ------------------------------------------------------------------ involute
def rack_corner(n, half):
    """tip corner of the generating rack: depth below the pitch line, lateral position"""
    s2 = n.rp * half
    y = -s2 - n.hd * math.tan(n.alpha)
    lim = -n.rp * n.pitch / 2
    if y < lim:
        return (-lim - s2) / math.tan(n.alpha), lim
    return n.hd, y


def trochoid(n, depth, yk, r):
    """azimuth of the path of the rack corner at radius r, most advanced branch"""
    x = n.rp - depth
    w = math.sqrt(max(0.0, r * r - x * x))
    return max(math.atan2(v, x) - (v - yk) / n.rp for v in (w, -w))


def check_involute(case):
    s = case["g"]
    g = G.build(s)
    n = G.Nominal(s)
    r = case["r"]
    p = g.gearcore.curve_gen_at_z(n.z(r))
    half = n.half_angle(r)
    u, a = flank(p, n)
    lo, hi = keep_zone(s, n, u, a)
    lab = [s["fam"]]
    depth, yk = rack_corner(n, half)
    form = n.rp * math.sin(n.alpha) - depth / math.sin(n.alpha)
    generated = s["uc"] and n.rp - n.hd <= n.rb
    r_form = math.sqrt(n.rb**2 + form**2) if form >= 0 else None
    seen = 0
    for ui, ai in zip(u, a):
        if not lo < ui < hi:
            continue
        rr = n.rp + ui
        ideal = -n.inv_half_angle(max(rr, n.rb), r)
        if not generated:
            if rr > n.rb + 1e-3:
                seen += 1
                close(ai * rr, ideal * rr, 2e-5, "involute flank at height %.3f" % ui)
            else:
                need(
                    abs(ai - ideal) * rr < 0.03,
                    "flank below the base circle is off the radial line by %g",
                    (ai - ideal) * rr,
                )
            continue
        tro = trochoid(n, depth, yk, rr)
        if form >= 0:
            exp = ideal if rr >= r_form else tro
        else:
            exp = tro if rr < n.rb else max(ideal, tro)
            if rr >= n.rp:
                exp = ideal
        seen += 1
        tol = 1e-3
        if form < 0 and depth > 2.2 * n.rp * math.sin(n.alpha) ** 2 and rr > n.rp - 0.1:
            continue  # heavy undercut around the pitch circle
        if rr < n.rp - depth + 0.02:
            continue  # runs into the root circle
        close(ai * rr, exp * rr, tol, "generated flank at height %.3f" % ui)
    if generated:
        lab.append("undercut" if form < 0 else "trochoid root")
        if n.hd != depth:
            lab.append("pointed rack")
    need(seen > 0 or s["rf"] > 0.2, "no flank point was compared")
    return lab


# ------------------------------------------------------------------ bevel
def octoid_ref(n, half):
    """octoid as the envelope of the crown rack's plane flank: heights and azimuths"""
    gam, R, al = n.gamma, n.rp / math.sin(n.gamma), n.alpha
    e = np.array([math.sin(gam), 0, -math.cos(gam)])
    k = np.array([math.cos(gam), 0, math.sin(gam)])
    t = np.array([0, 1.0, 0])
    H = np.array([0, 0, n.rp / math.tan(gam)])
    us, az = [], []
    for th in np.linspace(half - 1.4 / math.sin(gam), half + 1.4 / math.sin(gam), 1601):
        psi = (th - half) * math.sin(gam)
        tp = -math.sin(psi) * e + math.cos(psi) * t
        nrm = math.cos(al) * tp - math.sin(al) * k
        q = e - nrm * nrm.dot(e)
        q = R * q / np.linalg.norm(q)
        c, s_ = math.cos(-th), math.sin(-th)
        q = np.array([c * q[0] - s_ * q[1], s_ * q[0] + c * q[1], q[2]]) + H
        uu, aa = n.to_polar(q)
        us.append(uu[0])
        az.append(aa[0])
    return np.array(us), np.array(az)


def monotone_part(us, az):
    """the branch through height 0 on which the height is monotone"""
    i0 = len(us) // 2  # contact at the pitch point
    if us[i0 + 1] < us[i0 - 1]:
        us, az = us[::-1], az[::-1]
    i = i0
    while i > 0 and us[i - 1] < us[i]:
        i -= 1
    j = i0
    while j < len(us) - 1 and us[j + 1] > us[j]:
        j += 1
    return us[i : j + 1], az[i : j + 1]


def crown_trochoid(n, half):
    """path of the crown rack's tip corner in the gear frame"""
    gam, R, al = n.gamma, n.rp / math.sin(n.gamma), n.alpha
    e = np.array([math.sin(gam), 0, -math.cos(gam)])
    k = np.array([math.cos(gam), 0, math.sin(gam)])
    t = np.array([0, 1.0, 0])
    H = np.array([0, 0, n.rp / math.tan(gam)])
    # the flank is a great circle through the pitch line, the corner hd / cos(alpha) down
    d = n.hd / R / math.cos(al)
    us, az = [], []
    for th in np.linspace(-1.2 / math.sin(gam), 1.2 / math.sin(gam), 1601):
        psi = (th - half) * math.sin(gam)
        ep = math.cos(psi) * e + math.sin(psi) * t
        tp = -math.sin(psi) * e + math.cos(psi) * t
        out = math.cos(al) * k + math.sin(al) * tp
        q = R * (math.cos(d) * ep - math.sin(d) * out)
        c, s_ = math.cos(-th), math.sin(-th)
        q = np.array([c * q[0] - s_ * q[1], s_ * q[0] + c * q[1], q[2]]) + H
        uu, aa = n.to_polar(q)
        us.append(uu[0])
        az.append(aa[0])
    return np.array(us), np.array(az)


def check_bevel(case):
    s = case["g"]
    g = G.build(s)
    n = G.Nominal(s)
    r = case["r"]
    p = g.gearcore.curve_gen_at_z(n.z(r))
    half = n.half_angle(r)
    u, a = flank(p, n)
    lo, hi = keep_zone(s, n, u, a)
    us, az = monotone_part(*octoid_ref(n, half))
    lab = []
    seen = 0
    # virtual gear: where the rack corner leaves the involute
    rv = n.rp / math.cos(n.gamma)
    form = rv * math.sin(n.alpha) - n.hd / math.sin(n.alpha)
    base = rv * math.cos(n.alpha)
    gen = s["uc"] and n.hd > n.rp / math.sin(n.gamma) * (
        n.gamma - math.asin(math.sin(n.gamma) * math.cos(n.alpha))
    )
    u_form = (math.sqrt(base**2 + max(form, 0.0) ** 2) - rv) if gen else -9.0
    if gen and form < 0:
        u_form = -0.2 * n.hd
    for ui, ai in zip(u, a):
        if not lo < ui < hi or not us[0] + 0.02 < ui < us[-1]:
            continue
        exp = np.interp(ui, us, az)
        sc = n.rp + ui * math.cos(n.gamma)
        if not gen:
            seen += 1
            close(ai * sc, exp * sc, 2e-3, "octoid flank at height %.3f" % ui)
        elif ui > max(u_form + 0.15, -0.25):
            seen += 1
            tol = 2e-3 if form >= 0 else 0.02
            close(ai * sc, exp * sc, tol, "octoid flank at height %.3f" % ui)
        else:
            need(
                (ai - exp) * sc > -0.02 or form >= 0 or ui < -0.5 * n.hd,
                "undercut adds %g material behind the flank at height %.3f",
                -(ai - exp) * sc, ui,
            )
    need(seen > 0, "no flank point was compared")
    if gen and case["g"]["rf"] == 0:
        lab.append("generated")
        # root part: on the path of the rack corner
        tu, ta = crown_trochoid(n, half)
        P = np.stack([tu, ta * n.rp], 1)
        limit = min(u_form - 0.1, -0.3 * n.hd)
        for ui, ai in zip(u, a):
            if -n.hd + 0.05 < ui < limit and half * n.rp + n.hd * math.tan(n.alpha) < n.pitch / 2 * n.rp:
                q = np.array([ui, ai * n.rp])
                on_oct = abs(ai - np.interp(ui, us, az)) * n.rp
                seg = G.dist_to_polyline(
                    np.append(q, 0)[None], np.c_[P, np.zeros(len(P))]
                )[0]
                need(
                    min(seg, on_oct) < 0.02,
                    "generated root is off the path of the rack corner by %g at height %.3f",
                    min(seg, on_oct), ui,
                )
    return lab + ["bevel"]


# ------------------------------------------------------------------ cycloid
def cyc_branch(n, coeff, sign, half):
    """epicycloid (sign 1) or hypocycloid (-1) rolled from the pitch point: (u, azimuth)"""
    rp, rc = n.rp, coeff * n.rp * sign
    us, az = [], []
    tt = np.linspace(0, PI * abs(coeff), 1201) * sign
    for t in tt:
        if n.gamma == 0:
            m = np.array([(rp + rc) * math.cos(t), (rp + rc) * math.sin(t), 0.0])
            b = t + t * rp / rc
            q = m + rc * np.array([-math.cos(b), -math.sin(b), 0.0])
        else:
            R = rp / math.sin(n.gamma)
            g2 = math.asin(rc / R)
            H = np.array([0, 0, rp / math.tan(n.gamma)])
            # rolling cone: axis through the apex at angle gamma + g2
            b = t * rp / rc
            axis = np.array([math.sin(n.gamma + g2), 0, -math.cos(n.gamma + g2)])
            e1 = np.array([-math.cos(n.gamma + g2), 0, -math.sin(n.gamma + g2)])
            e2 = np.array([0, -1.0, 0])
            q = R * (
                math.cos(g2) * axis + math.sin(g2) * (math.cos(b) * e1 + math.sin(b) * e2)
            )
            c, s_ = math.cos(t), math.sin(t)
            q = np.array([c * q[0] - s_ * q[1], s_ * q[0] + c * q[1], q[2]]) + H
        uu, aa = n.to_polar(q)
        us.append(uu[0])
        az.append(aa[0])
    us, az = np.array(us) * sign, np.unwrap(np.array(az)) - half
    # heights grow along the branch
    k = 1
    while k < len(us) and us[k] > us[k - 1]:
        k += 1
    return us[:k], az[:k]


def check_cycloid(case):
    s = case["g"]
    g = G.build(s)
    n = G.Nominal(s)
    r = case["r"]
    p = g.gearcore.curve_gen_at_z(n.z(r))
    half = n.half_angle(r)
    up = cyc_branch(n, s["co"], 1, half)
    dn = cyc_branch(n, s["ci"], -1, half)
    u, a = flank(p, n)
    lo, hi = keep_zone(s, n, u, a)
    tol = 2e-4 if n.gamma == 0 else 1e-3
    seen = 0
    for ui, ai in zip(u, a):
        if not lo < ui < hi or abs(ui) < 0.02:
            continue
        us, az = up if ui > 0 else dn
        # the library rolls the inner circle by a quarter turn only
        if abs(ui) > us[len(us) // 2] * 0.9 and ui < 0 or abs(ui) > us[-1]:
            continue
        seen += 1
        close(
            ai * n.rp, np.interp(abs(ui), us, az) * n.rp, tol,
            "%s at height %.3f" % ("epicycloid" if ui > 0 else "hypocycloid", ui),
        )
    need(seen > 5, "only %d flank points were compared", seen)
    return [s["fam"]]


# ------------------------------------------------------------------ spherical involute
sph = st.fixed_dictionaries(
    {
        "N": st.integers(8, 60),
        "gam": st.integers(12, 75),
        "al": st.sampled_from([14.5, 20.0, 25.0]),
        "half": fl(0.2, 0.3, 3),
    }
)


def check_spherical(case):
    N, gam, al = case["N"], case["gam"] * G.DEG, case["al"] * G.DEG
    rp = N / 2
    R = rp / math.sin(gam)
    half = case["half"] * 2 * PI / N
    curve = gt.InvoluteTooth(
        pitch_intersect_angle=half, pitch_radius=rp, cone_angle=2 * gam,
        pressure_angle=al, ref_limits=ToothLimitParam(h_a=1, h_d=1.2),
    ).generate_tooth_curve()
    gb = math.asin(math.sin(gam) * math.cos(al))

    def daz(th):
        b = math.acos(min(1.0, math.cos(th) / math.cos(gb)))
        return b / math.sin(gb) - math.atan2(math.tan(b), math.sin(gb))

    apex = np.array([0, 0, rp / math.tan(gam)])
    seen = 0
    for q in G.sample(curve, 60):
        d = q - apex
        close(np.linalg.norm(d), R, 1e-6 * R, "on the sphere")
        th = math.atan2(math.hypot(d[0], d[1]), -d[2])
        if (th - gam) * R > 1.2 or th > PI / 2 - 0.02 or th < gb + 2e-3:
            continue
        seen += 1
        az = math.atan2(d[1], d[0])
        exp = -half + daz(th) - daz(gam)
        close(az * rp, exp * rp, 1e-4, "spherical involute at %.4f" % ((th - gam) * R))
    need(seen > 3, "only %d points", seen)
    return ["cone %d" % (case["gam"] // 20 * 20)]


def case(fams, **kw):
    return st.fixed_dictionaries({"g": G.gear(fams=fams, **kw), "r": fl(0, 1, 2)})


def nontrivial(case):
    s = case["g"]
    return bool(s["x"] or s["uc"] or s["bl"] or s["crown"] or s["add"] != 1)


def P(name, strategy, check, q, t):
    return Part(name, strategy, check, q, t, nontrivial=nontrivial, rule=RULE)


PARTS = [
    P("involute", case(["spur", "invo", "helical", "ring", "helring"], placed=False, wide=True),
      check_involute, 1200, 15000),
    P("bevel", case(["bevel"], nmin=10, placed=False, wide=True), check_bevel, 400, 5000),
    P("cycloid", case(["cyc", "cycbevel", "cycring"], nmin=8, placed=False, wide=True),
      check_cycloid, 500, 6000),
    Part("spherical", sph, check_spherical, 300, 3000, rule="every case"),
]
