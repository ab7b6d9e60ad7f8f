"""C16: the line of action is the common tangent of both base circles."""

import math

import numpy as np
from hypothesis import strategies as st

import gggears as gg
from lib import gears as G
from lib.gens import fl, rotz
from lib.harness import Part
from lib.meshing import Section
from lib.pairs import do_mesh, involute_mesh, pair
from lib.util import assume, close, need

RULE = "pair displaced or tilted, unequal teeth"
ASSUMPTIONS = [
    "cylindrical involute pairs with parallel axes, equal height and anchor",
    "the contact is located to 0.15 module (it is the flat minimum of the clearance)",
]


def nearest(sec, w, sense):
    """the world point of w with the least clearance to the section in a sense"""
    q = sec.local(w)
    u, a = sec._polar(q)
    p = sec.n.pitch
    h = np.interp(u, sec.hu, sec.ha)
    if sec.ring:
        psi = (a + p / 2) % p - p / 2
        c = psi + h if sense == 0 else h - psi
        c = np.where((u > sec.u_lo) & (u < sec.u_hi), c, 9.0)
    else:
        psi = a % p
        c = psi - h if sense == 0 else p - psi - h
        c = np.where((u < sec.u_hi) & (u > sec.u_lo), c, 9.0)
    return w[np.argmin(c)]


def check_loa(case):
    c = case["p"]
    s1, s2 = c["g1"], c["g2"]
    n1, n2 = G.Nominal(s1), G.Nominal(s2)
    helical = s1["fam"] == "helical"
    bl = 0.0 if helical else c["bl"] * s1["m"]
    ref = involute_mesh(n1, n2, bl)
    assume(ref is not None, "no mesh")
    D, aw = ref
    a, b = G.build(s1), G.build(s2)
    do_mesh(c, a, b)
    r = case["r"]
    swap = case["swap"]
    ga, gb = (b, a) if swap else (a, b)
    na, nb = (n2, n1) if swap else (n1, n2)
    sa, sb = (s2, s1) if swap else (s1, s2)
    lines = gg.LineOfAction(ga, gb, z_ratio=r).LOA_gen()
    need(len(lines) == 2, "two lines of action")
    M = np.array(a.gearcore.transform.orientation)
    z = M[:, 2]
    off = z * n1.z(r) * n1.mt
    ca = np.array(ga.gearcore.transform.center) + off
    cb = np.array(gb.gearcore.transform.center) + off
    rba, rbb = na.rb * na.mt, nb.rb * nb.mt
    size = 100 + D
    ring_a, ring_b = sa["fam"] in G.RINGS, sb["fam"] in G.RINGS
    d = (cb - ca) / np.linalg.norm(cb - ca)
    # pitch point: velocities agree
    if ring_a:
        pp = ca + d * D * sa["N"] / (sa["N"] - sb["N"])
    elif ring_b:
        pp = ca - d * D * sa["N"] / (sb["N"] - sa["N"])
    else:
        pp = ca + d * D * sa["N"] / (sa["N"] + sb["N"])
    t = np.cross(z, d)
    dirs = []
    for ln in lines:
        p0, p1 = np.array(ln(0)), np.array(ln(1))
        L = np.linalg.norm(p1 - p0)
        need(L > 1e-6, "line of action has no length")
        e = (p1 - p0) / L
        close(e.dot(z), 0.0, 1e-7, "line of action lies in the transverse plane")
        close((p0 - ca).dot(z), 0.0, 1e-6 * size, "line of action at the requested height")
        for ctr, rb, who in ((ca, rba, "first"), (cb, rbb, "second")):
            w = ctr - p0
            dist = np.linalg.norm(w - e * w.dot(e))
            close(dist, rb, 2e-6 * size, "distance of the line from the %s axis" % who)
        w = pp - p0
        close(np.linalg.norm(w - e * w.dot(e)), 0.0, 1e-5 * size, "passes the pitch point")
        close(abs(e.dot(t)), math.cos(aw), 1e-6, "working pressure angle")
        dirs.append((p0, p1, e))
        if not (ring_a or ring_b):
            close(np.linalg.norm(p0 - ca), rba, 2e-6 * size, "starts on the first base circle")
            close(np.linalg.norm(p1 - cb), rbb, 2e-6 * size, "ends on the second base circle")
            need((p1 - pp).dot(p0 - pp) < 0, "pitch point between the tangent points")
        else:
            cp, rb, g = (ca, rba, ga) if ring_b else (cb, rbb, gb)
            close(np.linalg.norm(p0 - cp), rb, 2e-6 * size, "starts on the pinion's base circle")
            close(np.linalg.norm(p1 - cp), g.addendum_radius, 2e-6 * size, "ends at the pinion's tip")
            need((p1 - p0).dot(pp - p0) > 0, "line points to the pitch point")
    # mirror images in the line of centres
    mir = dirs[0][0] - ca
    mir = ca + 2 * d * mir.dot(d) - mir
    close(dirs[1][0], mir, 2e-6 * size, "lines mirror each other")
    lab = [c["kind"]]
    # --- where the flanks come closest is on the lines
    if case["contact"] and not s1["crown"] and not s2["crown"]:
        A, B = Section(a, s1, n1.z(r)), Section(b, s2, n2.z(r))
        ra = [(S.u_lo if S.ring else S.u_hi) * S.m for S in (A, B)]
        rb = [n1.rb * n1.mt, n2.rb * n2.mt]
        e2 = [math.sqrt(max(0, x * x - y * y)) for x, y in zip(ra, rb)]
        Lt = D * math.sin(aw)
        pb = 2 * math.pi * rb[0] / s1["N"]
        if A.ring or B.ring:
            ri, pi = (0, 1) if A.ring else (1, 0)
            ok = e2[ri] - Lt > 0.25 * n1.mt and (e2[pi] - e2[ri] + Lt) / pb > 1.25
            ok = ok and abs(s1["N"] - s2["N"]) > 16
            R, P = (A, B) if A.ring else (B, A)
            ok = ok and R.u_hi * R.m - D > P.u_hi * P.m + 1e-3 * n1.mt
            ok = ok and R.u_lo * R.m - D > P.u_lo * P.m + 1e-3 * n1.mt
        else:
            ok = all(e2[1 - i] < Lt for i in (0, 1)) and (sum(e2) - Lt) / pb > 1.25
            # tips clear the roots
            ok = ok and all(
                X.u_hi * X.m + Y.u_lo * Y.m < D - 1e-3 * n1.mt for X, Y in ((A, B), (B, A))
            )
        ok = ok and not s1["tf"] and not s2["tf"] and not s1["uc"] and not s2["uc"]
        if ok:
            sense = 1 if (A.ring or B.ring) else -1
            th = case["ph"] * n1.pitch
            A.angle += th
            B.angle += sense * th * s1["N"] / s2["N"]
            W = A.points()
            for k in (0, 1):
                # turn the target until it touches
                play = B.clearance(W)[k]
                B2_angle = B.angle
                B.angle += (1 if k == 0 else -1) * play / (n2.rp * n2.mt)
                q = nearest(B, W, k)
                B.angle = B2_angle
                dmin = min(
                    np.linalg.norm((q - p0) - e * (q - p0).dot(e)) for p0, _, e in dirs
                )
                need(
                    dmin < 0.15 * n1.mt,
                    "flanks touch %g away from the lines of action", dmin,
                )
            lab.append("contact located")
    return lab


strat = st.fixed_dictionaries(
    {
        "p": pair(kinds=["spur", "invo", "ring", "helical", "helring"]),
        "r": st.sampled_from([0.0, 0.0, 0.5, 1.0, 0.3]),
        "swap": st.booleans(),
        "contact": st.booleans(),
        "ph": fl(0, 1, 3),
    }
)


def nontrivial(case):
    c = case["p"]
    pl = c["g2"]["pl"]
    return bool(any(pl["c"]) or any(pl["rv"])) and c["g1"]["N"] != c["g2"]["N"]


PARTS = [Part("pairs", strat, check_loa, 800, 10000, nontrivial=nontrivial, rule=RULE)]
