"""Generated compatible gear pairs (JSON) for the meshing properties."""

import math

import numpy as np
from hypothesis import strategies as st

from lib import gears as G
from lib.gens import PI, fl, rotmat

DEG = G.DEG

KINDS = ["spur", "invo", "helical", "ring", "helring", "bevel", "cyc", "cycring", "cycbevel"]


@st.composite
def pair(draw, kinds=tuple(KINDS), crowning=True, tfil=True, bl_gear=True, nmin=8, nmax=60):
    kind = draw(st.sampled_from(list(kinds)))
    N1 = draw(st.integers(max(nmin, 10) if "bevel" in kind else nmin, nmax))
    N2 = draw(st.integers(max(nmin, 10) if "bevel" in kind else nmin, nmax))
    ringed = kind in ("ring", "helring", "cycring")
    swap = draw(st.booleans())  # the ring is moved to the pinion
    if ringed:
        N1 = min(N1, 40)
        N2 = max(N1 + 12, 28) + N2 % 25
    m = draw(st.sampled_from([0.5, 1.0, 1.0, 2.0, 3.0]))
    anchor = draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 0.3]))
    add = draw(fl(0.6, 1.0, 2))
    ded = round(add + draw(fl(0.1, 0.25, 2)), 3)
    c = {"kind": kind}
    common = {
        "m": m, "anchor": anchor, "rf": 0.0, "add": add, "ded": ded,
        "tt": draw(st.sampled_from([0.1, 0.0, 0.2])), "x": 0.0, "uc": False,
        "beta": 0.0, "cone": 0.0, "crown": 0.0, "tf": 0.0, "bl": 0.0,
    }
    g1, g2 = dict(common, N=N1), dict(common, N=N2)
    fam1 = fam2 = kind
    if kind == "ring":
        fam1 = "spur"
        g2["ro"] = draw(st.sampled_from([2.0, 2.5, 3.5]))
    elif kind == "helring":
        fam1 = "helical"
    elif kind == "cycring":
        fam1 = "cyc"
    if ringed:
        g2["add"], g2["ded"] = ded, add
    hmax = 5.0
    if kind in ("bevel", "cycbevel"):
        ax = draw(st.one_of(st.just(90), st.integers(50, 130))) * DEG
        gam2 = math.atan2(math.sin(ax), N1 / N2 + math.cos(ax))
        if not 8 * DEG < gam2 < 80 * DEG or not 8 * DEG < ax - gam2 < 80 * DEG:
            # keep away from crown gears
            ax = 90 * DEG
            N1, N2 = max(N1, 14), min(N2, max(N1, 14) * 4)
            g1["N"], g2["N"] = N1, N2
            gam2 = math.atan2(math.sin(ax), N1 / N2 + math.cos(ax))
        gam1 = ax - gam2
        g1["cone"], g2["cone"] = 2 * gam1, 2 * gam2
        hmax = min(5.0, N1 / 2 / math.sin(gam1) * 0.33)
    h = round(draw(fl(0.3, 1.0, 2)) * hmax * m, 3)
    g1["h"] = g2["h"] = h
    if kind in ("helical", "helring", "invo", "bevel"):
        b = draw(st.one_of(st.just(0), st.integers(-30, 30))) * DEG
        if kind in ("invo", "bevel"):
            b = draw(st.sampled_from([0.0, 0.0, b]))
        g1["beta"], g2["beta"] = b, (b if ringed else -b)
        herr = draw(st.booleans())
        if kind in ("helical", "helring"):
            g1["herr"] = g2["herr"] = herr
    if kind.startswith("cyc"):
        ci = draw(st.sampled_from([0.5, 0.4, 0.3]))
        co = draw(st.sampled_from([0.5, 0.4, 0.3]))
        g1.update(ci=ci, co=0.5)
        # the roll circles of an internal pair belong to the ring outside
        g2.update(ci=co, co=draw(st.sampled_from([0.15, 0.2, 0.25])) if ringed else 0.5)
        c["adapt"] = draw(st.sampled_from(["first", "second"]))
    else:
        al = draw(st.sampled_from([20.0, 20.0, 14.5, 17.5, 22.5, 25.0])) * DEG
        g1["alpha"] = g2["alpha"] = al
        x1 = draw(st.one_of(st.just(0.0), fl(-0.2, 0.5, 2)))
        x2 = draw(st.one_of(st.just(0.0), fl(-0.2, 0.5, 2)))
        if kind == "bevel":
            x2 = -x1
        if ringed:
            x2 = round(x1 + abs(x2) * 0.5, 3)
        g1["x"], g2["x"] = x1, x2
        g1["uc"] = draw(st.booleans())
        g2["uc"] = draw(st.booleans()) and not ringed
    for g in (g1, g2):
        if crowning:
            g["crown"] = draw(st.sampled_from([0.0, 0.0, 0.0, 20.0, 60.0]))
        if bl_gear:
            g["bl"] = draw(st.sampled_from([0.0, 0.0, 0.02, 0.05]))
        # the tip fillet of a ring's profile is at the bottom of its gaps
        if tfil and not (ringed and g is g2):
            g["tf"] = draw(st.sampled_from([0.0, 0.0, 0.05, 0.1]))
    g1["fam"], g2["fam"] = fam1, fam2
    g1["pl"] = draw(G.place())
    g2["pl"] = draw(G.place())
    if ringed and swap:
        g1, g2 = g2, g1
    c["g1"], c["g2"] = g1, g2
    c["dir"] = draw(fl(-3.2, 3.2, 3))
    c["dlen"] = draw(st.sampled_from([1.0, 1.0, 0.3, 7.0]))
    c["bl"] = draw(st.one_of(st.just(0.0), fl(0.005, 0.2, 3)))
    c["bias"] = draw(st.sampled_from([0.0, 0.0, 1.0, -1.0, 0.5]))
    return c


def direction(c, normed=False):
    """mesh direction perpendicular to the axis of the target"""
    M = rotmat(c["g2"]["pl"]["rv"])
    d = M @ np.array([math.cos(c["dir"]), math.sin(c["dir"]), 0.0])
    return d if normed else d * c["dlen"]


def do_mesh(c, a, b):
    """mesh a to b as the case says (adapting cycloids first); returns backlash, bias"""
    if c["kind"].startswith("cyc"):
        (a if c["adapt"] == "first" else b).adapt_cycloid_radii(
            b if c["adapt"] == "first" else a
        )
        a.mesh_to(b, target_dir=direction(c, True))
        return 0.0, 0.0
    if c["kind"] == "bevel":
        a.mesh_to(b, target_dir=direction(c))
        return 0.0, 0.0
    if c["g1"]["fam"] == "helical":
        a.mesh_to(b, target_dir=direction(c))
        return 0.0, 0.0
    bl = c["bl"] * c["g1"]["m"]
    a.mesh_to(b, target_dir=direction(c), backlash=bl, angle_bias=c["bias"])
    return bl, c["bias"]


def inv(a):
    return math.tan(a) - a


def involute_mesh(n1, n2, bl=0.0, ref=(0.5, 0.5)):
    """(centre distance, working pressure angle) of a cylindrical involute pair in world
    units for linear play bl along the line of action; None if there is none."""
    from scipy.optimize import brentq

    m = n1.mt
    rb1, rb2 = n1.rb * m, n2.rb * m
    p1 = n1.half_angle(ref[0]) + inv(n1.alpha)
    p2 = n2.half_angle(ref[1]) + inv(n2.alpha)
    r1, r2 = n1.s["fam"] in G.RINGS, n2.s["fam"] in G.RINGS
    if not r1 and not r2:
        rhs = rb1 * p1 + rb2 * p2 - PI * rb2 / n2.N + bl / 2
        den = rb1 + rb2
    else:
        sg = 1 if r1 else -1
        rhs = sg * (rb1 * p1 - rb2 * p2) - bl / 2
        den = sg * (rb1 - rb2)
    if den <= 0 or not inv(4 * DEG) < rhs / den < inv(45 * DEG):
        return None
    aw = brentq(lambda x: inv(x) - rhs / den, 1e-6, 1.2, xtol=1e-15)
    return den / math.cos(aw), aw
