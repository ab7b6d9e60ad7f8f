"""C04: a meshed pair touches without interference, through the whole rotation."""

import math

import numpy as np
from hypothesis import strategies as st

from lib import gears as G
from lib.gens import fl
from lib.harness import Part
from lib.meshing import Section, design_clearance
from lib.pairs import do_mesh, involute_mesh, pair
from lib.util import assume, need

RULE = "unequal tooth counts, or shift, backlash, helix, cone or a ring, target not at home"
ASSUMPTIONS = [
    "pairs that can mesh by design: tip clearance at the working distance, contact inside "
    "the line of action unless the gear is undercut, rings at least 12 teeth larger",
    "sections perpendicular to the axes (spheres around the common apex for bevel gears)",
    "bevel pairs have opposite profile shifts; no root fillets",
]


def tip_radius(sec):
    """world radius of the tip circle of a cylindrical section"""
    return (sec.u_lo if sec.ring else sec.u_hi) * sec.m


def roll_arc(rp, rc, h):
    """arc rolled until the cycloid of rolling circle rc (negative: inside) has moved by h"""
    if rc > 0:
        num = (rp + rc) ** 2 + rc**2 - (rp + h) ** 2
        den = 2 * rc * (rp + rc)
    else:
        rc = -rc
        num = (rp - rc) ** 2 + rc**2 - (rp - h) ** 2
        den = -2 * rc * (rp - rc)
    return rc * math.acos(max(-1.0, min(1.0, num / den)))


def contact_ratio(s1, s2, n1, n2):
    """contact ratio of bevel (virtual gear) and cycloid pairs, module 1"""
    v = [n.rp / math.cos(n.gamma) for n in (n1, n2)]
    tips = [n.ha - s["tf"] for n, s in ((n1, s1), (n2, s2))]
    if "alpha" in s1:
        e = 0.0
        for r, t in zip(v, tips):
            rb = r * math.cos(n1.alpha)
            e += math.sqrt(max(0.0, (r + t) ** 2 - rb**2)) - r * math.sin(n1.alpha)
        return e / math.pi / math.cos(n1.alpha)
    r1, r2 = (s["fam"] in G.RINGS for s in (s1, s2))
    if r1 or r2:
        p, q = (1, 0) if r1 else (0, 1)
        sp, sr = (s1, s2)[p], (s1, s2)[q]
        out = sr["co"] * v[q]  # common rolling circle outside the pinion
        ins = sp["ci"] * v[p]
        arc = roll_arc(v[p], out, tips[p]) + roll_arc(v[q], -ins, (n1, n2)[q].hd)
    else:
        arc = roll_arc(v[0], s2["ci"] * v[1], tips[0])
        arc += roll_arc(v[1], s1["ci"] * v[0], tips[1])
    return arc / math.pi


def check_mesh(case):
    c = case["p"]
    s1, s2 = c["g1"], c["g2"]
    n1, n2 = G.Nominal(s1), G.Nominal(s2)
    inv_cyl = not c["kind"].startswith("cyc") and c["kind"] != "bevel"
    lab = [c["kind"]]
    if inv_cyl:
        # a mesh must exist for the requested backlash (helical gears take none)
        bl = 0.0 if s1["fam"] == "helical" else c["bl"] * s1["m"]
        ref = involute_mesh(n1, n2, bl)
        assume(ref is not None, "no working pressure angle")
    a, b = G.build(s1), G.build(s2)
    bl, bias = do_mesh(c, a, b)
    r = case["r"]
    A, B = Section(a, s1, n1.z(r)), Section(b, s2, n2.z(r))
    mod = s1["m"]
    loss = sum(s["crown"] * 1e-3 * (2 * r - 1) ** 2 for s in (s1, s2)) * n1.mt
    contact = True
    tol = 5e-4 * mod
    if inv_cyl:
        D, aw = ref
        rb = [n1.rb * n1.mt, n2.rb * n2.mt]
        ra = [tip_radius(A), tip_radius(B)]
        rd = [(S.u_hi if S.ring else S.u_lo) * S.m for S in (A, B)]
        e = [math.sqrt(max(0.0, ra[i] ** 2 - rb[i] ** 2)) for i in (0, 1)]
        L = D * math.sin(aw)
        pb = 2 * math.pi * rb[0] / s1["N"]
        if A.ring or B.ring:
            ri, pi = (0, 1) if A.ring else (1, 0)
            sp = (s1, s2)[pi]
            # ring tips reach the pinion above its base circle
            assume(ra[ri] > rb[ri] and e[ri] >= L, "ring tip below the involute")
            eps = (e[pi] - (e[ri] - L)) / pb
            assume(rd[ri] - D > ra[pi] + 0.02 * mod, "tip clearance")
            assume(ra[ri] - D > rd[pi] + 0.02 * mod, "tip clearance")
            start = {pi: e[ri] - L}
            free = design_clearance(s1, s2, D, [0.0, 0.1, 0.2, 0.3, 0.4, 0.5] + case["ph"])
            assume(
                free > bl / 2 / math.cos(n1.alpha) - 2e-4 * mod, "tips foul by design"
            )
        else:
            for i in (0, 1):
                assume(D - ra[1 - i] - rd[i] > 0.02 * mod, "tip clearance")
                assume((s1, s2)[i]["uc"] or e[1 - i] <= L * 1.0001, "involute interference")
            eps = (e[0] + e[1] - L) / pb
            start = {i: L - e[1 - i] for i in (0, 1)}
        for i, t0 in start.items():
            n = (n1, n2)[i]
            # where the trochoid left by the generating rack turns into the involute
            form = n.rp * math.sin(n.alpha) - n.hd / math.sin(n.alpha)
            if len(start) == 1:
                # a ring tip sweeps more of the pinion's root than any external mate
                assume(t0 >= 0.25 * n.mt, "ring tip near the pinion's base circle")
            if (s1, s2)[i]["uc"]:
                margin = 0.1 if len(start) == 1 else 0.0
                assume(t0 >= (form + margin) * n.mt, "contact below the generated involute")
                assume(form >= 0 or len(start) == 2, "undercut pinion in a ring")
        full = [
            not s["uc"] or n.hd <= n.rp * math.sin(n.alpha) ** 2
            for s, n in ((s1, n1), (s2, n2))
        ]
        play = (bl + 2 * loss * math.cos(n1.alpha)) / math.cos(n1.alpha)
        # tip fillets and undercut shorten the contact
        if min(eps - (s1["tf"] + s2["tf"]), 9) < 1.1 or not all(full):
            contact = False
    else:
        play = 2 * (s1["bl"] + s2["bl"]) * n1.mt + 2 * loss
        bias = 0.0
        if c["kind"] == "bevel":
            for i, (s, n) in enumerate(((s1, n1), (s2, n2))):
                o = (n1, n2)[1 - i]
                if n.rp / math.cos(n.gamma) * math.sin(n.alpha) ** 2 < max(n.hd, o.ha):
                    # the mate reaches below the octoid without undercut
                    assume(s["uc"], "interference without undercut")
                    contact = False
        if c["kind"] == "cycring":
            # the rolling circles of an internal pair fit between both pitch circles
            pin, rng = (s2, s1) if A.ring else (s1, s2)
            roll = pin["ci"] * pin["N"] + rng["co"] * rng["N"]
            assume(roll <= rng["N"] - pin["N"], "secondary interference of an internal pair")
        if c["kind"] == "cycbevel":
            tol = 2e-3 * mod
        contact = contact and contact_ratio(s1, s2, n1, n2) > 1.15
    # flanks of unequal sense share the play evenly, up to the bias
    hi, lo = play / 2 * (1 - 0), play / 2
    if bias:
        shift = bias * bl / 2 / math.cos(n1.alpha)
        # positive bias: turned counterclockwise until contact
        hi, lo = play / 2 - shift, play / 2 + shift
    ratio = s1["N"] / s2["N"]
    sense = 1 if (A.ring or B.ring) else -1
    a0, b0 = A.angle, B.angle
    for ph in case["ph"]:
        th = ph * n1.pitch
        A.angle, B.angle = a0 + th, b0 + sense * th * ratio
        pa, pb_ = A.points(), B.points()
        x = A.clearance(pb_)
        y = B.clearance(pa)
        # second gear: touches on the same side when it is turned the other way for rings
        y = (y[0], y[1], y[2]) if sense == -1 else (y[1], y[0], y[2])
        sc = A.sc
        for who, q in (("moved gear", x), ("target gear", y)):
            need(q[2] < tol, "%s: tips reach %g behind the root", who, q[2])
            for k, exp in ((0, hi), (1, lo)):
                exp = exp * sc
                need(
                    q[k] > exp - tol,
                    "%s at phase %g: play %g in sense %d, at least %g expected",
                    who, ph, q[k], k, exp,
                )
        if contact:
            # either gear's points may miss the extreme: take the better one
            for k, exp in ((0, hi), (1, lo)):
                exp = exp * sc
                got = min(x[k], y[k])
                need(
                    got < exp + 2 * tol,
                    "phase %g: play %g in sense %d, %g expected (no contact)",
                    ph, got, k, exp,
                )
    if contact:
        lab.append("contact")
    if s1["fam"] in G.RINGS:
        lab.append("ring moved")
    if bias:
        lab.append("bias")
    return lab


def strat(kinds, **kw):
    return st.fixed_dictionaries(
        {
            "p": pair(kinds=kinds, **kw),
            "r": st.sampled_from([0.5, 0.0, 1.0, 0.25]),
            "ph": st.lists(fl(0, 1, 3), min_size=2, max_size=4),
        }
    )


def nontrivial(case):
    c = case["p"]
    return c["g1"]["N"] != c["g2"]["N"] or bool(c["g1"]["x"] or c["g1"]["beta"] or c["bl"])


def P(name, kinds, q, t, **kw):
    return Part(name, strat(kinds, **kw), check_mesh, q, t, nontrivial=nontrivial, rule=RULE)


PARTS = [
    P("spur", ["spur", "invo"], 480, 6000),
    P("helical", ["helical"], 320, 5000),
    P("ring", ["ring", "helring"], 480, 6000),
    P("bevel", ["bevel"], 200, 3000),
    P("cycloid", ["cyc", "cycring", "cycbevel"], 300, 4000),
]
