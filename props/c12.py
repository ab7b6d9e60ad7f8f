"""C12: gear mathematics helpers satisfy the gear equations."""

import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

import gggears as gg
from gggears import gearmath as gm
from gggears.gggears_base_classes import ConicData, GearTransform
from lib import gears as G
from lib.gens import PI, fl, rotmat, rotvec, vec
from lib.harness import Part
from lib.util import assume, close, need

RULE = "pairs of unequal teeth, or with shift, backlash, an unusual axis angle or offset"
ASSUMPTIONS = [
    "working pressure angle between 3 and 50 degrees (a mesh exists)",
    "ring pairs: ring at least 8 teeth larger, backlash below the play available",
]
DEG = G.DEG


def inv(a):
    return math.tan(a) - a


pair = st.fixed_dictionaries(
    {
        "n1": st.integers(6, 120),
        "n2": st.integers(6, 120),
        "m": st.sampled_from([0.5, 1.0, 2.0, 3.0]),
        "al": st.integers(12, 32),
        "x1": fl(-0.5, 0.8, 2),
        "x2": fl(-0.5, 0.8, 2),
        "bl": st.one_of(st.just(0.0), fl(0, 0.3, 3)),
        "ring": st.sampled_from([0, 0, 1, 2]),
    }
)


def psi(N, al, x):
    """half angle of a tooth on its base circle"""
    return PI / 2 / N + 2 * x * math.tan(al) / N + inv(al)


def reference_distance(c):
    """centre distance from the base thickness equation; None if there is no mesh"""
    al = c["al"] * DEG
    rb1, rb2 = (c["m"] * n / 2 * math.cos(al) for n in (c["n1"], c["n2"]))
    s1, s2 = 2 * rb1 * psi(c["n1"], al, c["x1"]), 2 * rb2 * psi(c["n2"], al, c["x2"])
    bl = c["bl"] * c["m"]
    if c["ring"] == 0:
        pb = PI * c["m"] * math.cos(al)
        rhs, den = s1 + s2 - pb + bl, 2 * (rb1 + rb2)
    elif c["ring"] == 1:
        rhs, den = s1 - s2 - bl, 2 * (rb1 - rb2)
    else:
        rhs, den = s2 - s1 - bl, 2 * (rb2 - rb1)
    if den <= 0 or not inv(3 * DEG) < rhs / den < inv(50 * DEG):
        return None
    aw = brentq(lambda a: inv(a) - rhs / den, 1e-6, 1.2, xtol=1e-15)
    return den / 2 / math.cos(aw), aw, rb1, rb2, al


def fix_ring(c):
    c = dict(c)
    if c["ring"] == 1 and c["n1"] < c["n2"] + 8:
        c["n1"] = c["n2"] + 8
    if c["ring"] == 2 and c["n2"] < c["n1"] + 8:
        c["n2"] = c["n1"] + 8
    if c["ring"]:
        # keep the available play: equal shifts plus a little
        k = "x1" if c["ring"] == 1 else "x2"
        o = "x2" if c["ring"] == 1 else "x1"
        c[k] = round(c[o] + abs(c[k]) * 0.3, 4)
    return c


def check_distance(case):
    c = fix_ring(case)
    ref = reference_distance(c)
    assume(ref is not None, "no mesh")
    D, aw, rb1, rb2, al = ref
    p1, p2 = psi(c["n1"], al, c["x1"]), psi(c["n2"], al, c["x2"])
    bl = c["bl"] * c["m"]
    args = (rb1, rb2, p1, p2, 2 * PI / c["n2"])
    got = gm.calc_involute_mesh_distance(*args, inside_ring=bool(c["ring"]), backlash=bl)
    # a ring that is moved to its pinion reports the distance with a negative sign
    close(abs(got), D, 1e-6 * D, "centre distance")
    back = gm.backlash_from_ax_distance(got, *args, inside_ring=bool(c["ring"]))
    # the sensitivity of the backlash to the distance is bounded by 2 tan(aw)
    close(back, bl, 1e-5 * D, "backlash recovered from the centre distance")
    if c["ring"] == 0:
        far = gm.backlash_from_ax_distance(D * 1.01, *args)
        exp = 2 * (rb1 + rb2) * (
            inv(math.acos((rb1 + rb2) / (D * 1.01))) - inv(aw)
        ) + bl
        close(far, exp, 1e-6 * D, "backlash at a larger centre distance")
    if c["bl"] == 0:
        # standard distance when the shifts cancel out
        n1, n2 = c["n1"], c["n2"]
        x2 = -c["x1"] if c["ring"] == 0 else c["x1"]
        std = c["m"] * (n1 + n2 if c["ring"] == 0 else abs(n1 - n2)) / 2
        d0 = gm.calc_involute_mesh_distance(
            rb1, rb2, p1, psi(n2, al, x2), 2 * PI / n2, inside_ring=bool(c["ring"])
        )
        close(abs(d0), std, 1e-6 * std, "distance with cancelling shifts")
        back = gm.backlash_from_ax_distance(
            abs(std) if c["ring"] != 1 else -std,
            rb1, rb2, p1, psi(n2, al, x2), 2 * PI / n2, inside_ring=bool(c["ring"]),
        )
        close(back, 0.0, 1e-5 * std, "backlash at the standard distance")
    nom = gm.calc_nominal_mesh_distance(
        c["m"] * c["n1"] / 2, c["m"] * c["n2"] / 2, c["x1"], c["x2"], c["m"],
        c["ring"] == 1, c["ring"] == 2,
    )
    s1, s2 = {0: (1, 1), 1: (1, -1), 2: (-1, 1)}[c["ring"]]
    exp = c["m"] * (s1 * (c["n1"] / 2 + c["x1"]) + s2 * (c["n2"] / 2 + c["x2"]))
    close(nom, exp, 1e-9 * (1 + abs(exp)), "nominal distance")
    return ["external" if c["ring"] == 0 else "ring is gear %d" % c["ring"]]


def check_objects(case):
    """the quantities the gear objects feed into the equations"""
    c = fix_ring(case)
    ref = reference_distance(dict(c, bl=0.0))
    assume(ref is not None, "no mesh")
    D, aw, rb1, rb2, al = ref
    gears = []
    for k in (1, 2):
        cls = gg.SpurRingGear if c["ring"] == k else gg.SpurGear
        gears.append(
            cls(
                number_of_teeth=c["n%d" % k], module=c["m"], pressure_angle=al,
                profile_shift=c["x%d" % k], height=c["m"],
            )
        )
    for g, rb, k in zip(gears, (rb1, rb2), (1, 2)):
        close(g.r_base, rb, 1e-9 * rb, "base radius")
        close(abs(g.angle_base), psi(c["n%d" % k], al, c["x%d" % k]), 1e-9, "base angle")
    a, b = gears
    a.mesh_to(b, target_dir=np.array([1.0, 0, 0]))
    close(np.linalg.norm(a.center - b.center), D, 1e-6 * D, "distance after meshing")
    return ["external" if c["ring"] == 0 else "ring"]


cones = st.fixed_dictionaries(
    {
        "n1": st.integers(3, 200),
        "n2": st.integers(3, 200),
        "ax": st.one_of(st.just(90), st.integers(10, 170)),
        "rv": rotvec,
        "c": vec(-50, 50, 2),
        "dir": vec(-1, 1, 3),
        "off": st.one_of(st.just(0.0), fl(-0.5, 0.5, 2)),
        "in": st.sampled_from([0, 0, 1, 2]),
    }
)


def check_cones(case):
    c = case
    ax = c["ax"] * DEG
    k1, k2 = gm.cone_angle_from_teeth(c["n1"], c["n2"], ax)
    g1, g2 = k1 / 2, k2 / 2
    close(g1 + g2, ax, 1e-12, "sum of the pitch cone angles")
    close(math.sin(g1) * c["n2"], math.sin(g2) * c["n1"], 1e-9 * (c["n1"] + c["n2"]),
          "sines in the ratio of the teeth")
    need(0 < g1 < PI and 0 < g2 < PI, "cone angles positive: %g %g", g1, g2)
    if c["ax"] == 90:
        d1, d2 = gm.cone_angle_from_teeth(c["n1"], c["n2"])
        close([d1, d2], [k1, k2], 1e-12, "default axis angle is a right angle")
    # placement of a cone on another one: common apex, touching along a line
    assume(g1 < 1.5 and g2 < 1.5, "beyond a crown gear")
    rm = rotmat(c["rv"])
    r2 = c["n2"] / 2
    R = r2 / math.sin(g2)
    t2 = GearTransform(center=np.array(c["c"]), orientation=rm, angle=0.0, scale=1.0)
    cd2 = ConicData(cone_angle=k2, base_radius=r2, transform=t2)
    cd1 = ConicData(cone_angle=k1, base_radius=c["n1"] / 2)
    zax = rm[:, 2]
    d = np.array(c["dir"])
    d = d - zax * d.dot(zax)
    assume(np.linalg.norm(d) > 0.05, "direction along the axis")
    d = d / np.linalg.norm(d)
    r1, r2i = c["in"] == 1, c["in"] == 2
    ori = gm.calc_mesh_orientation(
        k1, k2, R, t2, inside_ring_1=r1, inside_ring_2=r2i, target_dir=d, offset=c["off"]
    )
    close(ori.T @ ori, np.eye(3), 1e-9, "orientation is a rotation")
    need(np.linalg.det(ori) > 0, "orientation is a rotation")
    pos = gm.calc_bevel_gear_placement_vector(
        d, cd1, cd2, inside_ring_1=r1, inside_ring_2=r2i, offset=c["off"]
    )
    apex2 = t2.center + zax * R * math.cos(g2)
    apex1 = pos + ori[:, 2] * R * math.cos(g1)
    close(apex1, apex2, 1e-7 * (R + 1), "common apex")
    ang = {0: g1 + g2 + c["off"] / R, 1: g2 - g1 - c["off"] / R, 2: g2 - g1 + c["off"] / R}[c["in"]]
    z1 = ori[:, 2]
    # away from the apex the axis of gear 1 leans towards the target direction
    close(z1.dot(zax), math.cos(ang), 1e-9, "angle between the axes")
    close(z1.dot(d), -math.sin(ang), 1e-9, "side of the tilt")
    if c["off"] == 0 and c["in"] == 0:
        # both cones contain the same line
        line = -math.cos(g2) * zax + math.sin(g2) * d
        close(line.dot(-z1), math.cos(g1), 1e-9, "common line of both cones")
    return ["in%d" % c["in"]] + (["offset"] if c["off"] else [])


PARTS = [
    Part("distance", pair, check_distance, 2400, 30000,
         nontrivial=lambda c: c["n1"] != c["n2"] or c["x1"] != 0, rule="n1 != n2 or shift"),
    Part("objects", pair, check_objects, 240, 3000,
         nontrivial=lambda c: c["n1"] != c["n2"] or c["x1"] != 0, rule="n1 != n2 or shift"),
    Part("cones", cones, check_cones, 1600, 20000,
         nontrivial=lambda c: c["n1"] != c["n2"], rule="n1 != n2"),
]
