"""C05: meshing places the gear correctly and moves with the target."""

import math

import numpy as np
from hypothesis import strategies as st

import gggears as gg
from lib import gears as G
from lib.gens import PI, fl, rotmat, rotvec, rotz, vec
from lib.harness import Part
from lib.pairs import direction, do_mesh, involute_mesh, pair
from lib.util import assume, close, need

RULE = "target not at the origin or tilted, direction not along x"
ASSUMPTIONS = [
    "directions perpendicular to the axis of a cylindrical target; not along the axis of a "
    "conical one; unit length where the documentation asks for it",
    "gear angles are compared modulo the pitch angle",
]


def state(g):
    t = g.gearcore.transform
    return (
        np.array(t.center, float).copy(),
        np.array(t.orientation, float).copy(),
        float(t.angle),
        float(t.scale),
    )


def set_state(g, c, M, a):
    t = g.gearcore.transform
    t.center = np.array(c, float)
    t.orientation = np.array(M, float)
    t.angle = float(a)


def same_placement(g, ref, pitch, size, what):
    c, M, a, s = state(g)
    close(c, ref[0], 1e-7 * size, what + ": centre")
    close(M[:, 2], ref[1][:, 2], 1e-7, what + ": axis")
    # angle about the axis, including the orientation's own x axis
    x = (M @ rotz(a))[:, 0]
    y = ref[1] @ rotz(ref[2])
    ang = math.atan2(x.dot(y[:, 1]), x.dot(y[:, 0]))
    k = ang / pitch
    close((k - round(k)) * pitch, 0.0, 1e-6, what + ": angle modulo the pitch")
    close(s, ref[3], 1e-12, what + ": scale")


def tooth_axis(g, towards):
    """phase of the tooth pattern in a world direction, in pitches (0: tooth centre)"""
    c, M, a, _ = state(g)
    v = M.T @ towards
    return ((math.atan2(v[1], v[0]) - a) / g.pitch_angle) % 1.0


def check_place(case):
    c = case["p"]
    s1, s2 = c["g1"], c["g2"]
    n1, n2 = G.Nominal(s1), G.Nominal(s2)
    kind = c["kind"]
    inv_cyl = not kind.startswith("cyc") and kind != "bevel"
    bl = 0.0
    if inv_cyl:
        bl = 0.0 if s1["fam"] == "helical" else c["bl"] * s1["m"]
        ref = involute_mesh(n1, n2, bl)
        assume(ref is not None, "no working pressure angle")
    a, b = G.build(s1), G.build(s2)
    before_b = state(b)
    bl, bias = do_mesh(c, a, b)
    lab = [kind]
    # --- the target stays where it is
    for x, y in zip(before_b, state(b)):
        close(y, x, 0.0, "placement of the target")
    cb, Mb, ab, _ = before_b
    ca, Ma, aa, sa = state(a)
    d = direction(c, True)
    size = 100 + np.linalg.norm(ca - cb)
    close(Ma.T @ Ma, np.eye(3), 1e-9, "orientation is a rotation")
    need(np.linalg.det(Ma) > 0, "orientation is a rotation")
    close(sa, n1.mt, 1e-12, "module of the moved gear")
    r1, r2 = (s["fam"] in G.RINGS for s in (s1, s2))
    if kind in ("bevel", "cycbevel"):
        R = n2.rp * n2.mt / math.sin(n2.gamma)
        apex_b = cb + Mb[:, 2] * R * math.cos(n2.gamma)
        apex_a = ca + Ma[:, 2] * R * math.cos(n1.gamma)
        close(apex_a, apex_b, 1e-6 * size, "common apex")
        close(a.center_spherical, apex_b, 1e-6 * size, "reported apex of the moved gear")
        close(b.center_spherical, apex_b, 1e-6 * size, "reported apex of the target")
        close(
            math.acos(np.clip(Ma[:, 2].dot(Mb[:, 2]), -1, 1)),
            n1.gamma + n2.gamma,
            1e-6,
            "shaft angle",
        )
        # the pitch cones touch in the requested direction
        line = d * math.sin(n2.gamma) - Mb[:, 2] * math.cos(n2.gamma)
        close(line.dot(-Ma[:, 2]), math.cos(n1.gamma), 1e-8, "direction of the contact")
        touch = apex_b + R * line
        towards_a, towards_b = touch - ca, touch - cb
    else:
        if inv_cyl:
            D = ref[0]
        else:
            D = abs(n1.rp - n2.rp) * n1.mt if r1 or r2 else (n1.rp + n2.rp) * n1.mt
        delta = ca - cb
        sign = -1 if (r1 and inv_cyl) else 1
        close(delta, sign * d * D, 2e-6 * size, "centre of the moved gear")
        if r1:
            towards_a = towards_b = -delta
        elif r2:
            towards_a = towards_b = delta
        else:
            towards_a, towards_b = -delta, delta
        if s1["fam"] == "helical" and not r2:
            ang = s1["beta"] + s2["beta"]
            cosang = Ma[:, 2].dot(Mb[:, 2])
            close(cosang, math.cos(ang), 1e-9, "crossing angle of the axes")
            close(Ma[:, 2].dot(d), 0.0, 1e-9, "axis perpendicular to the centre line")
            # the tooth traces of both gears coincide where they touch
            tr = []
            for M, s, out in ((Ma, s1, -delta), (Mb, s2, delta)):
                e = np.cross(M[:, 2], out / np.linalg.norm(out))
                tr.append(M[:, 2] * math.cos(s["beta"]) + e * math.sin(s["beta"]))
            close(tr[0], tr[1], 1e-6, "tooth traces at the pitch point")
        else:
            close(Ma[:, 2], Mb[:, 2], 1e-9, "parallel axes")
    # --- tooth against gap in the line of centres
    pa, pb = tooth_axis(a, towards_a), tooth_axis(b, towards_b)
    if bias:
        pa = pa + bias * bl / 2 / (n1.rb * n1.mt) / n1.pitch
    want = (0.5 - pb) if not (r1 or r2) else pb
    # parity: flanks mirror in an external mesh
    diff = (pa - want + 0.5) % 1.0 - 0.5
    close(diff, 0.0, 1e-6, "tooth faces gap (in pitches)")

    # --- meshing again, also from another place, changes nothing
    ref_state = state(a)
    do_again(c, a, b)
    same_placement(a, ref_state, n1.pitch, size, "meshing again")
    o = case["other"]
    set_state(a, o["c"], rotmat(o["rv"]), o["a"])
    do_again(c, a, b)
    same_placement(a, ref_state, n1.pitch, size, "meshing from elsewhere")
    # --- moving the target moves the meshed gear along
    mv = case["move"]
    Q, t = rotmat(mv["rv"]), np.array(mv["c"])
    set_state(b, Q @ cb + t, Q @ Mb, ab)
    do_again(c, a, b, Q)
    moved = (Q @ ref_state[0] + t, Q @ ref_state[1], ref_state[2], ref_state[3])
    same_placement(a, moved, n1.pitch, size + 200, "meshing to the moved target")
    # --- turning the target turns the meshed gear by the ratio
    set_state(b, cb, Mb, ab + mv["a"])
    do_again(c, a, b)
    k = s2["N"] / s1["N"] * (1 if (r1 or r2) else -1)
    turned = (ref_state[0], ref_state[1], ref_state[2] + k * mv["a"], ref_state[3])
    same_placement(a, turned, n1.pitch, size, "meshing to the turned target")
    if not (np.allclose(cb, 0) and np.allclose(Mb, np.eye(3))):
        lab.append("target displaced")
    return lab


def do_again(c, a, b, Q=None):
    """mesh without adapting the cycloids again"""
    q = np.eye(3) if Q is None else Q
    if c["kind"].startswith("cyc"):
        a.mesh_to(b, target_dir=q @ direction(c, True))
    elif c["kind"] == "bevel" or c["g1"]["fam"] == "helical":
        a.mesh_to(b, target_dir=q @ direction(c))
    else:
        a.mesh_to(
            b,
            target_dir=q @ direction(c),
            backlash=c["bl"] * c["g1"]["m"],
            angle_bias=c["bias"],
        )


def strat(kinds):
    return st.fixed_dictionaries(
        {
            "p": pair(kinds=kinds),
            "other": G.place(),
            "move": G.place(40.0),
        }
    )


# --- crossed helical gears: helix angles need not be opposite
@st.composite
def crossed(draw):
    case = draw(strat(["helical"]))
    b = draw(st.integers(-35, 35)) * G.DEG
    g1, g2 = case["p"]["g1"], case["p"]["g2"]
    if draw(st.booleans()):
        # screw gears share the normal module; equal helix angles keep the transverse one
        g2["beta"] = g1["beta"]
    else:
        g1["beta"], g2["beta"] = b, -b
    case["p"]["bl"] = case["p"]["bias"] = 0.0
    return case


# --- non-perpendicular directions, and the core gears
@st.composite
def loose(draw):
    case = draw(strat(["bevel", "cycbevel"]))
    case["lift"] = draw(fl(-2, 2, 2))
    return case


def check_lift(case):
    """conical gears: only the part of the direction across the axis matters"""
    c = case["p"]
    a, b = G.build(c["g1"]), G.build(c["g2"])
    do_mesh(c, a, b)
    ref = state(a)
    z = b.gearcore.transform.z_axis
    d = direction(c, True) + case["lift"] * z
    a.mesh_to(b, target_dir=d / np.linalg.norm(d))
    same_placement(a, ref, a.pitch_angle, 300, "direction leaning along the axis")
    return [c["kind"]]


def check_core(case):
    """Gear.mesh_to of the core objects follows the same rules at nominal distance"""
    c = case["p"]
    s1, s2 = c["g1"], c["g2"]
    a, b = G.build(s1), G.build(s2)
    n1, n2 = G.Nominal(s1), G.Nominal(s2)
    before_b = state(b)
    d = direction(c, True)
    a.gearcore.mesh_to(b.gearcore, target_dir=d)
    for x, y in zip(before_b, state(b)):
        close(y, x, 0.0, "placement of the target")
    cb, Mb, ab, _ = before_b
    ca, Ma, aa, _ = state(a)
    r1, r2 = (s["fam"] in G.RINGS for s in (s1, s2))
    size = 100 + np.linalg.norm(ca - cb)
    if s1["cone"]:
        R = n2.rp * n2.mt / math.sin(n2.gamma)
        apex_b = cb + Mb[:, 2] * R * math.cos(n2.gamma)
        close(ca + Ma[:, 2] * R * math.cos(n1.gamma), apex_b, 1e-6 * size, "common apex")
        line = d * math.sin(n2.gamma) - Mb[:, 2] * math.cos(n2.gamma)
        close(line.dot(-Ma[:, 2]), math.cos(n1.gamma), 1e-8, "direction of the contact")
        touch = apex_b + R * line
        ta, tb = touch - ca, touch - cb
    else:
        D = abs(n1.rp - n2.rp) * n1.mt if r1 or r2 else (n1.rp + n2.rp) * n1.mt
        close(ca, cb + d * D, 1e-7 * size, "centre of the moved gear")
        close(Ma[:, 2], Mb[:, 2], 1e-9, "parallel axes")
        delta = ca - cb
        ta, tb = ((-delta, delta) if not (r1 or r2) else ((-delta,) * 2 if r1 else (delta,) * 2))
    pa, pb = tooth_axis(a, ta), tooth_axis(b, tb)
    want = (0.5 - pb) if not (r1 or r2) else pb
    close((pa - want + 0.5) % 1.0 - 0.5, 0.0, 1e-6, "tooth faces gap (in pitches)")
    ref = state(a)
    set_state(a, case["other"]["c"], rotmat(case["other"]["rv"]), case["other"]["a"])
    a.gearcore.mesh_to(b.gearcore, target_dir=d)
    same_placement(a, ref, n1.pitch, size, "core meshing from elsewhere")
    return [c["kind"]]


def nontrivial(case):
    c = case["p"]
    pl = c["g2"]["pl"]
    return bool(any(pl["c"]) or any(pl["rv"])) and c["dir"] != 0


def P(name, strategy, check, q, t):
    return Part(name, strategy, check, q, t, nontrivial=nontrivial, rule=RULE)


PARTS = [
    P("cylindrical", strat(["spur", "invo", "helical"]), check_place, 480, 6000),
    P("crossed", crossed(), check_place, 160, 2000),
    P("ring", strat(["ring", "helring", "cycring"]), check_place, 320, 4000),
    P("conical", strat(["bevel", "cycbevel"]), check_place, 320, 4000),
    P("cycloid", strat(["cyc", "cycring"]), check_place, 240, 3000),
    P("lift", loose(), check_lift, 160, 2000),
    P("core", strat(["spur", "bevel", "ring", "cyc", "cycbevel"]), check_core, 240, 3000),
]
