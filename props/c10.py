"""C10: coordinate conversions and tooth generating functions satisfy their definitions."""

import math

import numpy as np
from hypothesis import strategies as st

import gggears.curve as crv
import gggears.function_generators as fg
import gggears.gggears_core as gc
from lib.gens import PI, fl, rotmat, rotz, vec
from lib.harness import Part
from lib.util import close, need

RULE = "random points, centres, radii, cone angles, offsets and roll parameters"
ASSUMPTIONS = [
    "points are not on the coordinate singularity (axis, sphere centre)",
    "sphere radius is larger than the base radius; |roll angle| below 1.5",
]

Z = np.array([0.0, 0.0, 1.0])


def unit(v):
    return v / np.linalg.norm(v)


# ---------------------------------------------------------------- coordinates
def check_coords(case):
    c = np.array(case["c"])
    P = np.array(case["P"])
    d = P - c
    rho = np.hypot(d[:, 0], d[:, 1])
    keep = rho > 1e-2
    P, d, rho = P[keep], d[keep], rho[keep]
    if len(P) == 0:
        return ["all on axis"]
    mag = 1 + np.abs(P).max() + np.abs(c).max()
    tol = 1e-9 * mag
    r = np.sqrt((d**2).sum(1))
    sph = fg.xyz_to_spherical(P, center=c)
    need(sph.shape == P.shape, "spherical array shape %s", sph.shape)
    close(sph[:, 0], r, tol, "spherical radius")
    close(np.cos(sph[:, 2]), d[:, 2] / r, 1e-9, "polar angle")
    need(np.all((sph[:, 2] >= 0) & (sph[:, 2] <= PI)), "polar angle range")
    close(
        np.stack([np.cos(sph[:, 1]), np.sin(sph[:, 1])], 1),
        d[:, :2] / rho[:, None],
        1e-9,
        "azimuth",
    )
    close(fg.spherical_to_xyz(sph, center=c), P, tol, "spherical round trip")
    cyl = fg.xyz_to_cylindrical(P, center=c)
    close(cyl[:, 0], rho, tol, "cylindrical radius")
    close(cyl[:, 2], d[:, 2], tol, "cylindrical height")
    close(
        np.stack([np.cos(cyl[:, 1]), np.sin(cyl[:, 1])], 1),
        d[:, :2] / rho[:, None],
        1e-9,
        "cylindrical angle",
    )
    close(fg.cylindrical_to_xyz(cyl, center=c), P, tol, "cylindrical round trip")
    for k in range(len(P)):
        close(fg.xyz_to_spherical(P[k], center=c), sph[k], tol, "single spherical")
        close(fg.spherical_to_xyz(sph[k], center=c), P[k], tol, "single to xyz")
        close(fg.xyz_to_cylindrical(P[k], center=c), cyl[k], tol, "single cylindrical")
        close(fg.cylindrical_to_xyz(cyl[k], center=c), P[k], tol, "single cyl to xyz")
    # arbitrary polar input -> xyz -> polar
    s = np.array(case["s"])
    x = fg.spherical_to_xyz(s, center=c)
    ref = c + s[0] * np.array(
        [
            math.sin(s[2]) * math.cos(s[1]),
            math.sin(s[2]) * math.sin(s[1]),
            math.cos(s[2]),
        ]
    )
    close(x, ref, tol, "spherical_to_xyz")
    close(fg.xyz_to_spherical(x, center=c), s, 1e-6 * mag, "spherical inverse round trip")
    return ["n=%d" % len(P)]


def check_vectors(case):
    a, b = np.array(case["a"]), np.array(case["b"])
    n = unit(np.array(case["n"]))
    ang = case["ang"]
    la, lb = np.linalg.norm(a), np.linalg.norm(b)
    close(fg.rotate_vector(a, ang), rotz(ang) @ a, 1e-9 * la + 1e-12, "rotate_vector")
    th = fg.angle_between_vectors(a, b)
    need(0 <= th <= PI, "angle_between_vectors out of range: %r", th)
    close(la * lb * math.cos(th), a @ b, 1e-9 * la * lb, "angle_between_vectors (cos)")
    close(
        la * lb * math.sin(th),
        np.linalg.norm(np.cross(a, b)),
        1e-9 * la * lb,
        "angle_between_vectors (sin)",
    )
    pr = fg.project_vector_to_plane(a, n)
    close(pr @ n, 0.0, 1e-9 * la, "projection lies in plane")
    close(np.cross(a - pr, n), np.zeros(3), 1e-9 * la, "projection along the normal")
    close(np.linalg.norm(fg.normalize_vector(a)), 1.0, 1e-12, "normalize length")
    close(np.cross(fg.normalize_vector(a), a), np.zeros(3), 1e-9 * la, "normalize dir")
    need(fg.normalize_vector(a) @ a > 0, "normalize flips the vector")
    el = fg.angle_between_vector_and_plane(a, n)
    close(math.sin(el), abs(a @ n) / la, 1e-7, "angle_between_vector_and_plane")
    phi = fg.angle_of_vector_in_xy(a)
    rho = math.hypot(a[0], a[1])
    close(
        [rho * math.cos(phi), rho * math.sin(phi)], a[:2], 1e-9 * la, "angle in xy"
    )


# ---------------------------------------------------------------- gear polar map
def check_polar(case):
    cone = case["cone"]
    rb = case["rb"]
    T = gc.GearPolarTransform(cone_angle=cone, base_radius=rb)
    phi = np.array(case["phi"])
    u = np.array(case["u"])  # out coordinate in units of rb
    h = np.array(case["h"])  # height in units of rb
    n = len(phi)
    if cone == 0:
        P = np.stack(
            [rb * (1 + u) * np.cos(phi), rb * (1 + u) * np.sin(phi), rb * h], axis=1
        )
        out_ref = rb * (1 + u)
        hgt_ref = rb * h
    else:
        g = abs(cone) / 2
        sg = np.sign(cone)
        R = rb / math.sin(g)
        # limit to the part of the sphere away from its poles
        el = np.clip(g + u * rb / R, 0.03, PI - 0.03)
        rad = np.clip(R - h * rb, 0.2 * R, 3 * R)
        apex = np.array([0, 0, rb / math.tan(g)])
        P = apex + np.stack(
            [
                rad * np.sin(el) * np.cos(phi),
                rad * np.sin(el) * np.sin(phi),
                -rad * np.cos(el),
            ],
            axis=1,
        )
        P = P * np.array([1, 1, sg])
        out_ref = (el - PI / 2) * R
        hgt_ref = R - rad
    mag = 1 + np.abs(P).max() + (0 if cone == 0 else R)
    tol = 1e-9 * mag
    q = T(P)
    need(q.shape == (n, 3), "polar map shape %s", q.shape)
    close(q[:, 0], out_ref, 1e-7 * mag, "outward coordinate")
    close(
        np.stack([np.cos(q[:, 1]), np.sin(q[:, 1])], 1),
        np.stack([np.cos(phi), np.sin(phi)], 1),
        1e-8,
        "angle coordinate",
    )
    close(q[:, 2], hgt_ref, tol, "height coordinate")
    close(T.inv(q), P, tol * 10, "inverse of polar map (array)")
    close(T.inverse_polar_transform(q), T.inv(q), 0, "inv shorthand")
    close(T.polar_transform(P), q, 0, "call shorthand")
    for k in range(n):
        close(T(P[k]), q[k], tol, "polar map of a single point")
        close(T.inv(q[k]), P[k], tol * 10, "inverse for a single point")
    # the pitch circle is at height 0, and 'out' moves points away from the axis
    p0 = T(np.array([rb, 0.0, 0.0]))
    close(p0[2], 0.0, tol, "height of the pitch circle")
    close(p0[1], 0.0, tol, "angle of the pitch circle")
    step = 0.05 * rb
    p1 = T.inv(p0 + np.array([step, 0, 0]))
    if cone == 0:
        close(p1, [rb + step, 0, 0], tol, "step outwards")
    else:
        ref = apex * np.array([1, 1, sg]) + R * np.array(
            [math.sin(g + step / R), 0, -sg * math.cos(g + step / R)]
        )
        close(p1, ref, tol * 10, "step outwards on the sphere")
    return ["cone" if cone > 0 else "flat" if cone == 0 else "neg cone"]


# ---------------------------------------------------------------- involute
def check_involute(case):
    r, t, a, z = case["r"], case["t"], case["angle"], case["z"]
    v = np.array(case["v"])
    p = fg.involute_circle(t, r, a)
    T = r * np.array([math.cos(t + a), math.sin(t + a), 0])
    tan = np.array([math.sin(t + a), -math.cos(t + a), 0])
    close(p, T + tan * r * t, 1e-9 * (1 + r), "involute = unwound string")
    # rolling line: offset vector turns with the line, z offset is a shift
    p2 = fg.involute_circle(t, r, a, v, z)
    close(p2, p + rotz(t + a) @ v + z * Z, 1e-9 * (1 + r + np.abs(v).max()), "offsets")
    # spherical
    R = r * case["Rr"]
    sg = case["sg"]
    C = sg / R
    ctr = np.array([0, 0, sg * math.sqrt(R * R - r * r)])
    ps = fg.involute_sphere(t, r, C, a)
    tol = 1e-9 * (1 + R)
    close(np.linalg.norm(ps - ctr), R, tol, "spherical involute stays on its sphere")
    phi = r * t / R
    ref = ctr + math.cos(phi) * (T - ctr) + math.sin(phi) * R * tan
    close(ps, ref, tol, "spherical involute = unwound great circle")
    close(
        fg.involute_sphere(t, r, C, a, z_offs=z), ps + z * Z, tol, "z offset (sphere)"
    )
    # offset vector: a rigid body attached to the rolling plane (distance preserved)
    pv = fg.involute_sphere(t, r, C, a, v)
    close(
        np.linalg.norm(pv - ps), np.linalg.norm(v), tol + 1e-9, "offset keeps its length"
    )
    p0v = fg.involute_sphere(0.0, r, C, a, v)
    close(
        np.linalg.norm(pv - ctr), np.linalg.norm(p0v - ctr), tol * 10, "rigid rolling"
    )
    # symmetric in the sign of the curvature: mirror image
    close(
        fg.involute_sphere(t, r, -C, a) * np.array([1, 1, -1]), ps, tol, "mirrored cone"
    )
    # zero curvature limit, with and without offsets
    close(fg.involute_sphere(t, r, 0, a, v, z), p2, 1e-9 * (1 + r + 10), "C = 0")
    eps = 1e-6
    near = fg.involute_sphere(t, r, eps * sg / r, a, v, z)
    need(
        np.linalg.norm((near - p2)[:2]) <= 1e-4 * (1 + r + np.linalg.norm(v)) ** 2 / r,
        "spherical involute does not tend to the plane one: %s vs %s",
        near,
        p2,
    )
    # curves use the same functions
    cu = crv.InvoluteCurve(r=r, angle=a, v_offs=v, z_offs=z, t0=0, t1=1)
    close(cu.function(t) if False else cu.base_radius, r, 1e-12, "base_radius")
    return ["sg=%d" % sg]


# ---------------------------------------------------------------- cycloid
def check_cycloid(case):
    rb, t, a, z = case["rb"], case["t"], case["angle"], case["z"]
    rc = rb * case["k"]
    v = np.array([case["v"][0], case["v"][1], 0.0])
    # plane: centre of rolling circle and rotation without slip
    p = fg.cycloid_circle(t, rb, rc, a)
    mid = (rb + rc) * np.array([math.cos(t + a), math.sin(t + a), 0])
    roll = t + t * rb / rc  # absolute rotation of the rolling circle
    ref = mid + rotz(roll + a) @ np.array([-rc, 0, 0])
    tol = 1e-9 * (1 + rb + abs(rc)) * (1 + abs(rb / rc))
    close(p, ref, tol, "cycloid = point of the rolling circle")
    close(
        fg.cycloid_circle(t, rb, rc, a, v, z),
        p + rotz(roll + a) @ v + z * Z,
        tol + 1e-9,
        "offsets (cycloid)",
    )
    close(
        fg.cycloid_circle(0.0, rb, rc, a),
        rb * np.array([math.cos(a), math.sin(a), 0]),
        tol,
        "starts on base circle",
    )
    # cone
    R = rb * case["Rr"]
    sg = case["sg"]
    if abs(rc) >= 0.95 * R:
        return ["plane only"]
    C = sg / R
    ctr = np.array([0, 0, sg * math.sqrt(R * R - rb * rb)])
    f = lambda u: fg.cycloid_cone(u, rb, rc, C, a)  # noqa: E731
    pc = f(t)
    tol = 1e-8 * (1 + R) * (1 + abs(rb / rc))
    close(np.linalg.norm(pc - ctr), R, tol, "conic cycloid stays on the sphere")
    close(
        f(0.0), rb * np.array([math.cos(a), math.sin(a), 0]), tol, "cone: starts on base"
    )
    # the point keeps a constant angle to the axis of the rolling cone
    g1, g2 = math.asin(rb / R), math.asin(rc / R)
    ax = rotz(t + a) @ np.array([math.sin(g1 + g2), 0, -sg * math.cos(g1 + g2)])
    close(
        unit(pc - ctr) @ ax, math.cos(g2), 1e-8 * (1 + abs(rb / rc)), "on rolling circle"
    )
    # no slip: velocity is perpendicular to the line to the contact point
    h = 1e-5
    vel = (f(t + h) - f(t - h)) / (2 * h)
    contact = rb * np.array([math.cos(t + a), math.sin(t + a), 0])
    close(
        vel @ (pc - contact),
        0.0,
        1e-5 * (1 + rb + abs(rc)) ** 2 * (1 + abs(rb / rc)) ** 3,
        "rolling without slip",
    )
    close(fg.cycloid_cone(t, rb, rc, C, a, z_offs=z), pc + z * Z, tol, "z offset (cone)")
    close(
        fg.cycloid_cone(t, rb, rc, -C, a) * np.array([1, 1, -1]), pc, tol, "mirror cone"
    )
    close(
        fg.cycloid_cone(t, rb, rc, 0, a, v, z),
        fg.cycloid_circle(t, rb, rc, a, v, z),
        tol,
        "C = 0 (cycloid)",
    )
    near = fg.cycloid_cone(t, rb, rc, 1e-6 * sg / rb, a)
    close(near[:2], p[:2], 1e-4 * (1 + rb + abs(rc)), "cycloid cone tends to plane")
    return ["epi" if rc > 0 else "hypo", "sg=%d" % sg]


# ---------------------------------------------------------------- octoid
def check_octoid(case):
    rb, t, a, z, al = case["rb"], case["t"], case["angle"], case["z"], case["alpha"]
    R = rb * case["Rr"]
    beta = math.asin(rb / R)
    ctr = np.array([0, 0, math.sqrt(R * R - rb * rb)])
    f = lambda u: fg.octoid(u, rb, R, al, a) - ctr  # noqa: E731
    tol = 1e-9 * (1 + R)
    q = f(t)
    close(np.linalg.norm(q), R, tol, "octoid stays on the sphere")
    close(
        fg.octoid(0.0, rb, R, al, a),
        rb * np.array([math.cos(a), math.sin(a), 0]),
        tol,
        "octoid crosses the pitch circle at its angle",
    )
    close(fg.octoid(t, rb, R, al, a, z_offs=z), q + ctr + z * Z, tol, "octoid z offset")
    h = 1e-5 / math.sin(beta)

    def frame(u):
        tau = (f(u + h) - f(u - h)) / (2 * h)
        M = rotz(-u - a)
        return M @ f(u), M @ tau

    P = np.array([rb, 0, 0]) - ctr
    qf, tf = frame(t)
    if np.linalg.norm(tf) < 0.05 * rb:
        return ["cusp"]
    # common normal passes through the pitch point (law of gearing)
    tf = unit(tf)
    close(tf @ P / R, 0.0, 2e-4, "contact normal passes the pitch point")
    # contact lies on the straight flank (great circle) of the rolling crown gear
    k = np.cross(P / R, [0, 1, 0])
    n0 = None
    n0 = np.array([0.0, -math.cos(al), 0.0]) + math.sin(al) * k
    nt = rotmat(-k * t * math.sin(beta)) @ n0
    close(nt @ qf / R, 0.0, 1e-6, "contact point lies on the crown flank")
    close(nt @ tf, 0.0, 2e-4, "flank tangent lies in the crown flank")
    return []


# ---------------------------------------------------------------- arcs and interp
def check_arcs(case):
    p0, p1 = np.array(case["p0"]), np.array(case["p1"])
    d = np.linalg.norm(p1 - p0)
    kappa = case["kap"]
    r = 1 / kappa
    if abs(r) < d / 2:
        r = math.copysign(d / 2, r)
    ts = [0.0, case["t"], 1.0]
    axis = np.array(case["axis"])
    ax = axis - (axis @ (p1 - p0)) / d**2 * (p1 - p0)
    if np.linalg.norm(ax) < 0.05:
        return ["degenerate axis"]
    ax = unit(ax)
    P = [fg.arc_from_2_point(u, p0, p1, kappa, axis) for u in ts]
    tol = 1e-6 * (1 + np.abs(p0).max() + np.abs(p1).max() + abs(r))
    close(P[0], p0, tol, "arc starts at first point")
    close(P[2], p1, tol, "arc ends at second point")
    need(abs((P[1] - p0) @ ax) <= tol, "arc leaves its plane")
    cen = (p0 + p1) / 2 - np.cross((p1 - p0) / d, ax) * math.copysign(
        math.sqrt(max(r * r - d * d / 4, 0)), r
    )
    close(np.linalg.norm(P[1] - cen), abs(r), tol, "arc radius")
    close(
        fg.arc_from_2_point(case["t"], p0, p1, 0.0, axis),
        p0 + case["t"] * (p1 - p0),
        tol,
        "zero curvature = straight line",
    )
    # through centre
    c = np.array(case["c"])
    q0 = c + unit(p0 - c) * 2.0 if np.linalg.norm(p0 - c) > 0.1 else c + 2 * Z
    q1 = c + rotmat(unit(np.cross(q0 - c, axis)) * case["ang"]) @ (q0 - c)
    m = fg.arc_from_2_point_center(case["t"], q0, q1, c)
    close(np.linalg.norm(m - c), 2.0, 1e-8, "arc about centre: radius")
    close(
        fg.angle_between_vectors(q0 - c, m - c),
        case["t"] * case["ang"],
        1e-6,
        "arc about centre: proportional angle",
    )
    close(fg.arc_from_2_point_center(1.0, q0, q1, c), q1, 1e-7, "arc about centre: end")
    B = fg.calc_quadratic_bezier_interp(p0, c, p1)
    close(fg.bezier(0.5, B), c, tol + 1e-9 * np.abs(c).max(), "interpolated mid point")
    return ["neg" if kappa < 0 else "pos"]


sgn = st.sampled_from([-1, 1])
PARTS = [
    Part(
        "coords",
        st.fixed_dictionaries(
            {
                "c": vec(),
                "P": st.lists(vec(), min_size=1, max_size=5),
                "s": st.tuples(fl(0.1, 30, 3), fl(-3.1, 3.1, 3), fl(0.05, 3.09, 3)).map(
                    list
                ),
            }
        ),
        check_coords,
        quick=1500,
        nontrivial=lambda c: len(c["P"]) > 1 and any(c["c"]),
        rule="several points, centre off the origin",
    ),
    Part(
        "vectors",
        st.fixed_dictionaries(
            {
                "a": vec(-9, 9).filter(lambda v: np.linalg.norm(v) > 0.1),
                "b": vec(-9, 9).filter(lambda v: np.linalg.norm(v) > 0.1),
                "n": vec(-1, 1).filter(lambda v: np.linalg.norm(v) > 0.1),
                "ang": fl(-7, 7, 3),
            }
        ),
        check_vectors,
        quick=1500,
        nontrivial=lambda c: all(abs(x) > 0.01 for x in c["a"]),
        rule="vector not in a coordinate plane",
    ),
    Part(
        "polar",
        st.fixed_dictionaries(
            {
                "cone": st.one_of(
                    st.just(0.0), fl(0.1, 3.0, 3), fl(0.1, 3.0, 3), fl(-3.0, -0.1, 3)
                ),
                "rb": fl(0.5, 60, 2),
                "phi": st.lists(fl(-3.1, 3.1, 3), min_size=3, max_size=3),
                "u": st.lists(fl(-0.7, 0.7, 3), min_size=3, max_size=3),
                "h": st.lists(fl(-1.5, 0.8, 3), min_size=3, max_size=3),
            }
        ),
        check_polar,
        quick=2000,
        nontrivial=lambda c: c["cone"] != 0 and any(c["h"]),
        rule="conical map off the pitch sphere",
    ),
    Part(
        "involute",
        st.fixed_dictionaries(
            {
                "r": fl(0.5, 30, 2),
                "t": fl(-1.5, 1.5, 3),
                "angle": fl(-3, 3, 3),
                "z": fl(-5, 5, 2),
                "v": vec(-2, 2, 2),
                "Rr": fl(1.05, 8, 3),
                "sg": sgn,
            }
        ),
        check_involute,
        quick=2000,
        nontrivial=lambda c: abs(c["t"]) > 0.05 and c["angle"] != 0,
        rule="roll angle above 0.05 and rotated start",
    ),
    Part(
        "cycloid",
        st.fixed_dictionaries(
            {
                "rb": fl(0.5, 30, 2),
                "k": st.one_of(fl(0.1, 1.2, 3), fl(-0.9, -0.1, 3)),
                "t": fl(-1.2, 1.2, 3),
                "angle": fl(-3, 3, 3),
                "z": fl(-5, 5, 2),
                "v": vec(-2, 2, 2),
                "Rr": fl(1.1, 8, 3),
                "sg": sgn,
            }
        ),
        check_cycloid,
        quick=2000,
        nontrivial=lambda c: abs(c["t"]) > 0.05,
        rule="roll angle above 0.05",
    ),
    Part(
        "octoid",
        st.fixed_dictionaries(
            {
                "rb": fl(0.5, 30, 2),
                "t": fl(-0.8, 0.8, 3),
                "angle": fl(-3, 3, 3),
                "z": fl(-5, 5, 2),
                "alpha": fl(0.15, 0.6, 3),
                "Rr": fl(1.05, 6, 3),
            }
        ),
        check_octoid,
        quick=2000,
        nontrivial=lambda c: abs(c["t"]) > 0.05,
        rule="roll angle above 0.05",
    ),
    Part(
        "arcs",
        st.fixed_dictionaries(
            {
                "p0": vec(-9, 9, 2),
                "p1": vec(-9, 9, 2),
                "c": vec(-9, 9, 2),
                "axis": vec(-1, 1, 2).filter(lambda v: np.linalg.norm(v) > 0.2),
                "kap": st.one_of(fl(0.02, 2, 3), fl(-2, -0.02, 3)),
                "t": fl(0, 1, 3),
                "ang": fl(0.1, 3.0, 3),
            }
        ).filter(
            lambda c: np.linalg.norm(np.array(c["p0"]) - c["p1"]) > 0.3
            and np.linalg.norm(
                np.cross(
                    np.array(c["axis"]),
                    (np.array(c["p0"]) - c["c"])
                    if np.linalg.norm(np.array(c["p0"]) - c["c"]) > 0.1
                    else Z,
                )
            )
            > 0.1
        ),
        check_arcs,
        quick=1500,
        nontrivial=lambda c: c["t"] not in (0, 1),
        rule="interior parameter",
    ),
]
