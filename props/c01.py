"""C01: every gear profile is a valid, periodic, non-self-intersecting outline."""

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import LineString, Point

import gggears.gggears_core as gc
from lib import gears as G
from lib.gens import PI, fl, rotmat, rotz
from lib.harness import Part
from lib.util import close, need

RULE = (
    "gear spec with a non-default shape feature (shift, fillet, undercut, backlash, "
    "crowning, helix or cone) and a section off the reference height"
)
ASSUMPTIONS = [
    "cylindrical gears have 6..160 teeth (rings from 18), bevel gears 10..160",
    "conical teeth combine a root fillet with undercut only in the recorded finding",
    "face width at most a third of the cone distance",
]


def nontrivial(case):
    s = case["g"]
    feat = s["x"] or s["rf"] or s["tf"] or s["uc"] or s["bl"] or s["crown"]
    return bool(feat or s["beta"] or s["cone"]) and case["r"] != 0


def pieces(curve):
    """Leaf curves of nested chains, in order."""
    out = []
    for c in curve.curves:
        if not c.active:
            continue
        if hasattr(c, "curves"):
            out.extend(pieces(c))
        else:
            out.append(c)
    return out


def check_profile(case):
    s = case["g"]
    g = G.build(s)
    n = G.Nominal(s)
    p = g.gearcore.curve_gen_at_z(n.z(case["r"]))
    tol = 1e-6 if s["cone"] == 0 else 2e-3
    chain = p.profile
    segs = [c for c in chain.curves if c.active]
    need(len(segs) >= 2, "profile has only %d active pieces", len(segs))
    close(p.pitch_angle, n.pitch, 1e-12, "pitch angle")
    # continuity of every joint
    for a, b in zip(segs[:-1], segs[1:]):
        close(a(1), b(0), tol, "profile pieces join")
    flank = p.tooth_curve
    leaf = pieces(flank) if hasattr(flank, "curves") else [flank]
    for a, b in zip(leaf[:-1], leaf[1:]):
        close(a(1), b(0), max(tol, 1e-4), "flank pieces join")
    pts = G.sample(chain, 241)
    need(np.all(np.isfinite(pts)), "profile has non-finite points")
    # spans exactly one pitch
    close(rotz(n.pitch) @ chain(0), chain(1), tol, "profile end is its start one pitch on")
    # mirror symmetry about the tooth's axis (the xz plane of the section)
    ts = np.linspace(0, 1, 41)
    mir = np.array([1.0, -1.0, 1.0])
    A = np.concatenate([G.sample(c, 161) for c in leaf])
    B = np.array([p.tooth_curve_mirror(1 - t) for t in ts])
    close(A[[0, -1]] * mir, B[[0, -1]], 1e-7, "mirrored flank ends")
    off = G.dist_to_polyline(B * mir, A).max()
    need(off < 1e-3, "mirrored flank is off by %g", off)
    if p.ra_curve.active:
        arc = np.array([p.ra_curve(t) for t in ts])
        close(arc[::-1] * mir, arc, 1e-6, "tip land is symmetric")
    if p.rd_curve.active:
        arc = np.array([p.rd_curve(t) for t in ts]) @ rotz(n.pitch / 2).T
        close(arc[::-1] * mir, arc, 1e-6, "root land is symmetric about the gap")
    # flank stays in its half of the pitch
    u, az = n.to_polar(G.sample(p.tooth_curve, 121))
    need(az.max() < 1e-6, "flank crosses the middle of the tooth by %g", az.max())
    need(
        az.min() > -n.pitch / 2 - 1e-6,
        "flank crosses the middle of the gap by %g",
        -n.pitch / 2 - az.min(),
    )
    # going from root to tip
    need(
        np.diff(u).min() > -2e-3,
        "flank turns back towards the root by %g",
        -np.diff(u).min(),
    )
    need(u[-1] - u[0] > 0.3, "flank is only %g high", u[-1] - u[0])
    # no self intersection: the outline unrolled over two pitches
    u, az = n.to_polar(pts)
    pp = np.c_[az * n.rp, u]
    pp = pp[np.r_[True, np.linalg.norm(np.diff(pp, axis=0), axis=1) > 1e-7]]
    two = np.concatenate([pp, pp[1:] + [n.pitch * n.rp, 0.0]])
    need(LineString(two).is_simple, "profile crosses itself")
    # on its sphere (fillet and circle arcs bulge off it a little) or in its plane
    if s["cone"] == 0:
        close(pts[:, 2], 0 * pts[:, 2], 1e-7, "flat section")
    else:
        R = n.rp / np.sin(n.gamma)
        apex = np.array([0, 0, n.rp / np.tan(n.gamma)])
        d = np.linalg.norm(pts - apex, axis=1)
        need(np.abs(d - R).max() < 0.05, "off the sphere by %g", np.abs(d - R).max())
    # closed forms used for building and export
    ext = gc.GearRefProfileExtended.from_refprofile(p, gc.ConicData(cone_angle=s["cone"], base_radius=n.rp))
    for name in ("profile_closed", "tooth_profile_closed"):
        cc = [c for c in getattr(ext, name).curves if c.active]
        for a, b in zip(cc, cc[1:] + cc[:1]):
            close(a(1), b(0), max(tol, 1e-4), name + " joins")
    lab = [s["fam"], "undercut" if s["uc"] else "plain"]
    if not p.ra_curve.active or p.ra_curve.length < 1e-6:
        lab.append("sharp tip")
    if not p.rd_curve.active:
        lab.append("sharp root")
    return lab


def check_boundary(case):
    s = case["g"]
    g = G.build(s)
    n = G.Nominal(s)
    r = case["r"]
    z = n.z(r)
    N = s["N"]
    chain = g.gearcore.boundary_at_z(z, continuous=False)
    cont = g.gearcore.boundary_at_z(z, continuous=True)
    # reference: the section profile placed by the documented recipe
    prof = g.gearcore.curve_gen_at_z(z).profile
    pl = s["pl"]
    M = rotmat(pl["rv"])
    size = n.mt * (n.rp + 3)

    def place(pts, k):
        loc = pts @ rotz(k * n.pitch + n.twist(r)).T * n.scale(r)
        loc = loc + np.array([0, 0, z * np.cos(n.gamma)])
        return (loc @ rotz(pl["a"]).T) @ M.T * n.mt + np.array(pl["c"])

    tol = 2e-3 * n.mt if s["cone"] else 1e-5 * size
    k = case["k"] % N
    dense = np.concatenate([G.sample(c, 61) for c in pieces(prof)])
    near = np.concatenate([place(dense, k + j) for j in (-2, -1, 0, 1, 2)])
    for t in case["ts"]:
        # around the k-th repeat, up to the length table of the curves
        for name, c in (("chain", chain), ("continuous", cont)):
            off = G.dist_to_polyline(c((k + t) / N), near)[0]
            need(
                off < 1e-2 * n.mt,
                "%s outline at tooth %d is off the profile by %g",
                name,
                k,
                off,
            )
    close(chain(1), chain(0), tol, "outline chain closes")
    close(cont(1 - 1e-12), cont(0), tol, "continuous outline closes")
    # one closed loop around the axis, never crossing itself
    for name, c in (("chain", chain), ("continuous", cont)):
        m = 24 * N
        P = np.array([c((i + 0.013) / m) for i in range(m)])
        loc = (P - np.array(pl["c"])) @ M / n.mt
        ang = np.unwrap(np.arctan2(loc[:, 1], loc[:, 0]))
        step = ang[0] + 2 * PI - ang[-1]
        turns = (ang[-1] - ang[0] + np.arctan2(np.sin(step), np.cos(step))) / (2 * PI)
        close(turns, 1.0, 1e-6, name + " outline winding number")
        whole = LineString(
            (np.concatenate([place(dense, j) for j in range(N)]) - np.array(pl["c"]))
            @ M[:, :2]
        )
        for q in loc[:: max(1, m // 60)] * n.mt:
            off = whole.distance(Point(q[0], q[1]))
            need(off < 1e-2 * n.mt, "%s outline leaves the profile by %g", name, off)
    return [s["fam"]]


def check_wire(case):
    s = case["g"]
    g = G.build(s)
    n = G.Nominal(s)
    wire = g.build_boundary_wire(z_ratio=case["r"])
    need(wire.is_closed, "boundary wire is not closed")
    r = case["r"]
    M = rotmat(s["pl"]["rv"])

    def loc0(P):
        return (P - np.array(s["pl"]["c"])) @ M

    # the section profile repeated by the documented recipe, in the gear's own frame
    one = np.concatenate(
        [G.sample(c, 81) for c in pieces(g.gearcore.curve_gen_at_z(n.z(r)).profile)]
    )
    one = one @ rotz(n.twist(r) + s["pl"]["a"]).T * n.scale(r)
    one = (one + np.array([0, 0, n.z(r) * np.cos(n.gamma)])) * n.mt
    P = np.concatenate([one @ rotz(k * n.pitch).T for k in range(s["N"])] + [one[:1]])
    ring = LineString(P[:, :2])
    edges = wire.edges()
    length = sum(e.length for e in edges)
    ref = np.linalg.norm(np.diff(P, axis=0), axis=1).sum()
    need(
        abs(length - ref) < 6e-3 * ref,
        "wire length %g, outline length %g",
        length,
        ref,
    )
    zref = P[:, 2]
    angs = []
    for e in edges:
        for t in (0.0, 0.27, 0.5, 0.81):
            v = e @ t
            q = loc0(np.array([v.X, v.Y, v.Z]))
            d = ring.distance(Point(q[0], q[1]))
            need(d < (0.03 if s["cone"] else 0.012) * n.mt, "wire is off the outline by %g module", d / n.mt)
            need(
                zref.min() - 0.02 * n.mt < q[2] < zref.max() + 0.02 * n.mt,
                "wire height off",
            )
            if t == 0.5:
                angs.append(np.arctan2(q[1], q[0]))
    # every tooth is there
    sect = set(int((a % (2 * PI)) / n.pitch) for a in angs)
    need(len(sect) >= s["N"] - 1, "wire covers %d of %d teeth", len(sect), s["N"])
    return [s["fam"], "edges=%d" % (len(edges) // s["N"])]


ratio = st.one_of(st.sampled_from([0.0, 0.5, 1.0]), fl(0, 1, 2))


def case(fams, **kw):
    return st.fixed_dictionaries(
        {
            "g": G.gear(fams=fams, **kw),
            "r": ratio,
            "ts": st.lists(fl(0.01, 0.99, 3), min_size=2, max_size=4),
            "k": st.integers(0, 60),
        }
    )


CYL = ["spur", "invo", "helical", "ring", "helring"]

PARTS = [
    Part("profile_involute", case(CYL, placed=False, ucrf=True, nmin=6, wide="fat"), check_profile, 480, 6000, nontrivial, RULE),
    Part("profile_bevel", case(["bevel"], nmin=10, placed=False, wide="fat"), check_profile, 200, 3000, nontrivial, RULE),
    Part("profile_cycloid", case(["cyc", "cycring", "cycbevel"], nmin=9, placed=False, wide="fat"), check_profile, 240, 3000, nontrivial, RULE),
    Part("boundary", case(CYL + ["cyc", "cycring", "bevel"], nmin=10, nmax=30), check_boundary, 70, 1000, nontrivial, RULE),
    Part("wire", case(CYL + ["cyc", "bevel"], nmin=10, nmax=24), check_wire, 60, 800, nontrivial, RULE),
]
