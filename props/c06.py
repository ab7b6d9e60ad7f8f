"""C06: transforms form a consistent algebra, and the CAD side applies the same map."""

import numpy as np
from hypothesis import strategies as st

import build123d as bd
import gggears.gggears_base_classes as bc
import gggears.gggears_build123d as gbd
from lib.gens import fl, rotmat, rotz, transform_case, vec
from lib.harness import Part
from lib.util import close, need

RULE = "random rigid+scale transforms (generic and axis-aligned rotations, any gear angle)"
ASSUMPTIONS = ["orientation matrices are proper rotations, scale > 0"]

KINDS = ["TransformData", "Transform", "GearTransformData", "GearTransform"]


def make(kind, d):
    cls = getattr(bc, kind)
    kw = dict(
        center=np.array(d["c"]), orientation=rotmat(d["rv"]), scale=float(d["s"])
    )
    if kind.startswith("Gear"):
        kw["angle"] = float(d["a"])
    return cls(**kw)


def ref_matrix(kind, d):
    """Independent 4x4 reference: p -> c + s * O * Rz(angle) * p"""
    R = rotmat(d["rv"])
    if kind.startswith("Gear"):
        R = R @ rotz(d["a"])
    M = np.eye(4)
    M[:3, :3] = R * d["s"]
    M[:3, 3] = d["c"]
    return M


def mapply(M, p):
    return np.asarray(p) @ M[:3, :3].T + M[:3, 3]


def app(kind, t, p):
    """All the ways a transform can be applied to points must agree."""
    fn = bc.apply_gear_transform if kind.startswith("Gear") else bc.apply_transform
    r = fn(p, t)
    close(t * p, r, 1e-9 * (1 + np.max(np.abs(r))), "transform * points")
    if kind in ("Transform", "GearTransform"):
        close(t(p), r, 1e-9 * (1 + np.max(np.abs(r))), "transform(points)")
    return r


def check_algebra(case):
    kind = case["kind"]
    pts = np.array(case["pts"])
    ts = [make(kind, d) for d in case["ts"]]
    Ms = [ref_matrix(kind, d) for d in case["ts"]]
    # snapshots: algebra must not modify its operands
    snap = [(t.center.copy(), t.orientation.copy(), t.scale) for t in ts]

    for t, M in zip(ts, Ms):
        mag = 1 + np.max(np.abs(mapply(M, pts)))
        close(app(kind, t, pts), mapply(M, pts), 1e-9 * mag, "apply")
        close(app(kind, t, pts[0]), mapply(M, pts[0]), 1e-9 * mag, "apply (one point)")
        close(
            app(kind, t, np.stack([pts, pts[::-1]])),
            np.stack([mapply(M, pts), mapply(M, pts[::-1])]),
            1e-9 * mag,
            "apply (stack of point arrays)",
        )
        close(t.affine_matrix, M, 1e-9 * mag, "affine_matrix")
        close(t.x_axis, t.orientation[:, 0], 0, "x_axis")
        close(t.y_axis, t.orientation[:, 1], 0, "y_axis")
        close(t.z_axis, t.orientation[:, 2], 0, "z_axis")
        inv = t.invert()
        need(isinstance(inv, type(t)), "invert() returns another type")
        imag = 1 + np.max(np.abs(np.linalg.inv(M)))
        close(
            app(kind, inv, mapply(M, pts)), pts, 1e-9 * mag * imag, "invert o apply"
        )
        close(
            app(kind, t, app(kind, inv, pts)), pts, 1e-9 * mag * imag, "apply o invert"
        )
        close(
            (t * inv).affine_matrix, np.eye(4), 1e-9 * mag * imag, "t * t.invert()"
        )
        close(
            (inv * t).affine_matrix, np.eye(4), 1e-9 * mag * imag, "t.invert() * t"
        )

    prod, M = ts[0], Ms[0]
    for t, m in zip(ts[1:], Ms[1:]):
        prod, M = prod * t, M @ m
    need(isinstance(prod, type(ts[0])), "product has another type")
    mag = 1 + np.max(np.abs(M)) + np.max(np.abs(mapply(M, pts)))
    close(prod.affine_matrix, M, 1e-9 * mag, "affine matrix of a product")
    close(app(kind, prod, pts), mapply(M, pts), 1e-9 * mag, "product applied")
    seq = pts
    for t in reversed(ts):
        seq = app(kind, t, seq)
    close(app(kind, prod, pts), seq, 1e-8 * mag, "product vs applying one by one")
    if len(ts) >= 3:
        right = ts[-1]
        for t in reversed(ts[:-1]):
            right = t * right
        close(right.affine_matrix, M, 1e-8 * mag, "associativity")
    if kind.startswith("Gear"):
        close(
            prod.angle, sum(d["a"] for d in case["ts"]), 1e-9, "gear angle of a product"
        )
        # the orientation part keeps carrying the axis direction of the combination
        close(
            prod.z_axis * prod.scale, M[:3, 2], 1e-9 * mag, "axis direction of product"
        )
    for t, (c, o, s) in zip(ts, snap):
        close(t.center, c, 0, "operand center modified")
        close(t.orientation, o, 0, "operand orientation modified")
        need(t.scale == s, "operand scale modified")
    return [kind, "n=%d" % len(ts)]


def check_cad(case):
    t = make("GearTransform", case["t"])
    M = ref_matrix("GearTransform", case["t"])
    p = np.array(case["p"])
    loc = gbd.transform2Location(t)
    # rigid part of the map (bd.Location carries no scale)
    Mr = M.copy()
    Mr[:3, :3] /= case["t"]["s"]
    v = (loc * bd.Location(tuple(p))).position
    exp = mapply(Mr, p)
    close([v.X, v.Y, v.Z], exp, 1e-5, "CAD location of the transform")
    for axis in range(3):
        e = np.eye(3)[axis]
        a = (loc * bd.Location(tuple(e))).position
        o = loc.position
        close(
            [a.X - o.X, a.Y - o.Y, a.Z - o.Z],
            Mr[:3, axis],
            1e-6,
            "CAD location axis %d" % axis,
        )
    lo, size = np.array(case["lo"]), np.array(case["size"])
    box = bd.Solid.make_box(*size, plane=bd.Plane(origin=tuple(lo)))
    moved = gbd.apply_transform_part(box, t)
    got = sorted(tuple(np.round((q.X, q.Y, q.Z), 6)) for q in moved.vertices())
    corners = np.array(
        [
            lo + size * np.array([i, j, k])
            for i in (0, 1)
            for j in (0, 1)
            for k in (0, 1)
        ]
    )
    exp = mapply(M, corners)
    got = np.array(got)
    need(len(got) == 8, "moved box lost vertices: %d", len(got))
    d = np.linalg.norm(got[:, None, :] - exp[None, :, :], axis=2)
    need(
        d.min(axis=0).max() < 1e-4 and d.min(axis=1).max() < 1e-4,
        "apply_transform_part moved the part elsewhere: off by %g",
        d.min(axis=0).max(),
    )
    need(
        abs(moved.volume - np.prod(size) * case["t"]["s"] ** 3)
        < 1e-6 * moved.volume + 1e-6,
        "apply_transform_part changed the volume",
    )
    return []


def _nt(case):
    return any(
        abs(d["s"] - 1) > 1e-9 and np.linalg.norm(d["rv"]) > 0.05 for d in case["ts"]
    ) and (not case["kind"].startswith("Gear") or any(abs(d["a"]) > 0.05 for d in case["ts"]))


PARTS = [
    Part(
        "algebra",
        st.fixed_dictionaries(
            {
                "kind": st.sampled_from(KINDS),
                "ts": st.lists(transform_case, min_size=1, max_size=4),
                "pts": st.lists(vec(-20, 20), min_size=1, max_size=4),
            }
        ),
        check_algebra,
        quick=4000,
        thorough=60000,
        nontrivial=_nt,
        rule="some factor scales and rotates (and has a gear angle, for gear transforms)",
    ),
    Part(
        "cad",
        st.fixed_dictionaries(
            {
                "t": transform_case,
                "p": vec(-20, 20),
                "lo": vec(-5, 5),
                "size": st.lists(fl(0.5, 4, 2), min_size=3, max_size=3),
            }
        ),
        check_cad,
        quick=1200,
        thorough=15000,
        nontrivial=lambda c: abs(c["t"]["s"] - 1) > 1e-9
        and np.linalg.norm(c["t"]["rv"]) > 0.05
        and abs(c["t"]["a"]) > 0.05,
        rule="scale, orientation and gear angle all non-trivial",
    ),
]
