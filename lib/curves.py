"""Generated curve specifications (JSON) -> gggears curve + independent reference map.

build(spec) returns (curve, ref) where ref(t) is the natural-parameter function, written
here from the textbook definition and not taken from the code under test.
"""

import math

import numpy as np
from hypothesis import strategies as st

import gggears.curve as crv
from lib.gens import PI, fl, rotmat, rotvec, rotz, vec

SMOOTH_KINDS = [
    "line",
    "arc",
    "involute",
    "cycloid",
    "nurb",
    "func",
    "sphinvolute",
    "octoid",
    "cycloidcone",
]


def _pts(n_min, n_max, lo=-8, hi=8):
    return st.lists(vec(lo, hi, 2), min_size=n_min, max_size=n_max)


line_spec = st.fixed_dictionaries(
    {"k": st.just("line"), "p0": vec(-10, 10, 2), "d": vec(-10, 10, 2)}
).filter(lambda d: np.linalg.norm(d["d"]) > 0.5)

arc_spec = st.fixed_dictionaries(
    {
        "k": st.just("arc"),
        "r": fl(0.3, 8, 2),
        "angle": st.one_of(fl(0.15, 6.2, 3), fl(-6.2, -0.15, 3)),
        "c": vec(-10, 10, 2),
        "ypr": vec(-3, 3, 2),
    }
)

involute_spec = st.fixed_dictionaries(
    {
        "k": st.just("involute"),
        "r": fl(0.3, 8, 2),
        "t0": fl(0, 0.8, 3),
        "dt": fl(0.2, 1.5, 3),
        "angle": fl(-3, 3, 2),
        "v": vec(-3, 3, 2),
        "z": fl(-3, 3, 2),
    }
)

cycloid_spec = st.fixed_dictionaries(
    {
        "k": st.just("cycloid"),
        "rb": fl(2, 8, 2),
        "rc": st.one_of(fl(0.4, 1.8, 2), fl(-0.9, -0.4, 2)),
        "t0": fl(0.0, 0.3, 3),
        "dt": fl(0.1, 0.4, 3),
        "angle": fl(-3, 3, 2),
        "v": vec(-3, 3, 2),
        "z": fl(-3, 3, 2),
    }
)

nurb_spec = st.fixed_dictionaries(
    {
        "k": st.just("nurb"),
        "p0": vec(-5, 5, 2),
        # steps mostly forward: no near-cusps, so length statements have sane margins
        "steps": st.lists(
            st.tuples(fl(0.6, 3, 2), fl(-1.5, 1.5, 2), fl(-1.5, 1.5, 2)).map(list),
            min_size=1,
            max_size=4,
        ),
        "w": st.lists(fl(0.6, 1.7, 2), min_size=5, max_size=5),
        "rv": rotvec,
    }
)

func_spec = st.fixed_dictionaries(
    {
        "k": st.just("func"),
        "t0": fl(-2, 2, 2),
        "dt": fl(0.5, 3, 2),
        "a": fl(0.5, 4, 2),
        "b": fl(0.1, 2, 2),
        "w": fl(0.3, 2, 2),
        "vectorize": st.booleans(),
    }
)

sphinv_spec = st.fixed_dictionaries(
    {
        "k": st.just("sphinvolute"),
        "r": fl(0.5, 5, 2),
        "ratio": st.one_of(fl(1.15, 6, 2), fl(-6, -1.15, 2)),
        "t0": fl(0.05, 0.5, 3),
        "dt": fl(0.1, 0.6, 3),
        "angle": fl(-3, 3, 2),
        "z": fl(-3, 3, 2),
    }
)

octoid_spec = st.fixed_dictionaries(
    {
        "k": st.just("octoid"),
        "r": fl(1, 5, 2),
        "ratio": fl(1.3, 6, 2),
        "alpha": fl(0.25, 0.5, 3),
        "t0": fl(-0.15, 0.0, 3),
        "dt": fl(0.05, 0.25, 3),
        "angle": fl(-3, 3, 2),
        "z": fl(-3, 3, 2),
    }
)

cycloidcone_spec = st.fixed_dictionaries(
    {
        "k": st.just("cycloidcone"),
        "rb": fl(2, 8, 2),
        "rcf": st.one_of(fl(0.1, 0.35, 2), fl(-0.35, -0.1, 2)),
        "ratio": st.one_of(fl(1.2, 6, 2), fl(-6, -1.2, 2)),
        "t0": fl(0.0, 0.3, 3),
        "dt": fl(0.1, 0.4, 3),
        "angle": fl(-3, 3, 2),
        "v": vec(-3, 3, 2),
        "z": fl(-3, 3, 2),
    }
)

base_spec = st.one_of(
    line_spec,
    arc_spec,
    involute_spec,
    cycloid_spec,
    nurb_spec,
    func_spec,
    sphinv_spec,
    octoid_spec,
    cycloidcone_spec,
)

mirror_spec = st.fixed_dictionaries(
    {
        "k": st.just("mirror"),
        "of": base_spec,
        "n": vec(-3, 3, 2).filter(lambda v: np.linalg.norm(v) > 0.3),
        "c": vec(-5, 5, 2),
    }
)
rotate_spec = st.fixed_dictionaries(
    {
        "k": st.just("rotate"),
        "of": base_spec,
        "a": fl(-6, 6, 2),
        "n": vec(-3, 3, 2).filter(lambda v: np.linalg.norm(v) > 0.3),
        "c": vec(-5, 5, 2),
    }
)

any_spec = st.one_of(base_spec, base_spec, base_spec, mirror_spec, rotate_spec)


# ---------------------------------------------------------------- reference formulas
def ref_involute(t, r, angle, v, z):
    # unwinding a taut string from a circle; v is an offset fixed to the rolling line
    # (v[0] radial, v[1] along the line)
    t = np.asarray(t, float)
    ph = t + angle
    c, s = np.cos(ph), np.sin(ph)
    x = (r + v[0]) * c - (v[1] - r * t) * s
    y = (r + v[0]) * s + (v[1] - r * t) * c
    return np.stack([x, y, np.zeros_like(t) + z + v[2]], axis=-1)


def ref_cycloid(t, rb, rc, angle, v, z):
    # a circle of radius rc rolls on the circle rb without slipping
    t = np.asarray(t, float)
    out = []
    for u in np.atleast_1d(t):
        inner = rotz(u * rb / rc) @ (np.array([-rc, 0, 0]) + np.asarray(v))
        out.append(rotz(u + angle) @ (np.array([rb + rc, 0, 0]) + inner) + [0, 0, z])
    return np.array(out).reshape(t.shape + (3,))


def ref_nurb(t, pts, w):
    t = np.asarray(t, float)
    n = len(pts) - 1
    B = np.stack(
        [math.comb(n, i) * t**i * (1 - t) ** (n - i) for i in range(n + 1)], axis=-1
    )
    B = B * np.asarray(w)
    return (B @ np.asarray(pts)) / B.sum(axis=-1, keepdims=True)


def ref_arc(t, r, angle, c, ypr):
    t = np.asarray(t, float)
    # extrinsic z, y, x sequence
    Rz = rotz(ypr[0])
    Ry = rotmat([0, ypr[1], 0])
    Rx = rotmat([ypr[2], 0, 0])
    M = Rx @ Ry @ Rz
    p = np.stack([r * np.cos(angle * t), r * np.sin(angle * t), 0 * t], axis=-1)
    return p @ M.T + np.asarray(c)


def nurb_points(spec):
    pts = [np.zeros(3)]
    for s in spec["steps"]:
        pts.append(pts[-1] + np.array(s))
    P = np.array(pts) @ rotmat(spec["rv"]).T + np.array(spec["p0"])
    w = np.array(spec["w"][: len(P)])
    return P, w


def build(spec):
    """-> (curve, ref, (t0, t1)); ref may be None when no independent formula is kept."""
    k = spec["k"]
    if k == "line":
        p0 = np.array(spec["p0"])
        p1 = p0 + np.array(spec["d"])
        return (
            crv.LineCurve(p0.copy(), p1.copy()),
            lambda t: p0 + np.multiply.outer(np.asarray(t, float), p1 - p0),
            (0, 1),
        )
    if k == "arc":
        c = np.array(spec["c"])
        y = spec["ypr"]
        cv = crv.ArcCurve(
            radius=spec["r"],
            angle=spec["angle"],
            center=c.copy(),
            yaw=y[0],
            pitch=y[1],
            roll=y[2],
        )
        return cv, (lambda t: ref_arc(t, spec["r"], spec["angle"], c, y)), (0, 1)
    if k == "involute":
        t0, t1 = spec["t0"], spec["t0"] + spec["dt"]
        cv = crv.InvoluteCurve(
            r=spec["r"],
            t0=t0,
            t1=t1,
            angle=spec["angle"],
            v_offs=np.array(spec["v"]),
            z_offs=spec["z"],
        )
        return (
            cv,
            lambda t: ref_involute(t, spec["r"], spec["angle"], spec["v"], spec["z"]),
            (t0, t1),
        )
    if k == "cycloid":
        t0, t1 = spec["t0"], spec["t0"] + spec["dt"]
        cv = crv.CycloidCurve(
            rb=spec["rb"],
            rc=spec["rc"],
            angle=spec["angle"],
            v_offs=np.array(spec["v"]),
            z_offs=spec["z"],
            t0=t0,
            t1=t1,
        )
        return (
            cv,
            lambda t: ref_cycloid(
                t, spec["rb"], spec["rc"], spec["angle"], spec["v"], spec["z"]
            ),
            (t0, t1),
        )
    if k == "nurb":
        P, w = nurb_points(spec)
        return (
            crv.NurbCurve(P.copy(), w.copy()),
            lambda t: ref_nurb(t, P, w),
            (0, 1),
        )
    if k == "func":
        t0, t1 = spec["t0"], spec["t0"] + spec["dt"]
        a, b, w = spec["a"], spec["b"], spec["w"]

        def f(t, a=1.0, b=1.0, w=1.0):
            t = np.asarray(t, float)
            return np.stack(
                [a * t, b * np.sin(w * t), b * np.cos(w * t) + 0.3 * t], axis=-1
            )

        cv = crv.Curve(
            f,
            t0=t0,
            t1=t1,
            params={"a": a, "b": b, "w": w},
            enable_vectorize=spec["vectorize"],
        )
        return cv, (lambda t: f(t, a, b, w)), (t0, t1)
    if k == "sphinvolute":
        t0, t1 = spec["t0"], spec["t0"] + spec["dt"]
        cv = crv.SphericalInvoluteCurve(
            r=spec["r"],
            t0=t0,
            t1=t1,
            angle=spec["angle"],
            c_sphere=1 / (spec["r"] * spec["ratio"]),
            z_offs=spec["z"],
        )
        return cv, None, (t0, t1)
    if k == "octoid":
        t0, t1 = spec["t0"], spec["t0"] + spec["dt"]
        cv = crv.OctoidCurve(
            r=spec["r"],
            t0=t0,
            t1=t1,
            angle=spec["angle"],
            c_sphere=1 / (spec["r"] * spec["ratio"]),
            alpha=spec["alpha"],
            z_offs=spec["z"],
        )
        return cv, None, (t0, t1)
    if k == "cycloidcone":
        t0, t1 = spec["t0"], spec["t0"] + spec["dt"]
        cv = crv.CycloidConicCurve(
            rb=spec["rb"],
            rc=spec["rb"] * spec["rcf"],
            angle=spec["angle"],
            C=1 / (spec["rb"] * spec["ratio"]),
            v_offs=np.array(spec["v"]),
            z_offs=spec["z"],
            t0=t0,
            t1=t1,
        )
        return cv, None, (t0, t1)
    if k in ("mirror", "rotate"):
        inner, _, _ = build(spec["of"])
        if k == "mirror":
            cv = crv.MirroredCurve(
                inner, plane_normal=np.array(spec["n"]), center=np.array(spec["c"])
            )
        else:
            cv = crv.RotatedCurve(
                inner,
                angle=spec["a"],
                axis=np.array(spec["n"]),
                center=np.array(spec["c"]),
            )
        return cv, None, (0, 1)
    raise KeyError(k)


def iso_map(spec):
    """Reference isometry of a mirror/rotate spec."""
    n = np.array(spec["n"]) / np.linalg.norm(spec["n"])
    c = np.array(spec["c"])
    if spec["k"] == "mirror":
        M = np.eye(3) - 2 * np.outer(n, n)
    else:
        M = rotmat(n * spec["a"])
    return lambda p: (np.asarray(p) - c) @ M.T + c


def dense(curve, n=400):
    return np.asarray(curve(np.linspace(0, 1, n + 1)))


def polylen(P):
    return float(np.sum(np.linalg.norm(np.diff(P, axis=0), axis=1)))
