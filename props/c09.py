"""C09: Bezier/NURBS evaluation, derivatives, surfaces and conversion of curves."""

import math

import numpy as np
from hypothesis import strategies as st

import gggears.curve as crv
import gggears.function_generators as fg
import gggears.gggears_base_classes as bc
from lib import curves as C
from lib.gens import PI, fl, rotmat, rotvec, transform_case, vec
from lib.harness import Part
from lib.util import close, need

RULE = "random control points/weights, and random curves and chains to convert"
ASSUMPTIONS = [
    "weights are positive",
    "approximated conversions are judged against 1 % of the curve length (gear-like curves)",
]


def bern(n, t):
    t = np.asarray(t, float)
    return np.stack(
        [math.comb(n, i) * t**i * (1 - t) ** (n - i) for i in range(n + 1)], axis=-1
    )


def ref_bez(t, P):
    P = np.asarray(P, float)
    return np.tensordot(bern(len(P) - 1, t), P, axes=(-1, 0))


def ref_dbez(t, P):
    P = np.asarray(P, float)
    n = len(P) - 1
    if n == 0:
        return 0 * ref_bez(t, P)
    return n * ref_bez(t, P[1:] - P[:-1])


def ref_nurb(t, P, w):
    P, w = np.asarray(P, float), np.asarray(w, float)
    num = ref_bez(t, P * w.reshape((-1,) + (1,) * (P.ndim - 1)))
    den = ref_bez(t, w)
    return num / np.asarray(den).reshape(np.shape(den) + (1,) * (P.ndim - 1))


def check_eval(case):
    P = np.array(case["P"])[:, : case["dim"]]
    n = len(P)
    w = np.array(case["w"][:n])
    ts = np.array(case["ts"])
    t0 = float(ts[0])
    tol = 1e-10 * (1 + np.abs(P).max()) * (w.max() / w.min())
    # non-trivial weights: evaluation
    close(fg.bezierdc(ts, P), ref_bez(ts, P), tol, "bezierdc (array)")
    close(fg.bezierdc(t0, P), ref_bez(t0, P), tol, "bezierdc (one value)")
    close(fg.bezierdc(ts, w), ref_bez(ts, w), tol, "bezierdc of scalars")
    close(fg.bezier(t0, P), ref_bez(t0, P), tol, "bezier")
    close(fg.bezier_coeff(t0, n), bern(n - 1, t0), 1e-11, "bezier_coeff")
    close(fg.bezier_diff_p(ts, n), bern(n - 1, ts), 1e-11, "bezier_diff_p")
    close(fg.nurbezier(ts, P, w), ref_nurb(ts, P, w), tol, "nurbezier (array)")
    close(fg.nurbezier(t0, P, w), ref_nurb(t0, P, w), tol, "nurbezier (one value)")
    close(fg.nurbezier(0.0, P, w), P[0], tol, "starts at the first control point")
    close(fg.nurbezier(1.0, P, w), P[-1], tol, "ends at the last control point")
    close(
        fg.nurbezier(ts, P, np.full(n, 2.5)), ref_bez(ts, P), tol, "equal weights"
    )
    # bezier of point grids (used for surfaces)
    G = np.stack([P, P[::-1] * 2, P + 1], axis=1)
    close(fg.bezierdc(ts, G), ref_bez(ts, G), 3 * tol, "bezierdc of a point grid")
    # derivatives by parameter, control points and weights: quotient rule, exactly
    for tt in (ts, t0):
        W, dW = ref_bez(tt, w), ref_dbez(tt, w)
        N, dN = ref_bez(tt, P * w[:, None]), ref_dbez(tt, P * w[:, None])
        W_, dW_ = np.asarray(W)[..., None], np.asarray(dW)[..., None]
        exp = (dN * W_ - N * dW_) / W_**2
        close(
            fg.nurbezier_diff_t(tt, P, w),
            exp,
            1e-9 * (1 + np.abs(exp).max()) * (w.max() / w.min()),
            "nurbezier_diff_t",
        )
        B = bern(n - 1, tt)
        expP = B * w / np.asarray(W)[..., None]
        close(fg.nurbezier_diff_points(tt, n, w), expP, 1e-9, "nurbezier_diff_points")
        expW = (
            B[..., :, None]
            * (P - ref_nurb(tt, P, w)[..., None, :])
            / np.asarray(W)[..., None, None]
        )
        close(
            fg.nurbezier_diff_weights(tt, P, w),
            expW,
            1e-8 * (1 + np.abs(expW).max()),
            "nurbezier_diff_weights",
        )
    for k in range(1, n):
        D = P
        for j in range(k):
            D = (n - 1 - j) * (D[1:] - D[:-1])
        close(
            fg.bezier_diff_t(ts, P, n=k),
            ref_bez(ts, D),
            1e-9 * (1 + np.abs(D).max()),
            "bezier_diff_t order %d" % k,
        )
    return ["n=%d" % n, "dim=%d" % case["dim"]]


def check_surface(case):
    n, m = case["n"], case["m"]
    P = np.array(case["P"])[: n * m].reshape(n, m, 3)
    W = np.array(case["w"][: n * m]).reshape(n, m)
    u, v = case["u"], case["v"]
    B = np.multiply.outer(bern(n - 1, u), bern(m - 1, v)) * W
    exp = np.tensordot(B, P, axes=([0, 1], [0, 1])) / B.sum()
    tol = 1e-9 * (1 + np.abs(P).max())
    close(fg.nurbezier_surface(u, v, P, W), exp, tol, "nurbezier_surface")
    close(fg.nurbezier_surface_2(u, v, P, W), exp, tol, "nurbezier_surface_2")
    return []


def on_circle(P, c, axis, r, what):
    d = P - c
    close(np.linalg.norm(d, axis=1), np.full(len(P), r), 1e-7 * r + 1e-9, what + ": radius")
    close(d @ axis, np.zeros(len(P)), 1e-7 * (1 + r), what + ": plane")


def check_convert(case):
    spec = case["spec"]
    c, _, _ = C.build(spec)
    if case["trim"]:
        c.set_start_and_end_on(case["trim"][0], case["trim"][1])
    if case["rev"]:
        c.reverse()
    S = np.linspace(0, 1, 41)
    before = np.asarray(c(S))
    L = C.polylen(before)
    sz = 1 + np.abs(before).max()
    src = spec.get("of", spec)
    wide_arc = src["k"] == "arc" and abs(src["angle"]) >= PI
    nb = crv.convert_curve_nurbezier(c)
    need(isinstance(nb, crv.NurbCurve), "conversion of a curve gives a NURB curve")
    close(np.asarray(c(S)), before, 0, "conversion changed its input")
    close(nb(0), before[0], 1e-8 * sz, "converted start")
    close(nb(1), before[-1], 1e-8 * sz, "converted end")
    T = np.linspace(0, 1, 61)
    Q = np.asarray(nb(T))
    inner = spec["of"]["k"] if "of" in spec else spec["k"]
    # distance to a finely sampled original
    D = np.asarray(c(np.linspace(0, 1, 801)))

    def dist(Q, D):
        a, b = D[:-1], D[1:]
        ab = b - a
        u = np.einsum("qij,ij->qi", Q[:, None, :] - a[None], ab) / np.maximum(
            np.einsum("ij,ij->i", ab, ab), 1e-300
        )
        u = np.clip(u, 0, 1)
        X = a[None] + u[..., None] * ab[None]
        return np.linalg.norm(Q[:, None, :] - X, axis=2).min(axis=1)

    if inner == "line":
        close(Q, before[0] + T[:, None] * (before[-1] - before[0]), 1e-8 * sz, "line")
    elif inner == "arc" and "of" not in spec:
        ang = abs(spec["angle"])
        if ang < PI:
            on_circle(Q, np.array(spec["c"]), c.axis, spec["r"], "exact arc")
            need(len(nb.points) == 3, "3-point NURB for an arc below 180 degrees")
        frac = (c.t_1 - c.t_0) if case["trim"] or case["rev"] else 1
        if ang * abs(frac) < PI:
            need(dist(Q, D).max() < 2e-3 * L + 1e-5 * sz, "arc shape")
    # a fit with four control points is coarse for arcs of more than half a turn
    tol = 5e-2 if wide_arc else case_tol(inner)
    e1 = dist(Q, D).max()
    QD = np.asarray(nb(np.linspace(0, 1, 401)))
    e2 = dist(before, QD).max()
    need(
        max(e1, e2) < tol * L + 1e-6 * sz,
        "converted curve deviates by %g of its length %g",
        max(e1, e2),
        L,
    )
    return [spec["k"], inner]


def case_tol(kind):
    return {"line": 1e-7, "arc": 1e-5}.get(kind, 4e-3)


def check_chain(case):
    """NURBS chains: points/weights/knots describe the chain completely."""
    segs = []
    start = np.zeros(3)
    rot = rotmat(case["rv"])
    w_prev = None
    for s in case["segs"]:
        P = [start]
        for d in s["steps"]:
            P.append(P[-1] + np.array(d))
        P = np.array(P)
        w = np.array(s["w"][: len(P)])
        if w_prev is not None:
            w[0] = w_prev
        w_prev = w[-1]
        start = P[-1]
        segs.append((P @ rot.T, w))
    chain = crv.NURBSCurve(*[crv.NurbCurve(P.copy(), w.copy()) for P, w in segs])
    allP = np.concatenate([P[:-1] for P, _ in segs] + [segs[-1][0][-1:]])
    allW = np.concatenate([w[:-1] for _, w in segs] + [segs[-1][1][-1:]])
    knots = np.concatenate([[0], np.cumsum([len(P) - 1 for P, _ in segs])])
    sz = 1 + np.abs(allP).max()
    close(chain.points, allP, 1e-12 * sz, "points")
    close(chain.weights, allW, 1e-12, "weights")
    need(list(chain.knots) == list(knots), "knots: %s", list(chain.knots))
    need(chain.n_points == sum(len(P) for P, _ in segs), "n_points")
    S = np.linspace(0, 1, 23)
    base = np.asarray(chain(S))
    again = crv.NURBSCurve.from_points(allP.copy(), knots, allW.copy())
    close(again(S), base, 1e-9 * sz, "from_points(points, knots, weights)")
    need(again.is_continuous, "from_points is continuous")
    from_chain = crv.NURBSCurve.from_curve_chain(crv.CurveChain(*chain.get_curves()))
    close(from_chain(S), base, 1e-12 * sz, "from_curve_chain")
    conv = crv.convert_curve_nurbezier(crv.CurveChain(*again.get_curves()))
    close(conv(S), base, 1e-9 * sz, "conversion of a NURB chain")
    cp = again.copy()
    # continuity enforcement leaves a continuous chain alone
    cp.enforce_continuity()
    close(cp(S), base, 1e-9 * sz, "enforce_continuity on a continuous chain")
    # and closes small gaps by meeting in the middle
    gap = again.copy()
    if len(gap.curves) > 1:
        d = np.array([1e-3, -2e-3, 1e-3])
        gap.curves[1].points = gap.curves[1].points + d
        gap.enforce_continuity()
        e = gap.curves[0].points[-1]
        close(e, gap.curves[1].points[0], 1e-12, "enforce_continuity")
        close(e, segs[0][0][-1] + d / 2, 1e-9 * sz, "gap closed in the middle")
        need(gap.is_continuous, "continuous after enforce_continuity")
    # setting points
    cp.points = allP * 2.0 + 1.0
    close(cp(S), 2 * base + 1.0, 2e-2 * sz, "points setter")
    close(cp.points, allP * 2 + 1, 1e-12 * sz, "points setter")
    close(again(S), base, 1e-12 * sz, "copies share nothing")
    # transform, reverse
    d = case["t"]
    T = bc.GearTransform(
        center=np.array(d["c"]), orientation=rotmat(d["rv"]), scale=d["s"], angle=d["a"]
    )
    cp = again.copy()
    cp.apply_transform(T)
    exp = T(base)
    close(cp(S), exp, 1e-7 * (1 + np.abs(exp).max()), "transformed NURBS chain")
    close(
        cp.length, again.length * d["s"], 1e-7 * again.length * d["s"], "length scales"
    )
    cp = again.copy()
    cp.reverse()
    close(cp(S), base[::-1], 1e-2 * sz, "reversed NURBS chain")
    close(cp(np.array([0.0, 1.0])), base[[-1, 0]], 1e-9 * sz, "reversed ends")
    return ["nseg=%d" % len(segs)]


def check_arc_formula(case):
    M = rotmat(case["rv"])
    c = np.array(case["c"])
    r, th = case["r"], case["th"]
    p0 = c + M @ np.array([r, 0, 0])
    p2 = c + M @ np.array([r * math.cos(th), r * math.sin(th), 0])
    P, w = fg.calc_nurbezier_arc(p0, p2, c)
    Q = ref_nurb(np.linspace(0, 1, 33), P, w)
    on_circle(Q, c, M @ np.array([0, 0, 1.0]), r, "arc formula")
    close(Q[0], p0, 1e-9 * 20, "arc start")
    close(Q[-1], p2, 1e-9 * 20, "arc end")
    mid = c + M @ np.array([r * math.cos(th / 2), r * math.sin(th / 2), 0])
    close(Q[16], mid, 1e-7 * (1 + r), "arc midpoint (short way)")
    return []


seg_case = st.fixed_dictionaries(
    {
        "steps": st.lists(
            st.tuples(fl(0.6, 3, 2), fl(-1.2, 1.2, 2), fl(-1.2, 1.2, 2)).map(list),
            min_size=1,
            max_size=4,
        ),
        "w": st.lists(fl(0.6, 1.7, 2), min_size=5, max_size=5),
    }
)

conv_spec = st.one_of(
    C.line_spec,
    C.arc_spec,
    C.nurb_spec,
    st.fixed_dictionaries(
        {
            "k": st.just("involute"),
            "r": fl(0.5, 8, 2),
            "t0": fl(0.05, 0.5, 3),
            "dt": fl(0.2, 0.6, 3),
            "angle": fl(-3, 3, 2),
            "v": st.just([0.0, 0.0, 0.0]),
            "z": fl(-3, 3, 2),
        }
    ),
    st.fixed_dictionaries(
        {
            "k": st.just("cycloid"),
            "rb": fl(3, 8, 2),
            "rc": st.one_of(fl(0.6, 1.8, 2), fl(-1.2, -0.6, 2)),
            "t0": fl(0.03, 0.06, 3),
            "dt": fl(0.1, 0.2, 3),
            "angle": fl(-3, 3, 2),
            "v": st.just([0.0, 0.0, 0.0]),
            "z": fl(-3, 3, 2),
        }
    ),
    C.octoid_spec,
)


def _mirror(sp):
    return st.fixed_dictionaries(
        {
            "k": st.just("mirror"),
            "of": sp,
            "n": vec(-3, 3, 2).filter(lambda v: np.linalg.norm(v) > 0.3),
            "c": vec(-5, 5, 2),
        }
    )


PARTS = [
    Part(
        "eval",
        st.fixed_dictionaries(
            {
                "P": st.lists(vec(-9, 9, 2), min_size=2, max_size=6),
                "dim": st.sampled_from([2, 3, 3]),
                "w": st.lists(fl(0.2, 4, 2), min_size=6, max_size=6),
                "ts": st.lists(fl(-0.1, 1.1, 4), min_size=1, max_size=5),
            }
        ),
        check_eval,
        quick=2500,
        thorough=40000,
        nontrivial=lambda c: len(c["P"]) > 2 and len(set(c["w"][: len(c["P"])])) > 1,
        rule="degree at least 2 and unequal weights",
    ),
    Part(
        "surface",
        st.fixed_dictionaries(
            {
                "n": st.integers(2, 4),
                "m": st.integers(2, 4),
                "P": st.lists(vec(-9, 9, 2), min_size=16, max_size=16),
                "w": st.lists(fl(0.2, 4, 2), min_size=16, max_size=16),
                "u": fl(0, 1, 3),
                "v": fl(0, 1, 3),
            }
        ),
        check_surface,
        quick=700,
        thorough=10000,
        nontrivial=lambda c: len(set(c["w"])) > 1,
        rule="unequal weights",
    ),
    Part(
        "convert",
        st.fixed_dictionaries(
            {
                "spec": st.one_of(conv_spec, conv_spec, _mirror(conv_spec)),
                "trim": st.one_of(
                    st.none(), st.tuples(fl(0, 0.35, 2), fl(0.65, 1, 2)).map(list)
                ),
                "rev": st.booleans(),
            }
        ).filter(
            # a trimmed Bezier segment is returned as it is; only whole ones are claimed
            lambda c: not (
                (c["spec"].get("of", c["spec"])["k"] == "nurb") and c["trim"]
            )
        ),
        check_convert,
        quick=700,
        thorough=12000,
        nontrivial=lambda c: c["spec"]["k"] not in ("line", "nurb"),
        rule="not a line or NURB already",
    ),
    Part(
        "chain",
        st.fixed_dictionaries(
            {
                "segs": st.lists(seg_case, min_size=1, max_size=4),
                "rv": rotvec,
                "t": transform_case,
            }
        ),
        check_chain,
        quick=700,
        thorough=10000,
        nontrivial=lambda c: len(c["segs"]) > 1,
        rule="more than one segment",
    ),
    Part(
        "arcformula",
        st.fixed_dictionaries(
            {
                "rv": rotvec,
                "c": vec(-9, 9, 2),
                "r": fl(0.2, 9, 2),
                "th": fl(0.05, 3.0, 3),
            }
        ),
        check_arc_formula,
        quick=1200,
        thorough=20000,
        rule="every case",
    ),
]
