"""C07: single curves: length parametrisation, trimming, reversing, copying, algebra."""

import math

import numpy as np
from hypothesis import strategies as st

import gggears.curve as crv
import gggears.gggears_base_classes as bc
from lib import curves as C
from lib.gens import PI, fl, rotmat, transform_case, vec
from lib.harness import Part
from lib.util import close, need

RULE = "random curves of every family with random placement, under random edit sequences"
ASSUMPTIONS = [
    "curves are non-degenerate (length > 0.05) and trimmed to a non-empty, forward range",
    "length statements carry the documented 'approximately' (21-point table): 2-5 %",
]

S = np.linspace(0, 1, 17)


def size(P):
    return 1.0 + float(np.max(np.abs(P)))


def sample(c, s):
    v = np.asarray(c(np.asarray(s, float)))
    need(v.shape == (len(s), 3), "curve(array) has shape %s", v.shape)
    # scalar and array evaluation agree
    for i in (0, len(s) // 2, len(s) - 1):
        p = np.asarray(c(float(s[i])))
        close(p.reshape(-1), v[i], 1e-9 * size(v), "scalar vs array evaluation")
    return v


def length_law(c, label, tol):
    """Equal steps of s are (approximately) equal distances, and length is the length."""
    D = C.dense(c, 240)
    seg = np.linalg.norm(np.diff(D, axis=0), axis=1)
    L = seg.sum()
    need(
        abs(L - c.length) <= tol * L + 1e-9,
        "%s: reported length %g, measured %g",
        label,
        c.length,
        L,
    )
    frac = np.concatenate([[0], np.cumsum(seg)]) / L
    err = np.max(np.abs(frac - np.linspace(0, 1, 241)))
    need(
        err <= tol + 1e-6,
        "%s: parameter is not proportional to length (off by %g)",
        label,
        err,
    )


def base_kind(spec):
    return spec["of"]["k"] if "of" in spec else spec["k"]


def tol_of(spec):
    tol = {"line": 1e-9, "arc": 1e-3}.get(base_kind(spec), 0.06)
    # a transformed arc goes through the 21-point length table
    return max(tol, 0.012) if "of" in spec else tol


def check_natural(case):
    spec = case["spec"]
    c, ref, (t0, t1) = C.build(spec)
    P = sample(c, S)
    close(c.t_0, t0, 1e-12, "start parameter")
    close(c.t_1, t1, 1e-12, "end parameter")
    if ref is not None:
        close(c(0), ref(t0), 1e-9 * size(P), "start point")
        close(c(1), ref(t1), 1e-9 * size(P), "end point")
        # every point is the natural-parameter point
        close(
            P, ref(np.array([c.s2t(float(s)) for s in S])), 1e-8 * size(P), "curve(s)"
        )
    t = np.array([float(c.s2t(float(s))) for s in S])
    need(np.all(np.diff(t) > 0), "s -> t is not increasing")
    close(c.s2t(S), t, 1e-12 * (1 + abs(t).max()), "s2t of an array")
    S2 = np.concatenate([[-0.2], S, [1.15]])
    back = np.array([float(c.t2s(float(c.s2t(float(s))))) for s in S2])
    close(back, S2, 1e-7, "t2s(s2t(s))")
    close(c.t2s(c.s2t(S2)), S2, 1e-7, "t2s(s2t(s)) on arrays")
    length_law(c, "curve", tol_of(spec))
    return [spec["k"]]


# ---------------------------------------------------------------- edit sequences
op = st.one_of(
    st.fixed_dictionaries({"op": st.just("reverse")}),
    st.fixed_dictionaries({"op": st.just("start"), "s": fl(0.02, 0.7, 3)}),
    st.fixed_dictionaries({"op": st.just("end"), "s": fl(0.3, 0.98, 3)}),
    st.fixed_dictionaries(
        {"op": st.just("both"), "s": fl(0.0, 0.4, 3), "e": fl(0.6, 1.0, 3)}
    ),
    st.fixed_dictionaries({"op": st.just("cut"), "s": fl(0.1, 0.9, 3), "keep": st.integers(0, 1)}),
    st.fixed_dictionaries({"op": st.just("copy"), "keep": st.integers(0, 1)}),
)


def check_edits(case):
    spec = case["spec"]
    c, ref, _ = C.build(spec)
    labels = [spec["k"]]
    tol = tol_of(spec)
    for o in case["ops"]:
        S9 = np.linspace(0, 1, 33)
        before = sample(c, S9)
        sz = size(before)
        # edits are statements about points: look points up on the curve before the edit
        def pts(ss):
            return np.asarray(c_before(np.asarray(ss, float)))

        c_before = c.copy()
        close(sample(c_before, S9), before, 1e-9 * sz, "copy()")
        k = o["op"]
        if k == "reverse":
            r = c.reverse()
            need(r is c, "reverse() returns the curve")
            close(sample(c, S9), before[::-1], 1e-7 * sz, "reversed curve")
            close(
                [c.t2s(float(c.s2t(u))) for u in (0.0, 0.3, 0.8, 1.0)],
                [0.0, 0.3, 0.8, 1.0],
                1e-7,
                "t2s(s2t) after reverse",
            )
        elif k in ("start", "end", "both"):
            s0, s1 = (
                (o["s"], 1.0)
                if k == "start"
                else (0.0, o["s"]) if k == "end" else (o["s"], o["e"])
            )
            if k == "start":
                c.set_start_on(s0)
            elif k == "end":
                c.set_end_on(s1)
            else:
                c.set_start_and_end_on(s0, s1)
            e = pts([s0, s1])
            close(c(0), e[0], 1e-7 * sz, "start of trimmed curve")
            close(c(1), e[1], 1e-7 * sz, "end of trimmed curve")
            sub = pts(s0 + (s1 - s0) * S9)
            err = np.max(np.linalg.norm(sample(c, S9) - sub, axis=1))
            need(
                err <= (2 * tol) * C.polylen(sub) + 1e-7 * sz,
                "trimmed curve leaves the original (%g)",
                err,
            )
        elif k == "cut":
            a, b = c.cut(o["s"])
            close(sample(c, S9), before, 1e-12 * sz, "cut() changed the curve")
            m = pts([o["s"]])[0]
            close(a(0), before[0], 1e-7 * sz, "first piece start")
            close(a(1), m, 1e-7 * sz, "first piece end")
            close(b(0), m, 1e-7 * sz, "second piece start")
            close(b(1), before[-1], 1e-7 * sz, "second piece end")
            need(
                abs(a.length + b.length - c.length) <= 2 * tol * c.length + 1e-9,
                "lengths of the pieces do not add up",
            )
            c = b if o["keep"] else a
        elif k == "copy":
            d = c.copy()
            other, mine = (d, c) if o["keep"] else (c, d)
            # whatever happens to one leaves the other alone
            other.set_start_on(0.25)
            other.reverse()
            for attr in ("center", "v_offs", "p0", "points", "angle"):
                if attr in other.__dict__ and not callable(getattr(other, attr)):
                    v = getattr(other, attr)
                    setattr(other, attr, v * 1.25 + 0.5)
            if isinstance(other, crv.ArcCurve):
                other.center = other.center + 1.0
            if hasattr(other, "target_curve"):
                other.target_curve.reverse()
            other.update_lengths()
            close(sample(mine, S9), before, 1e-9 * sz, "editing a copy")
            c = mine
        length_law(c, k, max(tol, 1e-6))
        close(sample(c_before, S9), before, 1e-9 * sz, "copy changed with its source")
        labels.append(k)
    return labels


# ---------------------------------------------------------------- algebra
def check_algebra(case):
    a, _, _ = C.build(case["a"])
    b, _, _ = C.build(case["b"])
    if case["ra"]:
        a.reverse()
    if case["ta"]:
        a.set_start_on(case["ta"])
    k = case["k"]
    SA = sample(a, S)
    SB = sample(b, S)
    sz = size(SA) + size(SB)

    def at(res, f, what):
        t = [float(res.s2t(float(s))) for s in S]
        need(t[0] == 0 and abs(t[-1] - 1) < 1e-12, "%s: parameter range", what)
        exp = np.array([f(u) for u in t])
        close(sample(res, S), exp, 1e-9 * sz * max(1, abs(k), 1 / abs(k)), what)
        length_law(res, what, 0.12)

    if np.linalg.norm(np.diff(SA + SB, axis=0), axis=1).min() > 0.01 * sz / 16:
        at(a + b, lambda u: np.asarray(a(u)) + np.asarray(b(u)), "sum")
    if np.linalg.norm(np.diff(SA - SB, axis=0), axis=1).min() > 0.01 * sz / 16:
        at(a - b, lambda u: np.asarray(a(u)) - np.asarray(b(u)), "difference")
    at(a * k, lambda u: np.asarray(a(u)) * k, "curve * scalar")
    at(k * a, lambda u: np.asarray(a(u)) * k, "scalar * curve")
    at(a / k, lambda u: np.asarray(a(u)) / k, "curve / scalar")
    close(sample(a, S), SA, 1e-12 * sz, "operand modified")
    close(sample(b, S), SB, 1e-12 * sz, "operand modified")
    return [case["a"]["k"]]


def check_derivative(case):
    spec = case["spec"]
    c, ref, _ = C.build(spec)
    if case["rev"]:
        c.reverse()
    s = case["s"]
    sgn = -1.0 if case["rev"] else 1.0
    L = c.length
    h = 1e-4
    for d in (0, 1, -1):
        g = c.derivative(s, direction=d)
        if spec["k"] == "line":
            exp = np.array(spec["d"]) * sgn
            close(g, exp, 1e-5 * L, "line derivative")
        else:  # arc
            need(
                abs(np.linalg.norm(g) - L) < 1e-3 * L + 1e-4,
                "speed of a length-proportional curve is its length",
            )
            rad = np.asarray(c(s)) - np.array(spec["c"])
            need(
                abs(np.dot(rad, g)) < 2e-4 * L * spec["r"] + 2e-4,
                "derivative of an arc is not tangential",
            )
    p, m = np.asarray(c(s + h)), np.asarray(c(s - h))
    close(c.derivative(s), (p - m) / (2 * h), 1e-3 * L + 1e-4, "first derivative")
    g2 = c.derivative(s, n=2, delta=1e-3)
    if spec["k"] == "line":
        close(g2, np.zeros(3), 1e-6 * size(p) * 1e3, "second derivative of a line")
    else:
        exp = -(np.asarray(c(s)) - np.array(spec["c"])) * spec["angle"] ** 2
        close(g2, exp, 2e-3 * np.linalg.norm(exp) + 1e-3, "second derivative of an arc")
        g3 = c.derivative(s, n=3, delta=5e-3)
        e3 = -np.asarray(c.derivative(s)) * spec["angle"] ** 2
        close(g3, e3, 2e-2 * np.linalg.norm(e3) + 2e-2, "third derivative of an arc")
    return [spec["k"]]


# ---------------------------------------------------------------- transforms
def check_transform(case):
    spec = case["spec"]
    c, _, _ = C.build(spec)
    if case["trim"]:
        c.set_start_and_end_on(case["trim"][0], case["trim"][1])
    if case["rev"]:
        c.reverse()
    d = case["t"]
    T = bc.GearTransform(
        center=np.array(d["c"]), orientation=rotmat(d["rv"]), scale=d["s"], angle=d["a"]
    )
    before = sample(c, S)
    L = c.length
    exp = T(before)
    if spec["k"] == "nurb":
        r = c.apply_transform(T)
        need(r is c, "apply_transform returns the curve")
    else:
        r = c.transform(T)
        close(sample(c, S), before, 0, "transform() changed its source")
    close(sample(r, S), exp, 1e-7 * size(exp), "transformed curve")
    need(
        abs(r.length - L * d["s"]) < 1e-6 * L * d["s"],
        "length of a transformed curve: %g instead of %g",
        r.length,
        L * d["s"],
    )
    return [spec["k"]] + (["trimmed"] if case["trim"] else [])


def check_isometry(case):
    spec = case["spec"]
    inner, _, _ = C.build(spec["of"])
    c, _, _ = C.build(spec)
    f = C.iso_map(spec)
    t = np.array([float(c.s2t(float(s))) for s in S])
    close(t, S, 8e-2, "isometry keeps the parametrisation")
    exp = f(np.asarray(inner(t)))
    close(sample(c, S), exp, 1e-8 * size(exp), "mirrored/rotated curve")
    return [spec["k"], spec["of"]["k"]]


# ---------------------------------------------------------------- arc constructors
def check_arc(case):
    how = case["how"]
    c = np.array(case["c"])
    M = rotmat(case["rv"])
    r = case["r"]
    p0 = c + M @ np.array([r, 0, 0])
    ang = case["angle"]
    sz = 20.0
    if how == "2pc":
        a2 = abs(ang) % PI
        if a2 < 0.05 or a2 > PI - 0.05:
            a2 = 1.0
        p1 = c + M @ (r * np.array([math.cos(a2), math.sin(a2), 0]))
        arc = crv.ArcCurve.from_2_point_center(
            p0=p0, p1=p1, center=c, revolutions=case["rev"]
        )
        total = a2 + 2 * PI * case["rev"]
        axis = M @ np.array([0, 0, 1.0])
        start = p0
    elif how == "pca":
        axis = M @ np.array([0, 0, 1.0])
        arc = crv.ArcCurve.from_point_center_angle(
            p0=p0, center=c, angle=ang, axis=axis * 2.5
        )
        total, start = ang, p0
    elif how == "rca":
        axis = M @ np.array([0, 0, 1.0])
        arc = crv.ArcCurve.from_radius_center_angle(
            radius=r,
            center=c,
            angle_start=case["a0"],
            angle_end=case["a0"] + ang,
            axis=axis,
        )
        total, start = ang, np.asarray(arc(0))
        if np.linalg.norm(case["rv"]) == 0:
            start = c + r * np.array([math.cos(case["a0"]), math.sin(case["a0"]), 0])
    else:  # 2 points and curvature
        axis = M @ np.array([0, 0, 1.0])
        chord = case["chord"]
        p1 = p0 + M @ (chord * np.array([math.cos(ang), math.sin(ang), 0]))
        arc = crv.ArcCurve.from_2_point_curvature(
            p0=p0, p1=p1, curvature=1 / (r if case["rev"] else -r), axis=axis
        )
        R = max(r, chord / 2)
        close(arc.radius, R, 1e-6 * R, "radius from curvature")
        close(arc(0), p0, 1e-6 * sz, "start point")
        close(arc(1), p1, 1e-6 * sz, "end point")
        cc = np.asarray(arc.center)
        need(abs(np.dot(cc - p0, axis)) < 1e-6 * sz, "arc leaves its plane")
        # positive curvature turns around +axis, centre on the left of the chord
        if R > chord / 2 * 1.02:
            side = np.dot(np.cross(p1 - p0, cc - p0), axis)
            need(
                side > 0 if case["rev"] else side < 0,
                "centre on the wrong side of the chord",
            )
        P = sample(arc, S)
        close(np.linalg.norm(P - cc, axis=1), np.full(len(S), R), 1e-6 * R, "radius")
        need(arc.length <= PI * R * 1.000001, "curvature arc takes the long way")
        return [how]
    from lib.curves import polylen

    P = sample(arc, S)

    def turn(p, a):
        return c + rotmat(axis / np.linalg.norm(axis) * a) @ (p - c)

    exp = np.array([turn(start, total * s) for s in S])
    close(P, exp, 1e-7 * sz, "arc points")
    close(arc.radius, r, 1e-9 * r, "radius")
    close(arc.r, r, 1e-9 * r, "radius")
    close(arc.curvature, 1 / r, 1e-9 / r, "curvature")
    close(arc.center, c, 1e-9 * sz, "centre")
    close(arc.axis * np.linalg.norm(axis), axis, 1e-7, "axis")
    close(arc.p0, exp[0], 1e-7 * sz, "p0")
    close(arc.p1, exp[-1], 1e-7 * sz, "p1")
    need(abs(arc.length - abs(total) * r) < 1e-9 * (1 + abs(total) * r), "arc length")
    need(
        bool(arc.is_closed) == (np.linalg.norm(exp[0] - exp[-1]) < 1e-8),
        "is_closed",
    ) if abs(np.linalg.norm(exp[0] - exp[-1]) - 1e-8) > 5e-9 else None
    return [how]


arc_case = st.fixed_dictionaries(
    {
        "how": st.sampled_from(["2pc", "pca", "rca", "2pk"]),
        "c": vec(-10, 10, 2),
        "rv": C.rotvec,
        "r": fl(0.3, 9, 2),
        "angle": st.one_of(fl(0.1, 6.2, 3), fl(-6.2, -0.1, 3), st.just(2 * PI)),
        "a0": fl(-4, 4, 2),
        "rev": st.integers(0, 2),
        "chord": fl(0.3, 12, 2),
    }
)

PARTS = [
    Part(
        "natural",
        st.fixed_dictionaries({"spec": C.any_spec}),
        check_natural,
        quick=1200,
        thorough=20000,
        nontrivial=lambda c: c["spec"]["k"] not in ("line",),
        rule="curve is not a plain line",
    ),
    Part(
        "edits",
        st.fixed_dictionaries(
            {"spec": C.any_spec, "ops": st.lists(op, min_size=1, max_size=5)}
        ),
        check_edits,
        quick=900,
        thorough=16000,
        nontrivial=lambda c: len(c["ops"]) >= 2
        and len({o["op"] for o in c["ops"]}) >= 2,
        rule="at least two different edits in sequence",
    ),
    Part(
        "algebra",
        st.fixed_dictionaries(
            {
                "a": C.base_spec,
                "b": C.base_spec,
                "k": st.one_of(fl(0.2, 5, 2), fl(-5, -0.2, 2)),
                "ra": st.booleans(),
                "ta": st.one_of(st.just(0), fl(0.1, 0.6, 2)),
            }
        ),
        check_algebra,
        quick=500,
        thorough=9000,
        nontrivial=lambda c: c["a"]["k"] != c["b"]["k"],
        rule="operands of different families",
    ),
    Part(
        "derivative",
        st.fixed_dictionaries(
            {
                "spec": st.one_of(C.line_spec, C.arc_spec),
                "s": fl(0.05, 0.95, 3),
                "rev": st.booleans(),
            }
        ),
        check_derivative,
        quick=800,
        thorough=8000,
        nontrivial=lambda c: c["spec"]["k"] == "arc",
        rule="an arc (non-zero higher derivatives)",
    ),
    Part(
        "transform",
        st.fixed_dictionaries(
            {
                "spec": st.one_of(C.line_spec, C.arc_spec, C.nurb_spec),
                "t": transform_case,
                "trim": st.one_of(
                    st.none(),
                    st.tuples(fl(-0.1, 0.4, 2), fl(0.6, 1.1, 2)).map(list),
                ),
                "rev": st.booleans(),
            }
        ),
        check_transform,
        quick=1500,
        thorough=20000,
        nontrivial=lambda c: bool(c["trim"]) or c["rev"],
        rule="the transformed curve was trimmed or reversed before",
    ),
    Part(
        "isometry",
        st.fixed_dictionaries({"spec": st.one_of(C.mirror_spec, C.rotate_spec)}),
        check_isometry,
        quick=600,
        thorough=9000,
        nontrivial=lambda c: c["spec"]["of"]["k"] != "line",
        rule="target is not a line",
    ),
    Part(
        "arcs",
        arc_case,
        check_arc,
        quick=2500,
        thorough=40000,
        nontrivial=lambda c: np.linalg.norm(c["rv"]) > 0.05,
        rule="arc plane is not the xy plane",
    ),
]
