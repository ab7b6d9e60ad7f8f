"""C08: curve chains behave like one curve under any history of edits (model-based)."""

import math

import numpy as np
from hypothesis import strategies as st

import gggears.curve as crv
from lib import curves as C
from lib.gens import PI, fl, rotmat, rotvec, vec
from lib.harness import Part
from lib.util import assume, close, need

RULE = "edit histories on chains of lines and arcs (nested, disconnected, inactive members)"
ASSUMPTIONS = [
    "chains have at least one active member of positive length; trims are forward",
    "reference model: explicit list of segments with exact (line/arc) arc length",
]


# ------------------------------------------------------------------ reference model
class MSeg:
    def __init__(self, fn, unit_len, lo=0.0, hi=1.0, active=True):
        self.fn, self.ul, self.lo, self.hi, self.active = fn, unit_len, lo, hi, active

    @property
    def length(self):
        return self.ul * abs(self.hi - self.lo)

    def at(self, s):
        return self.fn(self.lo + (self.hi - self.lo) * s)

    def reverse(self):
        self.lo, self.hi = self.hi, self.lo

    def trim(self, s0, s1, preserve=False):
        lo, hi = self.lo, self.hi
        self.lo, self.hi = lo + (hi - lo) * s0, lo + (hi - lo) * s1

    def clone(self):
        return MSeg(self.fn, self.ul, self.lo, self.hi, self.active)

    def flat(self):
        return [self]


class MChain:
    def __init__(self, segs):
        self.segs = list(segs)
        self.act = True

    @property
    def active(self):
        return self.act and any(s.active for s in self.segs)

    @active.setter
    def active(self, v):
        self.act = v

    @property
    def length(self):
        return sum(s.length for s in self.segs if s.active)

    def bounds(self):
        out, a = [], 0.0
        L = self.length
        for s in self.segs:
            b = a + (s.length / L if s.active else 0.0)
            out.append((a, b))
            a = b
        return out

    def locate(self, s):
        bs = self.bounds()
        idx = [i for i, m in enumerate(self.segs) if m.active]
        for i in idx:
            a, b = bs[i]
            if s <= b:
                return i, (s - a) / (b - a)
        i = idx[-1]
        a, b = bs[i]
        return i, (s - a) / (b - a)

    def at(self, s):
        i, u = self.locate(s)
        return self.segs[i].at(u)

    def reverse(self):
        self.segs.reverse()
        for s in self.segs:
            s.reverse()

    def trim(self, s0, s1, preserve=False, which="both"):
        i0, u0 = self.locate(s0)
        i1, u1 = self.locate(s1)
        if which == "end":
            i0, u0 = 0, 0.0
        if which == "start":
            i1, u1 = len(self.segs) - 1, 1.0
        if i0 == i1 and which == "both":
            self.segs[i0].trim(u0, u1)
        else:
            if which != "end":
                self._trim1(i0, u0, 1.0, "start")
            if which != "start":
                self._trim1(i1, 0.0, u1, "end")
        if preserve:
            for s in self.segs[:i0] + self.segs[i1 + 1 :]:
                s.active = False
        else:
            self.segs = self.segs[i0 : i1 + 1]

    def _trim1(self, i, u0, u1, which):
        s = self.segs[i]
        if isinstance(s, MChain):
            s.trim(u0, u1, which=which)
        else:
            s.trim(u0, u1)

    def clone(self):
        c = MChain([s.clone() for s in self.segs])
        c.act = self.act
        return c

    def flat(self):
        return [f for s in self.segs for f in s.flat()]


# ------------------------------------------------------------------ generation
simple = st.one_of(C.line_spec, C.arc_spec)
# polyline-like members: connected to the previous end on request
def chain_of(inner):
    return st.fixed_dictionaries(
        {"k": st.just("chain"), "of": st.lists(inner, min_size=1, max_size=3)}
    )


nested = chain_of(st.one_of(simple, simple, chain_of(st.one_of(simple, chain_of(simple)))))
member = st.one_of(simple, simple, simple, chain_of(simple), nested)


def build_member(spec):
    if spec["k"] == "chain":
        parts = [build_member(s) for s in spec["of"]]
        return crv.CurveChain(*[p[0] for p in parts]), MChain([p[1] for p in parts])
    c, ref, _ = C.build(spec)
    ul = (
        float(np.linalg.norm(spec["d"]))
        if spec["k"] == "line"
        else spec["r"] * abs(spec["angle"])
    )
    return c, MSeg(ref, ul)


frac = fl(0.1, 0.9, 3)
op = st.one_of(
    st.fixed_dictionaries({"op": st.just("append"), "m": member}),
    st.fixed_dictionaries(
        {"op": st.just("insert"), "i": st.integers(0, 5), "m": member}
    ),
    st.fixed_dictionaries({"op": st.just("pop"), "i": st.integers(-3, 4)}),
    st.fixed_dictionaries({"op": st.just("del"), "i": st.integers(-3, 4)}),
    st.fixed_dictionaries(
        {"op": st.just("extend"), "ms": st.lists(member, min_size=1, max_size=2)}
    ),
    st.fixed_dictionaries({"op": st.just("set"), "i": st.integers(0, 4), "m": member}),
    st.fixed_dictionaries({"op": st.just("reverse")}),
    st.fixed_dictionaries(
        {"op": st.just("start"), "i": st.integers(0, 4), "f": frac, "keep": st.booleans()}
    ),
    st.fixed_dictionaries(
        {"op": st.just("end"), "i": st.integers(0, 4), "f": frac, "keep": st.booleans()}
    ),
    st.fixed_dictionaries(
        {
            "op": st.just("both"),
            "i": st.integers(0, 4),
            "f": fl(0.05, 0.45, 3),
            "j": st.integers(0, 4),
            "g": fl(0.55, 0.95, 3),
            "keep": st.booleans(),
        }
    ),
    st.fixed_dictionaries(
        {
            "op": st.just("cut"),
            "i": st.integers(0, 4),
            "f": frac,
            "keep": st.booleans(),
            "side": st.integers(0, 1),
        }
    ),
    st.fixed_dictionaries({"op": st.just("copy"), "side": st.integers(0, 1)}),
    st.fixed_dictionaries({"op": st.just("deactivate"), "i": st.integers(0, 4)}),
    st.fixed_dictionaries({"op": st.just("purge")}),
)


def active_idx(model):
    return [i for i, s in enumerate(model.segs) if s.active and s.length > 1e-6]


def seg_param(model, i, f):
    a, b = model.bounds()[i]
    return a + (b - a) * f


def leaf_ok(seg, u):
    """stay away from junctions inside a nested member"""
    if isinstance(seg, MChain):
        i, v = seg.locate(u)
        return 0.02 < v < 0.98 and leaf_ok(seg.segs[i], v)
    return True


def compare(chain, model, what):
    need(len(chain) == len(model.segs), "%s: %d members instead of %d", what, len(chain), len(model.segs))
    need(chain.num_curves == len(model.segs), "%s: num_curves", what)
    L = model.length
    close(chain.length, L, 1e-8 * (1 + L), what + ": length")
    close(
        chain.length_array,
        np.array([s.length if s.active else 0.0 for s in model.segs]),
        1e-8 * (1 + L),
        what + ": length_array",
    )
    need(
        [bool(a) for a in chain.active_list] == [bool(s.active) for s in model.segs],
        "%s: active members",
        what,
    )
    bs = model.bounds()
    close(
        chain.get_length_portions(),
        np.array([0.0] + [b for _, b in bs]),
        1e-9,
        what + ": length portions",
    )
    leaves, mleaves = chain.get_curves(), model.flat()
    need(len(leaves) == len(mleaves), "%s: flattened members", what)
    for c, m in zip(leaves, mleaves):
        need(not isinstance(c, crv.CurveChain), "%s: flattened members are not chains", what)
        exp = m.at(0.4)
        close(c(0.4), exp, 1e-7 * (1 + np.abs(exp).max()), what + ": flattened member")
    need(bool(chain.active) == bool(model.active), "%s: active", what)
    # pointwise: inside every active member, plus both ends and slight extrapolation
    for i in active_idx(model):
        a, b = bs[i]
        close(chain.get_t_for_index(i), (a, b), 1e-9, what + ": get_t_for_index")
        for f in (0.03, 0.31, 0.77, 0.97):
            if not leaf_ok(model.segs[i], f):
                continue
            s = a + (b - a) * f
            exp = model.at(s)
            close(chain(s), exp, 1e-7 * (1 + np.abs(exp).max()), what + ": point")
            ii, ss = chain.get_s_index(s)
            need(ii == i, "%s: get_s_index member", what)
            close(ss, f, 1e-7, what + ": get_s_index parameter")
    S = np.array([0.0, 1.0, -0.01, 1.01])
    exp = np.array([model.at(s) for s in S])
    close(chain(S), exp, 1e-7 * (1 + np.abs(exp).max()), what + ": ends")
    gaps = [
        np.linalg.norm(x.at(1.0) - y.at(0.0))
        for x, y in zip(model.segs[:-1], model.segs[1:])
        if x.active and y.active
    ]
    if all(g < 1e-11 or g > 1e-6 for g in gaps):
        need(
            bool(chain.is_continuous) == all(g < 1e-11 for g in gaps),
            "%s: is_continuous",
            what,
        )


def run_history(case):
    parts = [build_member(m) for m in case["init"]]
    if case["connect"]:
        # connected polyline: every line starts where the previous member ends
        pts = [np.array(parts[0][1].at(0.0))]
        parts = []
        for k, m in enumerate(case["init"]):
            d = np.array(m["d"]) if m["k"] == "line" else np.array([1.0 + k, 2.0, 0.5])
            c, s = build_member({"k": "line", "p0": list(pts[-1]), "d": list(d)})
            pts.append(pts[-1] + d)
            parts.append((c, s))
    chain = crv.CurveChain(*[p[0] for p in parts])
    model = MChain([p[1] for p in parts])
    compare(chain, model, "new chain")
    labels = []
    for o in case["ops"]:
        k = o["op"]
        act = active_idx(model)
        n = len(model.segs)
        if k == "append":
            c, m = build_member(o["m"])
            chain.append(c)
            model.segs.append(m)
        elif k == "insert":
            c, m = build_member(o["m"])
            chain.insert(o["i"] % (n + 1), c)
            model.segs.insert(o["i"] % (n + 1), m)
        elif k == "extend":
            ms = [build_member(x) for x in o["ms"]]
            chain.extend([x[0] for x in ms])
            model.segs.extend([x[1] for x in ms])
        elif k == "set":
            c, m = build_member(o["m"])
            chain[o["i"] % n] = c
            model.segs[o["i"] % n] = m
        elif k in ("pop", "del"):
            i = o["i"] % n if o["i"] >= 0 else -((-o["i"] - 1) % n + 1)
            if set(act) <= {i % n}:
                continue
            if k == "pop":
                want = chain[i]
                got = chain.pop(i) if i != -1 else chain.pop()
                need(got is want, "pop returns the removed member")
            else:
                del chain[i]
            del model.segs[i]
        elif k == "reverse":
            r = chain.reverse()
            need(r is chain, "reverse() returns the chain, as for any curve")
            model.reverse()
        elif k in ("start", "end", "cut", "both"):
            i = act[o["i"] % len(act)]
            if not leaf_ok(model.segs[i], o["f"]):
                continue
            s = seg_param(model, i, o["f"])
            if k == "start":
                chain.set_start_on(s, preserve_inactive_curves=o["keep"])
                model.trim(s, 1.0, o["keep"], "start")
            elif k == "end":
                chain.set_end_on(s, preserve_inactive_curves=o["keep"])
                model.trim(0.0, s, o["keep"], "end")
            elif k == "both":
                j = act[o["j"] % len(act)]
                if j < i or not leaf_ok(model.segs[j], o["g"]):
                    continue
                if i == j and isinstance(model.segs[i], MChain):
                    continue
                e = seg_param(model, j, o["g"])
                chain.set_start_and_end_on(s, e, preserve_inactive_curves=o["keep"])
                model.trim(s, e, o["keep"], "both")
                if i == j:
                    k = "both-one-member"
            else:
                before = [np.array(chain(u)) for u in (0.0, 0.37, 1.0)]
                a, b = chain.cut(s, preserve_inactive_curves=o["keep"])
                ma, mb = model.clone(), model.clone()
                ma.trim(0.0, s, o["keep"], "end")
                mb.trim(s, 1.0, o["keep"], "start")
                compare(a, ma, "first piece of a cut")
                compare(b, mb, "second piece of a cut")
                after = [np.array(chain(u)) for u in (0.0, 0.37, 1.0)]
                close(before, after, 0, "cut() changed the chain")
                compare(chain, model, "chain after cut()")
                close(
                    a.length + b.length, chain.length, 1e-7 * chain.length, "cut lengths"
                )
                chain, model = ((a, ma), (b, mb))[o["side"]]
        elif k == "copy":
            d = chain.copy()
            victim, keep = (d, chain) if o["side"] else (chain, d)
            victim.reverse()
            victim.set_start_on(0.3)
            for m in victim.get_curves():
                if isinstance(m, crv.LineCurve):
                    m.p1 = m.p1 + 1.0
                else:
                    m.center = m.center + 1.0
            victim.clear()
            chain = keep
        elif k == "deactivate":
            if len(act) < 2:
                continue
            i = act[o["i"] % len(act)]
            chain[i].active = False
            model.segs[i].active = False
        elif k == "purge":
            chain.del_inactive_curves()
            model.segs = [s for s in model.segs if s.active]
        assume(model.length > 1e-3 and active_idx(model))
        compare(chain, model, "after " + k)
        labels.append(k)
    return labels


# ------------------------------------------------------------------ fillets and queries
def check_fillet(case):
    """Rounding a corner: tangent arc of that radius, ends kept, chain stays continuous."""
    # in the xy plane; the search is not documented to succeed for tilted corners
    M = rotmat([0, 0, case["az"]])
    c0 = np.array(case["c"] + [0.0])
    th = case["th"] * case["side"]  # corner angle between the two legs
    la, lb = case["la"], case["lb"]
    ta = case["rel"] * min(la, lb)  # tangent length
    r = ta * math.tan(abs(th) / 2)
    pa = c0 + M @ np.array([la, 0, 0])
    pb = c0 + M @ (lb * np.array([math.cos(th), math.sin(th), 0]))
    chain = crv.CurveChain(crv.LineCurve(pa, c0), crv.LineCurve(c0, pb))
    if case["api"] == "index":
        out = chain.fillet_at_index(r, 0)
    elif case["api"] == "loc":
        out = chain.fillet(r, la / (la + lb))
    else:
        L = la + lb
        out = chain.fillet_at_locations(
            r, [(la - 0.9 * ta) / L, (la + 0.9 * ta) / L]
        )
    close(chain(0), pa, 1e-12 * 50, "fillet changed its source")
    close(chain(1), pb, 1e-12 * 50, "fillet changed its source")
    arcs = [c for c in out.get_curves() if isinstance(c, crv.ArcCurve)]
    need(len(arcs) == 1, "one arc expected, got %d", len(arcs))
    a = arcs[0]
    tol = 1e-4 * (la + lb)
    close(a.radius, r, 1e-4 * r + tol * 0.01, "fillet radius")
    close(out(0), pa, 1e-9 * 50, "start after fillet")
    close(out(1), pb, 1e-9 * 50, "end after fillet")
    u = (pa - c0) / la
    v = (pb - c0) / lb
    close(a(0), c0 + u * ta, tol, "fillet start")
    close(a(1), c0 + v * ta, tol, "fillet end")
    close(
        a.length, r * (PI - abs(th)), 1e-3 * r * (PI - abs(th)) + tol * 0.1, "fillet arc length"
    )
    members = [m for m in out.get_curves() if m.active]
    for m1, m2 in zip(members[:-1], members[1:]):
        need(
            np.linalg.norm(np.asarray(m1(1)) - np.asarray(m2(0))) < 1e-6 * (la + lb),
            "gap after fillet",
        )
        t1 = m1.derivative(1, -1)
        t2 = m2.derivative(0, 1)
        cosang = np.dot(t1, t2) / np.linalg.norm(t1) / np.linalg.norm(t2)
        need(cosang > 1 - 1e-5, "fillet arc is not tangent (cos=%g)", cosang)
    return [case["api"]]


def check_queries(case):
    """Intersection and nearest-point searches return what they are asked for."""
    M = rotmat(case["rv"])
    c0 = np.array(case["c"])
    r, a0, da = case["r"], case["a0"], case["da"]

    def place(p):
        return c0 + M @ np.asarray(p, float)

    arc = crv.ArcCurve.from_point_center_angle(
        p0=place([r * math.cos(a0), r * math.sin(a0), 0]),
        center=c0,
        angle=da,
        axis=M @ np.array([0, 0, 1.0]),
    )
    # line through a known interior point of the arc, known crossing angle
    f, g, ph = case["f"], case["g"], case["ph"]
    x = a0 + da * f
    X = np.array([r * math.cos(x), r * math.sin(x), 0])
    d = np.array([math.cos(x + ph), math.sin(x + ph), 0])  # radial +- ph
    ll = 0.8 * r
    line = crv.LineCurve(place(X - d * ll * g), place(X + d * ll * (1 - g)))
    guess = [min(1, max(0, f + case["df"])), min(1, max(0, g + case["dg"]))]
    res = crv.find_curve_intersect(arc, line, guess=guess)
    planar = np.linalg.norm(case["rv"]) == 0 and case["c"][2] == 0
    if planar:
        need(res.success, "transversal intersection not found from a near guess")
    if res.success:
        p, q = np.asarray(arc(res.x[0])), np.asarray(line(res.x[1]))
        close(p, q, 1e-6 * (1 + r), "points of an intersection differ")
        close(p, place(X), 1e-5 * (1 + r), "intersection point")
    res = crv.find_curve_intersect(
        arc, line, guess=guess, method=crv.IntersectMethod.MINDISTANCE
    )
    p, q = np.asarray(arc(res.x[0])), np.asarray(line(res.x[1]))
    need(np.linalg.norm(p - q) < 1e-4 * (1 + r), "closest points of crossing curves")
    n = M @ np.array([-math.sin(x + ph), math.cos(x + ph), 0])
    res = crv.find_curve_plane_intersect(
        arc, plane_normal=n, offset=place(X), guess=guess[0]
    )
    need(res.success, "plane intersection not found from a near guess")
    close(arc(res.x[0]), place(X), 1e-5 * (1 + r), "plane intersection point")
    # nearest point of the line to a point beside it / of the arc to a point on a radius
    w = case["w"]
    off = np.array([-d[1], d[0], 0]) * w
    s = crv.find_curve_nearest_point(line, place(X + off), guesses=[guess[1]])
    close(line(s), place(X), 1e-4 * (1 + r), "nearest point on a line")
    s = crv.find_curve_nearest_point(
        arc, place(X * (1 + case["w2"])), guesses=[guess[0]]
    )
    close(arc(s), place(X), 2e-4 * (1 + r), "nearest point on an arc")
    # winding number of a closed polygon
    N = case["n"]
    vs = [
        np.array([r * math.cos(2 * PI * k / N), r * math.sin(2 * PI * k / N), 0])
        for k in range(N)
    ]
    poly = crv.CurveChain(*[crv.LineCurve(vs[k], vs[(k + 1) % N]) for k in range(N)])
    need(poly.is_closed and poly.is_continuous, "closed polygon")
    need(not crv.CurveChain(*poly.get_curves()[:-1]).is_closed, "open polygon")
    inside = 0.3 * r * np.array([math.cos(a0), math.sin(a0), 0])
    outside = 1.7 * r * np.array([math.cos(a0), math.sin(a0), 0])
    idx = crv.curve_index(poly, np.array([inside, outside]), n_points=400)
    close(idx, [1.0, 0.0], 0.05, "winding number")
    close(crv.curve_index(poly, inside, n_points=400), 1.0, 0.05, "winding number")
    return []


PARTS = [
    Part(
        "history",
        st.fixed_dictionaries(
            {
                "init": st.lists(member, min_size=1, max_size=4),
                "connect": st.booleans(),
                "ops": st.lists(op, min_size=1, max_size=8),
            }
        ),
        run_history,
        quick=2400,
        thorough=40000,
        nontrivial=lambda c: len({o["op"] for o in c["ops"]}) >= 3,
        rule="at least three different kinds of edits in the history",
    ),
    Part(
        "fillet",
        st.fixed_dictionaries(
            {
                "az": fl(-3.2, 3.2, 3),
                "c": st.tuples(fl(-10, 10, 2), fl(-10, 10, 2)).map(list),
                "side": st.sampled_from([1, -1]),
                "th": fl(0.7, 2.6, 3),
                "la": fl(1, 8, 2),
                "lb": fl(1, 8, 2),
                "rel": fl(0.08, 0.45, 3),
                "api": st.sampled_from(["index", "loc", "locs"]),
            }
        ),
        check_fillet,
        quick=500,
        thorough=8000,
        rule="every case (a corner with legs long enough for the fillet)",
    ),
    Part(
        "queries",
        st.fixed_dictionaries(
            {
                "rv": st.one_of(st.just([0.0, 0.0, 0.0]), rotvec),
                "c": st.tuples(
                    fl(-5, 5, 2), fl(-5, 5, 2), st.one_of(st.just(0.0), fl(-5, 5, 2))
                ).map(list),
                "r": fl(0.5, 6, 2),
                "a0": fl(-3, 3, 2),
                "da": st.one_of(fl(0.8, 4, 2), fl(-4, -0.8, 2)),
                "f": fl(0.2, 0.8, 2),
                "g": fl(0.2, 0.8, 2),
                "ph": fl(-0.8, 0.8, 2),
                "df": fl(-0.07, 0.07, 3),
                "dg": fl(-0.1, 0.1, 3),
                "w": fl(0.1, 1, 2),
                "w2": fl(-0.4, 0.6, 2),
                "n": st.integers(3, 9),
            }
        ),
        check_queries,
        quick=400,
        thorough=6000,
        rule="every case (transversal crossing with a near starting guess)",
    ),
]
