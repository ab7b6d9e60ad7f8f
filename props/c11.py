"""C11: the CAD solid is the gear that was specified."""

import math

import numpy as np
from hypothesis import strategies as st

import build123d as bd
import gggears.curve as crv
import gggears.gggears_build123d as gbd
from lib import curves as C
from lib import gears as G
from lib.gens import PI, fl, rotmat, rotvec, rotz, vec
from lib.harness import Part
from lib.solid import Solid
from props.c09 import _mirror, conv_spec
from lib.util import assume, close, need

RULE = "gear displaced, tilted or turned; or helix, crowning or cone"
ASSUMPTIONS = [
    "teeth as in C01; 8 to 30 teeth for speed",
    "points are classified 0.02 module away from the specified surface (spline fit)",
    "volume within 5e-4 (2e-3 with a helix) of the integrated specified sections (spline fit)",
]
EPS = 0.02


def outline(g, n, r, pts=60):
    """closed outline of the section at ratio r, section frame, module 1: (u, azimuth)
    along one pitch"""
    p = g.gearcore.curve_gen_at_z(n.z(r))
    P = []
    for c in (p.rd_curve, p.tooth_curve, p.ra_curve, p.tooth_curve_mirror):
        if c.active and c.length > 1e-9:
            k = 12 if c in (p.rd_curve, p.ra_curve) else pts
            P.append(G.sample(c, k))
    return np.concatenate(P)


def pitch_integral(P, n):
    """area between axis and outline of one pitch (solid angle for cones)"""
    if n.gamma == 0:
        x, y = P[:, 0], P[:, 1]
        return 0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])
    R = n.rp / math.sin(n.gamma)
    u, a = n.to_polar(P)
    th = u / R + n.gamma
    a = np.unwrap(a)
    # simpson free: trapezoids of (1 - cos th) over azimuth
    f = 1 - np.cos(th)
    return np.sum(0.5 * (f[1:] + f[:-1]) * np.diff(a))


def simpson(f, a, b, k):
    x = np.linspace(a, b, 2 * k + 1)
    y = np.array([f(t) for t in x])
    w = np.ones(2 * k + 1)
    w[1:-1:2], w[2:-1:2] = 4, 2
    return (b - a) / (6 * k) * np.sum(w * y)


class Body:
    """the specified solid in the gear's own frame (module 1, untwisted, no placement)"""

    def __init__(self, s):
        self.s = s
        self.n = n = G.Nominal(s)
        self.g = G.build(dict(s, pl=G.HOME))
        self.ring = s["fam"] in G.RINGS
        self.cache = {}
        if n.gamma:
            self.R = n.rp / math.sin(n.gamma)
            self.th_o = n.gamma - n.ho / self.R
            self.apex = np.array([0, 0, n.rp / math.tan(n.gamma)])

    def out(self, r):
        if r not in self.cache:
            self.cache[r] = outline(self.g, self.n, r)
        return self.cache[r]

    def volume(self):
        """in world units"""
        n, s = self.n, self.s
        k = 1 if s["crown"] == 0 else 2
        if n.gamma == 0:
            f = lambda r: s["N"] * pitch_integral(self.out(round(r, 6)), n)  # noqa: E731
            A = f(0.0) if k == 1 else simpson(f, 0, 1, k)
            if self.ring:
                A = PI * (n.rp - n.ho) ** 2 - A
            return A * n.zh * n.mt**3
        cap = 2 * PI * (1 - math.cos(self.th_o))
        R0, R1 = (self.R * n.scale(r) for r in (0.0, 1.0))

        def shell(r):
            return (s["N"] * pitch_integral(self.out(round(r, 6)), n) - cap) * (self.R * n.scale(r)) ** 2

        if k == 1:
            w = s["N"] * pitch_integral(self.out(0.0), n) - cap
            V = w * (R0**3 - R1**3) / 3
        else:
            V = simpson(shell, 0, 1, k) * n.zh
        r0, r1 = R0 * math.sin(self.th_o), R1 * math.sin(self.th_o)
        h = (R0 - R1) * math.cos(self.th_o)
        V += PI * h / 3 * (r0 * r0 + r0 * r1 + r1 * r1)
        return V * n.mt**3

    def point(self, r, u, a, d=0.0):
        """point of the body at height ratio r (any), height u over the pitch circle,
        azimuth a from the tooth's middle at that height; gear frame, world units"""
        n = self.n
        rr, zz = n.radius_at(u)
        q = np.array([rr * math.cos(a), rr * math.sin(a), zz]) * n.scale(r)
        q = rotz(n.twist(r)) @ q + [0, 0, n.z(r) * math.cos(n.gamma)]
        return q * n.mt

    def flank(self, r):
        """(heights, azimuths, normals) of the flank points at ratio r"""
        p = self.g.gearcore.curve_gen_at_z(self.n.z(r))
        f = G.sample(p.tooth_curve, 40)
        return self.n.to_polar(f)


def probes(B, rng, count):
    """generated (point, inside?) pairs around the specified surface"""
    s, n = B.s, B.n
    out = []
    for _ in range(count):
        r = float(rng.uniform(0.03, 0.97))
        # stay away from the end faces by the same distance
        lo = EPS / n.zh * 1.5
        if lo > 0.4:
            r = 0.5
        else:
            r = float(np.clip(r, lo, 1 - lo))
        kind = rng.integers(0, 10)
        k = int(rng.integers(0, s["N"]))
        u, a = B.flank(round(r, 3))
        r = round(r, 3)
        side = float(rng.choice([-1, 1]))
        inn = bool(rng.integers(0, 2))
        lat = EPS / (n.rp * n.scale(r))
        if kind <= 5:
            # beside the flank, away from its corners
            j = int(rng.integers(3, len(u) - 3))
            # steep flanks: offset along the normal of the flank in (arc, height)
            t = np.array([(a[j + 1] - a[j - 1]) * (n.rp + u[j]), u[j + 1] - u[j - 1]])
            nn = np.array([-t[1], t[0]]) / np.linalg.norm(t)  # to the left: outside
            d = EPS / n.scale(r) * (-1 if inn else 1)
            az, hh = a[j] + nn[0] * d / (n.rp + u[j]), u[j] + nn[1] * d
            # must not come near another part of the outline
            P = B.out(r)
            uu, aa = n.to_polar(P)
            aa = np.concatenate([aa - n.pitch, aa, aa + n.pitch])
            uu = np.concatenate([uu, uu, uu])
            dist = np.hypot((aa - az) * (n.rp + hh), uu - hh).min() * n.scale(r)
            if dist < 0.8 * EPS:
                continue
            want = inn
            pt = (hh, side * (-az) if side > 0 else az)
        elif kind == 6:
            # over the tip or inside the tip, at the middle of the tooth
            d = EPS / n.scale(r) * (-1.5 if inn else 1.5)
            if abs(a[-1]) * n.rp < 2 * EPS:
                continue
            pt, want = (u[-1] + d, 0.0), inn
        elif kind == 7:
            # gap bottom
            if (n.pitch / 2 - abs(a[0])) * (n.rp + u[0]) < 2 * EPS:
                continue
            d = EPS / n.scale(r) * (-1.5 if inn else 1.5)
            pt, want = (u[0] + d, n.pitch / 2), inn
        elif kind == 8:
            # beyond the faces
            if n.gamma:
                dz = EPS * 1.5 / n.zh
                r = float(rng.choice([dz, -dz, 1 - dz, 1 + dz]))
                pt, want = (0.0, 0.0), 0 < r < 1
                if abs(dz) > 0.4:
                    continue
            else:
                dz = EPS / n.zh
                r = float(rng.choice([dz, -dz, 1 - dz, 1 + dz]))
                if dz > 0.4:
                    continue
                pt, want = (u[0] * 0.5 if u[0] < 0 else 0.0, 0.0), 0 < r < 1
        else:
            # the body: hub of gears, rim of rings
            if n.gamma:
                # in the frustum between the outside circles, close to its bottom and top
                if B.ring:
                    continue
                E = [np.array(n.radius_at(-n.ho)) * n.scale(x) for x in (0.0, 1.0)]
                zz = [E[i][1] + n.z(float(i)) * math.cos(n.gamma) for i in (0, 1)]
                hh = zz[1] - zz[0]
                if hh < 4 * EPS:
                    continue
                zc = float(rng.choice([zz[0] + EPS, zz[0] - EPS, zz[1] - EPS, zz[1] + EPS]))
                want = zz[0] < zc < zz[1]
                w_ = (zc - zz[0]) / hh
                rr = (E[0][0] * (1 - w_) + E[1][0] * w_) * float(rng.uniform(0.2, 0.8))
                az = float(rng.uniform(0, 6))
                p = np.array([rr * math.cos(az), rr * math.sin(az), zc]) * n.mt
                out.append((p, want, "hub r=%.3f z=%.3f" % (rr, zc)))
                continue
            elif B.ring:
                far = bool(rng.integers(0, 2))
                pt = (-n.ho + (EPS if far else -EPS), float(rng.uniform(0, 6)))
                want = not far
            else:
                pt, want = (-n.rp * 0.9, float(rng.uniform(0, 6))), True
        if B.ring and kind != 9:
            if kind == 8:
                # middle of the ring's tooth is the middle of the gap in the profile
                pt = (pt[0], n.pitch / 2)
            else:
                want = not want
        p = B.point(r, pt[0], pt[1] + k * n.pitch)
        out.append((p, want, "%s r=%.3f u=%.3f az=%.4f" % (kind, r, pt[0], pt[1])))
    return out


def boxes(B, M, c, a):
    """bounding box the specified gear has in the world (sampled outline, both faces and
    some heights between)"""
    s, n = B.s, B.n
    W = []
    rs = [0.0, 1.0] if not s["beta"] and not s["cone"] else np.linspace(0, 1, 9)
    for r in rs:
        if B.ring:
            t = np.linspace(0, 2 * PI, 721)
            rr, zz = n.radius_at(-n.ho)
            P = np.stack([rr * np.cos(t), rr * np.sin(t), zz + 0 * t], 1)
        else:
            Q = B.out(0.0 if s["crown"] == 0 else round(float(r), 3))
            P = np.concatenate([Q @ rotz(k * n.pitch).T for k in range(s["N"])])
            if n.gamma:
                t = np.linspace(0, 2 * PI, 361)
                rr, zz = n.radius_at(-n.ho)
                P = np.concatenate([P, np.stack([rr * np.cos(t), rr * np.sin(t), zz + 0 * t], 1)])
        P = (P * n.scale(r)) @ rotz(n.twist(r)).T + [0, 0, n.z(r) * math.cos(n.gamma)]
        W.append(P * n.mt)
    W = np.concatenate(W) @ rotz(a).T @ M.T + c
    return W.min(0), W.max(0)


def check_gear(case):
    s = case["g"]
    B = Body(s)
    n = B.n
    g = G.build(s)
    lab = [s["fam"]]
    part = g.build_part()
    need(part.is_valid, "part is not valid")
    need(len(part.solids()) == 1, "part has %d solids", len(part.solids()))
    vol = B.volume()
    vtol = 2e-3 if s["beta"] else 5e-4
    close(part.volume / vol, 1.0, vtol, "volume relative to the specified %g" % vol)
    rng = np.random.default_rng(case["seed"])
    pl = s["pl"]

    def inspect(part, c, M, a, count, what):
        S = Solid(part)
        used = 0
        for p, want, desc in probes(B, rng, count):
            w = M @ (rotz(a) @ p) + c
            need(
                S.agrees(w, want, 0.005 * n.mt), "%s: point is %s the solid: %s", what,
                "outside" if want else "inside", desc,
            )
            used += 1
        lo, hi = boxes(B, M, c, a)
        bb = part.bounding_box()
        # CAD bounding boxes of curved faces are generous outwards
        size = n.mt
        got_lo, got_hi = np.array(tuple(bb.min)), np.array(tuple(bb.max))
        tin = 0.03 * size
        need(np.all(got_lo < lo + tin), "%s: bounding box starts at %s, expected %s", what, got_lo, lo)
        need(np.all(got_hi > hi - tin), "%s: bounding box ends at %s, expected %s", what, got_hi, hi)
        tout = (0.5 if (s["cone"] or s["beta"]) else 0.1) * size
        need(np.all(got_lo > lo - tout), "%s: bounding box starts at %s, expected %s", what, got_lo, lo)
        need(np.all(got_hi < hi + tout), "%s: bounding box ends at %s, expected %s", what, got_hi, hi)
        # centre of mass on the axis
        cm = (np.array(tuple(part.center(bd.CenterOf.MASS))) - c) @ M
        rad = n.rp * n.mt
        close(cm[:2], [0, 0], 2e-3 * rad, what + ": centre of mass on the axis")
        if n.gamma == 0:
            close(cm[2], (0.5 - s["anchor"]) * s["h"], 2e-3 * rad + 1e-3 * s["h"], what + ": centre of mass")
        return used

    c, M, a = np.array(pl["c"]), rotmat(pl["rv"]), pl["a"]
    need(inspect(part, c, M, a, case["count"], "built") > 0, "no probes")
    # --- move and update against the same oracle
    if case["mv"]:
        mv = case["mv"]
        g.center = np.array(mv["c"])
        g.gearcore.transform.orientation = rotmat(mv["rv"])
        g.angle = mv["a"]
        p2 = g.update_part()
        need(len(p2.solids()) == 1 and p2.is_valid, "updated part is not valid")
        close(p2.volume, part.volume, 1e-6 * vol, "volume of the updated part")
        inspect(p2, np.array(mv["c"]), rotmat(mv["rv"]), mv["a"], case["count"] // 2, "updated")
        # the part handed out before stays where it was
        inspect(part, c, M, a, 3, "earlier part")
        lab.append("updated")
    return lab


@st.composite
def gear_case(draw, fams, nmax, count):
    s = draw(G.gear(fams=fams, nmax=nmax))
    return {
        "g": s, "seed": draw(st.integers(0, 10**6)), "count": count,
        "mv": draw(
            st.one_of(
                st.none(),
                st.fixed_dictionaries({"c": vec(-30, 30), "rv": rotvec, "a": fl(-3, 3, 3)}),
            )
        ),
    }


def nontrivial(c):
    s = c["g"]
    return bool(any(s["pl"]["c"]) or any(s["pl"]["rv"]) or s["pl"]["a"] or s["beta"] or s["crown"] or s["cone"])


# ------------------------------------------------------------- edges of curves


def flat_edges(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += flat_edges(y)
        return out
    return [x]


def edge_points(e, k=25):
    return np.array([tuple(e.position_at(t)) for t in np.linspace(0, 1, k)])


def check_edges(case):
    """CAD edges of a curve or chain cover it from end to end and nothing else"""
    curves, P = [], []
    for sp, tr in zip(case["c"], case["t"]):
        c = C.build(sp)[0]
        trim = tr is not None and sp["k"] != "nurb" and sp.get("of", {}).get("k") != "nurb"
        if trim:
            c = c.copy()
            c.set_start_on(tr[0])
            c.set_end_on(tr[1])
        curves.append(c)
        P.append(C.dense(c, 200))
    L = sum(C.polylen(q) for q in P)
    if len(curves) == 1 and not case["chain"]:
        edges = flat_edges(gbd.curve_to_edges(curves[0]))
    else:
        edges = flat_edges(gbd.curve_to_edges(crv.CurveChain(*curves)))
    for q, c in zip(P, curves):
        close(C.dense(c, 200), q, 0, "curve changed by the conversion")
    got = [edge_points(e) for e in edges]
    exact = all(sp["k"] in ("line", "arc", "nurb") for sp in case["c"])
    tol = 1e-5 * (1 + L) if exact else 1e-2 * max(C.polylen(q) for q in P) + 5e-4
    slack = 2e-4 * L
    allgot = np.concatenate(got)
    # every edge lies on the curves
    d = np.min([G.dist_to_polyline(allgot, q) for q in P], axis=0).max()
    need(d < tol + slack, "edges leave the curve by %g", d)
    # every curve is covered
    for k, q in enumerate(P):
        d = np.min([G.dist_to_polyline(q[::5], e) for e in got], axis=0).max()
        # edges are sampled coarsely: allow for their sagitta
        need(d < tol + 6e-3 * C.polylen(q), "curve %d is not covered by the edges (%g)", k, d)
        ends = np.concatenate([[e[0], e[-1]] for e in got])
        for w in (q[0], q[-1]):
            dd = np.linalg.norm(ends - w, axis=1).min()
            need(dd < 1e-4 * (1 + L), "end of curve %d is %g from any end of the edges", k, dd)
    close(sum(e.length for e in edges) / L, 1.0, 5e-3 if exact else 2e-2 + 1.5e-3 * len(P) / L, "total length of the edges")
    return [sp["k"] for sp in case["c"]] + (["chain"] if len(curves) > 1 or case["chain"] else [])


trimming = st.one_of(st.none(), st.sampled_from([[0.0, 0.6], [0.3, 1.0], [0.2, 0.9]]))


def arcs_fit(sp):
    # a mirrored arc is approximated by one segment: less than half a turn
    return sp["k"] != "mirror" or abs(sp["of"].get("angle", 0)) < 3 or sp["of"]["k"] != "arc"


edge_spec = st.one_of(conv_spec, conv_spec, _mirror(conv_spec)).filter(arcs_fit)


@st.composite
def edge_case(draw):
    k = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return {
        "c": [draw(edge_spec) for _ in range(k)],
        "t": [draw(trimming) for _ in range(k)],
        "chain": draw(st.booleans()),
    }


CYL = ["spur", "invo", "helical", "helring", "ring", "cyc", "cycring"]

PARTS = [
    Part("cylindrical", gear_case(CYL, 30, 24), check_gear, 130, 3000, nontrivial=nontrivial, rule=RULE),
    Part("conical", gear_case(["bevel", "cycbevel"], 20, 16), check_gear, 28, 600, nontrivial=nontrivial, rule=RULE),
    Part(
        "edges", edge_case(), check_edges, 800, 12000,
        nontrivial=lambda c: len(c["c"]) > 1 or c["t"][0] is not None or c["c"][0]["k"] not in ("line",),
        rule="a chain, a trimmed curve, or not a plain line",
    ),
]
