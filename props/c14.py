"""C14: racks have the specified teeth and mesh with gears."""

import math

import numpy as np
from hypothesis import strategies as st

import gggears as gg
from lib import gears as G
from lib.gens import PI, fl, rotmat, rotvec, vec
from lib.harness import Part
from lib.meshing import Section
from lib.solid import Solid
from lib.util import assume, close, need

RULE = "rack displaced, tilted or offset; or helical; or filleted"
ASSUMPTIONS = [
    "flanks leave a tip land and a root land (a rack with pointed teeth is not valid input)",
    "meshing: gears with external teeth, parallel cylinder, tip clearance available",
    "herringbone racks are compared with gears anchored at the same plane",
]
DEG = G.DEG


class Model:
    """textbook rack in units of its transverse module; local x tip, y along, z width"""

    def __init__(self, s):
        self.s = s
        cb = math.cos(s["beta"]) if s["hel"] else 1.0
        self.m = s["m"] / cb
        self.add, self.ded = s["add"] * cb, s["ded"] * cb
        self.ta = math.tan(s["alpha"]) / cb
        self.half = PI / 4 - s["bl"]
        self.H = s["h"] / self.m
        self.tb = math.tan(s["beta"])
        self.N = s["N"]
        self.y0 = -(self.N - 1) / 2 * PI + (PI / 2 if self.N % 2 == 0 else 0.0)
        self.lo, self.hi = self.y0 - PI / 2, self.y0 + (self.N - 1) * PI + PI / 2
        self.land_tip = self.half - self.ta * self.add
        self.land_root = PI / 2 - self.half - self.ta * self.ded

    def slant(self, z):
        if self.s["herr"]:
            z = np.minimum(z, self.H - z)
        return -self.tb * z

    def top(self, y):
        """height of the outline over the untwisted coordinate y"""
        psi = np.abs((y + PI / 2) % PI - PI / 2)
        return np.clip((self.half - psi) / self.ta, -self.ded, self.add)

    def inside(self, p, eps):
        """+1 inside, -1 outside, 0 within eps of the surface or near a filleted corner"""
        x, y, z = p
        y = y - self.slant(z)
        d = [x + self.ded + 1, z, self.H - z, y - self.lo, self.hi - y]
        t = self.top(y)
        near = [abs(v) for v in d]
        psi = abs((y + PI / 2) % PI - PI / 2)
        ca = math.cos(math.atan(self.ta))
        df = (self.half - psi - self.ta * x) * ca
        if -self.ded <= x <= self.add:
            near.append(abs(df))
        if abs(psi) < self.half:
            near.append(abs(x - self.add))
        near.append(abs(x - t))
        near.append(abs(x + self.ded))
        if min(near) < eps:
            return 0
        for r, cx, cy in (
            (self.s["tf"], self.add, self.land_tip),
            (self.s["rf"], -self.ded, PI / 2 - self.land_root),
        ):
            if r and math.hypot(x - cx, psi - cy) < 2 * r + eps:
                return 0
        return 1 if min(d) > 0 and x < t else -1

    def area(self):
        """of one pitch"""
        a = PI + (self.add + self.ded) * (2 * self.half + self.ta * (self.ded - self.add))
        th = PI / 2 - math.atan(self.ta)
        seg = math.tan(th / 2) - th / 2
        return a - 2 * self.s["tf"] ** 2 * seg + 2 * self.s["rf"] ** 2 * seg

    def fits(self):
        th = PI / 2 - math.atan(self.ta)
        ft, fr = (self.s[k] * math.tan(th / 2) for k in ("tf", "rf"))
        L = (self.add + self.ded) / math.cos(math.atan(self.ta))
        return (
            self.land_tip > ft + 0.03 and self.land_root > fr + 0.03 and ft + fr < L - 0.05
        )


@st.composite
def rack(draw):
    hel = draw(st.booleans())
    s = {
        "hel": hel,
        "N": draw(st.one_of(st.integers(1, 12), st.integers(1, 40))),
        "m": draw(st.sampled_from([0.5, 1.0, 1.0, 2.0, 3.0])),
        "h": draw(fl(0.5, 8, 2)),
        "alpha": draw(st.sampled_from([20.0, 20.0, 14.5, 17.5, 25.0])) * DEG,
        "add": draw(fl(0.5, 1.1, 2)),
        "ded": draw(fl(0.5, 1.3, 2)),
        "bl": draw(st.sampled_from([0.0, 0.0, 0.02, 0.05, 0.1])),
        "tf": draw(st.sampled_from([0.0, 0.0, 0.05, 0.1])),
        "rf": draw(st.sampled_from([0.0, 0.0, 0.05, 0.1, 0.2])),
        "beta": draw(st.one_of(st.just(0), st.integers(-35, 35))) * DEG,
        "herr": hel and draw(st.booleans()),
    }
    return s


def build(s, pos=None, rv=None, off=0.0):
    kw = dict(
        number_of_teeth=s["N"], height=s["h"], pressure_angle=s["alpha"], module=s["m"],
        root_fillet=s["rf"], tip_fillet=s["tf"], addendum_coefficient=s["add"],
        dedendum_coefficient=s["ded"], backlash=s["bl"], offset=off,
    )
    if pos is not None:
        kw["position"] = np.array(pos)
    if rv is not None:
        kw["orientation"] = rotmat(rv)
    if s["hel"]:
        return gg.HelicalRack(helix_angle=s["beta"], herringbone=s["herr"], **kw)
    return gg.InvoluteRack(beta_angle=s["beta"], **kw)


def check_solid(case):
    s = case["s"]
    M = Model(s)
    assume(M.fits(), "rack without lands")
    pos, rv, off = case["pos"], case["rv"], case["off"]
    if case["home"]:
        r, pos, rv, off = build(s), [0.0, 0, 0], [0.0, 0, 0], 0.0
    else:
        r = build(s, pos, rv, off)
    R = rotmat(rv)
    lab = ["helical" if s["hel"] else "plain"]
    if s["herr"]:
        lab.append("herringbone")
    if s["tf"] or s["rf"]:
        lab.append("fillet")
    part = r.build_part()
    need(len(part.solids()) == 1, "rack has %d solids", len(part.solids()))
    need(part.is_valid, "rack solid is not valid")
    vol = M.area() * M.N * M.H * M.m**3
    close(part.volume / vol, 1.0, 1e-5, "volume relative to %g" % vol)

    def world(p):
        q = np.array(p, float)
        q[1] += M.slant(q[2]) + off * PI
        return R @ (q * M.m) + np.array(pos)

    # membership of points around the whole tooth system
    solid = Solid(part)
    rng = np.random.default_rng(case["seed"])
    eps = 0.02
    pts = []
    for _ in range(12):
        pts.append(
            [rng.uniform(-M.ded - 1.2, M.add + 0.2), rng.uniform(M.lo - 0.3, M.hi + 0.3),
             rng.uniform(-0.1, 1.1) * M.H]
        )
    for _ in range(30):  # either side of a flank, land, end, or face
        k = rng.integers(0, M.N)
        yc = M.y0 + PI * k
        side = rng.choice([-1, 1])
        z = rng.uniform(0.05, 0.95) * M.H
        x = rng.uniform(-M.ded, M.add)
        d = rng.choice([-1, 1]) * 0.03
        kind = rng.integers(0, 7)
        fy = M.half - M.ta * x
        if kind <= 2:
            p = [x, yc + side * (fy + d), z]
        elif kind == 3:
            p = [M.add + d, yc + side * rng.uniform(0, M.land_tip), z]
        elif kind == 4:
            p = [-M.ded + d, yc + side * (PI / 2 - rng.uniform(0, M.land_root)), z]
        elif kind == 5:
            p = [x, yc + rng.uniform(-1, 1) * fy, rng.choice([0 + d, M.H + d])]
        else:
            p = [-M.ded - rng.uniform(0.1, 0.9), rng.choice([M.lo, M.hi]) + d, z]
        pts.append(p)
    used = 0
    for p in pts:
        q = np.array(p, float)
        q[1] += M.slant(q[2])
        want = M.inside(q, eps)
        if want == 0:
            continue
        used += 1
        need(
            solid.agrees(world(p), want > 0, 0.005 * M.m),
            "point at local %s is %s the solid", np.round(p, 4).tolist(),
            "outside" if want > 0 else "inside",
        )
    need(used > 5, "no points")
    # extreme corners are reached: bounding box (fillets keep the root corners)
    if not s["tf"]:
        cs = []
        for z in (0, M.H / 2, M.H):
            for k in (0, M.N - 1):
                yc = M.y0 + PI * k
                for sd in (-1, 1):
                    cs.append([M.add, yc + sd * M.land_tip, z])
                    cs.append([-M.ded, yc + sd * PI / 2, z])
                    cs.append([-M.ded - 1, yc + sd * PI / 2, z])
        W = np.array([world(c) for c in cs])
        bb = part.bounding_box()
        size = np.abs(W).max() + 1
        close(np.array(tuple(bb.min)), W.min(0), 1e-5 * size, "bounding box low")
        close(np.array(tuple(bb.max)), W.max(0), 1e-5 * size, "bounding box high")
    # building again gives the same rack
    if case["again"]:
        p2 = r.build_part()
        close(p2.volume, part.volume, 1e-6 * vol, "volume of the second build")
        close(
            np.array(tuple(p2.center())), np.array(tuple(part.center())), 1e-5,
            "centre of the second build",
        )
    return lab


# ------------------------------------------------------------------ meshing


@st.composite
def meshcase(draw):
    hel = draw(st.booleans())
    m = draw(st.sampled_from([0.5, 1.0, 1.0, 2.0, 3.0]))
    al = draw(st.sampled_from([20.0, 20.0, 14.5, 17.5, 25.0])) * DEG
    add = draw(fl(0.6, 1.0, 2))
    ded = round(add + draw(fl(0.1, 0.25, 2)), 3)
    beta = draw(st.one_of(st.just(0), st.integers(-35, 35))) * DEG
    fam = "helical" if hel else draw(st.sampled_from(["spur", "invo"]))
    if fam == "spur":
        beta = 0.0
    herr = hel and draw(st.booleans())
    h = draw(fl(0.5, 8, 2))
    r = {
        "hel": hel, "N": draw(st.integers(1, 21)), "m": m, "h": h, "alpha": al,
        "add": add, "ded": ded, "bl": draw(st.sampled_from([0.0, 0.0, 0.03, 0.1])),
        "tf": 0.0, "rf": 0.0, "beta": beta, "herr": herr,
    }
    g = {
        "fam": fam, "N": draw(st.integers(8, 60)), "m": m, "h": h, "alpha": al, "add": add,
        "ded": ded, "beta": beta, "cone": 0.0,
        "anchor": 0.0 if herr else draw(st.sampled_from([0.0, 0.0, 0.5, 0.3])),
        "tt": 0.1, "x": draw(st.one_of(st.just(0.0), fl(-0.3, 0.6, 2))),
        "uc": draw(st.booleans()), "rf": 0.0, "tf": draw(st.sampled_from([0.0, 0.0, 0.05])),
        "bl": draw(st.sampled_from([0.0, 0.0, 0.03])), "crown": 0.0,
        "pl": draw(G.place()),
    }
    if hel:
        g["herr"] = herr
    return {
        "r": r, "g": g, "dir": draw(fl(-3.2, 3.2, 3)), "tilt": draw(st.sampled_from([0.0, 0.0, 0.5])),
        "dlen": draw(st.sampled_from([1.0, 1.0, 0.3, 4.0])),
        "off": draw(st.sampled_from([0.0, 0.0, 1.0, -2.0, 3.0])),
        "ph": draw(st.lists(fl(0, 1, 3), min_size=1, max_size=2)),
        "start": {"c": draw(vec(-20, 20)), "rv": draw(rotvec), "off": draw(fl(-2, 2, 2))},
        "cad": draw(st.integers(0, 7)) == 0,
    }


def check_mesh(case):
    s, g = case["r"], case["g"]
    M, n = Model(s), G.Nominal(g)
    assume(M.land_tip > 0.03 and M.land_root > 0.03, "rack without lands")
    gear = G.build(g)
    st_ = case["start"]
    r = build(s, st_["c"], st_["rv"], st_["off"])
    R = np.array(gear.gearcore.transform.orientation)
    c0 = np.array(gear.gearcore.transform.center)
    ang0 = float(gear.gearcore.transform.angle)
    zax = R[:, 2]
    d = R @ np.array([math.cos(case["dir"]), math.sin(case["dir"]), 0.0])
    tdir = (d + case["tilt"] * zax) * case["dlen"]
    given = tdir.copy()
    r.mesh_to(gear, target_dir=tdir, offset=case["off"])
    close(tdir, given, 0, "mesh_to changed the direction passed in")
    close(np.array(gear.gearcore.transform.center), c0, 0, "mesh_to moved the gear")
    close(np.array(gear.gearcore.transform.orientation), R, 0, "mesh_to turned the gear")
    close(gear.gearcore.transform.angle, ang0, 0, "mesh_to turned the gear")
    O, P, off = np.array(r.orientation), np.array(r.position), float(r.offset)
    size = np.abs(c0).max() + n.rp * n.mt + 1
    close(O @ O.T, np.eye(3), 1e-9, "rack orientation is a rotation")
    close(np.linalg.det(O), 1.0, 1e-9, "rack orientation is a rotation")
    close(O[:, 2], zax, 1e-9, "rack width along the gear axis")
    close(O[:, 0], -d, 1e-9, "rack teeth point at the gear")
    dist = (n.rp + n.x) * n.mt
    close(P, c0 + d * dist, 1e-9 * size, "rack pitch line distance")
    need(abs(off - case["off"]) <= 0.5 + 1e-9, "offset %g instead of about %g", off, case["off"])
    lab = [g["fam"]]
    # --- play and interference on sections, through the rotation
    S0 = Section(gear, g, 0.0)
    assume(S0.u_hi + n.x * 0 < n.rp + n.x + M.ded - 0.02, "tip clearance")
    assume(S0.u_lo < n.rp + n.x - M.add - 0.02, "tip clearance")
    # rack tips reach below the point where the involute starts: needs an undercut
    inside = M.add - n.x < n.rp * math.sin(n.alpha) ** 2 - 0.01
    assume(inside or g["uc"], "involute interference")
    # contact ratio on the line of action
    ra = S0.u_hi
    e_tip = math.sqrt(max(0.0, ra**2 - n.rb**2)) - n.rp * math.sin(n.alpha)
    e_rack = min((M.add - n.x) / math.sin(n.alpha), n.rp * math.sin(n.alpha))
    cr = (e_tip + e_rack) / (PI * math.cos(n.alpha))
    zr = case["ph"][0]
    lo, hi = max(0.0, -g["anchor"] * n.zh), (1 - g["anchor"]) * n.zh
    z = lo + (hi - lo) * zr
    S = Section(gear, g, z)
    ratio = z / n.zh + g["anchor"]
    want = (M.s["bl"] + g["bl"]) * n.mt  # clearance on either side at the centred phase
    outline = []
    for k in range(-5, 6):
        for sd in (-1, 1):
            x = np.linspace(-M.ded, M.add, 120)
            outline.append(np.stack([x, k * PI + sd * (M.half - M.ta * x), 0 * x], 1))
        outline.append(np.array([[M.add, k * PI + t * M.land_tip, 0] for t in np.linspace(-1, 1, 9)]))
        outline.append(
            np.array([[-M.ded, (k + 0.5) * PI + t * M.land_root, 0] for t in np.linspace(-1, 1, 9)])
        )
    loc = np.concatenate(outline)
    a0 = S.angle
    for ph in [0.0] + case["ph"]:
        th = ph * n.pitch
        S.angle = a0 + th
        w = loc.copy()
        # turning the gear by th moves the rack along its line by the same arc
        # (counter-clockwise on the side of the rack is local -y)
        w[:, 1] += M.slant(z) + off % 1 * PI
        W = (O @ (w * n.mt).T).T + P + np.cross(zax, d) * th * n.rp * n.mt
        W = W + zax * z * n.mt
        ccw, cw, depth = S.clearance(W)
        # clearances are arcs on the pitch circle
        need(depth < 1e-3 * n.mt, "rack tip %g below the gear's root", depth)
        tol = 3e-3 * n.mt
        for v, side in ((ccw, "ccw"), (cw, "cw")):
            need(
                v > want - tol,
                "rack and gear overlap at phase %g (%s clearance %g, expected %g)",
                ph, side, v, want,
            )
        if cr > 1.15 and inside and not g["uc"] and not g["tf"]:
            for v, side in ((ccw, "ccw"), (cw, "cw")):
                need(
                    v < want + tol,
                    "rack does not touch the gear at phase %g (%s clearance %g, expected %g)",
                    ph, side, v, want,
                )
            lab.append("contact decided")
    # --- the solid is where the transform says
    if case["cad"]:
        part = r.build_part()
        solid = Solid(part)
        y0 = off * PI
        for p, want_in in (
            ([M.add - 0.1, 0, 0.5 * M.H], True),
            ([M.add + 0.1, 0, 0.5 * M.H], False),
            ([0, M.half - 0.05, 0.02 * M.H], True),
            ([0, M.half + 0.05, 0.98 * M.H], False),
            ([0, -M.half + 0.05, 0.98 * M.H], True),
            ([0, -M.half - 0.05, 0.02 * M.H], False),
            ([0, 0, -0.05], False),
        ):
            q = np.array(p, float)
            q[1] += M.slant(q[2]) + y0
            need(
                solid.agrees(O @ (q * M.m) + P, want_in, 0.005 * M.m),
                 "meshed solid misplaced at local %s", p)
        lab.append("solid")
    return lab


solid_case = st.fixed_dictionaries(
    {
        "s": rack(), "pos": vec(-20, 20), "rv": rotvec, "off": fl(-4, 4, 2),
        "home": st.integers(0, 4).map(lambda i: i == 0), "seed": st.integers(0, 10**6),
        "again": st.integers(0, 3).map(lambda i: i == 0),
    }
)


def nt_solid(c):
    s = c["s"]
    return (not c["home"] and (any(c["pos"]) or any(c["rv"]) or c["off"] != 0)) or bool(
        s["beta"] or s["tf"] or s["rf"]
    )


PARTS = [
    Part("solid", solid_case, check_solid, 350, 4000, nontrivial=nt_solid, rule=RULE),
    Part(
        "mesh", meshcase(), check_mesh, 400, 6000,
        nontrivial=lambda c: bool(any(c["g"]["pl"]["c"]) or any(c["g"]["pl"]["rv"]) or c["off"]),
        rule="gear displaced or tilted, or offset teeth",
    ),
]
