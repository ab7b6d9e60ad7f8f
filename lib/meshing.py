"""Play and interference of two gears from their sections, by angular clearances.

The outline of gear B is described by its half tooth angle h(u) as a function of the
height u (radius, or polar angle seen from the apex for conical gears). Every point of
the other gear has a clearance to B's flanks in both senses of rotation; the minimum over
all points is how far B can be turned before the gears touch (negative: they overlap)."""

import math

import numpy as np

from lib import gears as G
from lib.gens import rotz


class Section:
    """Section of a gear at core height z (module units); n is its nominal model.
    Placement is read from the gear's transform at construction."""

    def __init__(self, gear, spec, z, n=None, pts=160):
        n = n or G.Nominal(spec)
        self.n = n
        self.N = spec["N"]
        self.ring = spec["fam"] in G.RINGS
        self.z = z
        ratio = z / n.zh + spec["anchor"]
        p = gear.gearcore.curve_gen_at_z(z)
        fl = G.sample(p.tooth_curve, pts)
        self.conic = n.gamma != 0
        apex = np.array([0, 0, n.rp / math.tan(n.gamma)]) if self.conic else None
        self.apex_local = apex
        # lands at the tip and the root: corner points are the ends of the flank
        self.sc = n.scale(ratio)
        self.twist = n.twist(ratio)
        # local section frame: flank at negative azimuth
        u, a = self._polar(fl)
        self.u_lo, self.u_hi = u[0], u[-1]
        self.hu, self.ha = u, -a
        keep = np.concatenate([[True], np.diff(np.maximum.accumulate(u)) > 1e-12])
        self.hu, self.ha = u[keep], -a[keep]
        land = []
        for c in (p.ra_curve, p.rd_curve):
            if c.active and c.length > 1e-6:
                land.append(G.sample(c, 15))
        both = np.concatenate([fl, fl * np.array([1, -1, 1])] + land)
        self.tooth = both
        self.set_transform(gear.gearcore.transform)

    def _polar(self, p):
        """section frame (module 1) -> (height coordinate, azimuth)"""
        p = np.atleast_2d(p)
        a = np.arctan2(p[:, 1], p[:, 0])
        if not self.conic:
            return np.hypot(p[:, 0], p[:, 1]), a
        d = p - self.apex_local
        return np.arctan2(np.hypot(d[:, 0], d[:, 1]), -d[:, 2]), a

    def set_transform(self, t):
        self.c = np.array(t.center, float)
        self.M = np.array(t.orientation, float)
        self.angle = float(t.angle)
        self.m = float(t.scale)

    def world(self, p):
        """section frame -> world"""
        q = p @ rotz(self.twist).T * self.sc
        q = q + np.array([0, 0, self.z * math.cos(self.n.gamma)])
        return (q @ rotz(self.angle).T) @ self.M.T * self.m + self.c

    def local(self, w):
        """world -> section frame"""
        q = (np.atleast_2d(w) - self.c) @ self.M / self.m
        q = q @ rotz(-self.angle).T
        q = q - np.array([0, 0, self.z * math.cos(self.n.gamma)])
        return (q / self.sc) @ rotz(-self.twist).T

    def points(self):
        """outline points of all teeth, world"""
        return np.concatenate(
            [self.world(self.tooth @ rotz(k * self.n.pitch).T) for k in range(self.N)]
        )

    def clearance(self, w, du=0.0):
        """(ccw, cw, depth): how far this gear can turn in each sense before it touches
        the world points w, as arc lengths on the pitch circle (world units); depth is how
        far points reach behind the root of the gap (positive: overlap). Touching tip
        lands at the same height are ignored within du."""
        q = self.local(w)
        u, a = self._polar(q)
        pitch = self.n.pitch
        unit = self.n.rp * self.sc * self.m
        if self.ring:
            sel = u > self.u_lo + du
            depth = u[sel] - self.u_hi if sel.any() else np.array([-1.0])
            psi = (a[sel] + pitch / 2) % pitch - pitch / 2
            h = np.interp(u[sel], self.hu, self.ha)
            ccw, cw = psi + h, h - psi
        else:
            sel = u < self.u_hi - du
            depth = self.u_lo - u[sel] if sel.any() else np.array([-1.0])
            psi = a[sel] % pitch
            h = np.interp(u[sel], self.hu, self.ha)
            ccw, cw = psi - h, pitch - psi - h
        # points behind the root circle have no flank height: only the depth counts
        ok = depth <= 0
        inf = np.array([math.inf])
        ccw = np.concatenate([ccw[ok], inf]).min()
        cw = np.concatenate([cw[ok], inf]).min()
        dunit = unit / math.sin(self.n.gamma) if self.conic else self.sc * self.m
        return ccw * unit, cw * unit, depth.max() * dunit


class Ideal(Section):
    """Textbook involute tooth (radial below the base circle) of a cylindrical gear in the
    plane, for deciding whether a pair can mesh by design at all."""

    def __init__(self, spec, centre, angle, m, pts=160):
        n = G.Nominal(spec)
        self.n, self.N, self.ring = n, spec["N"], spec["fam"] in G.RINGS
        self.z, self.sc, self.twist, self.conic, self.apex_local = 0.0, 1.0, 0.0, False, None
        lo, hi = n.rp - n.hd, n.rp + n.ha
        r = np.linspace(lo, hi, pts)
        h = np.array([n.inv_half_angle(max(x, n.rb), 0.5) for x in r])
        self.u_lo, self.u_hi, self.hu, self.ha = lo, hi, r, h
        fl = np.stack([r * np.cos(h), -r * np.sin(h), 0 * r], 1)
        self.tooth = np.concatenate([fl, fl * np.array([1, -1, 1])])
        self.c, self.M, self.angle, self.m = np.array(centre, float), np.eye(3), angle, m


def design_clearance(s1, s2, D, phases):
    """least clearance (world units) of the ideal pinion in the ideal ring, centred"""
    pin, rng = (s1, s2) if s2["fam"] in G.RINGS else (s2, s1)
    m = G.Nominal(pin).mt
    worst = math.inf
    for ph in phases:
        th = ph * 2 * math.pi / pin["N"]
        A = Ideal(pin, [D, 0, 0], th, m)
        B = Ideal(rng, [0, 0, 0], th * pin["N"] / rng["N"], m)
        x, y = A.clearance(B.points()), B.clearance(A.points())
        worst = min(worst, *x[:2], *y[:2], -x[2], -y[2])
    return worst
