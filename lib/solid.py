"""Point membership of CAD solids. The OCCT classifier shoots a ray and now and then errs
when that ray grazes an edge; a contradiction is only believed if points scattered closely
around contradict as well."""

import numpy as np
from OCP.BRepClass3d import BRepClass3d_SolidClassifier
from OCP.gp import gp_Pnt
from OCP.TopAbs import TopAbs_IN


class Solid:
    def __init__(self, part):
        self.cls = [BRepClass3d_SolidClassifier(x.wrapped) for x in part.solids()]

    def raw(self, p):
        for c in self.cls:
            c.Perform(gp_Pnt(*[float(v) for v in p]), 1e-7)
            if c.State() == TopAbs_IN:
                return True
        return False

    def agrees(self, p, want, jitter):
        if self.raw(p) == want:
            return True
        rng = np.random.default_rng(12345)
        bad = sum(self.raw(p + rng.uniform(-1, 1, 3) * jitter) != want for _ in range(7))
        return bad < 5
