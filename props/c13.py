"""C13: gears are independent objects and queries have no side effects.

Stateful: a generated history runs over a pool of gears. The model knows of every gear its
parameters and its placement; after every step all gears, all inputs and the library's
constants are compared with the model, and at the end every gear has to answer like a gear
freshly built with the same parameters and put at the same place."""

import copy
import dataclasses
import math

import numpy as np
from hypothesis import strategies as st

import gggears as gg
from gggears import defs as D
from lib import gears as G
from lib.gens import fl, rotmat, rotvec, vec
from lib.harness import Part
from lib.util import assume, close, need

RULE = "history with at least two gears and a change between two observations"
ASSUMPTIONS = [
    "gears are moved through center, angle, orientation, mesh_to, reset_location",
    "a mesh is only attempted between gears of the same kind",
]
NAMES = ["ORIGIN", "UP", "DOWN", "RIGHT", "LEFT", "IN", "OUT", "UNIT3X3"]
CONST = {k: np.array(getattr(D, k)) for k in NAMES}



def restore():
    """cases are independent of each other even if one damaged the constants"""
    for k in NAMES:
        getattr(D, k)[...] = CONST[k]


FAMS = ["spur", "ring", "helical", "helring", "invo", "bevel", "cyc", "cycbevel"]


@st.composite
def spec(draw):
    s = draw(G.gear(fams=FAMS, nmin=10, nmax=24))
    return s


def loc_tuple(l):
    T = l.wrapped.Transformation()
    return [[T.Value(i, j) for j in (1, 2, 3, 4)] for i in (1, 2, 3)]


def q_radii(g):
    d = g.radii_data_gen(g.p2z(0.3))
    return [
        list(c(t)) for c in (d.r_a_curve, d.r_d_curve, d.r_o_curve, d.r_p_curve) for t in (0, 0.3)
    ]


def q_bound(g):
    b = g.gearcore.boundary_at_z(g.p2z(0.4))
    return [list(b(t)) for t in (0, 0.13, 0.5, 0.9)]


def q_chain(g):
    b = g.gearcore.boundary_at_z(g.p2z(0.4), continuous=False)
    return [list(b(t)) for t in (0, 0.13, 0.5, 0.9)]


def q_profile(g):
    p = g.gearcore.curve_gen_at_z(g.p2z(0.7))
    return [list(p.profile(t)) for t in np.linspace(0, 1, 9)]


def q_sphere(g):
    c, R = g.gearcore.sphere_data_at_z(g.p2z(0.5)) if g.cone_angle else (np.zeros(3), 0.0)
    return [list(np.array(c)), float(R)]


def q_cone(g):
    if not g.cone_angle:
        return [g.gearcore.cone.base_radius]
    c = g.gearcore.cone_at_z(g.p2z(0.6))
    return [float(c.R), list(np.array(c.center)), g.gearcore.R, list(g.gearcore.center_sphere)]


def q_involute(g):
    if not isinstance(g, gg.InvoluteGear) or g.cone_angle:
        return []
    return [g.r_base, g.angle_base, list(g.circle_involute_base(0.5).center)]


def q_wire(g):
    w = g.build_boundary_wire(0.5)
    b = w.bounding_box()
    return [w.length, list(tuple(b.min)), list(tuple(b.max))]


def q_part(g):
    p = g.build_part()
    b = p.bounding_box()
    return [p.volume, list(tuple(p.center())), list(tuple(b.min)), list(tuple(b.max))]


def q_update(g):
    p = g.update_part()
    b = p.bounding_box()
    return [p.volume, list(tuple(p.center())), list(tuple(b.min)), list(tuple(b.max))]


QUERIES = {
    "radii": q_radii,
    "numbers": lambda g: [
        g.addendum_radius, g.dedendum_radius, g.max_outside_radius, g.pitch_radius,
        g.z_height, g.module, g.number_of_teeth, g.pitch_angle, g.cone_angle,
    ],
    "centres": lambda g: [
        list(g.center_point_bottom), list(g.center_point_middle), list(g.center_point_top)
    ],
    "locations": lambda g: [
        loc_tuple(g.center_location_bottom), loc_tuple(g.center_location_middle),
        loc_tuple(g.center_location_top), loc_tuple(g.face_location_top),
        loc_tuple(g.face_location_bottom),
    ],
    "bound": q_bound,
    "chain": q_chain,
    "profile": q_profile,
    "sphere": q_sphere,
    "cone": q_cone,
    "involute": q_involute,
    "wire": q_wire,
}
QNAMES = sorted(QUERIES)


def flat(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += flat(y)
        return out
    return [float(x)]


def fingerprint(g):
    """cheap state of a gear, without evaluating any curve"""
    t = g.gearcore.transform
    rec = g.gearcore.shape_recipe(g.p2z(0.3))
    tg = rec.tooth_generator
    out = list(np.ravel(t.center)) + list(np.ravel(t.orientation)) + [t.angle, t.scale]
    out += list(g.gearcore.z_vals) + [g.gearcore.module, g.gearcore.tooth_param.num_teeth]
    out += [rec.transform.angle, rec.transform.scale] + list(rec.transform.center)
    out += [rec.limits.h_a, rec.limits.h_d, rec.limits.h_o, rec.pitch_angle]
    out += [rec.fillet.root_fillet, rec.fillet.tip_fillet, rec.fillet.tip_reduction]
    out += [rec.cone.cone_angle, rec.cone.base_radius]
    for k, v in sorted(vars(tg).items()):
        if isinstance(v, (int, float, np.floating)):
            out.append(float(v))
    for f in dataclasses.fields(g.inputparam):
        v = getattr(g.inputparam, f.name)
        out += [float(x) for x in np.ravel(np.array(v, dtype=float))]
    return np.array(out, float)


def kind_of(s):
    f = s["fam"]
    return {"spur": "inv", "ring": "inv", "invo": "inv"}.get(f, f)


def meshable(a, b):
    """pairs for which meshing is defined"""
    if a["fam"] in G.RINGS and b["fam"] in G.RINGS:
        return False
    if a["m"] != b["m"]:
        return False
    for x, y in ((a, b), (b, a)):
        if x["fam"] in G.RINGS and x["N"] < y["N"] + 4:
            return False
    fa, fb = a["fam"], b["fam"]
    flat_inv = ("spur", "invo", "ring")
    if fa in flat_inv and fb in flat_inv:
        return a["alpha"] == b["alpha"] and not a["beta"] and not b["beta"]
    if fa in ("bevel", "cycbevel") and fa == fb:
        # the cones must not add up to a flat angle or more
        return a["cone"] + b["cone"] < 300 * G.DEG
    if fa == fb == "cyc":
        return True
    return False


def check_history(case):
    restore()
    pool = []  # (gear, spec, placement) placement = [c, M, a]
    lab = set()
    inputs = []  # arrays handed in by the user, and their values

    def verify(i, what):
        """everything agrees with the model"""
        for k in NAMES:
            close(getattr(D, k), CONST[k], 0, "library constant %s after %s" % (k, what))
        for a, v in inputs:
            close(a, v, 0, "array passed in by the user after %s" % what)
        for k, (g, s, pl, fp) in enumerate(pool):
            t = g.gearcore.transform
            close(np.array(t.center, float), pl[0], 1e-9, "centre of gear %d after %s" % (k, what))
            close(np.array(t.orientation, float), pl[1], 1e-9, "orientation of gear %d after %s" % (k, what))
            close(float(t.angle), pl[2], 1e-9, "angle of gear %d after %s" % (k, what))
            now = fingerprint(g)
            need(now.shape == fp.shape, "gear %d changed by %s", k, what)
            m = np.ones(len(now), bool)
            m[:14] = False  # placement compared above
            close(now[m], fp[m], 1e-12, "parameters of gear %d after %s" % (k, what))

    def observe(k):
        """take over the placement of gear k (after meshing)"""
        t = pool[k][0].gearcore.transform
        pool[k][2][:] = [np.array(t.center), np.array(t.orientation), float(t.angle)]

    def add(g, s, pl):
        pool.append([g, s, [np.array(pl[0], float), np.array(pl[1], float), float(pl[2])], fingerprint(g)])

    def ask(g, q):
        return np.array(flat(QUERIES[q](g)))

    builds = 0
    for op in case["ops"]:
        k = op["k"]
        name = op["op"]
        if name == "new" or not pool:
            if len(pool) >= 4:
                continue
            s = op["s"] if name == "new" else case["first"]
            if op.get("like") and pool:
                s = pool[op["i"] % len(pool)][1]
            g = G.build(s)
            add(g, s, [s["pl"]["c"], rotmat(s["pl"]["rv"]), s["pl"]["a"]])
            verify(len(pool) - 1, "creating a gear")
            if name == "new":
                continue
        i = op["i"] % len(pool)
        j = op["j"] % len(pool)
        g, s, pl, fp = pool[i]
        h = pool[j][0]
        what = "%s(%d,%d)" % (name, i, j)
        if name == "copy":
            if len(pool) >= 4:
                continue
            c = g.copy() if k % 2 == 0 else copy.deepcopy(g)
            add(c, s, copy.deepcopy(pl))
            close(pool[-1][3], fingerprint(g), 1e-12, "copy differs from its original")
            lab.add("copy")
        elif name == "center":
            v = np.array(op["v"])
            inputs.append((v, v.copy()))
            g.center = v
            pl[0] = v.copy()
        elif name == "center_of":
            # put one gear where another is, or at a named place
            g.center = h.center if k % 3 else D.ORIGIN
            pl[0] = pool[j][2][0].copy() if k % 3 else np.zeros(3)
            lab.add("shared centre")
        elif name == "shift":
            v = np.array(op["v"])
            inputs.append((v, v.copy()))
            if k % 2:
                g.center += v
            else:
                g.center = g.center + v
            pl[0] = pl[0] + v
            lab.add("in place move")
        elif name == "turn":
            g.angle += op["a"]
            pl[2] = pl[2] + op["a"]
        elif name == "tilt":
            R = rotmat(op["rv"])
            if k % 2:
                g.gearcore.transform.orientation = R @ g.gearcore.transform.orientation
            else:
                g.gearcore.transform.orientation[:] = R @ g.gearcore.transform.orientation
            pl[1] = R @ pl[1]
        elif name == "reset":
            if not hasattr(g, "reset_location"):
                continue  # cycloid gears have none
            g.reset_location()
            pl[0], pl[1], pl[2] = np.array(s["pl"]["c"]), np.eye(3), s["pl"]["a"]
            lab.add("reset")
        elif name == "mesh":
            if i == j or not meshable(s, pool[j][1]):
                continue
            d = pool[j][2][1] @ np.array([math.cos(op["a"]), math.sin(op["a"]), 0.0])
            inputs.append((d, d.copy()))
            try:
                g.mesh_to(h, target_dir=d)
            except ValueError:
                continue
            observe(i)
            lab.add("mesh")
            # the same mesh between gears built just now
            s2, s1 = pool[j][1], s
            hh, gg_ = G.build(s2), G.build(s1)
            t = hh.gearcore.transform
            t.center, t.orientation, t.angle = (np.array(pool[j][2][0]), np.array(pool[j][2][1]), pool[j][2][2])
            gg_.mesh_to(hh, target_dir=d)
            sz = 1e-7 * (1 + np.abs(pl[0]).max() + s["m"] * s["N"])
            close(gg_.gearcore.transform.center, pl[0], sz, "mesh result depends on history: centre")
            close(gg_.gearcore.transform.orientation, pl[1], 1e-7, "mesh result depends on history: orientation")
            da = gg_.gearcore.transform.angle - pl[2]
            p = 2 * math.pi / s["N"]
            # fresh gears may end up whole teeth away
            close((da + p / 2) % p - p / 2, 0.0, 1e-6, "mesh result depends on history: angle")
        elif name == "query":
            q = QNAMES[k % len(QNAMES)]
            a = ask(g, q)
            verify(i, "query %s" % q)
            b = ask(g, q)
            need(a.shape == b.shape, "query %s answers differently the second time", q)
            close(b, a, 1e-9 * (1 + np.abs(a).max(initial=0)), "query %s asked again" % q)
            lab.add("query")
        elif name == "build":
            if s["cone"] or s["N"] > 16 or s["beta"] or s["crown"] or builds >= 2:
                continue
            builds += 1
            p = g.build_part() if k % 2 else g.update_part()
            verify(i, "building the part")
            bb = p.bounding_box()
            c = np.array(tuple(p.center()))
            mid = pl[0] + pl[1] @ np.array([0, 0, (0.5 - s["anchor"]) * s["h"]])
            close(c, mid, 2e-3 * s["m"] * s["N"], "centre of the part")
            lab.add("part")
        verify(i, what)
    # --- every gear answers like a new one
    for k, (g, s, pl, fp) in enumerate(pool):
        n = G.build(s)
        t = n.gearcore.transform
        t.center, t.orientation, t.angle = np.array(pl[0]), np.array(pl[1]), pl[2]
        for q in case["final"]:
            if q == "wire" and k:
                continue
            a, b = ask(g, q), ask(n, q)
            need(a.shape == b.shape, "gear %d answers %s unlike a new gear", k, q)
            close(a, b, 1e-6 * (1 + np.abs(b).max(initial=0)), "gear %d: %s against a new gear" % (k, q))
    verify(0, "the final queries")
    return sorted(lab)


OPS = [
    "new", "new", "copy", "center", "center_of", "shift", "shift", "turn", "tilt", "reset",
    "mesh", "mesh", "query", "query", "query", "build",
]


@st.composite
def history(draw):
    first = draw(spec())
    ops = []
    for _ in range(draw(st.integers(3, 9))):
        o = draw(st.sampled_from(OPS))
        d = {"op": o, "i": draw(st.integers(0, 3)), "j": draw(st.integers(0, 3)), "k": draw(st.integers(0, 23))}
        if o == "new":
            d["like"] = draw(st.booleans())
            if not d["like"]:
                x = draw(spec())
                # mostly compatible with the first gear
                if draw(st.booleans()) and "alpha" in x and "alpha" in first:
                    x["m"], x["alpha"] = first["m"], first["alpha"]
                d["s"] = x
            else:
                d["s"] = first
        if o in ("center", "shift"):
            d["v"] = draw(vec(-30, 30, 2))
        if o in ("turn", "mesh"):
            d["a"] = draw(fl(-3, 3, 3))
        if o == "tilt":
            d["rv"] = draw(rotvec)
        ops.append(d)
    fin = draw(st.lists(st.sampled_from(QNAMES), min_size=2, max_size=3, unique=True))
    return {"first": first, "ops": ops, "final": fin}


def nontrivial(c):
    names = [o["op"] for o in c["ops"]]
    many = sum(n in ("new", "copy") for n in names) >= 1
    return many and any(n in ("center", "shift", "turn", "tilt", "mesh", "reset", "center_of") for n in names)


# ------------------------------------------------------------- cycloid adaption


def check_adapt(case):
    """adapting two cycloid gears changes their roll circles only, and only of these two"""
    restore()
    a, b = G.build(case["a"]), G.build(case["b"])
    c = b.copy()
    d = a.copy()
    for g, mv in ((a, case["mv"][0]), (b, case["mv"][1])):
        g.center = np.array(mv["c"])
        g.angle = mv["a"]
        g.gearcore.transform.orientation = rotmat(mv["rv"])
    fc, fd = fingerprint(c), fingerprint(d)
    ta, tb = copy.deepcopy(a.gearcore.transform), copy.deepcopy(b.gearcore.transform)
    keep = (a.inside_cycloid_coefficient, b.inside_cycloid_coefficient)
    keep_o = (a.outside_cycloid_coefficient, b.outside_cycloid_coefficient)
    a.adapt_cycloid_radii(b)
    close(fingerprint(c), fc, 0, "copy of the other gear changed by adapting")
    close(fingerprint(d), fd, 0, "copy of the gear changed by adapting")
    for g, t, w in ((a, ta, "gear"), (b, tb, "other gear")):
        close(g.gearcore.transform.center, t.center, 0, w + " moved by adapting")
        close(g.gearcore.transform.orientation, t.orientation, 0, w + " turned by adapting")
        close(g.gearcore.transform.angle, t.angle, 0, w + " turned by adapting")
    Na, Nb = case["a"]["N"], case["b"]["N"]
    ra, rb = a.inputparam, b.inputparam
    if a.inside_teeth or b.inside_teeth:
        # a ring and its pinion share both roll circles: inside with inside
        close(ra.inside_cycloid_coefficient * Na, rb.inside_cycloid_coefficient * Nb, 1e-9, "inside roll circles agree")
        close(ra.outside_cycloid_coefficient * Na, rb.outside_cycloid_coefficient * Nb, 1e-9, "outside roll circles agree")
        pin = 0 if b.inside_teeth else 1
        got = (a.inside_cycloid_coefficient, b.inside_cycloid_coefficient)
        close(got[pin], keep[pin], 0, "inside roll circle of the pinion kept")
        goto = (a.outside_cycloid_coefficient, b.outside_cycloid_coefficient)
        close(goto[1 - pin], keep_o[1 - pin], 0, "outside roll circle of the ring kept")
    else:
        close(ra.outside_cycloid_coefficient * Na, rb.inside_cycloid_coefficient * Nb, 1e-9, "roll circles agree")
        close(rb.outside_cycloid_coefficient * Nb, ra.inside_cycloid_coefficient * Na, 1e-9, "roll circles agree")
        close((a.inside_cycloid_coefficient, b.inside_cycloid_coefficient), keep, 0, "inside roll circles kept")
    # the teeth follow the new coefficients: like a gear created with them
    for g, s, mv in ((a, case["a"], case["mv"][0]), (b, case["b"], case["mv"][1])):
        s2 = dict(s, ci=g.inside_cycloid_coefficient, co=g.outside_cycloid_coefficient)
        n = G.build(s2)
        try:
            want = [list(n.gearcore.curve_gen_at_z(0).profile(t)) for t in np.linspace(0, 1, 9)]
        except Exception:
            assume(False, "adapted gear cannot be built")
        got = [list(g.gearcore.curve_gen_at_z(0).profile(t)) for t in np.linspace(0, 1, 9)]
        close(got, want, 1e-9, "teeth after adapting")
    a2 = (a.inside_cycloid_coefficient, a.outside_cycloid_coefficient)
    b2 = (b.inside_cycloid_coefficient, b.outside_cycloid_coefficient)
    a.adapt_cycloid_radii(b)
    close((a.inside_cycloid_coefficient, a.outside_cycloid_coefficient), a2, 1e-12, "adapting again")
    close((b.inside_cycloid_coefficient, b.outside_cycloid_coefficient), b2, 1e-12, "adapting again")
    return ["ring" if a.inside_teeth or b.inside_teeth else "external"]


@st.composite
def adapt_case(draw):
    ring = draw(st.booleans())
    a = draw(G.gear(fams=["cyc"], fillets=False))
    b = draw(G.gear(fams=["cycring" if ring else "cyc"], fillets=False))
    if ring:
        a["N"], b["N"] = min(a["N"], 20), max(b["N"], 40)
        b["co"] = draw(st.sampled_from([0.15, 0.2]))
    mv = [{"c": draw(vec(-20, 20)), "rv": draw(rotvec), "a": draw(fl(-3, 3))} for _ in (0, 1)]
    if draw(st.booleans()):
        a, b = b, a
    return {"a": a, "b": b, "mv": mv}


# ------------------------------------------------------------- racks and lines


def rackstate(r):
    return np.array(
        list(np.ravel(r.position)) + list(np.ravel(r.orientation))
        + [r.offset, r.module, r.height, r.number_of_teeth, r.pressure_angle, r.beta_angle,
           r.addendum_coefficient, r.dedendum_coefficient, r.backlash, r.root_fillet, r.tip_fillet],
        float,
    )


def check_rack(case):
    """racks and lines of action look at gears without changing them or each other"""
    restore()
    kw = dict(number_of_teeth=case["n"], module=case["m"])
    if case["hel"]:
        mk = lambda: gg.HelicalRack(helix_angle=0.3, **kw)  # noqa: E731
    else:
        mk = lambda: gg.InvoluteRack(**kw)  # noqa: E731
    fresh = rackstate(mk())
    r1, r2 = mk(), mk()
    g = gg.SpurGear(number_of_teeth=case["N"], module=case["m"], center=np.array(case["c"]))
    g.gearcore.transform.orientation = rotmat(case["rv"])
    h = gg.SpurGear(number_of_teeth=case["N"] + 3, module=case["m"])
    fg = fingerprint(g)
    d = rotmat(case["rv"]) @ np.array([math.cos(case["a"]), math.sin(case["a"]), 0.0])
    for op in case["ops"]:
        if op == "mesh":
            r1.mesh_to(g, target_dir=d)
        elif op == "shift":
            r1.position += np.array([1.0, 2.0, 3.0])
        elif op == "tilt":
            r1.orientation[:] = rotmat([0.3, 0.1, 0.2]) @ r1.orientation
        elif op == "build":
            before = rackstate(r1)
            v1 = r1.build_part().volume
            close(rackstate(r1), before, 0, "rack changed by building it")
            close(r1.build_part().volume, v1, 1e-6 * v1, "rack built again")
        elif op == "loa":
            h.mesh_to(g, target_dir=d)
            fh = fingerprint(h)
            l1 = gg.LineOfAction(g, h).LOA_gen()
            l2 = gg.LineOfAction(g, h).LOA_gen()
            close([list(x(0.3)) for x in l1], [list(x(0.3)) for x in l2], 1e-12, "line of action again")
            close(fingerprint(h), fh, 0, "gear changed by its line of action")
        elif op == "gear":
            # moving the gear does not drag the rack along
            before = rackstate(r1)
            g.center += np.array([0.5, 0.0, 1.0])
            g.gearcore.transform.orientation[:] = rotmat([0.1, 0, 0]) @ g.gearcore.transform.orientation
            close(rackstate(r1), before, 0, "rack moved with the gear")
            fg = fingerprint(g)
            d = rotmat([0.1, 0, 0]) @ d
        close(fingerprint(g), fg, 0, "gear changed by %s" % op)
        close(rackstate(r2), fresh, 0, "another rack changed by %s" % op)
        for k in NAMES:
            close(getattr(D, k), CONST[k], 0, "library constant %s after %s" % (k, op))
    close(rackstate(mk()), fresh, 0, "a new rack is no longer at its default place")
    return []


rack_case = st.fixed_dictionaries(
    {
        "n": st.integers(1, 4), "m": st.sampled_from([0.5, 1.0, 2.0]), "hel": st.booleans(),
        "N": st.integers(12, 30), "c": vec(-20, 20), "rv": rotvec, "a": fl(-3, 3),
        "ops": st.lists(
            st.sampled_from(["mesh", "shift", "tilt", "build", "loa", "gear"]), min_size=2, max_size=6
        ),
    }
)

PARTS = [
    Part("history", history(), check_history, 220, 4000, nontrivial=nontrivial, rule=RULE),
    Part("adapt", adapt_case(), check_adapt, 150, 2000, nontrivial=lambda c: True, rule="every case"),
    Part("rack", rack_case, check_rack, 150, 2000, nontrivial=lambda c: len(set(c["ops"])) > 1, rule="two different operations"),
]
