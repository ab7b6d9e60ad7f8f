_G = "Assurance is exploration: no counterexample among the generated cases (counts in the evidence). "
_PBT = "property-based testing (Hypothesis): "
NOTE["C06"] = (_PBT + "random transforms and composition sequences against an independent 4x4 matrix model", _G + "Trusts numpy matrix algebra and the OCCT location maths.")
NOTE["C07"] = (_PBT + "random curve specs and operation sequences against dense sampling of the original curve", _G + "Curve kinds and parameter ranges are bounded; comparisons have the tolerance of the library's length table.")
NOTE["C08"] = (_PBT + "model-based histories: chain edits against a plain Python list of curves", _G + "Fillet inputs limited to corners where a fillet of that radius fits.")
NOTE["C09"] = (_PBT + "de Boor / Bernstein reference evaluation, and conversion compared pointwise with the source curve", _G + "Fit tolerance 4e-3 of curve size.")
NOTE["C10"] = (_PBT + "random points, offsets, cone angles and roll parameters against closed-form geometry (string length, tangency, rolling without slip) and inverse round trips", _G + "Coordinate singularities excluded.")
NOTE["C01"] = (_PBT + "random gear specs of every family; continuity, periodicity, mirror symmetry and non-crossing of the unrolled outline, outlines and wires against the section profile placed by the documented recipe", _G + "Tooth counts 8..60; tolerances 1e-6 module for cylindrical and 2e-3 module for conical joints.")
NOTE["C02"] = (_PBT + "random gear specs against closed-form tip, root, pitch, base and outside circles and tooth thickness", _G + "Tip circles of conical and cycloid teeth that come to a point are only bounded.")
NOTE["C03"] = (_PBT + "random gear specs; flank points against the involute, spherical octoid/involute and cycloid laws, undercut regions against the swept path of the generating rack", _G + "Conical flanks and undercut envelopes are compared with the tolerance of the numeric model stated in DESIGN.md.")
NOTE["C04"] = (_PBT + "random compatible pairs, directions, placements, backlash, bias and rotation phases; angular clearance of all outline points of one gear against the flank of the other", _G + "Only pairs that can mesh by design (tip clearance, contact within the involute) are decided.")
NOTE["C05"] = (_PBT + "random pairs against closed-form centre distance and axis angles; metamorphic relation: a rigid motion of the target moves the result rigidly, meshing twice is idempotent", _G)
NOTE["C12"] = (_PBT + "random tooth counts, angles, shifts and backlash against the gear equations solved independently", _G)
NOTE["C16"] = (_PBT + "random meshed cylindrical pairs; tangency, pitch point, pressure angle and where the flanks touch", _G + "Contact point located to 0.15 module.")
NOTE["C11"] = (_PBT + "random gear specs; volume, bounding box, validity and point membership of the solid against the independently integrated profile, update against rebuild", _G + "Volumes to the tolerance of the spline fit.")
NOTE["C13"] = (_PBT + "stateful histories over several gears; state fingerprints before and after each operation against a model of what the operation may change", _G)
NOTE["C14"] = (_PBT + "random racks; volume, bounding box and point membership against the analytic tooth; clearance of meshed rack and gear", _G)
NOTE["C15"] = (_PBT + "random gear specs; sections at several heights against the section at the reference height turned, scaled and thinned as specified; reported centres and faces", _G)
