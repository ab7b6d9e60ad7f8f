"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/gggears/"
W, CORE, B, CV, FG, DF, B123, CONV, GM = (S + n + ".py" for n in (
    "gggears_wrapper", "gggears_core", "gggears_base_classes", "curve", "function_generators",
    "defs", "gggears_build123d", "gggears_convert", "gearmath"))
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Every gear profile is a valid, periodic, non-self-intersecting outline",
  "For every valid parameter set of every gear family (involute spur, helical, ring, bevel, cycloid, with undercut or root fillet, tip fillet, truncation, profile shift, backlash and crowning), the reference profile at any height is a continuous curve that spans exactly one pitch angle, is mirror symmetric about the tooth's axis, and has no self-intersection. Repeated once per tooth it forms one closed outline that winds exactly once around the axis, whichever way the outline is requested.",
  ["inputs", "configurations"], "all gear families x all valid tooth parameters x all heights along the gear",
  "The tests build a few tooth counts with default parameters and check validity of the CAD solid; combinations of undercut, fillet, truncation, shift, crowning and cone angle are a continuous space.",
  [CORE, W], [("tooth generators, trimming and fillet operators", CORE), ("profile assembly: generate_reference_profile, generate_boundary, generate_boundary_chain", CORE)],
  ["gear profile and boundary evaluated through the gear object"])
p("C02", "Gear dimensions follow module, tooth count, coefficients, shift and backlash",
  "The pitch radius is module times teeth over two, tip and root circles lie at the distances given by the addendum and dedendum coefficients and the profile shift, and the tooth thickness on the pitch circle is the nominal half pitch changed exactly by profile shift, backlash and crowning; ring gears and bevel gears obey the mirrored and the conical form of the same laws (backlash and crowning thin the teeth of a ring gear too). Radii and circles reported by the gear object agree with its actual geometry.",
  ["inputs", "configurations"], "all gear families x module x teeth x addendum/dedendum x shift x backlash x pressure and helix angle",
  "The tests compare bounding boxes for a handful of parameters; they never compare tooth thickness or reported radii with the generated geometry.",
  [CORE, W], [("generate_profile_closer, tooth generators", CORE), ("InvoluteGear.calc_params, HelicalGear normal system, radii reporting", W)],
  ["pitch_radius, addendum_radius, dedendum_radius, max_outside_radius, radii_data, profile points"])
p("C03", "Tooth flanks obey the involute / cycloid / octoid law",
  "Between its root and tip features, the flank of an involute gear is the involute of the base circle with radius pitch radius times cosine of the pressure angle (spherical or octoid form on a bevel gear), and the flank of a cycloid gear is the epicycloid outside and hypocycloid inside the pitch circle generated by the requested rolling circles. Undercut regions are the envelope of the generating rack and never remove material outside the path of that rack.",
  ["inputs", "configurations"], "all tooth counts, pressure angles, profile shifts, cone angles, rolling circle coefficients and points along the flank",
  "Tests check flank shape only through the mesh-intersection test at a few tooth counts.",
  [CORE, FG, W], [("InvoluteTooth, InvoluteUndercutTooth, OctoidTooth, CycloidTooth", CORE), ("involute_circle, involute_sphere, octoid, cycloid_circle, cycloid_cone", FG)],
  ["tooth flank points"])
p("C04", "A meshed pair touches without interference, through the whole rotation",
  "After meshing one gear to another of compatible parameters (external pair, external with ring, cycloid pair, bevel pair; any direction, placement and phase), the two gears do not overlap, and remain so when both are turned by the tooth ratio. With zero backlash the flanks are in contact, and with backlash requested the pinion can be turned by exactly the requested play and no more, with the bias extremes touching one flank each.",
  ["inputs", "configurations"], "all compatible pairs x mesh directions x placements x rotation phases x backlash x bias",
  "Tests intersect three tooth counts in a fixed direction and phase.",
  [W, CORE, GM], [("mesh_to", W), ("Gear.mesh_to", CORE), ("calc_involute_mesh_distance, calc_mesh_angle", GM)],
  ["transforms and profiles of both gears after meshing"])
p("C05", "Meshing places the gear correctly and moves with the target",
  "Meshing moves only the gear it is called on: its axis ends up at the pair's centre distance in the requested direction, with proper orientation (parallel axes for cylindrical pairs, crossed by the helix angles for crossed helical pairs, common apex and shaft angle equal to the sum of the cone angles for bevel pairs). The outcome depends only on the target's placement: moving the target rigidly moves the meshed gear rigidly with it, and meshing again changes nothing.",
  ["inputs", "histories", "configurations"], "all target placements x directions x pair types x prior states of the moved gear",
  "Tests only mesh gears at the origin (or chains along x) and never compare different placements.",
  [W, CORE, GM], [("mesh_to (wrapper)", W), ("Gear.mesh_to (core)", CORE), ("calc_mesh_orientation, calc_bevel_gear_placement_vector", GM)],
  ["gear centre, orientation, angle; cone data"])
p("C06", "Transforms compose, invert and apply consistently, also in CAD",
  "A transform (centre, orientation, scale and, for gears, angle) applied to points equals its affine matrix; composing transforms equals applying one after the other, inverting one undoes it, and no such operation alters its operands. The CAD location derived from a transform maps points the same way.",
  ["inputs", "histories"], "all rotations, translations, scales, gear angles and composition sequences",
  "There are no tests of transform composition with both rotations and translations.",
  [B, B123], [("TransformData, Transform, GearTransformData, GearTransform, apply_transform, apply_gear_transform", B), ("transform2Location, apply_transform_part", B123)],
  ["transformed point coordinates"])
p("C07", "A curve keeps its geometry under trimming, reversing, copying, transforming",
  "Trimming, reversing, copying, scaling, moving, rotating and mirroring a curve yields exactly the corresponding part or image of the original curve: the same points in the expected order, with length and derivatives to match, evaluated singly or as arrays. Evaluating by length parameter is proportional to true arc length, and cutting at or projecting to a point finds that point on the curve.",
  ["inputs", "histories"], "all curve kinds x parameters x sequences of trim / reverse / copy / transform operations",
  "Tests sample a few lines and arcs, rarely trimmed, never composed operations.",
  [CV, B], [("Curve and its subclasses", CV)], ["curve(t), length, derivative, len2t/t2len"])
p("C08", "A curve chain behaves as the sequence of its curves",
  "Editing a chain of curves (indexing, inserting, deleting, extending, trimming, reversing, cutting, filleting) has exactly the effect of the same edit on a list of curves, and the chain evaluates as their concatenation by length, continuous wherever the pieces join. A fillet is an arc of the requested radius tangent to both neighbours which leaves everything else in place.",
  ["inputs", "histories"], "all chains (nested too) x edit sequences",
  "Tests cover individual operations on one fixed chain, not histories.",
  [CV], [("CurveChain", CV)], ["chain points, length, members"])
p("C09", "Bezier and NURBS conversion reproduces the curve",
  "Evaluating Bezier and NURBS curves and surfaces satisfies the mathematical definition (exact end points, weighted control points, subdivision and degree invariance), and converting any curve (line, arc, involute, spiral, transformed or trimmed curve, chain) to NURBS reproduces it from end to end within the fitting tolerance without altering the original.",
  ["inputs", "histories"], "all control nets, weights, degrees, curve kinds, trims and transforms",
  "Tests convert a handful of untrimmed curves.",
  [CONV, CV], [("convert_curve_nurbezier and helpers", CONV), ("NurbCurve, NURBSurface, Bezier evaluation", CV)], ["points of converted curve"])
p("C10", "Coordinate conversions and generating functions satisfy their definitions",
  "Every coordinate conversion (cylindrical, spherical, the gear's polar and conic maps, angle and vector helpers) is inverted by its inverse, agrees between single points and arrays, and stays on the sphere, cone or plane it is defined for. Involute, spherical involute, cycloid and octoid functions satisfy their geometric definition (unrolled string length, tangency, rolling without slip, constant pressure angle) including the limit between flat and conical forms.",
  ["inputs"], "all points, radii, cone angles, offsets and parameters",
  "Tests evaluate round trips at few points and the generating functions only through whole gears.",
  [FG, DF, B], [("function_generators", FG), ("coordinate helpers", DF), ("GearPolarTransform", B)], ["function results"])
p("C11", "The CAD solid is the gear that was specified",
  "Building a gear gives a single valid solid whose volume, cross sections, bounding box and placement equal those of the specified profile swept over the specified height, for every family, cone, helix and placement. Moving the gear after building and updating the part gives the same solid as rebuilding, and converting curves to CAD edges reproduces their shape.",
  ["inputs", "histories", "configurations"], "all gear families x parameters x placements x build/move/update sequences x curve kinds",
  "Tests check validity and a volume bracket for some parameters at the origin.",
  [B123, W], [("GearBuilder, curve_to_edges, apply_transform_part", B123), ("build_part, update_part", W)], ["volume, bounding box, validity, section of the resulting part"])
p("C12", "Gear mathematics helpers satisfy the gear equations",
  "Centre distance, working pressure angle, backlash and cone angle helpers satisfy the gear equations: the centre distance is where the pair has exactly the requested backlash, the backlash computed from a centre distance is the inverse of that, shifts that sum to zero keep the standard distance, and cone angles of a bevel pair sum to the shaft angle with sines in the ratio of the teeth.",
  ["inputs"], "all tooth counts, pressure angles, profile shifts, backlashes and shaft angles; external and ring pairs",
  "No tests exercise these functions directly.",
  [GM, FG, DF], [("calc_involute_mesh_distance, backlash_from_ax_distance, cone_angle_from_teeth", GM), ("involute and its inverse", FG)], ["function results"])
p("C13", "Gears are independent objects and queries have no side effects",
  "Asking a gear for anything (radii, locations, profiles, boundaries, wires, solids) leaves it unchanged and gives the same answer when asked again; a copy and its original, two gears built alike, and the library's constants never influence each other through any sequence of operations. Resetting a gear's location restores the placement it was created with.",
  ["histories"], "all sequences of create / copy / move / mesh / query / build / reset over several gears",
  "Tests construct each gear fresh and look at it once.",
  [W, CORE, B], [("InvoluteGear and subclasses, copy, reset_location", W), ("default values and shared constants", DF)], ["state of all live gears before and after"])
p("C14", "Racks have the specified teeth and mesh with gears",
  "A rack has the requested number of teeth at the pitch of its module (normal module for helical racks), straight flanks at the pressure angle and the specified tip and root lines, thickness, height and helix. Meshed to a gear it touches without overlapping, on the requested side and at the requested offset, and leaves the gear untouched.",
  ["inputs", "configurations"], "all rack parameters x gears x directions x offsets x backlash",
  "Tests build a couple of default racks only.",
  [W, CORE], [("InvoluteRack, HelicalRack", W)], ["rack profile, solid, transform after meshing"])
p("C15", "Shape varies along the height as specified: helix, cone, crowning, anchor",
  "Along its height a gear's section turns by the helix angle (mirrored about mid height for herringbone), shrinks linearly towards the cone apex, and loses crowning thickness symmetrically about mid height; the anchor is the plane with the nominal module and no twist, and moving it shifts the body along the axis without changing its shape (for bevel gears, along the same cone). Reported centres, face locations, heights and sections at any height agree with that geometry.",
  ["inputs", "configurations"], "all heights, helix and cone angles, crowning, anchors, modules and placements",
  "Tests build such gears but only check validity or bounding boxes at default module and anchor.",
  [W, CORE], [("calc_params shape recipe", W), ("curve_gen_at_z, shape_recipe", CORE)], ["profiles at heights, centre and face locations"])
p("C16", "The line of action is the common tangent of both base circles",
  "For any meshed pair of cylindrical involute gears, wherever it is placed, the reported lines of action are tangent to both base circles, pass through the pitch point, make the working pressure angle with the pitch circles' common tangent, and contact between the flanks occurs on them.",
  ["inputs", "configurations"], "all meshed involute pairs, placements and pressure angles",
  "No test computes a line of action.",
  [W], [("LineOfAction", W)], ["end points of the line of action"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
