#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Homogeneous 4x4 matrices act, compose and invert as declared",
 "A translation moves every point by exactly its offset, a scale multiplies each coordinate by its factor, and a rotation about an axis is the right-handed length- and angle-preserving turn by the stated angle that fixes that axis, for any non-zero axis. The inverse form of each undoes the forward form, applying a matrix product to a point equals applying the factors one after another (right factor first), and a transposed view reads, writes and multiplies as the true transpose. Vector sums, scalings, dot and cross products and magnitudes have their textbook values.",
 ["inputs"], "every point/vector, every axis and angle, every pair of matrices, both orientations of the transpose flag",
 "Identities over all reals: the tests sample a handful of axis-aligned angles and integer vectors.",
 ["src/yapcad/xform.py", "src/yapcad/geom.py"],
 [("Matrix, Rotation, Translation, Scale", "src/yapcad/xform.py"), ("add, sub, scale3, scale4, dot, cross, mag, dist", "src/yapcad/geom.py")])

prop("C02", "Moving geometry applies one affine map to every point and spares the input",
 "Translating, rotating, mirroring or scaling a point, line, polyline, polygon, geometry list, surface or solid yields geometry of the same kind and connectivity whose every vertex is the image of the original vertex under that one map, with any stated centre left fixed, and circular arcs stay the image arc under rigid motions. The object passed in is never modified. Surface and solid normals follow the motion and face winding stays consistent with them.",
 ["inputs"], "every geometry of the supported kinds, every offset, angle, axis, centre, plane and scale factor",
 "Tests compare a few shapes at a few angles and never look at non-default centres together with every kind of object.",
 ["src/yapcad/geom.py", "src/yapcad/geom3d.py"],
 [("translate, rotate, mirror, scale, transform", "src/yapcad/geom.py"), ("translatesurface, rotatesurface, mirrorsurface, scalesurface, reversesurface, *solid", "src/yapcad/geom3d.py")])

prop("C03", "Curve sampling, inverse sampling, splitting and length agree",
 "For lines, circular arcs and polylines, sampling at parameter 0 and 1 gives the end points, the sampled point lies on the curve, inverse sampling of a sampled point returns the same parameter, and the distance travelled is proportional to the parameter. The piece cut out between two parameters starts and ends at the corresponding samples, its length is the corresponding fraction of the whole, and reversing a curve maps parameter u to 1-u. Inputs are not modified.",
 ["inputs"], "every non-degenerate line, arc and polyline, every parameter in range",
 "Round-trip laws over continuous parameters; tests check fixed examples.",
 ["src/yapcad/geom.py"],
 [("sampleline/unsampleline/segmentline", "src/yapcad/geom.py"), ("samplearc/unsamplearc/segmentarc", "src/yapcad/geom.py"), ("samplepoly/unsamplepoly/segmentpoly", "src/yapcad/geom.py")])

prop("C04", "Planar intersection, nearest-point and containment answers are exact",
 "Every reported intersection of two lines, a line and a circle, two circles, or a line and a plane or triangle lies on both figures and, when asked to stay inside, within the segment, and a well-conditioned crossing is never missed. The nearest point on a line or segment is on it and no other point of it is nearer, and the reported distance is the distance to that point. Points off the border are reported inside a triangle, convex or arbitrary polygon, region or box exactly when they are. The signed distances to a plane and to a face are the true ones, and a bounding box contains its geometry and touches it on every side.",
 ["inputs"], "every pair of lines, every point, triangle and box away from the tolerance band",
 "Universally quantified over real coordinates; the tests sample a few configurations.",
 ["src/yapcad/geom.py", "src/yapcad/geom3d.py"],
 [("lineLineIntersectXY, linePointXY, linePointXYDist", "src/yapcad/geom.py"), ("barycentricXY, isInsideTriangleXY, isinsidebbox, *bbox", "src/yapcad/geom.py"), ("signedPlaneDistance, tri2p0n, linePlaneIntersect", "src/yapcad/geom3d.py")])

prop("C05", "Mesh measurements and mesh export reflect the triangles exactly",
 "A triangle's reported normal is the unit right-hand normal of its winding (or it is reported degenerate), its area and centroid are exact, a surface's area is the sum over its faces, a bounding box is the exact coordinate-wise extent, and the volume of a closed solid is the absolute divergence-theorem sum, unchanged by moving the solid. A solid is called closed, and a surface watertight, exactly when every edge is shared by exactly two triangles. Writing a mesh as binary STL records every non-degenerate triangle once, in order, with its vertices and normal, and reading it back yields the same triangles.",
 ["inputs"], "every triangle mesh, closed or not, every vertex position",
 "Tests use a few primitives; the claims are about every mesh.",
 ["src/yapcad/geometry_utils.py", "src/yapcad/mesh.py", "src/yapcad/geometry_checks.py", "src/yapcad/geom3d.py", "src/yapcad/io/stl.py"],
 [("triangle_normal, triangle_area, orient_triangle", "src/yapcad/geometry_utils.py"), ("mesh_view", "src/yapcad/mesh.py"), ("surface_watertight, issolidclosed, volumeof, surfacearea", "src/yapcad/geometry_checks.py, src/yapcad/geom3d.py"), ("_write_binary, _parse_binary_stl", "src/yapcad/io/stl.py")])

prop("C06", "Box overlap tests are exact and the spatial index misses nothing",
 "Two axis-aligned boxes are reported to overlap exactly when they share a point (within the documented tolerance), regardless of argument order. A spatial index query returns exactly the stored items whose boxes overlap the query box, each once, whatever the insertion order, depth and item count.",
 ["inputs", "histories"], "every pair of boxes; every insertion history and query box, 2D and 3D",
 "The tests insert a few items at fixed coordinates; subdivision makes the outcome depend on the whole history.",
 ["src/yapcad/octtree.py", "src/yapcad/collision/detector.py", "src/yapcad/assembly/kinematic_integration.py"],
 [("boxoverlap, boxoverlap2, bbox2oct, bbox2quad, box2boxes", "src/yapcad/octtree.py"), ("NTree.addElement/updateTree/getElements", "src/yapcad/octtree.py"), ("_aabb_intersects", "src/yapcad/collision/detector.py")])

prop("C07", "Kinematic frames always report the pose implied by the current joints",
 "The world pose reported for a frame equals the product, from the root down, of the fixed placements and joint motions on its path for the current joint values, after any sequence of frame additions, joint updates and queries. A revolute joint turns by its value about its unit axis through its origin and a prismatic joint slides by its value along it. Joint values set through the chain are kept within the declared limits (unless clamping is switched off), the pose between two frames composes with world poses, and saving and reloading a chain keeps every pose. Validation reports a circular attachment, a missing parent and a missing frame.",
 ["histories", "inputs"], "every tree of frames, every joint configuration, every interleaving of updates and queries",
 "Cached poses make the answer depend on the history; tests exercise short fixed histories.",
 ["src/yapcad/kinematics/chain.py", "src/yapcad/kinematics/joint.py", "src/yapcad/kinematics/frame.py", "src/yapcad/kinematics/transform.py"],
 [("KinematicChain caching and invalidation", "src/yapcad/kinematics/chain.py"), ("Joint motion and limits", "src/yapcad/kinematics/joint.py"), ("rigid Transform algebra", "src/yapcad/kinematics/transform.py")],
 state=[("cached world transforms", "pose of each frame computed since the last change above it", "src/yapcad/kinematics/chain.py")])

prop("C08", "Solving a face mate yields a rigid pose that satisfies the mate",
 "The pose computed for a face, axis or general mate is a proper rigid motion (orthonormal rotation, determinant +1), and applying it to the child makes the mate true: flush faces become coplanar at exactly the requested offset with normals opposed (or aligned when flipped), concentric axes become collinear, parallel/perpendicular/angle/distance mates meet their stated relation. The answer depends only on the mate and poses currently given, not on earlier solves.",
 ["inputs", "histories"], "every pair of datums in every relative pose, including exactly aligned and exactly opposed directions; every history of earlier solves",
 "The tests check axis-aligned faces; the claim covers all orientations and repeated solves with changed inputs.",
 ["src/yapcad/assembly/face_mate.py", "src/yapcad/assembly/solver.py"],
 [("compute_flush_transform, compute_concentric_transform, compute_parallel_transform, _rotation_between_vectors", "src/yapcad/assembly/face_mate.py"), ("MateConstraintSolver.solve_mate and per-type solvers, validate_transform", "src/yapcad/assembly/solver.py")],
 state=[("solution cache", "pose previously computed for a mate", "src/yapcad/assembly/solver.py")])

prop("C09", "Assembly constraint verdicts match the measured geometry",
 "A geometric constraint (coincident, concentric, parallel, perpendicular, tangent, radial, facing, at a radius or distance, minimum distance, clearance, no overlap) passes exactly when the stated geometric error, measured on the parts in their current poses, is within its tolerance. Overlap, clearance and stacking are measured on the bounding boxes of the placed parts, and an overlap constraint given no shape to measure says that it was skipped. A constraint whose required parameters are missing never passes. The reported deviation is the measured one.",
 ["inputs"], "every pose, tolerance and parameter away from round-off of the threshold; both orders of the datums",
 "Tests probe one passing and one failing example per kind.",
 ["src/yapcad/assembly/constraint.py", "src/yapcad/assembly/kinematic_integration.py", "src/yapcad/assembly/mate.py"],
 [("Constraint.evaluate", "src/yapcad/assembly/constraint.py"), ("KinematicConstraint evaluators", "src/yapcad/assembly/kinematic_integration.py"), ("Mate.evaluate_coincident, check_bolt_circle_alignment", "src/yapcad/assembly/mate.py")])

prop("C10", "An assembly is valid iff nothing at error severity fails",
 "Validating an assembly reports it valid exactly when no error-severity constraint fails; warnings and notices never change the verdict, every constraint is evaluated once and every failure is reported. The raising form raises the assembly error exactly when the verdict is invalid. Mates, constraints, load cases and bolt patterns that refer to an undefined part or datum, and parts, datums, load cases and bolt patterns whose key is already taken, are rejected and leave the assembly unchanged.",
 ["inputs", "histories"], "every list of constraints with any mix of severities and outcomes; every sequence of additions",
 "Quantified over every combination of outcomes and severities of any length.",
 ["src/yapcad/assembly/assembly.py", "src/yapcad/assembly/kinematic_integration.py", "src/yapcad/assembly/datum.py"],
 [("Assembly.validate, validate_and_raise, add_part, add_mate, add_constraint", "src/yapcad/assembly/assembly.py"), ("AssemblyValidator.validate", "src/yapcad/assembly/kinematic_integration.py"), ("PartDefinition.add_datum", "src/yapcad/assembly/datum.py")])

prop("C11", "Datums transform as geometry: points move, directions turn",
 "Transforming a datum by a rigid motion moves its origin as a point, turns every direction it carries as a direction (unaffected by the translation part, unit length kept) and keeps sizes such as radii; composing two motions equals transforming twice. A datum is only accepted with non-zero directions and positive radii, and stores points and directions in homogeneous form with weight 1 and 0. The frame of a datum is a rigid motion at its origin with z along its direction, and the registry returns exactly the datum last registered under a source and name.",
 ["inputs"], "every datum kind, every rigid motion",
 "Tests transform a few axis-aligned datums.",
 ["src/yapcad/assembly/datum.py", "src/yapcad/assembly/datum_registry.py", "src/yapcad/assembly/assembly.py"],
 [("Datum.__post_init__, Datum.transform", "src/yapcad/assembly/datum.py"), ("get_transformed_datum", "src/yapcad/assembly/assembly.py")])

prop("C12", "Mate motion stays within limits and coupling relations are exact",
 "A mate is reported satisfied exactly when its position is within its position limits, and every violated position, velocity or effort limit is reported. Coupled motion (gear, belt, rack, screw) is the declared linear relation of the driving motion including ratio, direction and offset. The degrees of freedom of a mate follow from its kind (0 to 6, or the marker -1 for kinds that only couple other motions), those of the parts of an assembly lie between 0 and 6, and saving and reloading a mate preserves it.",
 ["inputs"], "every mate kind, limit set, position, velocity, effort and ratio",
 "Tests cover a few kinds with one value each.",
 ["src/yapcad/assembly/mate.py", "src/yapcad/assembly/assembly.py"],
 [("Mate.evaluate, compute_coupled_motion, degrees_of_freedom, to_dict/from_dict", "src/yapcad/assembly/mate.py"), ("get_degrees_of_freedom", "src/yapcad/assembly/assembly.py")])

prop("C13", "Collision checking examines every pair once and classifies each correctly",
 "An assembly collision check examines every unordered pair of distinct parts exactly once except pairs explicitly skipped, and reports a collision for a pair exactly when their boxes overlap. A colliding pair counts as an error exactly when the overlap is not an allowed interface overlap, which needs at least one compatible overlapping interface pair and no incompatible one. The summary counts agree with the individual results, and saving and reloading a result preserves it.",
 ["inputs"], "every number of parts, every skip set, every placement and interface set",
 "Pairs grow quadratically and the classification mixes several inputs; tests use two or three parts.",
 ["src/yapcad/collision/detector.py", "src/yapcad/collision/registry.py", "src/yapcad/collision/result.py"],
 [("check_assembly, check_collision, get_collision_summary", "src/yapcad/collision/detector.py"), ("check_overlap_compatibility", "src/yapcad/collision/registry.py"), ("CollisionResult.is_error", "src/yapcad/collision/result.py")])

prop("C14", "Gear, thread and interface compatibility verdicts follow the declared rules",
 "Two gears are compatible exactly when modules agree within 0.1 percent and pressure angles within half a degree, the required centre distance is the sum of the pitch radii, a pair is in mesh exactly when its actual centre distance is within the tolerance of that, and the planets of a generated planetary set sit at exactly that distance from the sun, equally spaced. Threads are compatible exactly when one is internal and one external and diameter and pitch agree. The interface registry answers every lookup exactly from the interfaces registered and not since removed.",
 ["inputs", "histories"], "every pair of gears or threads; every register/unregister history",
 "Thresholded relations over reals and arbitrary histories.",
 ["src/yapcad/collision/gear_interface.py", "src/yapcad/collision/thread_interface.py", "src/yapcad/collision/registry.py", "src/yapcad/collision/interface.py"],
 [("GearMeshInterface.check_compatibility", "src/yapcad/collision/gear_interface.py"), ("ThreadInterface.check_compatibility", "src/yapcad/collision/thread_interface.py"), ("InterfaceRegistry", "src/yapcad/collision/registry.py")])

prop("C15", "The DSL type relation is a sound order with matching common types",
 "A declared DSL type accepts itself and exactly its declared promotions (int to float, profile2d to region2d, and the dimension-polymorphic point and vector to and from their 2d and 3d forms). Assignability is reflexive, and transitive except through a polymorphic point or vector; lists and optionals follow their element types. The common type of two types, when reported, accepts values of both, and asking in the other order reports a mutually assignable type or none likewise. An expression of unknown or erroneous type never causes a second, spurious error.",
 ["inputs"], "every type built from the declared ones by nesting list and optional to any depth",
 "Types nest without bound; tests list a few pairs.",
 ["src/yapcad/dsl/types.py", "src/yapcad/dsl/checker.py"],
 [("is_assignable_from, common_type, resolve_type_name", "src/yapcad/dsl/types.py"), ("TypeChecker._check_*", "src/yapcad/dsl/checker.py")])

prop("C16", "DSL programs compute what the source says, and failed requirements fail them",
 "Arithmetic, comparison and boolean expressions, conditionals, loops, list indexing and comprehensions evaluate to the value standard arithmetic gives with the documented precedence, integer operations stay integers except true division, and variables of an inner block never leak out or overwrite an outer one of the same name. A command whose requirement evaluates false, or which hits any runtime error or a resource limit, reports failure, never success, also when this happens in a command it calls. Running a command does not change the outcome of running another.",
 ["inputs", "programs"], "every operand value, every nesting of scopes, every truth combination",
 "Programs and values are unbounded; tests run fixed programs.",
 ["src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/runtime/context.py", "src/yapcad/dsl/runtime/values.py", "src/yapcad/dsl/parser.py"],
 [("expression and statement evaluation", "src/yapcad/dsl/runtime/interpreter.py"), ("scope stack", "src/yapcad/dsl/runtime/context.py")])

prop("C17", "Package validation accepts only files whose recorded hashes still match",
 "A package is reported valid only if its manifest has the required fields, its materials conform to the material schema, and every file the manifest lists (primary and derived geometry, exports, attachments) exists and, where a hash is recorded, still has exactly that hash; changing, truncating or deleting any such file turns the verdict invalid and the message names the file. Strict mode never accepts a package that ordinary mode rejects. A freshly created package, and one whose hashes were just recomputed, validates.",
 ["inputs", "histories"], "every set of listed files and every modification of any of them",
 "Quantified over every file list and every corruption.",
 ["src/yapcad/package/validator.py", "src/yapcad/package/core.py"],
 [("validate_package, _check_file", "src/yapcad/package/validator.py"), ("PackageManifest.recompute_hashes, create_package_from_entities", "src/yapcad/package/core.py")])

prop("C18", "A package signature verifies only for the signed manifest and files",
 "The signed digest covers every field of the manifest other than the signature list itself, and does not depend on field order. A package is reported valid only if at least one examined signature is a valid signature of the current content by a trusted key and nothing examined produced an error; a later change to the manifest or to a listed file, or a signature by an unknown, revoked, untrusted or wrong key, is never reported as valid. Adding a signature leaves earlier ones in place and verifiable.",
 ["inputs", "histories"], "every manifest, every later modification, every mix of signature outcomes",
 "Every field and every combination of outcomes must be covered, not the one field a test flips.",
 ["src/yapcad/package/signing.py"],
 [("compute_canonical_manifest_hash, verify_package, sign_package", "src/yapcad/package/signing.py")])

prop("C19", "Saving geometry and metadata and loading them back preserves them",
 "Serialising surfaces, solids and planar sketches (lines, polylines, circles, arcs, ellipses, splines) to the JSON document and loading them back yields the same vertices, normals, faces, curves, solid structure and explicitly given metadata, with identifiers and references intact. The originals keep their geometry and given metadata (only a missing identity or default may be filled in), the document shares no data with the model, and non-finite coordinates are refused. Metadata helpers change only the field they name, tags are kept as a set without duplicates, a solid hands its layer to its surfaces, and layer and identity survive copying unless explicitly changed. Surface boundary, hole, material and construction lists and metadata of sketches are not part of the document.",
 ["inputs"], "every geometry and metadata document the schema allows",
 "Quantified over all documents; tests use a few.",
 ["src/yapcad/io/geometry_json.py", "src/yapcad/metadata.py"],
 [("geometry_to_json, geometry_from_json", "src/yapcad/io/geometry_json.py"), ("metadata helpers", "src/yapcad/metadata.py")])

prop("C20", "Spline evaluation interpolates, stays in the hull and moves with its points",
 "Bezier, clamped B-spline and NURBS curves start and end at their first and last control points, Catmull-Rom curves pass through every control point in order, and closed curves join up. Every evaluated Bezier, B-spline or positively weighted NURBS point is a convex combination of the control points, so moving all control points by an affine map moves the curve by the same map. Equal NURBS weights give the plain B-spline.",
 ["inputs"], "every control polygon, degree, knot vector, positive weights and parameter",
 "Tests evaluate a few curves at a few parameters.",
 ["src/yapcad/spline.py"],
 [("bezier_point, evaluate_bspline, evaluate_catmullrom, evaluate_nurbs", "src/yapcad/spline.py")])

prop("C21", "Segmenting a swept part respects the size limit and preserves the path",
 "Automatically computed cuts split the path into consecutive pieces, none longer than the maximum segment length, whose sub-paths join end to end and together have the length of the whole path. Evaluating a path at 0 and 1 gives its ends and is continuous across element boundaries; parameter-to-length and length-to-parameter conversions are inverse. Connector sizes subtract walls and clearance exactly and are rejected when nothing is left, and ring cuts keep the required distance from every hole whenever an allowed position exists near the ideal one (otherwise the documented last resort applies). Full-turn arcs (equal start and end) are excluded.",
 ["inputs"], "every path of line and arc elements, every limit, wall and clearance, every hole layout",
 "Continuous parameters and unequal elements; tests use equal straight pieces.",
 ["src/yapcad/manufacturing/path_utils.py", "src/yapcad/manufacturing/segmentation.py", "src/yapcad/manufacturing/connectors.py", "src/yapcad/manufacturing/rings.py"],
 [("evaluate_path3d_at_t, extract_sub_path, path_length, length_to_parameter", "src/yapcad/manufacturing/path_utils.py"), ("compute_optimal_cuts", "src/yapcad/manufacturing/segmentation.py"), ("compute_*_dimensions", "src/yapcad/manufacturing/connectors.py"), ("compute_ring_cuts_avoiding_holes", "src/yapcad/manufacturing/rings.py")])

prop("C22", "Analysis plans are rejected when malformed and results pass only if all limits hold",
 "A validation plan or result is accepted exactly when all required fields are present and every section that its kind uses has the documented shape and allowed values; each defect is reported at its place (missing required fields and an unknown kind end the examination). An analysis is reported failed exactly when an acceptance limit on a computed metric is violated for the stated comparison, and otherwise passed only when every limited metric was computed and every comparison is a known one; errors and missing solvers are never reported as passed, and the recorded result says what the backend reported. Volume, area, mass, bounding box and centroid of several parts combine as sums, extents and volume-weighted means, and face selectors pick exactly the faces their criterion describes. Selecting single entities of a package is not implemented and not claimed.",
 ["inputs"], "every plan document, every metric value and limit, every comparison operator",
 "Every field and operator combination matters; tests check a few.",
 ["src/yapcad/package/analysis/schema.py", "src/yapcad/package/analysis/yapcad_native.py", "src/yapcad/package/analysis/calculix.py", "src/yapcad/package/analysis/fenics.py"],
 [("validate_plan, validate_result", "src/yapcad/package/analysis/schema.py"), ("_evaluate_acceptance, _check_*", "src/yapcad/package/analysis"), ("face selectors, FaceNamer", "src/yapcad/package/analysis/face_naming.py"), ("analyze_package", "src/yapcad/package/analysis/cli.py")])

prop("C23", "Analytic surfaces and conic curves evaluate on the shape they declare",
 "Every evaluated point of a plane, sphere, cylinder, cone or torus surface lies on the declared shape, at the place its two parameters name (right-handed about the unit axis, from the reference direction), and the reported normal is unit, perpendicular to the surface there and pointing away from the centre, axis or tube circle. B-spline surface normals are unit and square to the surface also at the ends of the range. Tessellating a surface gives a regular grid that covers its range exactly once, every triangle turned the same way, bounded by one loop round the range. Points of ellipses, parabolas and hyperbolas satisfy the declared conic in the plane of the declared normal (semi-axes, rotation, start to end), tangents are unit and along the curve, lengths and boxes are those of the sampled points. Zero directions, sizes that are not positive and values of another kind are rejected.",
 ["inputs"], "every placement, axis, size, parameter range and parameter value",
 "Orientation, wrap-around and range ends need all placements; tests use axis-aligned surfaces at a few parameters.",
 ["src/yapcad/analytic_surfaces.py", "src/yapcad/geom.py"],
 [("evaluate_*_surface, *_surface_normal, tessellate_surface", "src/yapcad/analytic_surfaces.py"), ("ellipse/parabola/hyperbola: *_sample, *_tangent, *_length, *_bbox", "src/yapcad/geom.py")])

prop("C24", "Primitive, revolved, extruded and lofted solids are closed, outward oriented and sized as requested",
 "Boxes, cylinders, cones and frusta, tubes, spherical shells, dodecahedra, spheres, spheroids, solids of revolution, extrusions of flat surfaces (with or without holes, in any direction that leaves the plane, on either side) and lofts between two loops are closed: every side of every face is run exactly once the other way by another face. Every vertex is at the place the requested dimensions and position name, every face points out of the material, and the enclosed volume is that of the requested shape on its facets. Open results (discs, polygons, open revolutions, tubes without caps) have exactly the borders asked for. Dimensions that make no solid (no wall, no height, walls that leave no bore) are rejected. The inputs are left alone. Stacks stand end to end in order with the gaps asked for, and radial and linear patterns hold the copies at equal steps without repeating one. Facet counts are fixed instances; features smaller than about a micrometre are outside the claim.",
 ["inputs"], "every dimension, position, direction and profile radius",
 "A missing, flipped or misplaced face shows for some proportions, directions or windings only; tests count faces of a few examples.",
 ["src/yapcad/geom3d_util.py", "src/yapcad/geom3d.py"],
 [("prism, conic, tube, spherical_shell, dodecahedron, sphere", "src/yapcad/geom3d_util.py"), ("extrude, makeLoftSolid, makeRevolutionSurface", "src/yapcad/geom3d_util.py"), ("poly2surfaceXY, addTri2Surface", "src/yapcad/geom3d.py"), ("stack_solids, radial_pattern_*, linear_pattern_*", "src/yapcad/geom3d_util.py")])

prop("C25", "The native B-rep graph keeps its incidences, closure verdicts and geometry through storing and moving",
 "In a topology graph the edges of a vertex, edges of a face and faces of an edge are exactly those its entities reference. A shell is judged closed exactly when each edge is used twice; a solid is accepted exactly when its shells are known, really closed, do not meet, and every void lies inside the outer shell; a point is inside a shell exactly when a ray from it crosses the surface an odd number of times. Line, arc and ellipse edges evaluate to curves from their start vertex to their end vertex with the declared bulge, centre and direction. Storing a graph and loading it gives back every vertex, edge, trim, loop, face surface, shell and solid with the same identity, fields and incidences. Translating, rotating and scaling a graph takes every vertex, edge parameter and every point and normal of its faces to the moved place, parameter by parameter. Circle and B-spline edge evaluation and mirrored faces with partial parameter ranges are not covered.",
 ["inputs", "histories"], "every graph, surface, edge kind, rigid motion and scale",
 "Identity, orientation and directions can be lost silently; tests store and move a few untilted shapes.",
 ["src/yapcad/native_brep.py"],
 [("TopologyGraph", "src/yapcad/native_brep.py"), ("evaluate_edge_curve", "src/yapcad/native_brep.py"), ("serialize_topology_graph, deserialize_topology_graph", "src/yapcad/native_brep.py"), ("transform_topology_graph, *_native_brep", "src/yapcad/native_brep.py")])

prop("C26", "Fastener threads and gear outlines have their tabulated and declared dimensions",
 "A thread profile has its crest at half the nominal diameter and its root the thread depth below (an external root never below the axis), each flat over its stated part of the pitch, straight and the same on both flanks in between, and repeats with the pitch; metric and unified profiles follow from diameter and pitch or threads per inch, and the lead is the pitch times the starts. A sampled right-handed profile runs in order from start to end of its range, keeps every corner, has the same number of points at every angle and moves on by the lead over a turn. A catalogue lookup gives exactly the record of the size asked for from the first place that has the series and refuses what is unknown or malformed, every bundled size obeys the relations of its standard, and bolts and nuts are built with those dimensions, their tolerance applied and the thread no longer than the shank. A gear outline is closed and the same for every tooth, its flanks are involutes of the base circle from base to tip circle, and its teeth are half a pitch wide on the pitch circle. Left-handed sampling, lead-in tapers and the older fastener tables are not covered.",
 ["inputs"], "every nominal size, pitch, depth, flat, number of starts, place along the thread and catalogue record; gear outlines for enumerated tooth counts",
 "A wrong flank, root or unit shows between the sampled places or for coarse pitches only; tests count points of one or two profiles.",
 ["src/yapcad/threadgen.py", "src/yapcad/fasteners/catalog.py", "src/yapcad/fasteners/builders.py", "src/yapcad/contrib/figgear.py"],
 [("_radius_at, sample_thread_profile, metric_profile, unified_profile", "src/yapcad/threadgen.py"), ("load_catalog, get_*_data", "src/yapcad/fasteners/catalog.py"), ("build_hex_*_from_catalog", "src/yapcad/fasteners/builders.py"), ("make_gear_figure", "src/yapcad/contrib/figgear.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
