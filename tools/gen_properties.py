#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as code so that it can be edited comfortably).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
NC="src/curve/nurbs_curve.rs"; NS="src/surface/nurbs_surface.rs"; KV="src/knot/knot_vector.rs"

prop("C01","Curve evaluation equals the rational B-spline definition",
 "For every curve with a non-decreasing knot vector, clamped or not, rational or not, of any degree and dimension, the point, first and second derivative, tangent and regularly spaced samples returned for any parameter of its domain (interior knots and both ends included) equal those of the rational B-spline defined by its degree, knots, control points and weights. Two or more samples asked for a range run from the start to the end of that range in order, are as many as requested, and carry the parameters they were evaluated at.",
 ["inputs"],"all degrees, knot vectors (any interior multiplicity up to the degree, clamped or unclamped, shifted and scaled domains), weights, dimensions, scalar types, and all parameters in the domain",
 "The tests evaluate a handful of degree 2/3 clamped curves at a few parameters; knot spans are selected by comparisons that go wrong only at particular parameter/multiplicity combinations.",
 [NC,KV],[("span search","KnotVector::find_knot_span_index"),("basis functions and their derivatives","KnotVector::basis_functions, derivative_basis_functions"),("homogeneous to rational derivatives","NurbsCurve::rational_derivatives"),("regular sampling","NurbsCurve::sample_regular_range*, KnotVector::regularly_spaced_*")],
 [("curve","degree, knot vector, homogeneous control points","src/curve/nurbs_curve.rs struct NurbsCurve")],["point_at","tangent_at","second_derivative_at","point_tangent_at","sample_regular_range","sample_regular_range_with_parameter"])
prop("C02","Curve construction accepts exactly the well-formed inputs",
 "Building a curve from a degree, control points and knots succeeds exactly when the counts are consistent (more control points than the degree, and as many knots as control points plus degree plus one), never panics, and a curve so built has a sorted knot vector and the given degree, control points and weights. A polyline visits its points in order, as straight segments, each point at its cumulative chord length (divided by the total length if normalised).",
 ["inputs"],"all combinations of degree, number of control points, number and order of knots up to a bound",
 "Tests construct only consistent inputs.",
 [NC,KV],[("validation","NurbsCurve::try_new"),("polyline knots","NurbsCurve::polyline"),("knot helpers","KnotVector::multiplicity, is_clamped, domain, clamp, floor")],None,["try_new","polyline","weights","dehomogenized_control_points","knots_domain","is_clamped"])
prop("C03","Knot insertion, refinement and clamping preserve the curve",
 "Inserting any knots inside the domain (existing or new, in any order, single or repeated as long as no knot gets a multiplicity above degree plus one), or clamping an unclamped curve, leaves every point of the curve at its parameter, yields exactly the old knots plus the requested ones (clamping: an end multiplicity of degree plus one over the same domain), and keeps the curve well formed. A request that cannot be honoured reports an error and leaves the curve unchanged.",
 ["inputs","histories"],"all curves (rational, unclamped and with repeated knots included) and all multisets of insertion parameters up to a bound",
 "Tests insert into one or two non-rational curves; boundary knots, repeated insertion, unclamped and rational cases are not sampled.",
 [NC],[("refinement","NurbsCurve::try_refine_knot"),("single insertion","NurbsCurve::try_add_knot"),("clamping","NurbsCurve::try_clamp")],None,["try_refine_knot","try_add_knot","try_clamp","point_at","knots"])
prop("C04","Knot removal undoes insertion and never distorts the curve",
 "Removing a knot that is removable (because it was inserted without changing the shape) succeeds, removes and reports at least as many occurrences of it as had been inserted, and leaves every point of the curve at its parameter. Whenever removal of a knot is reported as successful the curve is unchanged within the tolerance, and when it is reported as failed the curve is left as it was.",
 ["inputs","histories"],"all curves, all interior knots, and all insert/remove histories up to a bound",
 "The one test removes one knot from one curve.",
 [NC],[("removal","NurbsCurve::try_remove_knot")],None,["try_remove_knot","point_at","knots"])
prop("C05","Degree elevation preserves the curve",
 "Raising the degree of any continuous curve, clamped or not, to any higher degree leaves every point of the curve at its parameter, and yields a well-formed clamped curve of exactly the requested degree over the same domain, with the same distinct knots, each of which keeps its continuity. Asking for a degree not above the present one returns the same curve.",
 ["inputs"],"all curves (any interior multiplicities up to the degree, rational or not, clamped or not) and all target degrees up to a bound",
 "Tests elevate one curve by one degree and compare samples of it.",
 [NC],[("degree elevation","NurbsCurve::try_elevate_degree"),("binomials","src/misc/binomial.rs")],None,["try_elevate_degree","point_at","degree","knots"])
prop("C06","Bezier decomposition covers the curve exactly",
 "Decomposing any curve yields, in order, one clamped single-span curve of the same degree per non-empty knot interval of its domain, whose domains abut and together are the domain of the curve, each agreeing with the curve at every parameter.",
 ["inputs"],"all curves (unclamped, rational and repeated-knot ones included) up to a bound",
 "The tests decompose two curves and compare end points.",
 [NC],[("decomposition","NurbsCurve::try_decompose_bezier_segments"),("full-multiplicity refinement","NurbsCurve::try_refine_knot")],None,["try_decompose_bezier_segments","point_at"])
prop("C07","Splitting and trimming a curve keep shape and partition the domain",
 "Splitting a curve at any parameter strictly inside its domain, knots included, yields two well-formed curves over the two sub-intervals that agree with it at every parameter of theirs. Trimming to a range yields exactly the piece over that range (for a reversed range on a closed reading: the pieces outside of it, from the later parameter to the end and from the start to the earlier one, in that order), and parameters outside of the domain are refused with an error.",
 ["inputs","histories"],"all curves, all split parameters and all pairs of trim parameters from a grid with all knots and ends, and all nested split sequences up to a bound",
 "Tests split a few curves at one interior parameter each.",
 ["src/split/mod.rs","src/trim/mod.rs",NC],[("split by refinement","Split for NurbsCurve"),("trim","TrimRange for NurbsCurve")],None,["try_split","try_trim_range","try_trim"])
prop("C08","Reversal, normalisation, transforms and casts act as on the shape",
 "Reversing a curve gives the curve traversed backwards over a domain of the same length (the same domain if it is clamped) and reversing twice restores it; normalising its parameters rescales its domain to the unit interval without changing the shape; an affine transformation of the curve (rational or not) maps each of its points by that transformation; raising its dimension appends a zero coordinate to each point; converting its scalar type keeps it within the precision of the type; slicing off dimensions and weight accessors agree with the control points.",
 ["inputs","histories"],"all curves and all affine matrices of a generating set, and all compositions of these operations up to a bound",
 "Tests apply one translation/rotation to simple curves.",
 [NC,KV,"src/misc/invertible.rs","src/misc/transformable.rs"],[("reverse","Invertible for NurbsCurve, KnotVector::invert"),("normalise","NurbsCurve::normalize_knots"),("transform","Transformable for NurbsCurve"),("cast, elevate_dimension","NurbsCurve")],None,["invert","normalize_knots","transform","elevate_dimension","cast"])
prop("C09","Any history of edits keeps a curve well formed and its shape tracked",
 "After any sequence of curve edits (knot insertion and removal, degree elevation, splitting and trimming, reversal, clamping, normalisation, affine transformation, decomposition, serialisation) the curve is well formed (counts consistent, knots sorted, positive weights, finite control points) and, at every parameter, equals the original curve carried through the corresponding reparametrisations and transformations.",
 ["histories"],"all operation sequences up to a depth, from every initial curve of a family",
 "Tests apply one operation to a fresh curve; nothing chains them.",
 [NC,"src/split/mod.rs","src/trim/mod.rs"],[("all editing operations","NurbsCurve, Split, TrimRange, Invertible, Transformable")],[("curve","degree, knot vector, homogeneous control points","struct NurbsCurve")],["point_at","knots","control_points","degree"])
prop("C10","Circles, ellipses and arcs are exact",
 "A circle, ellipse, arc or elliptical arc built from a centre, two axes, radii and start/end angles has every point on that conic in the plane of the axes, starts and ends at the points of the given angles, sweeps them monotonically from start to end, and covers exactly the requested angle. Closed ones close up.",
 ["inputs"],"all centres, orthonormal axis pairs, radii and angle pairs from a grid that includes multiples of the quadrant and their neighbourhood, negative angles and full turns, in two and three dimensions",
 "Tests check radii of one unit circle and one arc.",
 [NC],[("arc construction","NurbsCurve::try_ellipse_arc, try_arc, try_circle, try_ellipse")],None,["try_circle","try_ellipse","try_arc","try_ellipse_arc","point_at"])
prop("C11","Interpolation passes through its points",
 "A curve interpolated through any sequence of at least degree-plus-one pairwise distinct consecutive points, with any admissible degree, is clamped, of the requested degree, starts at the first and ends at the last point, and passes through all of the points in order. Inputs with too few points are refused with an error.",
 ["inputs"],"all small point sequences over a lattice and all degrees up to a bound, in two and three dimensions",
 "Tests interpolate one or two point sets with degree 3.",
 [NC],[("global interpolation","NurbsCurve::try_interpolate, try_interpolate_control_points")],None,["try_interpolate","point_at"])
prop("C12","Periodic curves close up smoothly",
 "A curve built periodically from any ring of control points, or periodically interpolated through any ring of points under any parametrisation style (for an even degree: any ring with an odd number of points, as that of an even one is not determined), is closed, of the requested degree, and joins its end to its start with all derivatives up to one below its degree continuous; the interpolated one also passes through all of the ring points in order.",
 ["inputs","configurations"],"all small point rings over a lattice, degrees and parametrisation styles up to a bound",
 "Tests check closure of one ring per style.",
 [NC,"src/curve/knot_style.rs"],[("periodic construction","NurbsCurve::try_periodic"),("periodic interpolation","NurbsCurve::try_periodic_interpolate, KnotStyle::parameterize")],None,["try_periodic","try_periodic_interpolate","point_at","is_closed"])
prop("C13","Arc length is additive, monotone and invertible",
 "The length of a curve equals the integral of its speed, is unchanged by knot insertion, reversal and splitting (the pieces add up), the parameter found for an arc length is the one at which that length has been travelled, and dividing a curve by a length or a count yields division points in increasing order at equal arc-length steps covering the whole curve.",
 ["inputs","histories"],"all curves of the family, all length fractions and counts up to a bound",
 "Tests compute the length of simple curves.",
 [NC,"src/curve/curve_length_parameter.rs"],[("quadrature per Bezier span","NurbsCurve::try_length"),("inverse","NurbsCurve::try_parameter_at_length"),("division","NurbsCurve::try_divide_by_length, try_divide_by_count")],None,["try_length","try_parameter_at_length","try_divide_by_length","try_divide_by_count"])
prop("C14","Closest point on a curve is on the curve and nearest",
 "The closest point returned for any query is the curve's point at the returned parameter, which lies in the domain, and no point of the curve is nearer to the query than it by more than the solver's tolerance whenever the nearest point is unique and well separated; a query on the curve returns itself.",
 ["inputs"],"all curves of the family (open, closed, clamped, rational) and all query points of a grid and of the curve itself",
 "Tests query one or two curves at a few points.",
 [NC,"src/closest_parameter/curve_closest_parameter_newton.rs","src/closest_parameter/curve_closest_parameter_problem.rs"],[("seeding and Newton","NurbsCurve::find_closest_parameter, CurveClosestParameterNewton")],None,["find_closest_point","find_closest_parameter"])
prop("C15","Curve tessellation follows the curve under every random choice",
 "Tessellating a curve (or a chain of curves) yields points of the curve in order of parameter, from its start to its end, with a straight piece per polyline segment, and on a convex curve refining to any tolerance leaves no part of the curve farther from its polyline segment than the tolerance allows; this holds for every outcome of the random choices made on the way.",
 ["inputs","schedules"],"all curves of the family, several tolerances, and all sequences of the random probe choices up to a bound",
 "Tests count the points of one tessellation; the random probe is drawn once per run.",
 ["src/tessellation/tessellation_curve.rs","src/tessellation/tessellation_compound_curve.rs","src/misc/trigonometry.rs"],[("adaptive subdivision with a random probe","tessellate_adaptive"),("flatness","three_points_are_flat")],None,["tessellate"],None)
prop("C16","Moving frames along a curve are orthonormal and follow it",
 "The frames computed along a three-dimensional curve at increasing parameters are right-handed and orthonormal at every parameter, have the curve's unit tangent and point there, and turn from each parameter to the next by the least rotation that takes one tangent to the other, without additional twist or flips.",
 ["inputs"],"all three-dimensional curves of the family and all parameter lists up to a bound",
 "Tests build no frames beyond one example.",
 [NC,"src/misc/frenet_frame.rs"],[("rotation minimising frames","NurbsCurve3D::compute_frenet_frames")],None,["compute_frenet_frames"])
prop("S01","Surface evaluation equals the tensor-product definition",
 "For every surface, with any two degrees, knot vectors and weights, the point, partial derivatives, and normal vector (the cross product of the partial derivatives; of unit length where sampled on a grid) returned for any parameter pair of its domain equal those of the rational tensor-product B-spline it defines, and regularly spaced samples of points, normals and derivatives are those of the evenly spaced parameter grid, end to end, in row order.",
 ["inputs"],"all pairs of degrees and knot vectors, weights and parameter pairs (knots and corners included) up to a bound",
 "Tests evaluate one bicubic surface at a few parameters.",
 [NS,KV],[("evaluation","NurbsSurface::point, point_at"),("derivatives","NurbsSurface::derivatives, rational_derivatives, normal_at"),("regular grids","regular_sample_*")],None,["point_at","normal_at","rational_derivatives","regular_sample_points","regular_sample_normals","regular_sample_derivatives"])
prop("S02","Constructed surfaces have the geometry of their construction",
 "An extrusion is its profile swept along the given vector, a revolution is its profile turned about the given axis by every angle from zero to the given one (rigidly, any axis position and direction, profile points on the axis included), a sphere has all of its points at the radius, and a plane patch spans its two axes; each covers the whole profile and range.",
 ["inputs"],"all profiles of the curve family, axes, positions, angles (below, at and beyond quadrant multiples) from a grid",
 "Tests compare one instance of each with fixed control points.",
 [NS],[("extrude","NurbsSurface::extrude"),("revolve","NurbsSurface::try_revolve"),("sphere","NurbsSurface::try_sphere"),("plane","NurbsSurface::plane")],None,["extrude","try_revolve","try_sphere","plane","point_at"])
prop("S03","Lofts and sweeps interpolate their sections",
 "A loft through any sequence of clamped profile curves, of equal or different degrees, knots, domains and control point counts, passes through every profile in order, with the first and last profiles as its boundaries and each profile's shape kept; a sweep of a profile along a rail starts with the profile at the start of the rail and carries it rigidly along the rail.",
 ["inputs"],"all small tuples of profiles from the curve family and loft degrees up to a bound",
 "Tests loft one pair of compatible curves.",
 [NS],[("knot unification","try_unify_curve_knot_vectors"),("loft","NurbsSurface::try_loft"),("sweep","NurbsSurface::try_sweep")],None,["try_loft","try_sweep","point_at","try_isocurve"])
prop("S04","Surface edits preserve the surface",
 "Inserting knots in either direction, splitting in either direction, reversing, flipping either direction, transforming, converting the scalar type, and extracting iso-curves and boundary curves of any surface agree at every parameter with the original surface carried through the corresponding reparametrisation or transformation, keep it well formed, and behave so in any composition.",
 ["inputs","histories"],"all surfaces of the family (degrees different in the two directions), all insertion/split/iso parameters from a grid with knots and ends, and all operation sequences up to a depth",
 "Tests split one surface and refine one.",
 [NS,"src/split/mod.rs","src/surface/mod.rs"],[("refine","NurbsSurface::try_refine_knot"),("split","Split for NurbsSurface"),("iso-curves","try_isocurve, try_boundary_curves"),("reverse/flip","Invertible, flip")],None,["try_refine_knot","try_split","try_isocurve","try_boundary_curves","flip","invert","transform","cast"])
prop("S05","Closest point on a surface is on the surface and nearest",
 "The closest point returned for any query is the surface's point at the returned parameter pair, which lies in the domain, and no point of the surface is nearer than it by more than the solver's tolerance (at creases and the boundary, the spacing of the initial tessellation) when the nearest point is unique and well separated; a query on a smooth part of the surface returns itself.",
 ["inputs"],"all surfaces of the family and all query points of a grid",
 "Tests query one surface.",
 [NS,"src/closest_parameter/surface_closest_parameter_newton.rs","src/closest_parameter/surface_closest_parameter_problem.rs","src/bounding_box/surface_bounding_box_tree.rs"],[("seeding and Newton","NurbsSurface::find_closest_parameter")],None,["find_closest_point","find_closest_parameter"])
prop("T01","Surface tessellations are crack-free triangulations of the surface",
 "Every tessellation of a surface, regular or adaptive with any options, has all of its face indices in range, each vertex equal to the surface's point and normal at the vertex's parameters, and faces that cover the parameter domain exactly once, with consistent orientation, matching edges between neighbours (no cracks or T-junctions) and every part of the boundary reached. The subdivision depth bounds are respected.",
 ["inputs","configurations"],"all surfaces of the family and all option combinations (tolerances, minimum divisions, minimum and maximum depth) up to a bound",
 "Tests tessellate one or two surfaces and compare counts; cracks need particular neighbour refinements.",
 ["src/tessellation/surface.rs","src/tessellation/adaptive_tessellation_node.rs","src/tessellation/adaptive_tessellation_processor.rs","src/tessellation/surface_tessellation.rs",NS],[("grid and neighbours","surface_adaptive_tessellate, north/south/east/west"),("quadtree subdivision","AdaptiveTessellationProcessor"),("stitching","AdaptiveTessellationNode::get_all_corners"),("triangulation","SurfaceTessellation::triangulate"),("regular grid","NurbsSurface::regular_tessellate")],None,["tessellate","regular_tessellate"])
prop("T02","Boundary-constrained tessellations honour the given boundary",
 "When boundary parameters are prescribed for some sides of a surface, the tessellation's vertices on those sides are exactly the surface's points at the prescribed parameters, whatever the adaptive options and whatever is prescribed on the other sides, so that two surfaces sharing a side tessellate it identically; the mesh remains valid elsewhere.",
 ["inputs","configurations"],"all subsets of constrained sides, parameter lists up to a bound, and options",
 "Tests count vertices of one constrained surface.",
 ["src/tessellation/boundary_constraints.rs","src/tessellation/surface.rs","src/tessellation/surface_tessellation.rs","src/tessellation/surface_point.rs"],[("constraints","BoundaryConstraints, BoundaryEvaluation"),("flags","SurfacePoint::with_constraints/with_boundary")],None,["constrained_tessellate"])
prop("T03","Trimmed surfaces and regions mesh exactly their interior",
 "Tessellating a region or a trimmed surface, with or without an outer boundary, with any number of holes and with prescribed boundary parameters, yields a valid mesh whose parameter-space triangles lie inside the outer boundary and outside every hole, do not overlap, and whose total area is that of the region up to the boundary's tessellation tolerance.",
 ["inputs","configurations","schedules"],"all trimming layouts of a small family (outer boundary present or not, zero to two holes, orientations), options, and random probe choices",
 "Tests mesh one region and one trimmed surface and check that it succeeds.",
 ["src/tessellation/trimmed_surface.rs","src/tessellation/tessellation_region.rs","src/misc/polygon_boundary.rs","src/surface/trimmed_surface.rs"],[("constrained Delaunay and filtering","trimmed_surface_adaptive_tessellate, Tessellation for Region"),("point in polygon","PolygonBoundary::contains")],None,["tessellate","constrained_tessellate","area"])
prop("T04","Trimmed surfaces keep trims aligned with the surface",
 "Transforming or reversing a trimmed surface keeps each trimming curve's image the same set of space points, mapped by the transformation; trims made by projecting or mapping curves onto the surface lie at the projections of the given curves; and its parts and accessors return what it was built from.",
 ["inputs"],"all small surfaces, trims and transforms of a family",
 "Tests construct one.",
 ["src/surface/trimmed_surface.rs"],[("projection","TrimmedSurface::try_projection, try_map_closest_point"),("transform/invert","Transformable, Invertible for TrimmedSurface")],None,["try_projection","try_map_closest_point","transform","invert"])
prop("B01","Bounding boxes enclose and the box search never misses an overlap",
 "The bounding box of a curve, chain, or surface contains every point of it; two boxes are reported as overlapping exactly when they share a point once both are grown by the given tolerance on every side, containment of points is exact, and boxes built from points or corners are the least ones. The paired subdivision search over two curves, or a curve and a surface, keeps in its result a pair covering every common point, under every random choice of split positions.",
 ["inputs","schedules"],"all curves/surfaces of the family, all box pairs over a small lattice, all random split choices up to a bound",
 "Tests check a few boxes; the random splitting is sampled once per run.",
 ["src/bounding_box/mod.rs","src/bounding_box/bounding_box_traversal.rs","src/bounding_box/curve_bounding_box_tree.rs","src/bounding_box/surface_bounding_box_tree.rs"],[("box algebra","BoundingBox::intersects, contains"),("tree traversal","BoundingBoxTraversal::try_traverse"),("random split position","CurveBoundingBoxTree::try_divide")],None,["BoundingBox::from","intersects","contains","try_traverse"])
prop("K01","Point containment agrees with the winding of the boundary",
 "For a closed curve or closed chain of curves that does not cross itself and any point not within tolerance of the boundary, containment is reported exactly when the boundary winds around the point, whatever the position of the point relative to vertices, joints, tangents and horizontal edges; points on the boundary count as contained; a single open curve is refused; containment in a polygon (crossing itself or not) agrees with its winding number likewise.",
 ["inputs","schedules"],"all boundaries of a family (polygons, arcs, splines, reversed and re-seamed) and all query points of a grid aligned with their vertices and extremes, and random subdivision choices",
 "Tests query fixed points of a few shapes.",
 ["src/contains/contains_curve.rs","src/contains/contains_compound_curve.rs","src/misc/polygon_boundary.rs"],[("ray casting","x_ray_intersection, Contains impls"),("winding number","PolygonBoundary::contains")],None,["contains"])
prop("X01","Curve-curve intersections are sound and complete under random choices",
 "Every intersection reported for two curves is a point of both curves at the reported parameters within the tolerance, and each transversal, well-separated crossing of the two curves is reported exactly once, for either order of the two curves and for every outcome of the random subdivision choices. Two evenly parameterised curves that touch without crossing are reported to meet there once, and crossings that are close to each other along only one of the curves are each reported. Curves whose distance exceeds the tolerance report none.",
 ["inputs","schedules"],"all pairs from a family of lines, polylines, arcs, circles and splines over a lattice of positions, and all random subdivision choice sequences up to a bound",
 "Tests intersect a dozen fixed pairs with whatever random choices occur.",
 ["src/intersects/curve_curve/intersection_curve_curve.rs","src/intersects/curve_curve/curve_intersection_bfgs.rs","src/intersects/curve_curve/curve_intersection_problem.rs","src/bounding_box/bounding_box_traversal.rs"],[("candidate search, refinement, grouping","Intersects<NurbsCurve> for NurbsCurve"),("BFGS","CurveIntersectionBFGS")],None,["find_intersections"])
prop("X02","Chain intersections report every crossing once",
 "Intersecting a chain of curves with a curve or another chain reports each transversal crossing exactly once, also where it falls on a joint between two pieces, attributes it to pieces that contain it at the reported parameters, and reports no crossing that is not one.",
 ["inputs","schedules"],"all pairs of chains of a family with crossings in pieces and on joints, and random subdivision choices",
 "Tests intersect a few fixed chains.",
 ["src/intersects/curve_curve/intersection_compound_curve.rs","src/intersects/curve_curve/compound_curve_intersection.rs"],[("per-span search with joint culling","Intersects for CompoundCurve")],None,["find_intersections"])
prop("X03","Surface-curve intersections are sound and complete",
 "Every intersection reported between a surface and a curve is a point of both at the reported parameters within the tolerance, and each transversal, well-separated piercing is reported exactly once, for every outcome of the random subdivision choices.",
 ["inputs","schedules"],"all pairs of surfaces (planes, extrusions, spheres, splines) and curves of a family over a lattice of positions",
 "Tests intersect one surface with one curve.",
 ["src/intersects/surface_curve/intersection_surface_curve.rs","src/intersects/surface_curve/surface_curve_intersection_bfgs.rs","src/intersects/surface_curve/surface_curve_intersection_problem.rs"],[("candidate search, refinement, grouping","Intersects<NurbsCurve> for NurbsSurface"),("BFGS","SurfaceCurveIntersectionBFGS")],None,["find_intersections"])
prop("O01","Boolean operations on closed curves have set semantics",
 "For two simple closed curves or chains in general position (crossing transversally, nested, or apart), a point well away from both boundaries lies in the union, intersection or difference returned exactly when set membership says so, whatever the orientation, start point or order of the operands; each returned boundary is closed.",
 ["inputs","schedules"],"all pairs from a family of polygons, circles and splines over a lattice of relative positions, both orientations, all three operations, all grid points, and random subdivision choices",
 "Tests run a few fixed pairs and count the regions.",
 ["src/boolean/clip.rs","src/boolean/boolean_curve.rs","src/boolean/boolean_compound_curve.rs","src/boolean/degeneracies.rs","src/boolean/node.rs"],[("Greiner-Hormann clipping","clip"),("degeneracy filter","Degeneracy")],None,["union","intersection","difference"])
prop("O02","Boolean operations on regions respect holes",
 "For two regions with any number of holes in general position, a point well away from all boundaries lies in the result of a union, intersection or difference exactly when set membership of the two regions says so.",
 ["inputs","schedules"],"all pairs from a family of regions with zero to two holes over a lattice of relative positions, all three operations, all grid points",
 "Tests run one or two region pairs.",
 ["src/boolean/boolean_region.rs","src/region/mod.rs"],[("distribution of interiors","Boolean for Region")],None,["union","intersection","difference"])
prop("R01","Chains assemble from pieces in any order and orientation",
 "Joining connected curve pieces into a chain yields, whatever their order and orientations, one continuous chain that runs through all of the pieces exactly once, in the direction of the first piece given, with consecutive parameters from zero; ends that differ by rounding are joined, while pieces that do not meet the others are left out rather than joined with a jump.",
 ["inputs","histories"],"all permutations and orientation choices of up to four or five pieces of open and closed chains",
 "Tests join two or three pieces in fixed order.",
 ["src/region/compound_curve.rs","src/region/curve_direction.rs"],[("assembly","CompoundCurve::new"),("direction of connection","CurveDirection::new")],None,["CompoundCurve::new","spans","point_at"])
prop("R02","Chain operations agree with those of the pieces",
 "For every chain, evaluation at any parameter of its domain, closure, length, closest point, bounding box, reversal (which keeps the parameters consecutive), transformation, cutting out the part over a range of parameters (also one that ends at joints or runs around the seam), and regions made of chains agree with the concatenation of its pieces, before and after any sequence of these operations.",
 ["inputs","histories"],"all chains of a family (open and closed, one to four pieces), grid parameters and trim ranges, operation sequences up to a depth",
 "Tests check trims of one chain.",
 ["src/region/compound_curve.rs","src/trim/mod.rs","src/region/mod.rs"],[("chain operations","CompoundCurve methods"),("trim","TrimRange for CompoundCurve")],None,["point_at","is_closed","try_length","find_closest_point","invert","transform","try_trim_range"])
prop("J01","Serialisation round trips and rejects malformed input",
 "Writing any curve, surface, trimmed surface, chain or region and reading it back from a map with its fields in any order gives an equal object, and a map with missing, repeated or inconsistent fields (only the outer boundary of a trimmed surface may be left out) is refused with an error instead of producing a malformed object.",
 ["inputs"],"all objects of the families, all field orders, all single-field omissions and duplications",
 "Tests round trip one object of each kind in the default field order.",
 [NC,NS,"src/surface/trimmed_surface.rs","src/region/compound_curve.rs","src/region/mod.rs"],[("serde visitors","Serialize/Deserialize impls")],None,["serde_json to/from"])
prop("M01","Geometric kernels are exact or consistent",
 "Binomial coefficients agree with Pascal's triangle for every argument whatever the order of requests to the table, the orientation predicate and segment intersection agree with exact arithmetic on lattice coordinates for every argument order, three points are flat exactly when their area is below the tolerance in any order, rays are found not to meet exactly when they are parallel, closest points on segments are nearest and carry the matching parameter, frames map the axes to their tangent and normal, areas, triangles and vertices of sums of meshes are those of the parts, and transposing a net of points twice gives it back.",
 ["inputs","histories"],"all arguments over small lattices and all request sequences up to a bound",
 "Tests check single values.",
 ["src/misc/binomial.rs","src/misc/orientation.rs","src/misc/line.rs","src/misc/ray.rs","src/misc/trigonometry.rs","src/polygon_mesh/mod.rs","src/misc/end_points.rs"],[("table of binomials","Binomial"),("robust orientation","orientation"),("segment intersection","Line::intersects"),("ray intersection","Ray::find_intersection")],None,["Binomial::get","orientation","Line::intersects","Ray::find_intersection"])
prop("N01","Knot vectors and basis functions follow their definition",
 "For every non-decreasing knot vector and degree, the interval found for a parameter of the domain (by binary or linear search) is the non-empty knot interval of the domain that contains it (the last one at the end of the domain); the basis functions over it are non-negative, sum to one and equal those of the Cox-de Boor recursion, and their derivatives of any order equal the derivatives of these (zero above the degree), also over regularly spaced parameters. Adding knots, in any sequence, keeps the vector sorted and reports the place of the added knot; multiplicities, clampedness, domain, clamping of parameters, lookup of the last knot not above a value, reversal, uniform construction and conversion agree with the plain list of knots.",
 ["inputs","histories"],"all knot vectors of a family (degrees up to 5 or 6, every interior multiplicity pattern up to a bound, clamped or not, small, large and shifted ranges), all knots and parameters between and just beside them, all histories of additions up to a depth",
 "Tests look up one interval of one knot vector; which interval is found matters only at particular combinations of parameter, multiplicity and end.",
 [KV,"src/knot/knot_multiplicity.rs"],[("span search","KnotVector::find_knot_span_index, find_knot_span_linear"),("basis functions","KnotVector::basis_functions, derivative_basis_functions"),("regular spacing","KnotVector::regularly_spaced_*"),("editing","KnotVector::add, floor, multiplicity, is_clamped, domain, clamp, invert, uniform, cast")],None,["KnotVector methods"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
