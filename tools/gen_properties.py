#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so statements stay in one readable place)."""
import json, os
C = "cavalier_contours/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

# ---------------------------------------------------------------- boolean operations
p("B01", "Boolean operations return exactly the combined region",
  "For two simple closed polylines, a point clearly away from both boundaries is inside the result of union, intersection, difference or exclusive-or (counting positive outlines as +1 and negative outlines as -1) exactly when the set operation on the two input regions says so, and the total count there is never anything other than 0 or 1. "
  "This holds for any mix of line and arc segments, any orientation of either input, shared or overlapping edges, touching vertexes, containment and disjointness.",
  ["inputs"], "every pair of simple closed polylines (lines and arcs, general position and edge-aligned), all four operations, every sampled point at a clear distance from both boundaries",
  "The tests compare vertex counts/areas/lengths of about a dozen hand-made pairs; the guarantee is for every pair of outlines and every point of the plane.",
  [C+"polyline/internal/pline_boolean.rs", C+"polyline/internal/pline_intersects.rs", C+"polyline/traits.rs"],
  [("process_for_boolean / prune_slices / stitch_slices_into_closed_polylines", C+"polyline/internal/pline_boolean.rs"),
   ("find_intersects and sort_and_join_overlapping_intersects", C+"polyline/internal/pline_intersects.rs")],
  ["PlineSource::boolean", "PlineSource::boolean_opt"])
p("B02", "Boolean areas and outlines agree with an independent computation",
  "For two simple closed polylines the net area (positive minus negative outlines) of each boolean result equals the area of the true combined region, so that union plus intersection equals the sum of the inputs, and difference and exclusive-or follow from them. "
  "Every returned outline is a closed polyline without repeated positions, lies entirely on the two input boundaries, and together the outlines trace the boundary of the combined region once (a wall shared by two regions lying on opposite sides of it may additionally be reported as an outline without area).",
  ["inputs"], "every pair of simple closed polylines, all four operations, both operand orders",
  "Area and perimeter expectations exist only for the fixed pairs in the test files; slivers, arc overlaps and many-crossing pairs are not reached.",
  [C+"polyline/internal/pline_boolean.rs", C+"polyline/traits.rs"],
  [("polyline_boolean", C+"polyline/internal/pline_boolean.rs")], ["PlineSource::boolean"])
p("B03", "The boolean result classification states the true relationship",
  "The reported relationship of a boolean operation (invalid input, first inside second, second inside first, disjoint, overlapping, intersected) is the true relationship of the two outlines, and the outlines returned for the non-crossing relationships are exactly the input outlines the operation calls for, as positive or negative space. "
  "An open polyline or one with fewer than two vertexes is reported as invalid input with no outlines, and the same outline given twice (with a different start vertex or direction) is reported as overlapping.",
  ["inputs"], "every pair of closed polylines that are clearly disjoint, nested, crossing or identical, in either order, plus invalid operands",
  "Only a few circle/rectangle configurations are tested; the classification depends on every intersect found and on winding tests at an arbitrary vertex.",
  [C+"polyline/internal/pline_boolean.rs", C+"polyline/pline_types.rs"],
  [("polyline_boolean dispatch", C+"polyline/internal/pline_boolean.rs")], ["BooleanResult::result_info"])
p("B04", "Boolean results do not depend on how the outlines are written down",
  "Reversing either operand, choosing another start vertex, inserting extra vertexes on existing segments, moving/rotating/mirroring/scaling both operands together, or supplying a prebuilt spatial index leaves the region described by each boolean result unchanged (after undoing the transformation); union, intersection and exclusive-or are unchanged by swapping the operands.",
  ["inputs", "configurations"], "every pair of simple closed polylines, every rewriting listed, all four operations",
  "The tests cycle start index and direction of a few fixed inputs; the invariance is over all inputs and all rewritings.",
  [C+"polyline/internal/pline_boolean.rs", C+"polyline/pline_types.rs"],
  [("BooleanResultPline ordering, prune predicates by orientation", C+"polyline/internal/pline_boolean.rs")], ["PlineSource::boolean_opt"])
p("B05", "Boolean result slices retrace the result from the input outlines",
  "Every outline of a boolean result carries the list of input slices it was stitched from: each slice is a valid piece of the input it names, the slices laid end to end (inverted where marked) reproduce the outline's path and length, and consecutive slices join end to start.",
  ["inputs"], "every pair of simple closed polylines whose boolean result has outlines, all four operations",
  "No existing test checks the reported slices of a result against the inputs.",
  [C+"polyline/internal/pline_boolean.rs", C+"polyline/pline_types.rs", C+"polyline/pline_view.rs"],
  [("BooleanPlineSlice / subslices bookkeeping", C+"polyline/internal/pline_boolean.rs")], ["BooleanResultPline::subslices"])
p("B06", "Booleans hold when shared edges and vertexes are off by rounding",
  "The results of all four boolean operations cover the point set of their operation, as B01 states it, when the two outlines share edges, arcs or vertexes only up to rounding: one outline's positions may be off by up to a tenth of the position tolerance, each vertex on its own or all alike, whatever the length of the shared edges. (Contacts which rounding moves by far more than its own size are left out: tangencies, crossings at small angles and shared stretches of nearly flat arcs.)",
  ["inputs"], "every pair of simple closed polylines whose contacts are shared edges, shared arcs, touching vertexes or crossings at clear angles, every displacement of one's vertexes up to a tenth of the tolerance, every point",
  "Tests build coincident edges from equal literals; coordinates which went through a computation (a rotation, an offset, an earlier boolean, a unit conversion) coincide only up to rounding, in a different way for every input.",
  [C+"polyline/internal/pline_boolean.rs", C+"polyline/internal/pline_intersects.rs", C+"core/math/line_line_intersect.rs", C+"core/math/circle_circle_intersect.rs", C+"polyline/pline_seg_intersect.rs"],
  [("find_intersects, sort_and_join_overlapping_intersects, slice_at_intersects, position comparisons of the intersect functions", C+"polyline/internal/pline_boolean.rs")],
  ["PlineSource::boolean_opt"])
p("B07", "Booleans hold in any unit of length with the tolerance of that unit",
  "The results of all four boolean operations cover the point set of their operation, as B01 states it, in any unit of length: when the outlines are drawn larger or smaller and pos_equal_eps is given in the options in the same proportion, shared edges, arcs and vertexes are recognised within that tolerance (as B06 states it), the whole computation keeps to the tolerance it is given, and no other length matters.",
  ["inputs", "configurations"], "every pair of simple closed polylines as in B06, every power of two by which positions and position tolerance are scaled (coordinates 0.02 to 1e4, tolerances 1e-8 to 1e-2), every point",
  "Tests use the default tolerance on drawings of about the same size (one test of find_intersects gives another one); a fixed length anywhere on the way shows only in drawings of another size.",
  [C+"polyline/internal/pline_boolean.rs", C+"polyline/internal/pline_intersects.rs", C+"polyline/pline_seg_intersect.rs", C+"core/math/line_line_intersect.rs"],
  [("PlineBooleanOptions::pos_equal_eps through process_for_boolean, slicing and stitching", C+"polyline/internal/pline_boolean.rs")],
  ["PlineSource::boolean_opt"])
# ---------------------------------------------------------------- offsets
p("O01", "Offsetting a simple closed polyline yields exactly the offset region",
  "For a simple closed polyline and any non-zero offset distance, the winding count of the returned polylines at any point not near the exact offset distance is that of the true offset region: moving inward keeps exactly the interior points farther than the distance from the outline, moving outward covers exactly the points inside or nearer than the distance (with corners rounded, holes where openings close up, and nothing at all where the outline is consumed). "
  "A positive distance offsets to the left of the direction of travel, a negative one to the right, and every result is closed and travels in the direction of the source outline.",
  ["inputs"], "every simple closed polyline of lines and arcs, every offset distance of either sign, every sampled point",
  "Tests compare summary properties for about 40 fixed inputs; loss, duplication or mis-join of a slice appears only for particular vertex/distance combinations.",
  [C+"polyline/internal/pline_offset.rs", C+"polyline/traits.rs"],
  [("create_raw_offset_polyline, slices_from_raw_offset, stitch_slices_together", C+"polyline/internal/pline_offset.rs")],
  ["PlineSource::parallel_offset", "PlineSource::parallel_offset_opt"])
p("O02", "Every point of an offset lies at the offset distance from its source",
  "Every point on every polyline returned by an offset (open or closed source, with or without self-intersection handling) is at the offset distance from the source polyline, never nearer and never farther beyond the documented epsilon, and on the requested side. "
  "Offsets of open sources are returned as open polylines unless they join up, and no result has repeated positions.",
  ["inputs", "configurations"], "every open or closed polyline without repeated positions (self-intersecting ones with that handling enabled), every offset distance, every point on the results",
  "The tests look at totals for fixed inputs only; a single wrongly kept slice or wrong-radius join on some other input is not visible to them.",
  [C+"polyline/internal/pline_offset.rs"],
  [("point_valid_for_offset, slices_from_dual_raw_offsets, raw offset joins", C+"polyline/internal/pline_offset.rs")],
  ["PlineSource::parallel_offset_opt"])
p("O03", "An offset leaves out no part of the true offset curve",
  "Every point displaced perpendicular (to the requested side) from a point of the source by the offset distance, with no other part of the source within that distance, is on one of the returned polylines; the same holds for the rounded joins at convex corners. "
  "This holds for open sources, and for self-intersecting sources when that handling is enabled.",
  ["inputs", "configurations"], "every open or self-intersecting polyline, every offset distance, every clearly unobstructed displaced point",
  "Completeness is never checked point-wise by the tests, only through path-length totals of fixed inputs.",
  [C+"polyline/internal/pline_offset.rs"],
  [("slices_from_dual_raw_offsets, stitch_slices_together, circle end cap trimming", C+"polyline/internal/pline_offset.rs")],
  ["PlineSource::parallel_offset_opt"])
p("O04", "Offsets do not depend on how the source polyline is written down",
  "Choosing another start vertex of a closed source, reversing the source while negating the distance, splitting segments by extra vertexes, moving/rotating/mirroring/scaling source and distance together, or supplying a prebuilt spatial index leaves the set of offset curves unchanged (after undoing the transformation). "
  "Enabling self-intersection handling does not change the offset of a simple closed source.",
  ["inputs", "configurations"], "every polyline without repeated positions, every offset distance, every rewriting listed",
  "Tests only cycle the start of a few inputs.",
  [C+"polyline/internal/pline_offset.rs"],
  [("parallel_offset", C+"polyline/internal/pline_offset.rs")], ["PlineSource::parallel_offset_opt"])
p("O05", "Offsets hold for outlines whose positions are off by rounding",
  "Offsetting a simple closed polyline covers the offset region, exactly once, as O01 states it, also when the positions of its vertexes are off by up to a tenth of the position tolerance, so that tangent joints, walls exactly twice the distance apart and parts that collapse exactly at the distance are met only up to rounding. (Arcs whose radius equals the distance are left out, as are leftovers about as long as the rounding moves a tangent contact.)",
  ["inputs"], "every simple closed polyline of lines and arcs, every displacement of its vertexes up to a tenth of the tolerance, every offset distance of either sign, every sampled point",
  "Tests offset literal coordinates; which of several nearly equal slice points falls on which side of a vertex depends on the last digits of computed ones.",
  [C+"polyline/internal/pline_offset.rs", C+"polyline/pline_view.rs", C+"polyline/pline_seg_intersect.rs"],
  [("slices_from_raw_offset, stitch_slices_together, PlineViewData::from_slice_points", C+"polyline/internal/pline_offset.rs")],
  ["PlineSource::parallel_offset"])
p("O06", "Offsets hold in any unit of length with the tolerances of that unit",
  "Offsetting a simple closed polyline covers the offset region, exactly once, as O01 states it, in any unit of length: when the outline and the distance are drawn larger or smaller and pos_equal_eps, slice_join_eps and offset_dist_eps are given in the same proportion, the results are those of the original unit (also with positions off by up to a tenth of the tolerance, as O05 states it); no other length matters.",
  ["inputs", "configurations"], "every simple closed polyline of lines and arcs, every offset distance, every power of two by which positions, distance and tolerances are scaled (coordinates 0.02 to 1e4), every sampled point",
  "Tests use the default tolerances on drawings of about the same size; a fixed length anywhere on the way shows only in drawings of another size.",
  [C+"polyline/internal/pline_offset.rs", C+"polyline/pline_seg.rs", C+"core/math/base_math.rs", C+"polyline/pline_seg_intersect.rs"],
  [("PlineOffsetOptions tolerances, point_valid_for_offset, seg_closest_point", C+"polyline/internal/pline_offset.rs")],
  ["PlineSource::parallel_offset_opt"])
p("S01", "Offsetting a multi-outline shape yields exactly the offset region",
  "For a shape made of properly nested counter-clockwise outlines and clockwise holes (any number, any nesting), the winding count of the offset shape's outlines at any point not near the offset distance is that of the true offset region computed from the distance to the nearest outline: colliding islands merge or are trimmed, holes grow and islands shrink for positive distances and the reverse for negative distances, and consumed outlines vanish.",
  ["inputs"], "every properly nested set of simple closed polylines, every offset distance of either sign, every sampled point",
  "The shape tests contain a handful of fixed island arrangements.",
  [C+"shape_algorithms/mod.rs"],
  [("Shape::parallel_offset: create_offset_loops_with_index, find_intersects_between_offset_loops, create_valid_slices_from_intersects, stitch_slices_together", C+"shape_algorithms/mod.rs")],
  ["Shape::parallel_offset"])
p("S02", "A shape keeps, classifies and indexes its outlines faithfully",
  "Building a shape from polylines keeps every outline that has at least two vertexes, unchanged, filed as counter-clockwise or clockwise by its orientation, each with a spatial index that covers its segments, and with an overall index whose boxes are the outlines' bounds. "
  "The result of a shape offset satisfies the same description, so it can be offset again; with a single outline, a shape offset describes the same region as offsetting that outline alone.",
  ["inputs", "histories"], "every list of closed polylines and every chain of shape offsets",
  "No unit test checks the bookkeeping of shapes that result from offsets.",
  [C+"shape_algorithms/mod.rs"], [("Shape::from_plines, Shape::parallel_offset", C+"shape_algorithms/mod.rs")],
  ["Shape::ccw_plines", "Shape::cw_plines", "Shape::plines_index"])
# ---------------------------------------------------------------- histories
p("S03", "Shape offsets hold in any unit of length with the tolerances of that unit",
  "Offsetting a shape covers the offset region, as S01 states it, in any unit of length: when the outlines and the distance are drawn larger or smaller and pos_equal_eps, slice_join_eps and offset_dist_eps of ShapeOffsetOptions are given in the same proportion, the results are those of the original unit, also with the positions of the outlines off by up to a tenth of the position tolerance; no other length matters.",
  ["inputs", "configurations"], "every shape of properly nested outlines, every offset distance of either sign, every power of two by which positions, distance and tolerances are scaled (coordinates 0.02 to 1e4), every sampled point",
  "Tests offset a few shapes with the default tolerances; that every step keeps to the given ones shows only in drawings of another size.",
  ["cavalier_contours/src/shape_algorithms/mod.rs", C+"polyline/internal/pline_offset.rs"],
  [("Shape::create_offset_loops_with_index, find_intersects_between_offset_loops, stitch_slices_together; ShapeOffsetOptions", "cavalier_contours/src/shape_algorithms/mod.rs")],
  ["Shape::parallel_offset"])
p("H01", "Results of offsets and boolean operations serve as further operands",
  "Outlines returned by offsets and boolean operations are as good as any other operand: through any history of offsets and boolean operations in which clearly simple results are operated on again (combined with each other, with the outlines they came from, or offset back), every step returns exactly the region its operands' regions call for. "
  "Offsetting by a distance in two steps describes the same region as offsetting by the whole distance, and the outlines of a boolean result with their holes, taken as a shape, offset to exactly the offset of that region.",
  ["inputs", "histories"], "every history of up to five offsets, boolean operations and shape offsets on two starting outlines, every point clearly off the boundaries involved",
  "No test feeds a result into another operation; results share edges, vertexes and tangencies with their sources up to rounding, which hand-written inputs never do.",
  [C+"polyline/internal/pline_boolean.rs", C+"polyline/internal/pline_offset.rs", C+"polyline/internal/pline_intersects.rs", C+"shape_algorithms/mod.rs"],
  [("polyline_boolean", C+"polyline/internal/pline_boolean.rs"), ("parallel_offset", C+"polyline/internal/pline_offset.rs"), ("Shape::parallel_offset", C+"shape_algorithms/mod.rs")],
  ["PlineSource::boolean", "PlineSource::parallel_offset", "Shape::parallel_offset"])
# ---------------------------------------------------------------- intersections
p("I01", "Line and circle intersections are sound, complete and classified",
  "For any two line segments, line segment and circle, or two circles, the reported intersection lies on both curves, every true intersection is reported with the right multiplicity (none, tangent, two, overlapping), and line parameters identify where on the segments it lies, including for vertical, horizontal, collinear, tangent and end-point-touching configurations.",
  ["inputs"], "every pair of line segments, line and circle, circle and circle with coordinates of ordinary magnitude",
  "A few dozen hand-picked configurations are tested out of a continuum with many branches.",
  [C+"core/math/line_line_intersect.rs", C+"core/math/line_circle_intersect.rs", C+"core/math/circle_circle_intersect.rs"],
  [("line_line_intr, line_circle_intr, circle_circle_intr", C+"core/math/")], ["line_line_intr", "line_circle_intr", "circle_circle_intr"])
p("I02", "Segment intersection finds every crossing of two polyline segments",
  "For any two polyline segments (line or arc), each reported intersection point lies on both segments, every crossing of the two segments is reported, and overlapping lines or arcs are reported as overlapping with exactly the shared stretch, given in the direction of the second segment. "
  "Swapping the segments or reversing either one reports the same points.",
  ["inputs"], "every pair of line/arc segments (bulge magnitude up to 1), general, tangent, end-touching, collinear and concentric",
  "There are few direct tests of the segment intersection; arc/arc overlap alone has direction, containment and end-touch cases that multiply.",
  [C+"polyline/pline_seg_intersect.rs"], [("pline_seg_intr", C+"polyline/pline_seg_intersect.rs")], ["pline_seg_intr"])
p("I03", "Polyline intersection reports every crossing once with the right segments",
  "For any two polylines, every crossing of their paths is reported as a basic intersection on the segments it occurs on, every stretch they share is reported as an overlapping intersection, and every reported point lies on both named segments; no point is reported that is not shared and no crossing is reported twice. "
  "Crossings exactly at vertexes are reported once, on the segments that start there (or the last segment when at the end of an open polyline).",
  ["inputs", "configurations"], "every pair of open/closed polylines in general or aligned position, with or without a supplied spatial index",
  "Intersection lists are tested on a handful of small pairs; duplicate suppression at vertexes depends on open/closed and first/last position combinations.",
  [C+"polyline/internal/pline_intersects.rs", C+"polyline/traits.rs"], [("find_intersects", C+"polyline/internal/pline_intersects.rs")],
  ["PlineSource::find_intersects", "PlineSource::find_intersects_opt"])
p("I04", "Self-intersection search reports every self-crossing, locally or globally",
  "For any polyline without repeated positions, the self-intersection search reports every place where the path crosses, touches or retraces itself other than the joints of consecutive segments, with the segments involved, no pair of segments twice for the same place (a touch at a vertex may be named by the segments on either side of it); asking only for local (between consecutive segments) or only for global ones partitions the full answer. "
  "A simple polyline has none, and the search stops as soon as the visitor asks it to.",
  ["inputs", "configurations"], "every open/closed polyline without repeated positions, all three inclusion settings, with or without a supplied index, every stopping point",
  "Tests cover fixed small polylines; the visitor stop is not covered.",
  [C+"polyline/internal/pline_intersects.rs", C+"polyline/traits.rs", C+"core/traits/control_flow.rs"],
  [("visit_local_self_intersects, visit_global_self_intersects", C+"polyline/internal/pline_intersects.rs")],
  ["PlineSource::visit_self_intersects", "PlineSource::visit_self_intersects_opt"])
# ---------------------------------------------------------------- measures
p("G01", "Angle and bulge arithmetic is consistent with the circle it describes",
  "Converting between bulge and included angle round-trips, angle normalization lands in one turn and preserves the angle modulo a full turn, the signed difference of two angles rotates the first onto the second by the short way, and the angle-between/within-sweep and point-within-sweep predicates agree with the true circular arc away from its ends. The fuzzy comparisons decide by the tolerance given, the side-of-line predicates and vector helpers by plain geometry, and the quadratic solver returns the two roots, also when they coincide or vanish.",
  ["inputs"], "every finite angle, sweep and bulge of ordinary magnitude",
  "Tests sample a handful of angles; branch boundaries at 0, pi and 2*pi and both signs multiply.",
  [C+"core/math/base_math.rs"], [("normalize_radians, delta_angle, angle_is_between, angle_is_within_sweep, point_within_arc_sweep, bulge_from_angle", C+"core/math/base_math.rs")], ["core::math functions"])
p("G02", "Segment queries describe the true line or arc of the segment",
  "For any polyline segment, the reported arc radius and center, length, midpoint, tangent direction, closest point, exact bounding box and split all agree with the curve defined by its end points and bulge: the midpoint and closest point lie on it and are optimal, the exact box is tight, the fast box contains the exact box, and splitting at a point on the segment yields two pieces that retrace it with the lengths adding up.",
  ["inputs"], "every pair of distinct end points, every bulge with magnitude up to 1, every query point",
  "Only a few arcs are tested; quadrant boundaries, direction and near-flat arcs are a continuum.",
  [C+"polyline/pline_seg.rs"], [("seg_arc_radius_and_center, seg_split_at_point, seg_closest_point, seg_bounding_box, seg_length, seg_midpoint, seg_tangent_vector", C+"polyline/pline_seg.rs")], ["polyline::seg_* functions"])
p("G03", "Area, path length, extents and orientation are those of the true curve",
  "For any polyline the path length is the sum of its segment lengths, the extents are the tight bounds of the curve (nothing for fewer than two vertexes), the area of a closed polyline is the signed area it encloses (positive counter-clockwise; zero when open), and the orientation follows its sign. "
  "All transform as expected under reversal, start rotation, translation and scaling, and single precision gives the same values to single-precision accuracy.",
  ["inputs"], "every open/closed polyline including empty and single-vertex ones, f32 and f64",
  "Tests evaluate a few fixed polylines.",
  [C+"polyline/traits.rs", C+"polyline/pline_seg.rs"], [("PlineSource::area, path_length, extents, orientation", C+"polyline/traits.rs")], ["PlineSource::area", "PlineSource::path_length", "PlineSource::extents"])
p("G04", "Winding number counts the true turns around the point",
  "For any closed polyline (simple or self-intersecting, lines and arcs) and any point clearly off its path, the winding number is the number of signed turns the path makes about the point; an open polyline or one with fewer than two vertexes gives zero. "
  "Reversal negates it, and start rotation, translation and scaling of both leave it unchanged.",
  ["inputs"], "every closed polyline, every point not on the path, including points level with vertexes and between an arc and its chord",
  "A handful of points on a few polylines are tested; the crossing rules have separate branches for every arc direction and chord side.",
  [C+"polyline/traits.rs"], [("PlineSource::winding_number (line/arc upward/downward crossing rules)", C+"polyline/traits.rs")], ["PlineSource::winding_number"])
p("G05", "Closest point is on the path and nothing on the path is nearer",
  "For any non-empty polyline and any point, the reported closest point lies on the segment whose start index is reported, the reported distance is the distance to it, and no point of the path is nearer; an empty polyline reports nothing.",
  ["inputs"], "every polyline (open, closed, single vertex), every query point",
  "Minimality is a statement about every point of the curve.",
  [C+"polyline/traits.rs", C+"polyline/pline_seg.rs"], [("PlineSource::closest_point, seg_closest_point", C+"polyline/traits.rs")], ["PlineSource::closest_point"])
p("G06", "Walking a path length finds the point that far along the path",
  "For any polyline and target length within its path length, the reported segment and point are those reached by walking exactly that length from the start; a target beyond the end reports the total path length as error, and targets at or below zero give the first vertex.",
  ["inputs"], "every non-empty polyline, every target length including segment boundaries, zero, negative and too long",
  "Accumulation over arbitrary line/arc mixes and exact boundaries are only sampled by the tests.",
  [C+"polyline/traits.rs"], [("PlineSource::find_point_at_path_length", C+"polyline/traits.rs")], ["PlineSource::find_point_at_path_length"])
p("G07", "Spatial indexes cover every segment",
  "For any polyline with at least two vertexes, the approximate and the exact spatial index hold one box per segment in segment order, every point of a segment lies in its box, querying any box returns every segment that enters it, and the exact index bounds equal the polyline's extents.",
  ["inputs"], "every polyline with at least two vertexes, every query box",
  "Missing a segment in an index silently drops results elsewhere; tests never query indexes.",
  [C+"polyline/traits.rs", C+"polyline/pline_seg.rs"], [("create_approx_aabb_index, create_aabb_index, seg_fast_approx_bounding_box", C+"polyline/traits.rs")], ["PlineSource::create_approx_aabb_index", "PlineSource::create_aabb_index"])
# ---------------------------------------------------------------- editing
p("E01", "Editing a polyline behaves like editing a list of vertexes",
  "Through any history of adding, inserting, setting, removing, extending, clearing, closing/opening and converting, a polyline's vertexes, counts, segments, iterators (forwards, backwards and their reported lengths) and index wrapping helpers agree with a plain list of vertexes subjected to the same edits. "
  "Adding-or-replacing and repeat-free extending merge a vertex into the previous one exactly when their positions coincide within the tolerance.",
  ["histories"], "every finite history of edits and reads on open and closed polylines, starting from any polyline",
  "Tests exercise single edits; the guarantee concerns every sequence and every intermediate state, including empty.",
  [C+"polyline/pline.rs", C+"polyline/traits.rs"], [("PlineSource, PlineSourceMut, PlineCreation implementations for Polyline", C+"polyline/traits.rs")], ["PlineSourceMut methods", "PlineSource iterators"])
p("E02", "Removing repeated positions keeps the path and leaves no repeats",
  "Removing repeated-position vertexes yields a polyline with no two consecutive vertexes (including last and first when closed) within the tolerance, following the same path up to the tolerance and keeping the last bulge of each merged run, and reports no change exactly when there were no repeats; a non-empty polyline never becomes empty.",
  ["inputs"], "every polyline, every tolerance, runs of repeats anywhere including across the closing joint",
  "Tests cover a few fixed lists.",
  [C+"polyline/traits.rs"], [("PlineSource::remove_repeat_pos", C+"polyline/traits.rs")], ["PlineSource::remove_repeat_pos"])
p("E03", "Removing redundant vertexes does not move the path",
  "Removing redundant vertexes yields a polyline that follows the same path as the original within the tolerance (a distance for coinciding positions, an area for nearly collinear vertexes), in the same direction, with no more vertexes than before, with same end points when open, and it reports no change exactly when nothing was removed; vertexes subdividing a straight line or a single arc (up to a half turn) are removed.",
  ["inputs"], "every polyline with or without collinear, concentric or repeated vertexes, every tolerance",
  "Tests cover a few fixed lists; the removal rules have state that depends on the previous and wrap-around vertexes.",
  [C+"polyline/traits.rs"], [("PlineSource::remove_redundant", C+"polyline/traits.rs")], ["PlineSource::remove_redundant"])
p("E04", "Reversal, re-rooting and transforms preserve the path",
  "Reversing a polyline traces the same points backwards (twice gives the original back), choosing a new start point on a closed polyline traces the same loop from that point (and is refused for open polylines), and translating or scaling moves every point of the path accordingly.",
  ["inputs", "histories"], "every polyline, every start index and point on the path, every translation and scale including negative scale",
  "Bulge bookkeeping on splits and reversal is only checked on a few fixed lists.",
  [C+"polyline/traits.rs", C+"polyline/pline_types.rs"], [("invert_direction_mut, rotate_start, translate_mut, scale_mut", C+"polyline/traits.rs")], ["PlineSource::rotate_start", "PlineSourceMut::invert_direction_mut", "PlineSourceMut::scale_mut", "PlineSourceMut::translate_mut"])
p("E05", "Approximating arcs by lines stays within the error distance",
  "Replacing arcs by lines yields a polyline of lines only, with the same open/closed state, passing through every original vertex in order, whose path is nowhere farther from the original path than the error distance (nor the original from it), with all approximation points on the arcs.",
  ["inputs"], "every polyline, every error distance (its sign does not count) from far below to far above the arc radii",
  "The bound is a statement about every point of every arc; tests check a few fixed values.",
  [C+"polyline/traits.rs"], [("PlineSource::arcs_to_approx_lines", C+"polyline/traits.rs")], ["PlineSource::arcs_to_approx_lines"])
p("V01", "A view is exactly the described part of its source",
  "A view built from a start and an end point on a polyline (or a whole polyline, a single segment, or a closed polyline re-rooted at a point), forwards or inverted, traces exactly the source path between these points in that direction: its vertexes, length, end points and every read operation, search, clean-up and offset equal those of the same part copied out as an independent open polyline. "
  "The view description passes validation against its source, and fails validation when altered to not match.",
  ["inputs"], "every polyline, every pair of start and end positions on its path including vertexes and wrap-around, both directions",
  "The tests build a few slices; the index arithmetic has special cases for ends on vertexes, single segments, wrap-around and inversion.",
  [C+"polyline/pline_view.rs"], [("PlineViewData::from_slice_points / create / from_new_start / from_entire_pline / create_on_single_segment; PlineView::get_vertex", C+"polyline/pline_view.rs")], ["PlineViewData", "PlineView"])
# ---------------------------------------------------------------- whole-system
p("R01", "No valid finite input makes an operation fail, hang or emit non-finite values",
  "Every public read, measure, search, offset and boolean operation on finite polylines without repeated positions (any size from empty up, any bulge up to a half circle, degenerate arrangements such as back-tracking, collinear, coincident and self-crossing segments) completes, produces only finite coordinates, gives the same answer when repeated, and leaves its inputs unchanged.",
  ["inputs"], "every finite polyline without repeated positions, every operation and offset distance of ordinary magnitude",
  "Tests use well-behaved inputs; internal consistency assertions, index arithmetic and NaN-producing divisions are exposed by unusual ones.",
  [C+"polyline/internal/pline_offset.rs", C+"polyline/internal/pline_boolean.rs", C+"polyline/traits.rs", C+"shape_algorithms/mod.rs"],
  [("debug assertions and guard branches throughout", C+"polyline/internal/")], ["all PlineSource operations"])
p("F01", "The C interface agrees with the Rust interface over any call history",
  "Through any history of C interface calls on polylines, polyline lists and indexes, the return codes are those documented (0 on success, the documented code for null handles, out-of-range positions and unknown operations), failing calls change nothing and write nothing, and successful calls leave handles and outputs in the state the equivalent Rust calls produce.",
  ["histories", "fault_sequences"], "every finite history of create/edit/query/operate/list calls, with valid, null and out-of-range arguments",
  "The FFI tests call each function once or twice on fixed data.",
  ["cavalier_contours_ffi/src/lib.rs"], [("cavc_* functions", "cavalier_contours_ffi/src/lib.rs")], ["cavc_* return codes and out parameters"])
p("F02", "The C interface neither leaks nor double-frees what it hands out",
  "Through any history of C interface calls in which every handle is released once with its documented release function (lists owning the polylines still in them, taken or popped polylines owned by the caller), all memory the interface allocated is released by the end and nothing is released twice.",
  ["histories"], "every finite history of C interface calls that follows the ownership rules",
  "Nothing measures memory ownership in the tests.",
  ["cavalier_contours_ffi/src/lib.rs"], [("cavc_pline_f, cavc_plinelist_f, cavc_plinelist_pop, cavc_plinelist_take, cavc_aabbindex_f", "cavalier_contours_ffi/src/lib.rs")], ["process allocator"])
p("D01", "Serialized polylines and vertexes read back identical",
  "With serialization enabled, any polyline, vertex, 2D vector or view description of finite values written out and read back is equal bit for bit, in text and in a compact non-self-describing form, and the JSON documents have the declared shape (a vertex is [x, y, bulge], a point [x, y], a polyline has vertexes and isClosed, other fields in camelCase). "
  "Malformed input (wrong number of coordinates, missing or renamed fields, values of another type, cut short) is rejected with an error rather than a panic.",
  ["inputs", "configurations"], "every finite value of the serializable types, every corrupted document",
  "No test enables the serialization feature.",
  [C+"polyline/pline.rs", C+"polyline/pline_vertex.rs", C+"core/math/vector2.rs", C+"polyline/pline_view.rs", C+"polyline/pline_types.rs"],
  [("serde implementations", C+"polyline/pline_vertex.rs")], ["serde_json::to_string / from_str"])

# ---------------------------------------------------------------- drawing
U="cavalier_contours_ui/src/plotting/"
p("U01", "What is drawn of polylines, shapes and offset segments is what they are",
  "For any polyline, shape or list of raw offset segments and any plot window (equal scales on both axes), the plot items draw outlines that reach every point of every segment in the window to within half a pixel, at any zoom, and nothing more than a few pixels away from the segments; the fill covers exactly the points the outlines go around an odd number of times (open polylines closed by a line); there is one mark for each vertex in the window and no other; collapsed arcs of raw offset segments appear in their own color and the others in the normal one; nothing is drawn in a color left transparent. "
  "The bounds an item reports for zooming to fit are those of its geometry (for a shape they may be wider, by boxes around its arcs), and empty for no geometry.",
  ["inputs"], "every polyline, shape or raw offset of one (open, closed, self-crossing, empty, one vertex) and every plot window showing all, a part, the surroundings or nothing of it",
  "The drawing code has no tests at all; errors depend on zoom level, culling at the window and arc direction.",
  [U+"mod.rs", U+"plines.rs", U+"raw_pline_offset_segs.rs"],
  [("add_segment, cull_path", U+"mod.rs"), ("PlinesPlotItem::shapes", U+"plines.rs"), ("RawPlineOffsetSegsPlotItem::shapes", U+"raw_pline_offset_segs.rs")], ["PlotItem::shapes", "PlotItem::bounds"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
