#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or [],hook_needed=None)))
I=["inputs"];IH=["inputs","histories"]

# ---- types
p("T01","Duration32 values and arithmetic are never NaN and saturate to infinities",
  "Every Duration32 obtained from seconds, milliseconds (any 32-bit float, NaN included) or by adding, subtracting, negating, scaling or dividing durations holds a non-NaN value, and dividing two durations gives a non-NaN ratio. Where IEEE arithmetic would give NaN the result is the infinity documented for that operation (inf+d=inf, inf-d=inf, inf/inf=+inf, 0/0=+inf, d*NaN and d/NaN = +inf for d>=0 and -inf otherwise), and in every other case the result equals plain float arithmetic on seconds. Comparison operators agree with the order of the seconds values and compound assignment agrees with the binary operator.",
  I,"all 2^32 floats for each operand","Unit tests try a handful of finite values and a few infinities; the claim is about all pairs of bit patterns.",
  ["ink/types/duration.h","ink/types/duration.cc"],[("NaN and infinity special cases in factories and operators","ink/types/duration.{h,cc}")])
p("T02","PhysicalDistance arithmetic, comparison and unit conversions",
  "A PhysicalDistance built from centimetres reports exactly that many centimetres; inches and metres convert with factors 2.54 and 100 in both directions, and finiteness is preserved by reading back. Its arithmetic and comparison operators act as IEEE float operations on centimetres, scaling is commutative, and compound assignments agree with the corresponding binary operators.",
  I,"all float operands","Tests use a few round numbers.",
  ["ink/types/physical_distance.h","ink/types/physical_distance.cc"],[("operators","ink/types/physical_distance.h")])
p("T03","A URI string is accepted exactly when well formed and parsing is memory safe",
  "Parsing any byte string as a URI either fails or yields a URI without reading outside the string; a string is accepted if and only if it is empty or has the documented form: optional case-insensitive 'ink:' scheme, optional '//reg-name', '/texture' or '/brush-family', ':asset-name', and an optional ':revision' of one to nine digits without leading zero, names being non-empty lower-case letters and hyphens. Formatting a parsed URI to its normalized string and parsing it again gives an equal URI, and two URIs are equal exactly when their parts are equal.",
  I,"all byte strings up to the stated length around the grammar's fixed parts","Tests list tens of strings out of an exponential space.",
  ["ink/types/uri.h","ink/types/uri.cc"],[("hand-written parser","ink/types/uri.cc")])
p("T04","Copy-on-write handles never observe each other's mutations",
  "After any sequence of copies, moves, resets, assignments and mutable accesses on copy-on-write handles, each handle reads the value it would have if every copy had been a deep copy; two handles share storage only while neither has been mutated since they were copied. Reporting of 'has value' and 'is shared' matches this model, and no storage is leaked or freed twice.",
  IH,"all operation sequences up to the stated length over up to 3 handles","Tests exercise a few fixed sequences.",
  ["ink/types/internal/copy_on_write.h"],[("reference counted pointer with clone on MutableValue()","ink/types/internal/copy_on_write.h")])
p("T05","SmallArray keeps its size, contents and bounds",
  "A SmallArray constructed from values, a span or a size holds exactly those values; resizing keeps the common prefix and fills new elements with the fill value; equality holds exactly for equal sizes and elements. Sizes above the capacity and out-of-range access are never silently accepted.",
  I,"all sizes, contents and resize targets within capacity","Tests use fixed arrays.",
  ["ink/types/small_array.h"],[("fixed storage plus size byte","ink/types/small_array.h")])
p("T06","Iterator ranges expose exactly the half-open range they were built from",
  "A range made from a begin and end iterator (or a pair of them) iterates exactly the elements between them, in order; it is empty exactly when begin equals end, and its size is the number of elements.",
  I,"all sub-ranges and element values of containers up to the stated size","Tests use single fixed containers.",
  ["ink/types/iterator_range.h"],[("iterator_range","ink/types/iterator_range.h")])
p("T07","Untrusted UTF-16 and byte strings convert to UTF-8/16 without corruption",
  "Placeholder","inputs" and I,"","",["ink/jni"],[("x","y")]) if False else None

# ---- geometry primitives
p("G01","Angle normalization lands in its documented interval and keeps the angle",
  "For every finite angle, normalization returns a value in [0, 2pi) and normalization about zero a value in (-pi, pi]; an angle already inside the interval is returned unchanged, and within two full turns the result differs from the input by a whole number of full turns. Angle arithmetic, comparison, min/max/abs act as the same operations on radians, and degrees and radians convert by pi/180.",
  I,"all finite floats (interval membership); all floats in [-4pi,4pi] (congruence)","Tests sample a few multiples of pi; boundary values next to a multiple of 2pi are the risk.",
  ["ink/geometry/angle.h","ink/geometry/angle.cc"],[("fmod plus wrap fix-ups","ink/geometry/angle.cc")])
p("G02","Vectors and points: arithmetic, magnitude, unit vectors and angles",
  "Vector and point arithmetic is componentwise; dot product and determinant are x1*x2+y1*y2 and x1*y2-y1*x2; orthogonal is a counter-clockwise quarter turn. Magnitude is never negative and is NaN only for vectors with a NaN component and no infinite one; the unit vector of any vector without NaN components has finite components in [-1,1], is zero only for zero, and points into the same quadrant; the angle between vectors lies in [0,pi] and the signed angle in (-pi,pi].",
  I,"all float components","Tests sample ordinary vectors; zero, signed zero, denormal, infinite and NaN components interact.",
  ["ink/geometry/vec.h","ink/geometry/vec.cc","ink/geometry/point.h"],[("special-cased AsUnitVec","ink/geometry/vec.cc"),("hypot based Magnitude","ink/geometry/vec.h")])
p("G03","Rectangles are never inverted and their set operations are exact",
  "However a rectangle is built or modified from finite values, its minimum never exceeds its maximum on either axis, and resizing by width or height keeps its center. Two-point construction, edge setters, joins with points and rectangles, and containment agree with the interval definition: the result covers exactly the smallest axis-aligned box required, containment is inclusive of the boundary, and joined operands are contained in the result. Corners, width, height and area agree with the bounds. An axis unbounded in both directions is centered on 0, whatever the other axis.",
  I,"all non-NaN float bounds and points","Tests sample tidy rectangles.",
  ["ink/geometry/rect.h","ink/geometry/rect.cc"],[("ordering in factories and setters","ink/geometry/rect.{h,cc}")])
p("G04","An envelope is the minimal box of what was added, in any order",
  "After adding any sequence of points, segments, triangles, rectangles, quads and envelopes, an envelope is empty exactly when nothing was added, and otherwise its rectangle is exactly the minimum bounding box of all added corners, independent of order. Adding an empty envelope changes nothing, and resetting makes it empty again.",
  IH,"all finite coordinates; add sequences up to the stated length","Tests check single additions on fixed shapes.",
  ["ink/geometry/envelope.h","ink/geometry/envelope.cc"],[("Add / Reset / AsRect","ink/geometry/envelope.h")])
p("G05","Quads keep a non-negative width, a normalized rotation and fresh corners",
  "After any construction and any sequence of setter calls, a quad has non-negative width and a rotation in [0, 2pi); setting a negative width negates width and height and turns by pi. Corners and semi-axes always reflect the current center, width, height, rotation and shear, whatever was queried before, so a quad reached by setters behaves like one constructed with its values; joining a quad with a shape yields a quad containing both up to rounding.",
  IH,"all finite parameters; query/set sequences up to the stated length","Tests set one parameter at a time; the cached axes make history matter.",
  ["ink/geometry/quad.h","ink/geometry/quad.cc"],[("cached semi axes invalidation","ink/geometry/quad.h"),("Normalize","ink/geometry/quad.h")])
p("G06","Affine transforms apply, compose and invert as 3x3 matrices",
  "Applying a transform maps (x,y) to (ax+by+c, dx+ey+f); applying a product equals applying the right factor and then the left one; applying to segments and triangles transforms each corner. The inverse exists exactly when the determinant is non-zero, and undoes the transform; the factory functions build the matrices their names say, and a transform found between two segments, triangles, rectangles or quads is finite and maps the first onto the second. A quad with a side of length zero is transformed like any other quad of the same rotation and shear.",
  I,"all coefficients and coordinates on the stated exact integer/dyadic grid (products exact in float)","Tests check a few matrices.",
  ["ink/geometry/affine_transform.h","ink/geometry/affine_transform.cc"],[("operator*, Apply, Inverse, Find","ink/geometry/affine_transform.{h,cc}")])
p("G07","Segments interpolate without overflow and project onto themselves",
  "For finite endpoints and a ratio in [0,1], interpolation along a segment is finite, lies in the segment's bounding box up to rounding and is exactly the start at ratio 0 and the end at ratio 1; the midpoint never overflows. Projection returns nothing exactly when the segment is too short to measure, otherwise returns 0 for the start, and the ratio of points on the segment.",
  I,"all finite endpoints (interpolation); integer grid (projection)","Tests use small numbers; overflow needs endpoints of opposite sign near the float limit.",
  ["ink/geometry/segment.h","ink/geometry/segment.cc"],[("Lerp formulation","ink/geometry/segment.cc")])
p("G08","Point-in-shape and shape intersection are exact and symmetric on exact grids",
  "For points, segments, triangles and axis-aligned rectangles whose coordinates make float products exact, the intersection and containment predicates return true exactly when the closed shapes share a point, including degenerate shapes. The predicates are symmetric in their arguments.",
  I,"all integer coordinates in the stated grid","A few hand-drawn configurations are tested; touching and collinear cases dominate the failures.",
  ["ink/geometry/intersects.h","ink/geometry/internal/intersects_internal.cc","ink/geometry/triangle.cc"],[("IntersectsInternal overloads","ink/geometry/internal/intersects_internal.cc")])
p("G09","Distances are symmetric, those of the closest points and zero when shapes meet",
  "The distance between two points, segments, triangles, rectangles or quads, degenerate ones included, is never negative or NaN, is the same whichever argument comes first, and is the distance of the closest points of the two closed shapes up to rounding, so zero when they intersect or one contains the other.",
  I,"all integer offsets in the stated grid","Tests check a few pairs.",
  ["ink/geometry/distance.h","ink/geometry/distance.cc"],[("Distance overloads","ink/geometry/distance.{h,cc}")])
p("G10","Segment intersections, projections and barycentric coordinates are right",
  "The segment-intersection query returns a value exactly when the two segments share a point; both ratios lie in [0,1], and where the segments cross at an angle they evaluate to the same point on both segments; for overlapping parallel segments each ratio is the smallest one on its own segment at which the overlap starts, and zero for a degenerate segment. The unbounded-line variant returns a value exactly when the lines are neither parallel nor degenerate. Projections are orthogonal, barycentric coordinates exist exactly for triangles that are not flat and are shares of area, and inverse interpolation maps the interval's ends to 0 and 1 and an empty interval to 0.",
  I,"all integer coordinates in the stated grid","Tests check a few pairs; collinear overlap has many orderings.",
  ["ink/geometry/internal/algorithms.cc","ink/geometry/segment.cc"],[("SegmentIntersectionRatio, UniqueLineIntersectionRatio, VectorFromPointToSegmentProjection, GetBarycentricCoordinates","ink/geometry/internal/algorithms.cc")])
p("G11","Scalar, point, angle and colour interpolation hit their end points",
  "Linear interpolation returns the first value at 0 and the second at 1 (exactly, on values whose difference is exact), returns the common value when both ends agree, inverse interpolation maps the ends to 0 and 1 and returns 0 for an empty interval, and their composition maps one range's ends to the other's, for finite ratios and ends whose difference is finite. The normalized angle interpolation stays in [0, 2pi).",
  I,"all finite floats in the stated ranges","Tests sample a few values.",
  ["ink/geometry/internal/algorithms.cc"],[("Lerp, InverseLerp, LinearMap","ink/geometry/internal/algorithms.cc")])
p("G12","Convex hull contains all points, is convex and uses only input points",
  "The convex hull of a point set on an exact grid consists of input points only, in strictly turning order without repeats, and no input point lies outside it.",
  I,"all point sets up to the stated count on the stated grid","Tests use fixed point sets; duplicates and collinear runs are the risk.",
  ["ink/geometry/internal/convex_hull_helper.h"],[("monotone chain","ink/geometry/internal/convex_hull_helper.h")])
p("G13","The spatial index visits exactly the elements whose bounds meet the query",
  "Visiting the elements of the R-tree that meet a query region calls back exactly once for each stored element whose bounds intersect the region and for no other, and stops as soon as the visitor asks to.",
  I,"all element boxes and query boxes, element counts up to the stated bound","Tests use fixed layouts.",
  ["ink/geometry/internal/static_rtree.h"],[("packed R-tree","ink/geometry/internal/static_rtree.h")])

p("G14","Circle arcs follow the circle within the chord height; tangents touch",
  "The arc angle for a chord height is within [0, 2pi], zero for non-positive heights, and such an arc has that chord height. Appending an arc to a polyline keeps the earlier points and adds at least two points that are evenly spaced on the circle from the start angle to the end angle, with no chord deviating from the circle by more than the maximum chord height and no more points than needed (up to the documented cap), including arcs of length zero and circles that are points; chord heights that are not positive and negative radii are refused. Common outer tangents of two circles exist exactly when neither contains the other and then touch both circles on the left and right side as documented.",
  I,"all chord heights, arcs and circle pairs within the stated grids","Tests check a few angles; zero-length arcs with tiny chord heights divide zero by zero.",
  ["ink/geometry/internal/circle.h","ink/geometry/internal/circle.cc"],[("arc subdivision and tangents","ink/geometry/internal/circle.cc")])
p("G15","Polyline processing trims at outermost crossings and connects close ends",
  "Processing a polyline for mesh creation returns the input unchanged when it neither crosses itself nor has an end close to another part of it by the given thresholds; otherwise the result is a run of the input's points whose ends are cut at the first and last self-intersection or connected to the nearest qualifying point, as documented. Polylines of up to three points come back unchanged and repeated points do not change the result.",
  I,"all single-point displacements of the stated polylines, thresholds and duplicates","Tests use well-formed polylines; empty ones and repeated points were never tried.",
  ["ink/geometry/internal/polyline_processing.h","ink/geometry/internal/polyline_processing.cc"],[("self-intersection and end connection","ink/geometry/internal/polyline_processing.cc")])

p("M10","Meshes split over several partitions describe the same shape",
  "A mutable mesh with more vertices than one 16-bit mesh can hold becomes several meshes: all triangles appear once, in order, within the vertex limit; all partitions use the same coding parameters, so a vertex repeated in two partitions unpacks to identical values; each mesh's bounds are those of its own vertices; outlines name vertices at the same positions and in the same order; queries visit the triangles of every partition; flipped triangles, omitted attributes and non-finite values are handled as for a single mesh.",
  I,"all coordinates and index patterns within the stated bounds","Tests would need 65537 vertices to reach this; one test does, with one shape.",
  ["ink/geometry/internal/mesh_packing.cc","ink/geometry/mutable_mesh.cc","ink/geometry/partitioned_mesh.cc"],[("PartitionTriangles","ink/geometry/internal/mesh_packing.cc"),("FromMutableMeshGroups","ink/geometry/partitioned_mesh.cc")])

# ---- meshes
p("M01","Mesh formats are accepted exactly when valid and have consistent layout",
  "A mesh format is created exactly when its attribute list is non-empty, within the maximum count and size, has valid types and unique ids, contains exactly one position, which has two components, and otherwise an error is returned. In every created format attribute offsets and widths tile the vertex without gaps or overlap in both the packed and the unpacked layout, the totals equal the strides, and dropping attributes keeps the rest in order.",
  I,"all attribute type/id lists up to the stated length","Tests enumerate a few lists.",
  ["ink/geometry/mesh_format.h","ink/geometry/mesh_format.cc"],[("MeshFormat::Create","ink/geometry/mesh_format.cc")])
p("M02","Packing and unpacking vertex attributes is lossless up to half a quantum",
  "For every packed attribute type, packing integer codes and unpacking returns those codes, components never overlap in the packed bytes, and unpacking then re-packing any stored bytes reproduces the meaningful bits. A value inside the representable range is reproduced within half a quantum plus rounding, unpacked types are reproduced exactly, and neighbouring memory is untouched.",
  I,"all packed bytes and all codes of every attribute type","Tests pack a few vertices.",
  ["ink/geometry/internal/mesh_packing.h","ink/geometry/internal/mesh_packing.cc"],[("bit packing per attribute type","ink/geometry/internal/mesh_packing.cc")])
p("M03","Computed coding parameters can represent every value in their range",
  "For any finite value range, automatically computed packing parameters have a strictly positive finite scale (or an error is returned), and packing any value inside the range yields a code within the bits of its attribute, with no undefined float-to-integer conversion.",
  I,"all finite minimum/maximum pairs incl. denormal and huge ranges","Tests use ranges near 1; rounding of the quotient matters.",
  ["ink/geometry/internal/mesh_packing.cc"],[("ComputeCodingParams","ink/geometry/internal/mesh_packing.cc")])
p("M04","Mesh creation rejects malformed data and otherwise preserves it",
  "Building a mesh from caller-supplied attribute values and triangle indices fails with an error when counts, sizes, values or indices are invalid, never with undefined behaviour, and otherwise the mesh reports the same triangles in order, vertex values within quantization error, and bounds that are the box of the given positions.",
  I,"all attribute values and indices for meshes up to the stated size","Tests feed a few malformed inputs.",
  ["ink/geometry/mesh.h","ink/geometry/mesh.cc"],[("Mesh::Create","ink/geometry/mesh.cc")])
p("M05","Partitioning a large mesh keeps every triangle and the vertex limit",
  "Splitting a triangle list into partitions assigns every triangle to exactly one partition in the original order, each partition references each of its vertices once and at most the maximum number of them, its local indices map back to the original vertices, and a partition is closed only when the next triangle would not fit.",
  I,"all triangle index lists up to the stated length and all small vertex limits (at least 3)","Tests check a few index lists.",
  ["ink/geometry/internal/mesh_packing.cc"],[("PartitionTriangles","ink/geometry/internal/mesh_packing.cc")])
p("M06","Mutable meshes store exactly what was written, for either index width",
  "In a mutable mesh, every vertex attribute and triangle index reads back exactly as written, other vertices and triangles are unaffected, appending, inserting, resizing and truncating keep the remaining data, and triangle validation succeeds exactly when every index is in range and distinct within its triangle.",
  IH,"all values and indices in mutation sequences up to the stated length","Tests run fixed sequences.",
  ["ink/geometry/mutable_mesh.h","ink/geometry/mutable_mesh.cc"],[("byte-packed vertex and index storage","ink/geometry/mutable_mesh.{h,cc}")])
p("M07","Converting a mutable mesh to meshes and back preserves its triangles",
  "Converting a valid mutable mesh to immutable meshes yields meshes whose triangles, in order, have the same vertex positions within quantization error; an invalid one yields an error; converting back gives the same counts and indices.",
  I,"all positions and indices for meshes up to the stated size","Tests convert a few meshes.",
  ["ink/geometry/mutable_mesh.cc","ink/geometry/mesh.cc"],[("AsMeshes / FromMesh","ink/geometry/mutable_mesh.cc")])
p("M08","Partitioned meshes validate groups and outlines and keep what they were given",
  "Creating a partitioned mesh fails with an error, never with undefined behaviour, for too many or empty meshes, meshes of one group with different formats, empty outlines, or outline indices that do not exist; otherwise it reports exactly the groups, meshes, formats, outlines and outline positions it was given, and its bounds are the smallest that hold its meshes. Built from a mutable mesh, outlines refer to the same positions as before, leaving out only vertices that belong to no triangle. Empty shapes and shapes with empty groups can be queried, and intersect nothing.",
  I,"all outline indices and group layouts up to the stated size","Tests check a few.",
  ["ink/geometry/partitioned_mesh.h","ink/geometry/partitioned_mesh.cc"],[("FromMeshes / FromMutableMesh / FromMeshGroups validation","ink/geometry/partitioned_mesh.cc")])
p("M09","Shape queries visit exactly the intersected triangles and coverage measures them",
  "A query of a partitioned mesh with a point, segment, triangle, rectangle, quad or another partitioned mesh, under any transform, visits exactly the triangles that the transformed query intersects, each once, and stops when told to. Coverage is the share of the shape's absolute triangle area that is visited, and comparing it with a threshold agrees with it. Shapes intersect an object exactly when one of their triangles does, in either argument order, and under a non-invertible transform act as the segment or point that they collapse to. Copies of a shape, also on other threads, share the lazily built index and give the same answers.",
  ["inputs","schedules"],"query positions, transforms, thresholds and switches at lock operations within the bounds","Tests query a few positions, and the lazy index is built under a lock.",
  ["ink/geometry/partitioned_mesh.cc","ink/geometry/intersects.cc","ink/geometry/internal/static_rtree.h","ink/geometry/internal/static_rtree.cc","ink/geometry/internal/algorithms.cc"],[("VisitIntersectedTriangles, Coverage, StaticRTree","ink/geometry/partitioned_mesh.cc, ink/geometry/internal/static_rtree.h"),("CalculateCollapsedSegment","ink/geometry/internal/algorithms.cc")])
p("C01","Colours never hold NaN channels and alpha stays in [0,1]",
  "However a colour is constructed or derived from float channels that satisfy the documented preconditions, no channel is NaN, alpha lies in [0,1], and channel values and colour space read back as given; changing alpha changes nothing else. Violations of the preconditions are detected rather than stored.",
  I,"all float channel values","Tests sample a few.",
  ["ink/color/color.h","ink/color/color.cc"],[("checked construction","ink/color/color.cc")])
p("C02","8-bit colours survive conversion to and from a colour",
  "Any non-premultiplied 8-bit RGBA colour converted to a colour and back in the same format and space is unchanged, every byte of a packed ARGB value returns to its place, premultiplied conversion keeps colour channels at most alpha, and float-to-byte conversion is monotone and maps 0 to 0 and 1 to 255.",
  I,"all 256 values per channel (all pairs of channel and alpha for premultiplied)","Tests check a few colours.",
  ["ink/color/color.cc","ink/color/color_helpers.h","ink/color/color_helpers.cc"],[("byte <-> float scaling, gamma","ink/color")])
p("C03","Gamut operations return in-gamut colours and leave in-gamut colours alone",
  "Clamping or scaling a colour to the gamut yields channels in [0,1] for every colour; a colour already in gamut is returned unchanged by both, and alpha and colour space are preserved.",
  I,"all float channels","Tests use a few colours.",
  ["ink/color/color.cc"],[("ClampedToGamut / ScaledToGamut","ink/color/color.cc")])

# ---- stroke input
p("S01","Stroke input batches only ever contain valid inputs",
  "A batch accepts an input, on creation, append or overwrite, exactly when its position is finite, its time finite and non-negative, its pressure, tilt, orientation and unit length absent or in their documented ranges, and it is consistent with its neighbours: same tool type, unit length and optional channels, non-decreasing time, and no repeat of both position and time. Every batch reachable through creating, appending and overwriting satisfies these rules for all its inputs.",
  IH,"all field values of inputs and batches up to the stated length","Tests check a few invalid inputs one at a time.",
  ["ink/strokes/input/stroke_input_batch.cc","ink/strokes/input/internal/stroke_input_validation_helpers.cc"],[("validation helpers","ink/strokes/input/internal/stroke_input_validation_helpers.cc")])
p("S02","A rejected batch operation leaves the batch unchanged",
  "When creating, appending to or overwriting part of a stroke input batch fails, an error is returned and the batch afterwards equals the batch before, including its size, tool type, unit length, channels and every stored value.",
  IH,"all rejected inputs on batches up to the stated length","Tests check few failing calls and rarely the state afterwards.",
  ["ink/strokes/input/stroke_input_batch.cc"],[("validate before mutate","ink/strokes/input/stroke_input_batch.cc")])
p("S03","Stroke input batches return what was stored and copies are independent",
  "Reading an accepted input back, by index or iteration, gives exactly the stored fields; erasing a range removes exactly those inputs; clearing empties the batch; and mutating one copy of a batch never changes another copy. Transforming a batch changes positions only, exactly as the transform applied to each.",
  IH,"all field values; operation sequences up to the stated length","Tests use fixed batches; storage is strided and shared.",
  ["ink/strokes/input/stroke_input_batch.h","ink/strokes/input/stroke_input_batch.cc"],[("strided float storage with copy on write","ink/strokes/input/stroke_input_batch.cc")])

p("S04","In-progress strokes reject out-of-order calls and times without changing state",
  "Enqueueing inputs before starting or after finishing, enqueueing inputs inconsistent with earlier ones, and updating before starting or with a negative or decreasing time all fail and leave the stroke unchanged; otherwise the call succeeds. After an update, the stroke's inputs are all accepted real inputs followed by the latest predicted inputs; predicted inputs are replaced, never accumulated, and the geometry always reflects exactly these inputs. Another update is reported as needed exactly while inputs are queued, predictions remain in a finished stroke, or its geometry still changes with time. The reported updated region covers every change until it is reset, and a copy taken as a stroke has exactly the current inputs, brush and geometry.",
  IH,"call sequences up to the stated length with arbitrary times and inputs","Tests follow a few scripts.",
  ["ink/strokes/in_progress_stroke.h","ink/strokes/in_progress_stroke.cc"],[("queues and real_input_count","ink/strokes/in_progress_stroke.cc")])
# ---- brushes
p("B01","Easing functions are validated exactly by their documented constraints",
  "An easing function is accepted exactly when: predefined and step position values are enumerators; cubic Bezier parameters are finite with x values in [0,1]; linear points are finite with non-decreasing x in [0,1]; and the step count is positive, and at least two when neither end jumps.",
  I,"all parameter values; point lists up to the stated length","Tests try single bad values.",
  ["ink/brush/easing_function.cc"],[("ValidateEasingFunction","ink/brush/easing_function.cc")])
p("B02","Easing evaluation is total, memory safe and matches the curve definition",
  "For every valid easing function and every float input evaluation terminates without undefined behaviour; the linear curve is the identity, step functions return the documented step heights (0 below the interval, 1 from its end), a piecewise-linear curve passes through its points with the last of several points at one x winning, the predefined and custom cubic Bezier curves follow the true curve closely, and cubic Bezier inputs outside [0,1] behave as clamped. NaN input never indexes a table.",
  I,"all valid parameters and all float inputs within the stated bounds","Tests evaluate some curves at some points.",
  ["ink/strokes/internal/easing_implementation.cc"],[("GetY of each curve type","ink/strokes/internal/easing_implementation.cc")])
p("B03","Brush tips are accepted exactly when every parameter is in range",
  "A brush tip is accepted exactly when both scales are finite, non-negative and not both zero, corner rounding and pinch lie in [0,1], slant in [-pi/2, pi/2], rotation is finite, the opacity multiplier lies in [0,2], and particle gap distance and duration are finite and non-negative, and all its behaviours are valid.",
  I,"all float parameter values","Tests try single bad values per field.",
  ["ink/brush/brush_tip.cc"],[("ValidateBrushTip","ink/brush/brush_tip.cc")])
p("B04","Valid brush behaviours run without stack underflow and consume every value",
  "A behaviour is accepted exactly when each node's own parameters are valid (enumerators, finite distinct ranges, non-negative damping gap, some tool enabled, time-since-input sources clamped), every node finds the number of inputs it consumes, and no values remain at the end. Evaluating an accepted behaviour never pops an empty stack and leaves it empty.",
  ["inputs","programs"],"all node sequences up to the stated length with arbitrary parameters","Tests use a few graphs.",
  ["ink/brush/brush_behavior.cc","ink/strokes/internal/brush_tip_modeler_helpers.cc"],[("stack depth accounting","ink/brush/brush_behavior.cc"),("ProcessBehaviorNode","ink/strokes/internal/brush_tip_modeler_helpers.cc")])
p("B05","Brush paints are accepted exactly when all layers and keyframes are valid",
  "A brush paint is accepted exactly when every texture layer has a texture URI, enumerator settings, finite positive size, finite offset, rotation and rotation jitter, size jitter between 0 and the size, offset jitter and opacity in [0,1], and keyframes with progress in [0,1] whose optional size is finite and positive, offset and opacity in [0,1] and rotation finite, and all layers use the same mapping. Paints are equal exactly when every field is.",
  I,"all field values; up to the stated number of layers and keyframes","Tests try single bad values.",
  ["ink/brush/brush_paint.cc"],[("ValidateBrushPaint","ink/brush/brush_paint.cc")])
p("B06","Brush size and epsilon stay valid through every setter",
  "A brush is created, or its size or epsilon changed, exactly when the resulting size and epsilon are finite and positive with size at least epsilon; a failed change leaves the brush as it was, and every reachable brush satisfies these rules.",
  IH,"all float sizes and epsilons; setter sequences up to the stated length","Tests try single bad values.",
  ["ink/brush/brush.cc"],[("Validate* helpers","ink/brush/brush.cc")])
p("B07","Brush families bound their coats and require the attributes they use",
  "A brush family is created exactly when it has at most the maximum number of coats, each with exactly one valid tip and a valid paint, and any URI has the brush-family asset type. The vertex attributes required for a coat always include the base set, colour shift exactly when some behaviour targets hue, saturation or luminosity, and surface UV exactly when a layer uses winding texture mapping, without duplicates.",
  I,"all coat counts, target kinds and mappings within the stated bounds","Tests use few families.",
  ["ink/brush/brush_family.cc","ink/brush/brush_coat.cc"],[("ValidateBrushCoat, GetRequiredAttributeIds","ink/brush/brush_coat.cc")])

# ---- tip shape / strokes internals
p("K01","Modelled tip states stay within the limits the tip shape requires",
  "For every valid brush tip and any finite behaviour target modifiers, stacked in any number, the tip state has a width and height between zero and twice their base size, pinch and corner rounding in [0,1], slant within [-pi/2,pi/2], a finite rotation, hue offset in [0,1), saturation and opacity multipliers in [0,2] and luminosity in [-1,1], none of them NaN; multipliers of one target stack by product and offsets by sum before that clamping. Interpolating two tip states keeps the shape attributes between the two ends, turns the shortest way round, and takes position and colour shifts from the second.",
  I,"all finite target modifiers on all valid tips","Tests use ordinary modifiers.",
  ["ink/strokes/internal/brush_tip_modeler_helpers.cc","ink/strokes/internal/brush_tip_state.cc"],[("CreateTipState","ink/strokes/internal/brush_tip_modeler_helpers.cc"),("BrushTipState::LerpShapeAttributes","ink/strokes/internal/brush_tip_state.cc")])
p("K02","Brush behaviour nodes compute their documented value, which is null or finite",
  "A source node yields the documented quantity of the modelled input mapped through its range, in [0,1], by clamping, repeating or mirroring, and null exactly when the input lacks that quantity (or physical units are unknown); filters pass or suppress a value only as documented; sum, product, interpolation, response and damping nodes consume and produce the documented number of values, propagate null, and turn any overflow into null, so that every value is null or finite and every target modifier stays finite; damping moves exponentially from the previous value towards the input over the damping gap.",
  I,"all source values, ranges, node parameters and stack values","Tests sample.",
  ["ink/strokes/internal/brush_tip_modeler_helpers.cc"],[("ProcessBehaviorNode","ink/strokes/internal/brush_tip_modeler_helpers.cc")])
p("S06","Modelled inputs follow real inputs, settle once and track time and distance",
  "The stroke input modeler feeds the external smoother a well-formed event sequence (down first, up only last and only for inputs that may still change, nothing after it until restored), with every input passed on unchanged. Its modelled inputs are the results at least epsilon apart with accumulated distances; those of all real inputs but the last are stable, do not depend on predictions or on how inputs were batched, and never change. Counts, elapsed time and distance in its state always match the modelled inputs; tool type and unit length come from the first input.",
  ["inputs","histories"],"all ways to batch and predict inputs","Tests follow a few update histories.",
  ["ink/strokes/internal/stroke_input_modeler.cc","ink/strokes/internal/stroke_input_modeler.h"],[("ExtendStroke, ModelInput, UpdateStateTimeAndDistance","ink/strokes/internal/stroke_input_modeler.cc")])
p("S07","A stroke keeps its brush, inputs and shape consistent",
  "A stroke's shape always has one render group per brush coat and is the shape of its current inputs and brush: a setter regenerates it exactly when tips, size, epsilon or inputs change (not for color or paint), sizes and epsilons that are not finite, not positive or in the wrong order are rejected without any effect, a generated shape that cannot be packed is replaced by empty groups, and a shape given explicitly must match the number of coats. Setters never change anything else, accept the stroke's own brush and inputs, and never affect copies of the stroke.",
  ["inputs","histories"],"every sequence of setters within the stated length, all sizes and epsilons","Tests call single setters.",
  ["ink/strokes/stroke.cc"],[("RegenerateShape and the setters","ink/strokes/stroke.cc")])
p("K04","Fixed tip states never depend on inputs that may still change",
  "The tip states a brush tip modeler reports as fixed depend only on the stable inputs: whatever unstable (predicted or not yet settled) inputs accompanied each update, and however the stable inputs were split over updates, the same tip states become fixed, with the same values, for every behaviour source and target, damping, and particle setting. A continuous tip yields one state per input; a particle tip yields particles separated by empty states, at least the gap apart, none missing; emission always terminates; and an interpolated input lies the same way between its two inputs in every property, and keeps unreported pressure, tilt and orientation unreported.",
  ["inputs","histories"],"all unstable inputs and all splits into updates","Tests replay single histories with one prediction.",
  ["ink/strokes/internal/brush_tip_modeler.cc","ink/strokes/internal/brush_tip_modeler_helpers.cc"],[("UpdateStroke, ProcessSingleInput","ink/strokes/internal/brush_tip_modeler.cc"),("Lerp(ModeledStrokeInput)","ink/strokes/internal/brush_tip_modeler_helpers.cc")])
p("K05","Tip shapes are the documented hulls; joining two tips outlines both",
  "A brush tip's shape consists of one to four circles of the documented radius at the documented places, of which none contains another, and its bounds are those of the circles; invalid sizes are refused. One tip contains another exactly when its hull does. The outline of a single tip stays within the chord height of its hull, runs around it once and is split by the travel direction. For two tips of which neither contains the other, the tangents reported as good support both tips, the two caps together outline their common hull, tips that lie clearly ahead always have good tangents, and no valid tip, wherever it is, makes extrusion abort.",
  I,"all tip sizes and positions within the stated grids","Tests use a few upright tips; coinciding circles, touching tips and far positions abort only for particular values.",
  ["ink/strokes/internal/brush_tip_shape.h","ink/strokes/internal/brush_tip_shape.cc","ink/strokes/internal/brush_tip_extrusion.cc"],[("tip circles, containment, tangents and caps","ink/strokes/internal/brush_tip_shape.cc")])
p("K06","A rounded polygon contains exactly the circles inside its outline",
  "For convex rounded polygons made of two or more circles, a circle is reported as contained exactly when it lies within the outline, whatever the radii, including outlines with half-turn arcs, points, and circles whose center lies on the boundary between an arc and a segment. Fewer than two circles, and circles that contain a neighbour, are refused.",
  I,"all test circles on the stated grids for each polygon","Tests probe a dozen circles; half-turn arcs were never tried.",
  ["ink/strokes/internal/rounded_polygon.h","ink/strokes/internal/rounded_polygon.cc"],[("ContainsCircle","ink/strokes/internal/rounded_polygon.cc")])

p("K03","Stroke vertices and their labels survive writing, packing and interpolation",
  "Side and forward labels keep their category (exterior on either side, or interior) when given a margin; the margin is stored rounded down to one of 127 even steps and limited to [0, 4]; every label, and opacity or colour shifts of -1, 0 and 1, survive the fixed stroke packing exactly. Mesh accessors read back what was written, limit shifts to [-1, 1] and touch only their own attribute. Every stroke attribute of a mesh format is found at its index, and only recognised packed attributes get fixed packing parameters. Interpolated vertices take weighted attribute values, cleared derivatives, and a label only where both ends agree or at an end.",
  I,"all label values, margins, formats and vertex contents","Tests check a few values.",
  ["ink/strokes/internal/stroke_vertex.h","ink/strokes/internal/stroke_vertex.cc"],[("Label encoding, accessors, Lerp","ink/strokes/internal/stroke_vertex.cc")])

# ---- extruder
p("E01","Stroke outlines follow their append and truncate history exactly",
  "After any history of appending left and right indices and truncating either side, a stroke outline holds exactly the remaining left indices followed by the reversed right indices, with matching counts; truncating to a larger count changes nothing. Merging shape updates gives a region covering both and the smallest of the offsets present.",
  ["inputs","histories"],"all append/truncate histories and offsets within the stated bounds","Tests follow single histories.",
  ["ink/strokes/internal/stroke_outline.cc","ink/strokes/internal/stroke_shape_update.cc"],[("StrokeOutline::TruncateOutline, AppendIndices","ink/strokes/internal/stroke_outline.cc")])
p("E02","The extruder's mesh view writes only what is asked and tracks the first change",
  "Through the extruder's mutable mesh view, every read returns what was last written, every write touches only its own vertex attribute or triangle, inserted triangles shift the later ones, removing data keeps the rest, and the first mutated vertex and triangle are the lowest changed since the last reset; indices out of range abort instead of corrupting memory.",
  ["inputs","histories"],"all operation sequences within the stated length, all attribute values","Tests call single operations.",
  ["ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc","ink/strokes/internal/brush_tip_extruder/extruded_vertex.cc"],[("MutableMeshView","ink/strokes/internal/brush_tip_extruder/mutable_mesh_view.cc")])
p("E03","Extruder outline helpers find true intersections and windings",
  "Partial outlines list exactly the vertices of a side since its partition in the order of the requested direction; an outline intersection is reported exactly when the query segment crosses the outline, at a point on both; the winding search returns the last outline segment whose triangle with the given point winds the wrong way, and nothing when there is none; simplification keeps end points, only drops points, and never moves the polyline farther than its tolerance; barycentric containment and segment intersection agree with exact geometry, and interpolated vertices lie between their ends.",
  I,"all grid configurations within the stated bounds","Tests use a few drawn configurations.",
  ["ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc","ink/strokes/internal/brush_tip_extruder/find_clockwise_winding_segment.cc","ink/strokes/internal/brush_tip_extruder/simplify.cc","ink/geometry/internal/legacy_segment_intersection.cc"],[("FindOutlineIntersection","ink/strokes/internal/brush_tip_extruder/directed_partial_outline.cc")])
p("E04","Extruded meshes stay well formed and forget volatile tip states",
  "Whatever tip states are extruded (turns, breaks, tips swallowing each other, self-intersections), the mesh has finite vertices and derivatives, triangles of distinct in-range indices, bounds equal to the box of its vertices, and every vertex on exactly one outline. An update never changes vertices or triangles before the offsets it reports, and its region covers every changed triangle. Volatile states leave no trace: positions, triangles, bounds, outlines and non-derivative attributes do not depend on earlier volatile states nor on how the fixed states were split over updates.",
  ["inputs","histories"],"all positions of the symbolic coordinate in the stated scenarios, split into updates with volatile states","Tests replay a few drawings with ordinary tips.",
  ["ink/strokes/internal/brush_tip_extruder.cc","ink/strokes/internal/brush_tip_extruder/geometry.cc","ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc","ink/strokes/internal/brush_tip_extrusion.cc","ink/strokes/internal/brush_tip_shape.cc"],[("ExtendStroke, save points","ink/strokes/internal/brush_tip_extruder.cc"),("ProcessNewVertices, RevertToSavePoint","ink/strokes/internal/brush_tip_extruder/geometry.cc")])

p("E06","A drawn tip leaves its own shape, colour shifts and texture coordinates",
  "A single visible tip state, of any width, height, rounding, rotation, slant or pinch, is drawn as its own shape: no vertex lies outside of the tip and none of it is left out by more than the brush epsilon and chord height. A tip is invisible only when both dimensions are below epsilon; a thin tip that moves still draws the area it sweeps. Every vertex carries the opacity, hue, saturation and luminosity shifts of the tip it belongs to (or values between two neighbours where sides cross), and, exactly for particle tips of a coat with a single winding texture layer, its coordinates in the tip's box clamped to the unit square. The shifts that behaviours ask for arrive unchanged. Tips entirely swallowed by a later one since the last break leave nothing behind.",
  I,"all values of the symbolic position, size or colour in the stated tips and strokes","Tests check the shifts and texture coordinates of a few tips.",
  ["ink/strokes/internal/brush_tip_extruder.cc","ink/strokes/internal/brush_tip_shape.cc","ink/strokes/internal/brush_tip_extruder/geometry.cc","ink/strokes/internal/stroke_shape_builder.cc"],[("Extrude, ExtrudeGeometry","ink/strokes/internal/brush_tip_extruder.cc"),("AppendWholeShapeExtrusionPoints","ink/strokes/internal/brush_tip_shape.cc")])

p("E07","Derivatives average triangle widths and margins keep vertices in their regions",
  "The side derivative of every extruded vertex points from left to right and averages, magnitudes and directions apart, the widths of its triangles across the stroke; forward derivatives likewise along it; coincident neighbours share one value and vertices of flattened triangles only get nothing. Margins lie between nothing and the maximum of 4, are zero for interior vertices and flattened triangles, and moving a vertex outwards within its margin keeps it in its own region of every triangle it belongs to; they are as large as the triangles allow. Labels keep their category. Updating the tail of a mesh gives what updating all of it gives and touches nothing before it. The searches for the first exterior vertex and for runs of coincident vertices return exactly what a scan would.",
  I,"all values of the symbolic coordinate, label or offset in the stated meshes","Tests compute a few derivatives by hand; margins depend on every triangle around a vertex.",
  ["ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc","ink/strokes/internal/brush_tip_extruder/derivative_calculator_helpers.cc"],[("DerivativeCalculator","ink/strokes/internal/brush_tip_extruder/derivative_calculator.cc")])
p("E05","Strokes depend on brush and inputs only, and quiet strokes stay unchanged",
  "From inputs to mesh: a stroke in progress ends up with the same positions, triangles, outlines and bounds however its inputs were split over updates and whatever was predicted in between, and its copy equals the stroke generated at once. Nothing remains of strokes built before with the same object or thread. Every update leaves each coat with a finite mesh, proper triangles, exact bounds and non-empty outlines visiting each vertex once, and the updated region covers every changed triangle. When no update is needed, updating at any later time changes nothing. The mesh of a plain tip covers every input and the path between them, and a single input makes a dot of the tip's size.",
  ["inputs","histories"],"all values of the symbolic coordinate or time, all deliveries of the inputs within the stated bounds","Tests draw a few strokes and compare single numbers.",
  ["ink/strokes/internal/stroke_shape_builder.cc","ink/strokes/in_progress_stroke.cc","ink/strokes/stroke.cc","ink/strokes/internal/brush_tip_modeler.cc","ink/strokes/internal/brush_tip_extruder.cc","ink/strokes/internal/stroke_input_modeler.cc"],[("StrokeShapeBuilder","ink/strokes/internal/stroke_shape_builder.cc"),("UpdateShape, NeedsUpdate","ink/strokes/in_progress_stroke.cc"),("RegenerateShape","ink/strokes/stroke.cc")])

# ---- rendering
p("R01","Bitmaps are accepted exactly when dimensions, format and data size agree",
  "A bitmap validates exactly when its width and height are positive, its pixel format, colour format and colour space are enumerators and its data holds exactly width times height pixels, with no overflow for any dimensions.",
  I,"all dimensions and data sizes","Tests try a few sizes; overflow needs huge dimensions.",
  ["ink/rendering/bitmap.h","ink/rendering/bitmap.cc"],[("ValidateBitmap","ink/rendering/bitmap.cc")])
p("R02","Mesh specification data lists consistent attributes and uniforms",
  "Mesh specification data created for any stroke mesh format lists the attributes of that format at their exact offsets, varying and uniform ids without duplicates and the declared uniform sizes; unsupported formats give an error.",
  I,"all stroke-compatible mesh formats up to the stated attribute count","Tests try a few formats.",
  ["ink/rendering/skia/common_internal/mesh_specification_data.cc"],[("CreateForStroke","ink/rendering/skia/common_internal/mesh_specification_data.cc")])
p("R03","Mesh uniforms lie at their offsets and data handed out never changes",
  "Uniform data for a mesh specification knows a uniform exactly when the specification lists it with its type. Construction writes the position, side and forward unpacking transforms (offset and scale of both components) of the mesh's attributes at their offsets and nothing else. Setting the linear part of a transform (by columns), the brush colour (linear sRGB, whatever its colour space) or the texture mapping changes that uniform only; the data returned before, and copies of the object, keep their values. Without uniforms there is no data; setting a uniform that is not there is detected.",
  ["inputs","histories"],"all subsets of uniforms, coding parameters, values and histories within the stated bounds","Tests set one value per uniform.",
  ["ink/rendering/skia/native/internal/mesh_uniform_data.cc","ink/rendering/skia/native/internal/mesh_uniform_data.h"],[("MeshUniformData","ink/rendering/skia/native/internal/mesh_uniform_data.cc")])
p("R04","Drawables draw exactly the outlines or partitions they were made of",
  "A path drawable draws, for every outline that is not empty, one closed polygon filled by winding that visits the positions of the outline's vertices in order, whatever meshes they lie in, with a smooth fill of the given colour in linear sRGB and its alpha scaled by the opacity; colours set later use the same opacity. A mesh drawable is created exactly when Skia accepts each of its partitions, and draws every partition once with its own buffers, counts and bounds, the blender and shader, and the uniform values set last. Copies, and what was drawn before, keep their values.",
  ["inputs","histories"],"all outlines, colours, positions and histories within the stated bounds","Tests draw a few shapes and compare counts.",
  ["ink/rendering/skia/native/internal/path_drawable.cc","ink/rendering/skia/native/internal/mesh_drawable.cc","ink/rendering/skia/native/internal/mesh_drawable.h"],[("PathDrawable","ink/rendering/skia/native/internal/path_drawable.cc"),("MeshDrawable","ink/rendering/skia/native/internal/mesh_drawable.cc")])
p("R05","Mesh specifications are made from exactly the listed data, one per format",
  "Making a mesh specification gives Skia exactly the attributes (types, offsets, names), vertex stride, varyings and programs the data lists, with linear sRGB and premultiplied alpha. It succeeds exactly when Skia accepts them and reports exactly the expected uniforms, each with its type, in any order; otherwise the result is an invalid-argument error. The cache makes one specification per mesh format and one for in-progress strokes, on the first request, and returns the same one afterwards; strokes that were not started, missing coats, coats without meshes and unsupported formats give an invalid-argument error and make nothing.",
  ["inputs","histories"],"all specifications, Skia answers and request histories within the stated bounds","Tests need Skia and make one specification per kind.",
  ["ink/rendering/skia/native/internal/create_mesh_specification.cc","ink/rendering/skia/native/internal/mesh_specification_cache.cc"],[("CreateMeshSpecification","ink/rendering/skia/native/internal/create_mesh_specification.cc"),("GetForStroke","ink/rendering/skia/native/internal/mesh_specification_cache.cc")])
P=[x for x in P if x]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: 
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
