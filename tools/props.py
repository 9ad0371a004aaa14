# The property list (written to properties.jsonl and MANIFEST.json by gen.py).
TECH_H = ("explicit-state model checking on the real code: breadth-first / depth-bounded exhaustive enumeration of "
          "operation histories over a finite alphabet, every step compared with a plain reference model")
TECH_I = ("bounded-exhaustive model checking of the real code: every element of a finite input lattice (every operation, "
          "every combination of alphabet values) is executed and compared with an independent long-double/exact reference model")
WHY_I = ("The tests check a few hand-picked values per function; the property quantifies over every input (all signs, "
         "octants, degenerate and boundary cases, float and double).")
WHY_H = ("The tests call one operation at a time on fresh objects; the property is about every history of operations on one "
         "object (cached flags, in-place updates, aliasing), which is a combinatorial space.")
NOTE = "Exhaustive within the finite alphabet and depth stated in DESIGN.md; float and double instantiations of the real headers are executed; values outside the alphabet are not covered."
PROPS = []
def P(id, title, statement, over, quant, files, mech, why=WHY_I, technique=TECH_I, note=NOTE, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, files=files, mech=mech, why=why,
                      technique=technique, note=note, **kw))

P("C01", "Vector arithmetic obeys component-wise and geometric vector algebra",
  "For Vec2, Vec3 and Vec4 with finite components, construction, conversion between dimensions and element types, indexing, comparison, "
  "+, -, scalar * and /, dot, cross and component-wise products, length, distance, component-wise min/max, "
  "moving along a coordinate and the largest/smallest-component queries give the mathematically defined value up to rounding. "
  "In-place and pure forms of one operation agree, and an operation changes nothing but its target.",
  ["inputs"], "all component tuples from a lattice of signs, zeros, fractions and three magnitudes, all Coord arguments, float and double",
  ["vec2.h", "vec3.h", "vec4.h", "functions.h"],
  [("Vec2 operators and constructors", "impl/vec2.h:1"), ("Vec3 operators and constructors", "impl/vec3.h:1"), ("Vec4 operators and constructors", "impl/vec4.h:1")])
P("C02", "Vector rotation, mirroring, projection and normalisation are geometric",
  "Rotating a vector by an angle (about the origin, a coordinate axis or an arbitrary unit axis), mirroring it, converting to and from "
  "polar form, taking perpendiculars and normalising it produce the geometrically defined vector up to rounding, for every angle and "
  "every quadrant/octant. Rotations and mirrors preserve length, normalising a non-null vector gives length 1 in the same direction, and any "
  "sequence of such in-place operations equals the composition of the individual maps.",
  ["inputs", "histories"], "all directions/lengths of a vector lattice x all angles of a 15-degree grid plus odd angles x all axes; all operation sequences up to the depth bound",
  ["vec2.h", "vec3.h"],
  [("Vec2 rotate/rotated/mirror/polar", "impl/vec2.h:300"), ("Vec3 rotate/rotated/mirror", "impl/vec3.h:300")], technique=TECH_H)
P("C24", "Easing, lerp and response curves follow their closed forms everywhere",
  "Every easing mode is 0 for t<=0 and 1 for t>=1, never leaves [0,1] nor decreases in between, and follows its closed form to working precision (the normalised exponential modes, whose constants are "
  "truncated, to 1e-5); lerp of scalars, integers and vectors is from+(to-from)*t with t taken through the easing mode when one is given. "
  "Response curves are odd, zero in the dead zone, monotone, continuous at the threshold and equal their closed form for every threshold.",
  ["inputs"], "every mode and curve x a dense grid of t/value including end points, the middle and neighbouring floating-point values x a lattice of start/end values and thresholds",
  ["interpolation.h", "functions.h"], [("interpolationRatio", "interpolation.h:44"), ("lerp", "interpolation.h:126"), ("evaluate", "functions.h:217")])
P("C25", "Scalar helpers (clip, min/max, modulo, asin/acos, degrees) are exact",
  "For every finite argument the scalar helpers return the mathematically defined value: clipping stays within the bounds and is the identity inside them, min/max/abs select exactly, "
  "the positive modulo lies in [0,y) and the centred one in [-y/2,y/2) and both differ from the argument by a multiple of y, degree/radian conversion is linear. "
  "asin and acos treat arguments beyond [-1,1] as the nearest end, so they never return NaN.",
  ["inputs"], "all argument tuples from a lattice of signs, magnitudes, exact multiples of the modulus, bounds, and their neighbouring floating-point values",
  ["functions.h", "impl/constants.h"], [("scalar functions", "functions.h:28"), ("constants", "impl/constants.h:1")])
P("C26", "Random helpers stay in range and reach it whole for every generator output",
  "Whatever the underlying C generator returns, every random helper (integers, reals, amplitudes, unit vectors, colours) returns a value within its documented "
  "range, both ends and every sign/quadrant/octant are reachable, unit vectors have length 1, and equal generator outputs give equal results.",
  ["inputs", "fault_sequences"], "every sequence of generator outputs over an alphabet of extreme and middle values, up to the number of draws each helper makes (C rand() interposed)",
  ["functions.h", "vec2.h", "vec3.h", "colorrgb.h", "colorrgba.h", "colorhsv.h"], [("rand helpers", "functions.h:66"), ("randomUnitVector", "impl/vec3.h:700"), ("ColorRGBA::random", "impl/colorrgba.h:235")])
P("C03", "Matrix arithmetic is linear algebra, also in place and aliased",
  "For Mat2, Mat3, Mat34 and Mat4, sums, differences, negation, scalar products and quotients, matrix-matrix and matrix-vector products, comparison and element access "
  "are those of linear algebra on column vectors up to rounding. The in-place forms give the same result as the pure ones, also when an operand is the target itself, "
  "its own row/column or its own linear part, and operands that are not the target stay unchanged.",
  ["inputs"], "all pairs of matrices of a catalogue (zero, identity, rotations, mirrors, scales, shears, singular, general, affine, projective) x all operations x all aliasing patterns",
  ["mat2.h", "mat3.h", "mat34.h", "mat4.h", "vec2.h", "vec3.h", "vec4.h"],
  [("Mat3 operators and multiply", "impl/mat3.h:1"), ("Mat4 operators and multiply", "impl/mat4.h:1"), ("Mat34 operators", "impl/mat34.h:1"), ("Mat2 operators", "impl/mat2.h:1")])
P("C04", "Determinant, adjoint, cofactors, transpose and inverse are exact algebra",
  "For every square matrix the determinant, trace, transpose, cofactor matrix and adjoint equal their definitions and the inverse times the matrix is the identity up to the rounding its "
  "condition allows, whichever shortcut (orthonormal, affine, general) applies; a matrix whose determinant is exactly 0 inverts to the zero matrix. "
  "In-place and pure forms agree.",
  ["inputs"], "all small-integer 2x2 and 3x3 matrices, a catalogue of 3x4 and 4x4 ones with permutations and sign changes, rigid, scaled and projective matrices; float and double",
  ["mat2.h", "mat3.h", "mat34.h", "mat4.h"],
  [("Mat3 inverse/determinant/adjoint", "impl/mat3.h:1"), ("Mat4 inverse and TRS shortcut", "impl/mat4.h:1"), ("Mat34 invert", "impl/mat34.h:1")])
P("C05", "Cached matrix properties never change a result",
  "After any history of operations on one matrix, a property it reports (normal, orthogonal, orthonormal, identity, affine) is true of its elements within the stated tolerance, and the elements are those "
  "the history defines. Every later operation therefore gives the same result, up to rounding, as on a freshly set matrix with the same elements; evaluating the properties explicitly recognises each of them, and normalError, orthogonalError and identityError are the sums of squared deviations.",
  ["histories"], "all histories of in-place operations (set, multiply, scale, rotate, transpose, invert, negate, transform, orthonormalise, re-evaluate, ...) up to the depth bound from every starting matrix",
  ["mat2.h", "mat3.h", "mat34.h", "mat4.h"],
  [("property flags of Mat3", "impl/mat3.h:1"), ("property flags of Mat4", "impl/mat4.h:1"), ("property flags of Mat2", "impl/mat2.h:1")], technique=TECH_H, why=WHY_H)
P("C06", "Rotation matrices rotate as specified and compose in the documented order",
  "Building a rotation from an angle, a coordinate axis, any axis or a unit quaternion gives the right-handed rotation matrix (translation zero or as given), rotate composes on the left and rotatePre on the right of "
  "the existing matrix, in place and pure, over any sequence of rotations. Building a frame from an exact and an approximate axis gives the right-handed orthonormal frame whose exact axis is the given direction and whose "
  "approximate axis lies as near as possible to the given one; re-orthonormalising a drifted rotation gives a rotation near it and keeps the translation.",
  ["inputs", "histories"], "all axes of a lattice x an angle grid over two turns; all exact/approximate vector pairs of a lattice x coordinate pairs; every catalogue matrix x rotation; all rotation sequences to the depth bound; closure of the cube group",
  ["mat2.h", "mat3.h", "mat34.h", "mat4.h"],
  [("Mat3 set/rotate/rotatePre/orthonormalise", "impl/mat3.h:1"), ("Mat4 rotations", "impl/mat4.h:467"), ("Mat34 rotations", "impl/mat34.h:298"), ("Mat2 rotations", "impl/mat2.h:1")], technique=TECH_H)
P("C07", "Affine transforms compose exactly like 4x4 matrices",
  "translate, scale, rotate and transform act after the existing transform and their Pre forms before it, for the 3x4 and the 4x4 affine matrix, in place and pure, also when the operand is the target itself or its translation, so that after any sequence of them (and inversions) every point and "
  "vector is mapped as by the product of the individual 4x4 matrices. The local axis rays and local planes start at the translation and point along the (unit) columns, negated for the negative axes.",
  ["inputs", "histories"], "every affine matrix of the catalogue x every operation and argument of an alphabet; all operation sequences to the depth bound",
  ["mat34.h", "mat4.h"],
  [("Mat34 transformations", "impl/mat34.h:298"), ("Mat4 transformations", "impl/mat4.h:467")], technique=TECH_H, why=WHY_H)
P("C08", "Transforming arrays of vectors touches exactly the selected elements",
  "Transforming one vector, an array or a strided array of vectors by a matrix stores, for every selected element and any count, the matrix times that element (direction transforms leave out the translation), "
  "also in place, interleaved, and with a source stride of 0. Nothing else in memory is written, the source and the matrix stay unchanged.",
  ["inputs"], "all matrices of the catalogue x counts 0..9 (thorough 0..33) x memory layouts (disjoint, in place, strided, interleaved, stride 0), guard words around and between elements",
  ["mat2.h", "mat3.h", "mat34.h", "mat4.h"],
  [("Mat4 transform/transformVector", "impl/mat4.h:1150"), ("Mat34 transform", "impl/mat34.h:555"), ("Mat3 transform", "impl/mat3.h:1"), ("Mat2 transform", "impl/mat2.h:486")])
P("C09", "Quaternions are the rotation group and convert faithfully",
  "Products, inverses, quotients and normalisation are Hamilton's algebra up to rounding, a unit quaternion rotates every vector like its rotation matrix and like q v q^-1, and the product rotates by the second factor first. Conversions to and from "
  "matrices and axis/angle give the same rotation (angles below 0.002 rad may be taken as 0), the rotation built from two vectors takes the first direction to the second the shortest way, also for opposite ones (directions within 0.005 rad of parallel may be taken as parallel). exp and log are inverse to each other.",
  ["inputs", "histories"], "all pairs of a quaternion lattice; unit quaternions x vectors; axis lattice x 7.5-degree grid over two turns; all pairs of lattice vectors; all products within the binary octahedral and icosahedral groups",
  ["quat.h", "mat3.h", "mat4.h"], [("Quat", "impl/quat.h:1"), ("Mat3::set(Quat)", "impl/mat3.h:1"), ("Mat4::set(Quat)", "impl/mat4.h:1")], technique=TECH_H)
P("C10", "Spherical interpolation follows the shortest great circle and its limits",
  "Interpolating between two angles, vectors, quaternions or rotation matrices starts at the first, ends at the second and moves at even speed the shortest way round (vectors with length interpolated linearly; "
  "quaternions and vectors close to each other may be interpolated linearly). With a maximum angle the result is the second argument when it is within reach and otherwise exactly that angle away from the first. "
  "Target aliasing an operand does not change the result, and quaternions and rotations stay unit and orthonormal.",
  ["inputs"], "all pairs of an angle grid / vector lattice / unit-quaternion lattice / rotation catalogue x a grid of weights and maximum angles",
  ["interpolation.h", "vec2.h", "vec3.h", "quat.h", "mat2.h", "mat3.h", "mat34.h", "mat4.h"], [("clerp/clerpMaxAngle", "interpolation.h:126"), ("Vec2::clerp", "impl/vec2.h:116"), ("Vec3::slerp", "impl/vec3.h:106"), ("Quat::slerp", "impl/quat.h:1"), ("Mat3::slerp", "impl/mat3.h:1")])
P("C11", "AABB algebra: bounding, union, intersection and containment as point sets",
  "A box built from points, a list, another box or by any history of including, growing, moving, scaling and assigning contains what it was built from and nothing more; its size, centre, corners, area and volume follow from its bounds. "
  "Union is the smallest box holding both operands, intersection the set of common points (an empty one gives the zero box), and contains/intersects agree with those sets, touching boundaries included. "
  "Inner and outer circles and spheres share its centre and touch its nearest sides and its corners; operands that are not the target stay unchanged.",
  ["inputs", "histories"], "all boxes, box pairs and points of a lattice, all point lists up to a length, all mutation histories to the depth bound; 2-D and 3-D",
  ["aabb2.h", "aabb3.h"], [("AABB2", "impl/aabb2.h:1"), ("AABB3", "impl/aabb3.h:1")], technique=TECH_H)
P("C12", "AABB ray and line queries report exactly the hits of the solid box",
  "For a box and a ray or line segment, hits is true exactly when the ray enters the box from outside and its parameter is the first entry; intersects is true exactly when the two share a point and its parameters delimit the shared interval, "
  "clipped to the ray or segment. This holds for every direction, also axis-parallel ones, ones that start on or beside a face and degenerate boxes, and all overloads agree; only decisions within rounding of a boundary are open.",
  ["inputs"], "all boxes x starts x directions of a lattice (including faces, edges, corners, zero components, zero-size boxes), rays and lines, 2-D and 3-D",
  ["aabb2.h", "aabb3.h"], [("AABB2::hits/intersects", "impl/aabb2.h:1"), ("AABB3::hits/intersects", "impl/aabb3.h:1")])
P("C13", "Centre/extent boxes describe the same point sets as their bounds",
  "A centre/extent box denotes the points within its extents of its centre: construction from bounds, points, lists and AABBs, conversion back, adding points, moving, containment and overlap "
  "give the same point sets as on the equivalent bounds up to rounding, after any history of such operations. Scaling changes the extents and keeps the centre.",
  ["inputs", "histories"], "all boxes, box pairs and points of a lattice, all point lists up to a length, all mutation histories to the depth bound; 2-D and 3-D",
  ["caabb2.h", "caabb3.h"], [("CAABB2", "impl/caabb2.h:1"), ("CAABB3", "impl/caabb3.h:1")], technique=TECH_H)
P("C14", "Circles and spheres bound, contain and are hit as Euclidean balls",
  "Circle and Sphere behave as closed Euclidean balls: containment, overlap and bounding agree with centre distances up to rounding, translating moves the centre, scaling the radius, and a ball built from a list of points is the smallest one about the middle of their bounds that contains them. "
  "A line segment hits at the first point where it enters from outside; intersects(line) is true exactly when the segment shares a point with the ball.",
  ["inputs"], "all balls, pairs and points of a lattice (tangent, concentric, zero radius), all point lists up to a length, all lines of a lattice",
  ["circle.h", "sphere.h"], [("Circle", "impl/circle.h:1"), ("Sphere", "impl/sphere.h:1")])
P("C15", "Plane queries agree with the signed distance to the plane",
  "Every way of building a plane gives the unit normal and offset of the plane through the given points, moving and flipping shift and reverse it, and distance, containment and projection (perpendicular, or along any non-parallel direction) follow from the signed distance. "
  "A ray, segment or sphere hits only from the front side and intersects from either, with the parameter, point and depth of the contact; parallel ones do not. "
  "Three planes meet in one point exactly when their normals are independent, and that point lies on all three.",
  ["inputs"], "all planes x points / directions / segments / spheres of a lattice (including on-plane, parallel and touching cases), all triples of a plane catalogue",
  ["plane.h"], [("Plane construction and projection", "impl/plane.h:1"), ("Plane hits/intersects", "impl/plane.h:230")])
P("C16", "Lines and rays: length, points along them and distance of a point",
  "A segment's length and points are those of the straight line between its ends, and its distance to a point is the perpendicular distance to the line (0 on it, the distance to the start when both ends coincide). "
  "A ray built from any direction has a unit direction, its points lie at the given distance from the start, and the distance of a point ahead of the start is the perpendicular one (0 on the ray). "
  "Two infinite 2-D lines cross exactly when they are not parallel, and both crossing parameters give the same point.",
  ["inputs"], "all segments and rays x points of a lattice, 2-D and 3-D, collinear, coincident and degenerate ones included",
  ["line2.h", "line3.h", "ray2.h", "ray3.h", "vec2.h"], [("intersection", "impl/vec2.h:548"), ("Line3::distance", "impl/line3.h:60"), ("Ray3::distance", "impl/ray3.h:50"), ("Line2::distance", "impl/line2.h:60"), ("Ray2::from", "impl/ray2.h:12")])
P("C17", "Triangle containment is exact for every vertex order, also degenerate ones",
  "A 2-D triangle contains exactly the points of the closed triangle spanned by its vertices, whatever their order, with its edges and vertices included. "
  "A degenerate triangle contains the points of the segment or single point it spans and nothing else; only points within rounding of an edge are open.",
  ["inputs"], "all vertex triples of a grid x all points of a finer grid (exact arithmetic), and of unrepresentable and widely spread values (outside a rounding margin)",
  ["tri2.h"], [("Tri2::contains", "impl/tri2.h:38")])
P("C18", "Frustum planes face outwards and decide containment to full precision",
  "For a convex frustum given in the documented corner order, directly or through a rigid, scaled or sheared transform, the six planes pass through their four corners with unit normals facing outwards. "
  "A point is contained exactly when it is behind all planes and a sphere when it is wholly behind all of them; spheres wholly in front of one plane never intersect and all others do. A Vec4 counts as the point of its x, y and z, whatever its w. Decisions have the precision of the element type.",
  ["inputs"], "a catalogue of frusta (boxes, pyramids, off-centre, widening and narrowing) x transforms x a lattice of points around them x radii; face distances down to the last bits",
  ["frustum.h"], [("Frustum::computePlanes", "impl/frustum.h:150"), ("Frustum::contains/intersects", "impl/frustum.h:84")])
P("C19", "Linear solvers solve every regular system and report singular ones",
  "Gauss-Jordan elimination solves every regular system up to the rounding its condition allows, replaces the matrix by its inverse and reports singular matrices, for any number of right-hand sides and any scale. "
  "The tridiagonal and cyclic solvers solve every system that elimination without pivoting can solve (all diagonally dominant ones), report singular ones (cyclic: also fewer than 3 equations) and never a wrong solution. "
  "They leave their inputs unchanged, touch no memory outside the arrays and free what they allocate on every path.",
  ["inputs"], "all small-integer systems up to 4 equations (Gauss-Jordan) or 5 (tridiagonal), all permutation patterns up to 7 x scales 2^-900..2^200, dominant systems up to 8 equations; exact-integer oracle; AddressSanitizer variant",
  ["linearequations.h"], [("TriDiagonal", "impl/linearequations.h:4"), ("TriDiagonal::solveCyclic", "impl/linearequations.h:80"), ("GaussJordan", "impl/linearequations.h:140")])
P("C20", "The spline solver returns a C2 curve through all points with the asked ends",
  "For any sequence of two or more points the solver returns control points whose cubic segments join with equal tangent and equal second derivative at every inner point (every point when closed). "
  "A natural spline has zero second derivative at both ends, a clamped one starts and ends with exactly the given control points. It succeeds for every input, changes nothing but its outputs, stays within them and frees what it allocates.",
  ["inputs"], "all sequences of 2..6 (thorough 2..8) points over a 5-point alphabet, patterned sequences up to 24 (60) points at three scales, all end control points of an alphabet; AddressSanitizer variant",
  ["spline3.h", "linearequations.h"], [("SplineSolver3", "impl/spline3.h:470")])
P("C21", "Bezier and Hermite segments evaluate, split and step as de Casteljau's curve",
  "Points, tangents and basis functions of cubic Bezier and Hermite segments equal those of the cubic polynomial their definition gives, for every parameter in [0,1]. Splitting gives the two parts of the same curve, forward differencing visits its points and tangents, "
  "and the length is that of the polyline through the given number of steps. The frame is the right-handed orthonormal (binormal, tangent, normal) and is refused where the curve has no direction or no curvature.",
  ["inputs"], "all quadruples of control points of an alphabet (coincident, collinear, large) x a grid of parameters x step counts",
  ["spline3.h"], [("BezierSegment3", "impl/spline3.h:150"), ("HermiteSplineSegment3", "impl/spline3.h:10"), ("BezierSegment3FwdDiff", "impl/spline3.h:400")])
P("C22", "RGB and RGBA colours: arithmetic keeps alpha, interpolation hits its ends",
  "Constructing colours from channels, a grey level or 0..255 bytes, setting, +, -, unary -, scalar * and / (pure and in place) act on red, green and blue only and keep the left operand's alpha; "
  "comparison looks at every channel; interpolation covers alpha too, is linear and returns exactly its end colours at 0 and 1. "
  "RGB/RGBA conversion, casts and data() keep every channel in order, and any sequence of in-place operations equals the same operations on plain channels.",
  ["inputs", "histories"], "all pairs of colours of a channel lattice x ratios, all byte values, all sequences of in-place operations up to the depth bound",
  ["colorrgb.h", "colorrgba.h"], [("RGB colour operations", "impl/colorrgb.h:1"), ("RGBA colour operations", "impl/colorrgba.h:1")], technique=TECH_H)
P("C23", "HSV conversion is invertible and hue interpolation takes the short way",
  "Converting RGB to HSV yields hue in [0,360), saturation in [0,1] and value = largest channel (hue and saturation 0 for greys), and converting back gives the colour again up to rounding; "
  "HSV to RGB follows the hexcone formula for any hue, also negative or beyond one turn. "
  "Interpolating HSV colours moves the hue along the shorter arc, the result lies in [0,360), and the ends are returned exactly.",
  ["inputs"], "all 256^3 byte colours plus near-grey/near-primary corner values; a hue grid over five turns with neighbours of every sector border x saturations x values; all pairs of a hue grid x ratios",
  ["colorhsv.h", "colorrgb.h"], [("RGB to HSV", "impl/colorrgb.h:198"), ("HSV to RGB", "impl/colorhsv.h:107"), ("HSV interpolation", "impl/colorhsv.h:70")])
P("C27", "Conversions between representations and casts keep the value",
  "A rotation (with its translation) passed through any chain of conversions between quaternion, Mat3, Mat34, Mat4 and axis-angle, casts to the other element type and back, double inversion or double transposition "
  "stays the same rotation up to accumulated rounding. Casting converts every component, and what a cast matrix reports or computes afterwards (inverse, comparison) is that of its components. "
  "data() exposes the components contiguously in the order x, y, z, (t/w) for reading and writing, and the Zero/One constants are what their names say.",
  ["inputs", "histories"], "all conversion chains up to the depth bound from a catalogue of rotations (axes x 15-degree grid, near-180 and small angles); the whole matrix catalogue for casts and data()",
  ["mat2.h", "mat3.h", "mat34.h", "mat4.h", "quat.h"], [("Quat::set(Mat3), set(Mat4)", "impl/quat.h:60"), ("Mat3::set(Quat), cast", "impl/mat3.h:961"), ("Mat4::cast, data", "impl/mat4.h:1129"), ("Mat34::cast, data", "impl/mat34.h:535")], technique=TECH_H)
P("C28", "Test matchers accept exactly the values within the margin in every component",
  "For every type the matcher library supports, WithinAbs(target, margin) accepts a value exactly when each of its components is within the margin of the target's (both ends included): "
  "no component is left out, mixed up or averaged away, NaN never matches, equal infinities do, the default margin is 1e-3 and a negative or NaN margin is refused. "
  "The matcher keeps its own copy of the target, and the printed form of a value lists every component in order to at least 4 decimal places of its mantissa.",
  ["inputs"], "every supported type x targets x margins x every combination (or pair) of component deviations around the margin, NaN and infinities; every printed form parsed back",
  ["../../testlib/include/impl/catch_matchers.h", "../../testlib/include/impl/catch_matchers_vec3.h", "../../testlib/include/impl/catch_matchers_mat4.h", "../../testlib/include/impl/catch_matchers_frustum.h"],
  [("marginCheck", "../../testlib/include/impl/catch_matchers.h:6"), ("matcher and printer of one type", "../../testlib/include/impl/catch_matchers_vec3.h:1")],
  why="The tests use the matchers on values that are meant to match; a matcher that ignores a component or accepts NaN passes them all and hides every later defect.",
  observe=["Matches::WithinAbs, Catch::StringMaker of libs/testlib"])
P("C29", "Calls on distinct objects never interfere, whatever came before or runs beside",
  "Apart from the random helpers, every operation depends on nothing but its arguments. A call gives the same result whatever was called before it, and two threads that work on distinct objects, or share operands they only read, "
  "each get the result of running alone under every interleaving, the first call of a process included; no call crashes or hangs because of the other.",
  ["histories", "schedules", "inputs"], "all 275 operation bundles (the whole public API but the random helpers) x 3 argument sets: every ordered pair of calls, every switch point of every call",
  ["linearequations.h", "mat3.h", "quat.h", "spline3.h", "interpolation.h"],
  [("solver scratch memory", "impl/linearequations.h:17"), ("Mat3 constructions and inverse", "impl/mat3.h:150"), ("spherical interpolation", "impl/quat.h:187"), ("easing", "interpolation.h:44")],
  why="A hidden static buffer or cache gives right results in every sequential test that does not happen to alternate its arguments, and wrong ones only under particular interleavings of two threads.",
  technique="stateless model checking of the real code under a controlled scheduler: single-stepped calls, another thread run at every instruction (one preemption, both roles), fresh and warmed-up processes; partial-order reduction by observing writes to shared memory; every two-call history",
  note="Switch points are all machine instructions of the library as compiled here (-O2 and -O0, x86-64, sequentially consistent at instruction granularity; weaker memory orders are not explored). Calls observed to write no shared memory commute with all others, so one schedule represents all of theirs; the others are explored to one preemption from three starting histories.",
  observe=["public API of all headers"])
P("C30", "A result may be stored over the operands it is computed from",
  "Every call that changes an object, or fills a result object passed by reference, gives the outcome it has with separate operands of equal value when its operands are that object itself or members of it: a box moved by its own corner, "
  "a curve segment set from its own points in reverse order, a matrix set from or scaled by its own columns, a vector interpolated into either end, a hit point written over the start of the ray or an end of the line. (The static multiply functions demand a destination of their own; scalar outputs are separate variables.)",
  ["inputs", "histories"], "every call with reference operands x every choice of each operand among the target, its members and separate values x object alphabets; histories of such calls",
  ["aabb2.h", "aabb3.h", "caabb2.h", "caabb3.h", "mat2.h", "mat3.h", "mat34.h", "mat4.h", "plane.h", "spline3.h", "quat.h", "vec3.h", "colorhsv.h", "frustum.h"],
  [("moving a box", "impl/aabb3.h:217"), ("setting a segment", "impl/spline3.h:24"), ("setting a matrix from columns", "impl/mat3.h:96"), ("plane through a point", "impl/plane.h:40"), ("spherical interpolation in place", "impl/quat.h:187")],
  why="Reading an operand after part of the target has been written is invisible until the two share memory, and whether they do is the caller's choice, in hundreds of combinations no test lists.",
  observe=["public mutating members of every class"])
