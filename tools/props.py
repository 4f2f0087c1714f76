#!/usr/bin/env python3-vt
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, sys, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'include/vecmath/'
def prop(id, title, statement, over, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=['inputs'], text=over), why_tests_cant=why,
                      anchors=dict(files=[H + f for f in files], mechanism=[dict(name=n, where=H + w) for n, w in mech])))
PROPS = []
prop('C01', 'Vector ordering is a total order, consistent across all relational operators',
     'Comparing two vectors is lexicographic from the first component, with NaN components treated as equal to each other and greater than every number. The operators ==, !=, <, <=, >, >= on vectors all agree with that one ordering, so the ordering is total, antisymmetric and transitive. Comparing two sequences of vectors compares elementwise, a proper prefix being smaller.',
     'every pair and triple of float or double vectors of 2, 3 or 4 components, including infinities, signed zeros and NaN; sequences up to the stated bounded lengths',
     'Tests compare a dozen literal pairs; none of them quantifies over NaN, mixed signs or triples.',
     ['vec.h'], [('compare (vector)', 'vec.h'), ('relational operators', 'vec.h'), ('compare (range)', 'vec.h')])
prop('C02', 'Comparisons with a tolerance accept exactly the values within the tolerance',
     'For a tolerance e >= 0, the approximate equality of two scalars, vectors, matrices, boxes, planes, rays, lines or segments holds exactly when every pair of corresponding components differs by at most e, and the zero test holds exactly when every component is at most e in magnitude. The three-way comparison with tolerance decides by the first component pair that differs by more than e. The approximate-value wrapper compares a value against the closed interval of radius e around the wrapped value (0.001 by default), symmetrically on both sides, with != the negation of == and with each ordering operator shifted by e on the accepting side.',
     'all finite operands and all tolerances e >= 0, float and double, dimensions 2 to 4 (2 and 3 for geometric types)',
     'Tests use a few literals far away from the boundary of the tolerance.',
     ['scalar.h', 'vec.h', 'mat.h', 'approx.h', 'bbox.h', 'plane.h', 'ray.h', 'line.h', 'segment.h'],
     [('is_equal / is_zero', 'scalar.h'), ('compare with epsilon', 'vec.h'), ('approx<T>, approx<vec>, approx<mat>, approx<line>', 'approx.h')])
prop('C03', 'Vector arithmetic satisfies the laws of a Euclidean vector space',
     'Addition, subtraction, negation, scaling and componentwise product and quotient act componentwise; dot and cross product, length, distance, normalisation and homogeneous conversion equal their mathematical definitions. Normalising a non-zero vector yields a unit vector of the same direction, the cross product is orthogonal to both operands, and the angle of a vector about an axis lies in [0, 2*pi) measured counter-clockwise around the given up vector. The colinearity, parallelism, unit-length and betweenness predicates decide exactly their geometric definitions within the given tolerance.',
     'all finite vectors of 2, 3, 4 components in float and double, over exact real arithmetic',
     'Tests evaluate single literals; an error in one component, one dimension or one sign combination is not sampled.',
     ['vec.h'], [('operators, dot, cross, length, normalize, measure_angle, is_colinear, is_parallel, is_between', 'vec.h')])
prop('C04', 'Minimum, maximum, clamp, sign and step functions return what they name',
     'For all numbers without NaN, min, max and their magnitude variants return one of their arguments that bounds all others, clamp returns the value confined to the interval, contains tells interval membership, and sign, abs, step, smoothstep, mix and the difference functions equal their definitions. The NaN-tolerant minimum and maximum ignore NaN arguments unless all are NaN. The vector versions apply the scalar function to each component.',
     'all float and double arguments, including infinities and NaN where named',
     'Tests try a few literal argument lists; ties, argument order and NaN positions are not quantified.',
     ['scalar.h', 'vec.h', 'util.h'], [('min, max, abs_min, safe_min, clamp, sign, step, mix', 'scalar.h'), ('componentwise versions', 'vec.h')])
prop('C05', 'Rounding functions return the correct integral or grid value',
     'For every finite number trunc, floor, ceil and round (half away from zero) return the exact integral value that defines them, and frac the exact fractional remainder. Rounding, rounding up and rounding down to a multiple return the nearest multiple in the stated direction. The test for integral values and the correction to the nearest integer within a tolerance accept exactly the values within that tolerance, and vector versions act on each component.',
     'all finite float and double values, all positive grid sizes; rounding to grids over exact real arithmetic',
     'Tests sample small literals; boundary values of the mantissa and of the integer conversion are outside of them.',
     ['scalar.h', 'vec.h'], [('floor, ceil, trunc, round, mod, snap, round_up, round_down, is_integral, correct', 'scalar.h')])
prop('C06', 'Angle conversions and normalisation keep the angle and its range',
     'Converting between degrees and radians is multiplication by pi/180 and its inverse. Normalising an angle always terminates and returns the representative of the same direction within [0, full turn). Successive and predecessor index helpers and modular arithmetic wrap around within their range.',
     'all finite float and double angles, all index/count/offset triples without overflow',
     'Tests normalise a few angles within a few turns; huge and tiny magnitudes are not reached.',
     ['scalar.h', 'constants.h'], [('to_radians, to_degrees, normalize_radians, normalize_degrees, mod, succ, pred', 'scalar.h')])
prop('C07', 'Component selection, construction and axis helpers pick the right components',
     'Selecting the k-th largest component, by value or magnitude, returns a component with fewer than k+1 larger and at least k+1 equal-or-larger components, and the axis variants return the signed unit axis of that component. Constructors, conversions, slices, swizzles and named constants place every component at its defined position, padding with zero. Swizzling and unswizzling by the same axis are inverse.',
     'all NaN-free vectors of 2, 3, 4 components and all k; all conversions between dimensions',
     'Tests enumerate few orderings; ties, negative values and all permutations are not covered.',
     ['vec.h'], [('find_max_component, find_abs_max_component, get_abs_max_component_axis, swizzle, slice, constructors', 'vec.h')])
prop('C08', 'Matrix arithmetic equals the definitions of linear algebra',
     'Matrix construction is row by row, and sum, difference, negation, scaling, product, transposition, slicing and minor extraction equal their mathematical definitions for every entry. Multiplying a matrix with a vector on either side, and with a vector of one fewer component in homogeneous coordinates including the perspective division, equals the definition. The named constant matrices are the rotations, mirrors and projections they are named after.',
     'all finite matrices of the stated shapes in float and double, over exact real arithmetic',
     'Tests multiply a few literal matrices.',
     ['mat.h'], [('constructors, operators, transpose, slice, extract_minor', 'mat.h')])
prop('C09', 'Determinant, adjugate, linear solve and inverse are correct',
     'The determinant and adjugate equal their cofactor definitions. When solving a linear system or inverting a matrix reports success, the returned solution satisfies the system exactly and the product with the inverse is the identity; failure is reported only when elimination meets a column without a pivot of at least 1e-15.',
     'all finite square matrices of size 2, 3, 4 in float and double, over exact real arithmetic',
     'Tests solve and invert a few literal matrices; most pivot orders are never exercised.',
     ['mat.h'], [('compute_determinant, compute_adjugate, lup_find_decomposition, lup_solve, invert', 'mat.h')])
prop('C10', 'Affine and projective transformation matrices map points as documented',
     'Translation, scaling, shearing, mirroring and stripping a translation act on every point as defined; the coordinate system matrix maps the given frame to the standard frame; the box matrices map the old box to the new one, keep the anchor or the opposite side fixed; and the point matrix maps the given input points to the given output points. The plane projection matrix maps points of the plane to its own two-dimensional coordinates along the given direction. The view, orthographic and perspective matrices equal their definitions.',
     'all finite points and parameters for which the matrix is defined, over exact real arithmetic',
     'Tests compare one or two literal matrices per builder.',
     ['mat_ext.h'], [('translation_matrix, scaling_matrix, shear_matrix, scale_bbox_matrix, shear_bbox_matrix, points_transformation_matrix, coordinate_system_matrix', 'mat_ext.h')])
prop('C11', 'Rotation matrices are proper rotations about the requested axis and angle',
     'The rotation matrix for a unit axis and an angle is orthogonal with determinant one, leaves the axis fixed and turns counter-clockwise by the angle; the matrix for roll, pitch and yaw is the product of the three axis rotations, and extracting Euler angles from it gives angles that rebuild the same rotation. The matrix of a unit quaternion rotates every vector exactly as the quaternion does, and the matrix between two unit vectors maps the first to the second.',
     'all unit axes, all angles, all unit quaternions, over exact real arithmetic with sine and cosine characterised by their identities',
     'Tests rotate a few literal vectors by multiples of 15 degrees.',
     ['mat_ext.h', 'quat.h'], [('rotation_matrix overloads, rotation_matrix_to_euler_angles', 'mat_ext.h')])
prop('C12', 'Quaternion operations follow quaternion algebra',
     'The quaternion product is the Hamilton product, the conjugate negates the imaginary part, and multiplying with a scalar scales all four components, and rotating a vector by a unit quaternion preserves lengths and composes like the product. A quaternion built from a unit axis and angle has the half-angle components and returns that axis and angle; one built from two unit vectors rotates the first onto the second along the shortest arc (vectors within 0.001 of parallel count as parallel). Two quaternions are equal exactly when their real parts agree up to sign and their imaginary parts agree.',
     'all finite quaternions and unit vectors, over exact real arithmetic with trigonometric identities',
     'Tests use a handful of literal rotations.',
     ['quat.h'], [('quat constructors, angle, axis, operator*, operator==', 'quat.h')])
prop('C13', 'Planes classify, project, evaluate and transform points consistently',
     'The signed distance of a point is its projection onto the normal minus the plane distance, the status is above, below or inside by comparison with the tolerance, and flipping swaps above and below. Projecting a point, along the normal or along a direction, yields a point on the plane that differs by a multiple of that direction, and evaluating a coordinate yields the point on the plane. A plane built from three non-colinear points contains all three with the normal on the documented side, and is rejected when the points are colinear. Transforming by a rotation, reflection, uniform scaling and translation moves the plane with its points.',
     'all points and all planes with unit normals of dimension 2 and 3, over exact real arithmetic',
     'Tests use axis-aligned planes and a few points.',
     ['plane.h'], [('plane members, plane_normal, from_points, transform', 'plane.h')])
prop('C14', 'Box containment and intersection predicates decide exactly the point sets',
     'A box contains a point or box exactly when the point or all corners lie within its closed bounds; it encloses a box exactly when that box lies in its interior; two boxes intersect exactly when they share a point. The relative position names for each axis whether the point is below, within or above, and constraining a point returns the nearest point of the box.',
     'all valid float and double boxes of dimension 2 and 3 and all NaN-free points',
     'Tests use few literal boxes.',
     ['bbox.h'], [('contains, encloses, intersects, relative_position, constrain', 'bbox.h')])
prop('C15', 'Box construction yields the smallest valid box of its inputs',
     'Merging, building from points, repairing and intersecting boxes return the smallest box containing (or the exact common part of) the inputs; transforming a box by an affine matrix returns the bounds of its eight transformed corners. Center, size, volume, corners, expansion and translation equal their definitions. Enumerating faces, edges and vertices visits each of the six faces with outward normal, twelve edges and eight corners exactly once.',
     'all valid boxes and points of dimension 2 and 3; sequences up to the stated lengths',
     'Tests use few literal boxes.',
     ['bbox.h'], [('builder, merge, merge_all, intersect, repair, transform, for_each_face, for_each_edge, for_each_vertex', 'bbox.h')])
prop('C16', 'Line and ray intersections with planes and triangles lie on both objects',
     'When an intersection of a ray or line with a plane is reported, the point at the returned distance lies on the plane, and for a ray the distance is not negative beyond the tolerance; no intersection is reported exactly for parallel objects or planes behind the ray. A ray hits a triangle exactly when the hit point is ahead and inside the closed triangle. The line of two intersecting planes lies in both, with direction orthogonal to both normals.',
     'all rays, lines, planes and triangles, over exact real arithmetic',
     'Tests use a few axis-aligned configurations.',
     ['intersection.h'], [('intersect_ray_plane, intersect_line_plane, intersect_ray_triangle, intersect_plane_plane', 'intersection.h')])
prop('C17', 'A ray hits a box exactly when some point ahead of its origin is in the box',
     'The returned distance is not negative and the point at that distance lies on the boundary of the box: where the ray enters the box for origins outside of it, and where it leaves the box for origins inside. No hit is reported exactly when no point ahead of the origin lies in the box.',
     'all rays and all valid boxes of dimension 2 and 3, over exact real arithmetic',
     'Tests use a few axis-parallel rays.',
     ['intersection.h'], [('intersect_ray_bbox', 'intersection.h')])
prop('C18', 'Ray hits on spheres lie on the surface and are the nearest',
     'When a ray with unit direction hits a sphere, the point at the returned distance lies on the sphere, no closer positive hit exists, and no hit is reported exactly when the sphere is missed or entirely behind.',
     'all rays with unit direction, all centers and radii, over exact real arithmetic',
     'Tests use a few axis-parallel rays.',
     ['intersection.h'], [('intersect_ray_sphere', 'intersection.h')])
prop('C19', 'Distance functions return the minimum distance and the points attaining it',
     'The distance from a ray, segment or line to a point, segment, ray or line is the minimum over all pairs of points on the two objects, and the returned positions identify a pair attaining it. The objects are reported as parallel exactly when their directions are parallel within the tolerance. The unsquared variants are the square roots of the squared ones.',
     'all points, rays and lines with unit direction and non-degenerate segments whose squared sine of the enclosed angle (for segments: scaled by their squared lengths) is zero or above the tolerance of 0.001, and whose closest positions are not clamped within that tolerance, over exact real arithmetic',
     'Tests use a few literal configurations and only some clamping cases.',
     ['distance.h'], [('squared_distance overloads, distance overloads', 'distance.h')])
prop('C20', 'Lines, segments and polygons are equal exactly when they are the same object',
     'Canonicalising a line yields the same line with an anchor orthogonal to its direction and a sign-fixed direction, so two lines compare equal exactly when they are the same point set. Segments are equal independent of the order of their end points, and polygons with distinct vertices are equal independent of the starting vertex; the unoriented comparison of polygons also ignores the orientation. Transforming, translating, projecting onto and measuring along lines, rays and segments equal their definitions.',
     'all lines and rays with unit direction, segments, and polygons with up to the stated number of vertices',
     'Tests use few literals.',
     ['line.h', 'segment.h', 'polygon.h', 'abstract_line.h', 'ray.h'], [('make_canonical', 'line.h'), ('segment constructor', 'segment.h'), ('polygon rotation to the smallest vertex', 'polygon.h'), ('project_point', 'abstract_line.h')])
prop('C21', 'Polynomial solvers return exactly the real roots',
     'Every value returned by the quadratic, cubic and quartic solver is a real root of the polynomial, and every real root is returned. The reported count equals the number of returned values; a double or triple root of a quadratic or cubic polynomial is returned once, and the remaining slots of the quadratic and cubic solver are NaN.',
     'all coefficients with non-zero leading coefficient whose discriminant (and, for a vanishing discriminant of a cubic, whose constant term after substitution) is zero or exceeds the tolerance in magnitude; the quartic solver with tolerance zero; over exact real arithmetic with characterised cube root, cosine and arc cosine',
     'Tests solve few literal polynomials; most sign combinations of the resolvent are never reached.',
     ['scalar.h'], [('solve_quadratic, solve_cubic, solve_quartic', 'scalar.h')])
prop('C22', 'Bezier surfaces interpolate their corners and stay in the convex hull',
     'Evaluating a biquadratic surface equals the tensor product of the quadratic Bernstein polynomials, so corners are interpolated, affine maps commute with evaluation and every point is a convex combination of the control points for parameters in [0,1].',
     'all control points and parameters, over exact real arithmetic',
     'Tests evaluate few literal control grids.',
     ['bezier_surface.h'], [('evaluate_quadratic_bezier_surface', 'bezier_surface.h')])
prop('C23', 'The convex hull of coplanar points contains all points and only input vertices',
     'For coplanar points that are not colinear the hull lists pairwise distinct input points in counter-clockwise order, as seen from the positive side of the major axis of the plane normal, such that every input point lies on the inner side of every edge or on it, whatever the order of the input and however many points coincide or are colinear. Colinear or too few points give an empty result.',
     'all sets of three points in any plane with a unique major axis, all sets of four points in a plane orthogonal to an axis, in the stated list orders, where a triple of points is either colinear or spans more than the tolerance of is_colinear (squared doubled area 1e-5); over exact real arithmetic',
     'Tests use a few literal point sets.',
     ['convex_hull.h'], [('convex_hull', 'convex_hull.h')])
prop('C24', 'The polygon containment test decides whether a point lies in a convex polygon',
     'For a point in the plane of a convex polygon with positive area, the test answers true for every interior point and false for every point outside of it that is farther than 0.001 from all edges (seen along the major axis of the normal), independent of orientation and starting vertex. A ray hits the polygon exactly when it hits the plane of the polygon in a contained point.',
     'all convex triangles and quadrilaterals in any plane and all points of their plane outside of the tolerance, over exact real arithmetic',
     'Tests use a unit square and few points.',
     ['intersection.h'], [('polygon_contains_point, handle_polygon_edge_intersection, intersect_ray_polygon', 'intersection.h')])
prop('C25', 'Compile-time variants compute the same results as their run-time counterparts',
     'Whenever the compile-time square root returns, it returns the square root of its non-negative argument, and the compile-time length, distance, normalisation and transformation functions return the same results as the run-time functions.',
     'all arguments for which the run-time function is defined, over exact real arithmetic',
     'Tests evaluate few constants at compile time.',
     ['constexpr_util.h', 'scalar.h', 'vec.h', 'ray.h', 'line.h', 'plane.h', 'segment.h'], [('sqrt_c, length_c, normalize_c, distance_c, transform_c', 'constexpr_util.h')])
prop('C26', 'Operations lifted to lists of vectors act on each element in order',
     'Adding an offset to, or multiplying by a factor or matrix, a list or array of vectors returns a list of the same length whose i-th element is the result of the operation on the i-th input element, in both operand orders.',
     'all element values for list lengths up to the stated bound',
     'Tests use single literal lists.',
     ['vec_ext.h', 'mat_ext.h'], [('operators on std::vector and std::array', 'vec_ext.h'), ('matrix operators on lists', 'mat_ext.h')])
prop('C27', 'Parsing reads what printing writes and rejects text with too few numbers',
     'Parsing text with as many numbers as components, separated by white space and optionally in parentheses, returns those numbers; text with too few numbers yields no value. Parsing a list returns all vectors in order. Printing writes the components in order separated by single spaces.',
     'all strings',
     'Tests parse few literal strings.',
     ['vec_io.h', 'mat_io.h'], [('parse, parse_all, operator<<', 'vec_io.h')])
NA = {'C27': 'parse goes through std::atof and printing through std::ostream, both only available as compiled library code: no contract within reach specifies the decimal conversion of strings, and assuming one would leave nothing of the round trip to prove'}
NOTE = ('Deductive: every obligation is generated from the LLVM IR clang emits for the headers in /repo at each run and discharged for all inputs (loops over the fixed dimensions are fully unrolled, so no bound is introduced). '
        'R-mode obligations assume exact real arithmetic; F-mode obligations are bit-precise IEEE. Trusted: clang front end, own IR executor (conformance-tested against native code on each run), normaliser, z3/cvc5.')
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS: f.write(json.dumps(p) + '\n')
    have = set()
    for c in glob.glob(os.path.join(V, 'contracts', 'c*.py')): 
        have.add('C' + os.path.basename(c)[1:3])
    checks = []; na = []
    for p in PROPS:
        i = p['id']
        if i in have and i not in NA:
            checks.append(dict(property=i, quick_cmd='bin/check ' + i, thorough_cmd='VERIF_TIER=thorough bin/check ' + i,
                               technique='contract-based deductive verification of the LLVM IR of the real headers (own VC generator, z3/cvc5)', level='proof', level_note=NOTE + LN.get(i, '')))
        else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
    json.dump(dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
LN = {'C21': ' solve_quartic is verified modularly against the contracts of solve_quadratic and solve_cubic for tolerance 0; that every quartic polynomial has the parametrised form is an obligation of its own (quartic_form).', 'C01': ' Sequence comparison is a bounded stand-in (list lengths 0..2).', 'C03': ' average of a range is a bounded stand-in (1..4 points).',
      'C15': ' Boxes of point or box sequences are a bounded stand-in (0..3 elements).', 'C20': ' Polygons are a bounded stand-in (1..4 vertices); segment vertex lists 2 segments.',
      'C23': ' Bounded: hulls of three points in every list order in any plane with a unique major axis, and of four points in a plane parallel to the xy plane (quick: 4 of the 24 list orders, thorough: all), double for four points; std::sort is executed from its libstdc++ source. Proof within this bound, nothing beyond it.',
      'C24': ' handle_polygon_edge_intersection is proved without bound; the loop over the vertices is a bounded stand-in (3 and 4 vertices).',
      'C25': ' sqrt_c: partial correctness (termination of the Newton iteration depends on rounding and is assumed).', 'C26': ' The loops over the list elements are a bounded stand-in (0..3 elements).'}
if __name__ == '__main__': main()
