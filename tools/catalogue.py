NOTES = ('One static analyser (nvstat/) for the whole package: the sources are parsed with ast, abstractly interpreted on symbolic inputs '
         'into an array-valued term graph with effect and exception records, and each property is a rule over that graph. Nothing of the '
         'package is imported or executed and no solver is used. Constructs the analyser does not model are printed as UNDECIDED and '
         'counted in the evidence; they never raise an alarm.')
BASE = ('Deduction by a purpose-built abstract interpreter and term rewriting; trusts its model of the numpy/scipy/geographiclib functions '
        'the package calls (nvstat/npmodel.py) and real (not rounded) arithmetic. ')

prop('P01', 'Results do not depend on the choice of axes for the Earth frame',
     'Expressing every vector given in the Earth-centred frame in other axes, together with the axes-convention matrix, expresses every '
     'returned vector in those axes and leaves every returned latitude, longitude, angle, distance, depth and verdict unchanged. '
     'This holds for the functions that take an axes-convention matrix and for every operation on positions of a frame with either axes convention.',
     'all positions, all proper changes of axes, all ellipsoids, every public operation on positions',
     'Tests use the two built-in conventions at a few positions, mostly the default one; a matrix dropped on one call path is invisible there.',
     ALL, mech(('R_Ee argument of every conversion', CORE), ('axes of FrameE handed on by the object methods', OBJ), ('n_E2R_EN, n_E_and_wa2R_EL', ROT)),
     'covariance type inference on the array term graph',
     BASE + 'Conflicts are confirmed on normal forms under elementary changes of axes before they are reported.')

prop('P02', 'Results scale with the unit of length',
     'Multiplying every length given to an operation (positions, depths, distances, radii, semi-major axes, length tolerances) by one positive '
     'factor multiplies every length in the result by that factor and leaves every angle, n-vector and verdict unchanged.',
     'all inputs and all positive factors, every public operation returning or taking lengths',
     'Tests use the Earth in metres only, so a stray metre constant or a missing factor a cannot show.',
     ALL, mech(('conversion formulas with a, f, depth', CORE), ('radius and tolerance handling', CORE), ('object wrappers', OBJ)),
     'dimension inference over result terms',
     BASE + 'Documented absolute default tolerances and the defaults for radius count as lengths.')

prop('P03', 'Degrees and radians are never mixed',
     'Every angle argument is interpreted in the unit its documentation (or the degrees flag) states and every returned angle has the documented unit. '
     'The degree variant of an operation gives exactly the radian variant with converted angles.',
     'all angles, positions and flag settings, every operation that takes or returns angles',
     'Tests exercise one unit for most operations and flags one at a time.',
     ALL, mech(('deg, rad', UTIL), ('degrees flags of GeoPoint, FrameB, displace, distance_and_azimuth, direct, inverse', OBJ)),
     'unit inference plus term equality of degree and radian variants',
     BASE + 'geographiclib is taken to use degrees.')

prop('P04', 'Each position of a vectorised call is computed on its own',
     'Entry k of a result computed for many positions equals the result of the same call made with the k-th positions alone. '
     'Averages and track interpolation, which combine positions by definition, are the only exceptions.',
     'all numbers of positions and all positions (including mixtures of ordinary and degenerate ones), every public operation that accepts many positions',
     'Tests vectorise a few functions with two or three benign columns and compare to stored numbers.',
     ALL, mech(('column-wise norms, dots, crosses and masked assignments', CORE), ('R2xyz/R2zyx masks', ROT), ('unit, mdot', UTIL)),
     'dependence analysis and term equality between layouts', BASE)

prop('P05', 'One position combines with many, and shapes follow the documentation',
     'Wherever two positions, or a position and a scalar parameter, are combined, a single one is used for each of the many others. '
     'No documented combination of single and many is rejected and the result has one entry per position; results of scalar points are plain scalars.',
     'all combinations of single/many for the arguments of every public operation, all numbers of positions',
     'Tests cover two or three combinations; a shape that happens to fit for n=1 or n=3 hides the rest.',
     ALL, mech(('broadcasting in binary operations', CORE), ('scalar flag of points', OBJ), ('np.broadcast in distance_and_azimuth/inverse/direct', OBJ)),
     'symbolic shape inference', BASE)

prop('P06', 'Arguments are never modified',
     'No public operation changes an array, list, dictionary or object passed to it, nor the attributes of the objects it is called on.',
     'all inputs, layouts and options of every public operation',
     'Tests look at results and never compare the arguments before and after.',
     ALL, mech(('in-place masked assignments', UTIL), ('array_to_list_dict', UTIL), ('constructors sharing arrays', OBJ)),
     'effect analysis with alias tracking', BASE + 'np.atleast_nd, reshape, transpose, asarray are treated as views.')

prop('P07', 'Calls do not influence each other',
     'No public operation stores anything in the package that changes the result of a later call, and no returned array or object shares '
     'storage with package-level tables or defaults. Modifying a returned value therefore never changes what a later call returns.',
     'all sequences of calls and all modifications of returned values',
     'Tests run each call once from a fresh state.',
     ALL, mech(('ellipsoid table', UTIL), ('E rotation table', ROT), ('default arguments and class attributes', OBJ)),
     'effect and escape analysis of package-level state', BASE, over=('histories',))

prop('P18', 'Only the direction of an n-vector matters',
     'Where an n-vector is used as a direction (latitude/longitude, azimuth, rotation matrices, ECEF conversion, great circle distance, normal, '
     'intersection and closest point), multiplying it by a positive factor leaves the result unchanged.',
     'all n-vectors and all positive factors',
     'Tests pass unit vectors, with a single non-unit example.',
     [CORE, ROT, UTIL], mech(('unit() normalisation on entry', UTIL), ('callers', CORE)),
     'scale inference over result terms', BASE)

prop('P12', 'Every n-vector the package computes has length one',
     'Given n-vectors of length one (and proper rotation matrices), every n-vector returned by a conversion, displacement, interpolation, intersection, '
     'closest-point, mean or track-interpolation operation has length one, for functions and objects alike. Only the arithmetic operators of '
     'Nvector, which add and scale components by definition, are excepted.',
     'all positions, angles, distances, depths, ellipsoids and interpolation parameters',
     'Tests compare a few n-vectors with stored numbers and never look at lengths; an n-vector that is a little short passes every tolerance.',
     ALL, mech(('unit() after every combination of n-vectors', UTIL), ('lat_lon2n_E, direct problem, interpolation', CORE), ('rotation to n-vector', ROT),
               ('Nvector.mean, interpolate, GeoPath.interpolate', OBJ)),
     'algebraic normal form of result terms', BASE)

LAW = ('algebraic normal forms of equations between interpreted results',
       BASE + 'Each law is read, not executed: both sides of the equation are terms over symbolic inputs and are reduced to a normal form '
       '(ring laws, trigonometric identities, unit n-vectors), for one and for many positions and on every branch.')

prop('P11', 'Exchanging the roles of positions changes results the way geometry says',
     'Great circle, euclidean and track distances (and the great circle distance of distance_and_azimuth) are symmetric and zero between equal '
     'positions. delta_E and the vector between two positions change sign when the positions are exchanged, and deltas add up along a polygon. '
     'Reversing a path changes the sign of cross track distances and of the great circle normal, and leaves on-great-circle and on-path verdicts, closest '
     'points and intersections with it unchanged; interpolating at t equals interpolating the reversed path at 1-t. The great circle azimuths of the way '
     'back are opposite to those of the way there. A negative distance equals the opposite azimuth; whole turns of azimuth, distance or longitude change nothing.',
     'all positions, depths, ellipsoids, radii, tolerances and interpolation parameters',
     'Tests compute each quantity in one direction only.',
     ALL, mech(('distances, cross track distance, normals, closest point, interpolation', CORE), ('delta functions, GeoPath and GeoPoint methods, operators', OBJ)),
     *LAW)

prop('P13', 'Rotation matrices are proper rotations with the documented conventions',
     'xyz2R and zyx2R are the products of the elementary rotations in the documented order and sense; n_E2R_EN has north, east and down as its columns; '
     'n_E_and_wa2R_EL and FrameL are that matrix turned by the wander azimuth about down; FrameB is it turned by yaw, pitch and roll. All of them, and '
     'E_rotation, are orthonormal and right-handed; E_rotation returns the two documented axes conventions.',
     'all angles and positions (not at the poles, where north is undefined)',
     'Tests look at a few angles and at single matrix elements.',
     [ROT, OBJ], mech(('xyz2R, zyx2R', ROT), ('n_E2R_EN, n_E_and_wa2R_EL, E_rotation', ROT), ('FrameN, FrameL, FrameB', OBJ)),
     *LAW)

prop('P23', 'Operations on the sphere compute what spherical geometry defines',
     'Great circle distance is radius times the angle between the n-vectors, euclidean distance radius times the chord; the cross track distance is '
     'positive to the right of the path (arc or euclidean). Great circle normal, mean position, interpolation (along the chord, from A at 0 to B at 1), '
     'intersection (on both great circles, on the side of the start of the first path) and closest point (on the great circle, perpendicular, on the side of the position) are unit vectors in the defined direction. The direct '
     'problem goes the given angle towards the given azimuth from north over east. Points are on a great circle (path) if the cross track distance is within '
     'the tolerance (and neither end is farther away than the other end). The object methods use the average distance from the centre as radius, average or '
     'interpolated depths, and azimuths that point along the way from A to B at both ends.',
     'all positions, radii, tolerances, azimuths and distances',
     'Tests compare a few well-behaved configurations with stored numbers.',
     [CORE, OBJ], mech(('distance, cross track, intersection, closest point, direct problem', CORE), ('GeoPath and GeoPoint great circle methods, Nvector.mean', OBJ)),
     *LAW)

prop('P24', 'Conversions and their inverses undo each other',
     'Latitude/longitude and n-vectors, n-vectors and the matrices R_EN and R_EL, Euler angles and matrices (xyz and zyx), degrees and radians, and '
     'the conversions between GeoPoint and Nvector, undo each other. Position vectors changed to FrameN, FrameL or FrameB and back are unchanged. ECEF '
     'vector and n-vector with depth undo each other on a sphere and, on the equator and on the axis, on an ellipsoid. The great circle distance and '
     'azimuth from a position to a displaced one are the distance and azimuth of the displacement. unit leaves unit vectors alone, powers undo nthroot.',
     'all positions, angles in their documented ranges, depths, radii and axes conventions',
     'Tests do round trips at a handful of points with the default axes.',
     ALL, mech(('n_E2lat_lon/lat_lon2n_E, n_EB_E2p_EB_E/p_EB_E2n_EB_E', CORE), ('R2xyz, R2zyx, R_EL2n_E, R_EN2n_E', ROT), ('deg, rad, unit, nthroot', UTIL),
               ('to_geo_point, to_nvector, change_frame, to_ecef_vector', OBJ)),
     *LAW)

prop('P25', 'Positions in space follow the geometry of ellipsoid and frames',
     'A position at depth zero lies on the ellipsoid, with the n-vector as its surface normal, and depth is measured against the n-vector. The vector '
     'between two positions is the difference of their ECEF vectors, and adding it to the first gives the second; delta_N and delta_L are that vector '
     'in the axes of the local frame at the first position. Azimuth is its direction from north over east. Changing frames keeps lengths; azimuth, '
     'elevation (positive downwards) and length of a Pvector are its polar coordinates. Object conversions use the ellipsoid and axes of their frame, '
     'and the defaults are WGS84, depth zero and axes e.',
     'all positions, depths, ellipsoids, axes conventions and frame orientations',
     'Tests compare a few positions on WGS84 with stored numbers.',
     [CORE, OBJ], mech(('n_EB_E2p_EB_E, n_EA_E_and_n_EB_E2p_AB_E, n_EA_E_and_p_AB_E2n_EB_E, azimuth', CORE), ('delta functions, Pvector, to_ecef_vector, change_frame', OBJ)),
     *LAW)

prop('P10', 'Equality of objects compares every defining quantity, both ways',
     'Equality of frames, points and vectors is reflexive and symmetric, != is its negation, and objects of different kinds are never equal. Two objects '
     'are equal exactly when each quantity that defines them (coordinates, depth, ellipsoid, axes, orientation, position, frame) agrees to the documented '
     'relative (1e-12) and absolute (1e-14) tolerances, in each component of each position; whole turns of longitude make no difference. '
     'isclose and allclose implement their documented tolerance formula and defaults (relative 1e-9 and 1e-7, absolute 0 and 1e-14).',
     'all pairs of objects of the same or different kinds, all positions and frames',
     'Tests compare a few equal and clearly different pairs, in one direction.',
     [OBJ, UTIL], mech(('__eq__, __ne__, _is_equal_to of every class', OBJ), ('isclose, allclose, array_to_list_dict', UTIL)),
     *LAW)

prop('P08', 'Positions given in different frames are not combined',
     'Vectors between positions (delta functions, delta_to), distance_and_azimuth, sums and differences of Nvectors and of ECEFvectors, changes to a local '
     'frame, path interpolation, ellipsoidal and exact track distances and the ellipsoidal on-path test raise ValueError exactly when the frames of the '
     'positions differ in semi-major axis, flattening or axes (beyond rounding: relative 1e-12). Frames that agree are accepted, one object or two.',
     'all pairs of frames and all positions, for every operation on two positions named',
     'Tests try one operation with one pair of clearly different frames.',
     [OBJ], mech(('_check_frames and its callers', OBJ), ('FrameE._is_equal_to', OBJ)),
     *LAW)

prop('P19', 'Methods of objects agree with the functions and the solver they stand for',
     'FrameE.inverse and FrameE.direct are the geodesic problems on the ellipsoid with the semi-major axis reduced by the depth and the same flattening, in '
     'radians or degrees, with longitudes unrolled on request. displace, distance_and_azimuth and ellipsoidal or exact track distances are those '
     'problems at the depth, or average depth, of the points. GeoPath.on_great_circle, on_path (great circle and ellipsoid) and closest_point_on_path apply their '
     'documented criteria with their tolerances. Nvector.interpolate is interp_nvectors with the same options. Positions and vectors made by a frame, the ends '
     'of a path in each representation, latlon and the degree attributes carry exactly the given values.',
     'all positions, depths, distances, azimuths, ellipsoids, tolerances and options',
     'Tests compare a few numbers per method, mostly at depth zero with default options and tolerances.',
     [OBJ, CORE], mech(('FrameE.inverse, direct and GeoPoint.displace, distance_and_azimuth', OBJ), ('GeoPath verdicts and closest points', OBJ), ('Nvector.interpolate', OBJ),
                       ('constructors and attributes', OBJ)),
     *LAW)

prop('P20', 'Integer inputs give the same results as floating point inputs',
     'Calling any public operation with integers (scalars or arrays of integer type: angles in degrees, n-vectors along the axes, positions, depths, distances, '
     'radii) gives the same results as calling it with the same numbers of floating type; nothing is truncated to integers on the way and the call is not rejected.',
     'all integer inputs in every layout, every public operation',
     'Tests use floating inputs nearly everywhere; an array that takes its type from an input is invisible until someone passes integers.',
     ALL, mech(('unit, masked stores', UTIL), ('pole handling and stores into computed arrays', CORE), ('matrices assembled from angles', ROT), ('constructors of points', OBJ)),
     'element type propagation', BASE)

prop('P22', 'Degenerate geometry gives the documented result',
     'Zero vectors become the unit vector along x, or NaN when asked for. The great circle through one position or two opposite ones has no normal; cross track '
     'distances from it, its intersection with itself (with a warning) and the middle of opposite positions are NaN, with depths still interpolated. A position is '
     'at distance 0 from itself and half a circumference from its opposite. At the poles latitude is +-90 degrees, positions lie on the semi-minor axis, matrices '
     'of local frames are rotations with east along the y axis and down to the centre, and displacements start with azimuths in that frame. Angles found for '
     'rotations by a right angle about y reproduce the matrix. n-vectors whose length (for many, that of the first) differs by more than 0.1 from one give a warning.',
     'all positions, azimuths, distances, depths, ellipsoids and axes that complete the degenerate configurations named',
     'The configurations have measure zero: random and typical inputs never meet them, and rounding hides them where they do.',
     [CORE, ROT, UTIL, OBJ], mech(('great_circle_normal, intersect, cross_track_distance, interpolate', CORE), ('n_E2R_EN, R2xyz', ROT), ('unit, _check_length_deviation', UTIL)),
     *LAW)

prop('P17', 'Ellipsoid catalogue and defaults of omitted arguments are as documented',
     'Each documented ellipsoid is selected by its number and by each of its names, whatever the case and spaces, with its published semi-major axis and flattening; '
     'unknown names are refused. FrameE takes them from the catalogue unless given a or f (also 0). An argument left out means its documented default: WGS84, z axis '
     'to the north pole, depth 0, Earth radius 6371009 m, radius of a path the mean distance of its ends from the centre, tolerance 1e-8 m, ellipsoid for points and '
     'great circle for paths, radians, no unrolling, zero wander azimuth, yaw, pitch and roll, linear interpolation.',
     'all names and numbers of the catalogue, all inputs of the calls with arguments left out',
     'Tests select three of the ellipsoids and call most operations with one set of arguments only.',
     [UTIL, CORE, ROT, OBJ], mech(('ELLIPSOID, ELLIPSOID_IX, get_ellipsoid', UTIL), ('FrameE, GeoPath', OBJ)),
     *LAW)

prop('P16', 'Any kind of position and every documented method can be used',
     'Where a position is expected, GeoPoint, Nvector and ECEFvector are accepted, and give the result of the position converted to another kind: for vectors between '
     'positions, local frames, ends of paths, cross track distances, verdicts, closest points, intersections, interpolation and distances. Different chains of conversions agree. '
     'Methods greatcircle, euclidean, ellipsoid(al) and exact select the formula they name wherever they are documented.',
     'all positions of all three kinds and all methods, for every operation named',
     'Tests use one kind of position and one method per operation.',
     [OBJ, CORE], mech(('to_nvector, to_geo_point, to_ecef_vector', OBJ), ('method dispatch in GeoPoint and GeoPath', OBJ), ('cross_track_distance', CORE)),
     *LAW)

prop('P21', 'Documented names exist and deprecated names still work',
     'Every function and class of the reference summary is available as nvector.NAME, with the documented methods and attributes. The deprecated names (diff_positions, '
     'select_ellipsoid, mean_horizontal_position, intersection, positionA, positionB) give a DeprecationWarning every time they are used and the same result as their replacements, for '
     'every input; the replacements give none.',
     'all documented names, and all inputs of the deprecated ones',
     'Tests import what they need and do not compare deprecated names with their replacements.',
     ALL, mech(('__all__', 'src/nvector/__init__.py'), ('numpy.deprecate, positionA, positionB', OBJ)),
     *LAW)

prop('P09', 'Results belong to the frame of their positions, at the documented depth',
     'Every position or vector returned is given in the frame of the positions it is made from (or the local frame asked for). Conversions and displacements keep the depth; '
     'interpolation along a path changes it linearly; intersections are at the mean depth of the four ends, closest points on the great circle at that of the path, means at the '
     'mean depth. The origin of FrameN and FrameL is on the surface below the position, that of FrameB the position. Nvector arithmetic acts on components and depth alike.',
     'all positions, frames and parameters of the operations named',
     'Tests use WGS84, the default frame, where a lost frame goes unnoticed, and depth zero.',
     [OBJ], mech(('conversions, change_frame, FrameN, FrameL, FrameB', OBJ), ('GeoPath, Nvector arithmetic', OBJ)),
     *LAW)

prop('P14', 'Results lie in documented ranges and rounding never makes them NaN',
     'Latitudes lie in [-90, 90] degrees, longitudes, azimuths and Euler angles in [-180, 180] (elevation and the middle Euler angle in [-90, 90]), in radians and degrees '
     'alike, unless long_unroll is asked for. Distances and lengths are never negative; great circle distances are at most pi*radius, great circle cross track distances '
     'at most pi/2*radius in size, components of unit vectors at most one. No result is NaN merely because rounding pushed the argument of an inverse sine or cosine, '
     'or of a root, beyond its domain (coinciding or opposite positions, right angles, positions at a pole of a great circle).',
     'all positions, azimuths, distances, radii, ellipsoids and rotation matrices, and all rounding errors of intermediate results',
     'Inputs for which a rounded sum of products exceeds one by a unit in the last place are scattered; the round numbers of tests do not hit them.',
     [CORE, ROT, OBJ], mech(('great_circle_distance, cross_track_distance, azimuth', CORE), ('n_E2lat_lon, R2xyz', ROT), ('GeoPoint, Pvector, FrameE.inverse', OBJ)),
     'interval analysis (abstract interpretation) of the terms of all results; domains of inverse functions',
     BASE)

prop('P15', 'Results depend on the inputs geometry names and on no others',
     'Every parameter of a public function or method has an effect. Positions found from positions depend on both horizontal position and depth where they are points in '
     'space (ECEF vectors, deltas, distances with the mean radius of a path) and not on depth or the ellipsoid where they are directions: latitude, longitude and n-vector '
     'of a position, great circle azimuth frames, intersections, closest and interpolated horizontal positions, great circle distances with a given radius. Depths of '
     'results depend on depths only. Local frames depend on the horizontal position and orientation, not the depth, of their origin; vectors in them on their components.',
     'all values of every other input',
     'A result that ignores an argument, or picks up one it should not see, is right whenever that argument has the usual value (depth 0, default radius, default axes).',
     ALL, mech(('parameters of all functions', CORE), ('parameters of all methods', OBJ), ('rotation functions', ROT)),
     'information flow from inputs to results; strongly live parameters', BASE)

prop('P26', 'Sampled tracks are smoothed and interpolated as asked',
     'interp_nvectors and Nvector.interpolate interpolate the samples of each n-vector component (and, for objects, the depths) at the given times with the '
     'interpolation kind asked for, linear by default, and make the n-vectors unit vectors afterwards. Smoothing happens exactly when window_length is positive, '
     'before the interpolation, by a Savitzky-Golay filter along the track with that window (rounded up to an odd number), polynomial order, end mode and end value; '
     'the result has one position per time asked for, and NaN at times outside the samples.',
     'all tracks, sample times, times asked for, interpolation kinds, window lengths, orders, modes and end values',
     'Tests plot or interpolate one track linearly and never combine options, so a dropped or exchanged option does not show.',
     [CORE, OBJ], mech(('interp_nvectors, _interp_vectors', CORE), ('Nvector.interpolate', OBJ)),
     *LAW)

na('P30', 'ECEF to n-vector conversion is accurate to rounding',
   'Converting an n-vector and depth to an ECEF position and back returns the same n-vector and depth to within a few units of rounding.',
   'all positions and depths above the core of the ellipsoid', 'Tests sample a few dozen positions.', [CORE],
   mech(('p_EB_E2n_EB_E closed formula', CORE)),
   'The claim is about accumulated floating-point error and about an algebraic inverse (nested cubic and square roots) that holds on an open region '
   'of inputs only; no dataflow or type argument bounds it. The parts that are structural (units, axes, column independence, range) are P01-P05.')
na('P31', 'Geodesics agree with an independent solution',
   'Distances, azimuths and end points on the ellipsoid agree with an independent high-accuracy geodesic solution.',
   'all pairs of points and ellipsoids', 'Tests compare a few published values.', [OBJ],
   mech(('FrameE.inverse, FrameE.direct', OBJ)),
   'The numbers come from the external geographiclib series; agreement with an independent oracle is a statement about numerical values. '
   'What is handed to and taken from geographiclib is decided by P01, P03, P15.')
na('P32', 'On-path verdicts are right near the tolerance',
   'A point is reported on a path exactly when its distance to the path is below the tolerance.',
   'all paths, points and tolerances', 'Tests sample clear cases.', [CORE, OBJ],
   mech(('on_great_circle, on_path', OBJ)),
   'Correctness close to the tolerance depends on rounding of norms and arcsines; a static argument cannot separate the sides of a floating-point comparison.')
na('P33', 'Nearly coincident and nearly antipodal points keep full precision',
   'Distances and azimuths of nearly coincident or nearly antipodal points keep a small relative error.',
   'all pairs of nearby or opposite points', 'Tests probe a few separations.', [CORE],
   mech(('great_circle_distance arctan2 form', CORE)),
   'Conditioning is a property of rounded arithmetic; the analyser reasons about real functions and deliberately identifies formulas that differ only in conditioning.')
na('P34', 'Track interpolation is close to the true track',
   'Interpolated positions of a sampled track deviate from the true track by no more than the interpolation order implies.',
   'all tracks, sample times and interpolation kinds', 'Tests use one smooth track.', [CORE, OBJ],
   mech(('interp_nvectors', CORE)),
   'An approximation-error bound over real data; the scipy interpolators are opaque to a source analysis.')
