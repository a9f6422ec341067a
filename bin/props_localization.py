RO, LO, LL, LN = 'rotation', 'localization', 'localization_loop', 'localization_node'
LOC = 'localization/src/**/*.cpp'
ROT = 'rotationlib/src/**/*.cpp'
unit(RO, ROT)
unit(LO, LIB, ROT, LOC)
unit(LL, LIB, ROT, LOC, exclude=['localization/src/optimizer.cpp', 'localization/src/degenerate.cpp'])
unit(LN, LIB, ROT, LOC, exclude=['localization/src/edge.cpp'])
LH = 'localization/include/lidar_feature_localization/'
P('C15', 'Rotation algebra matches quaternion algebra for every input',
  'For every quaternion and vector, the cross-product matrix, the left and right multiplication matrices and the (w, x, y, z) vector agree with the cross product and the Hamilton product, and the rotation Jacobian is the exact derivative of the rotated vector by the four quaternion components. Roll, pitch and yaw compose to the quaternion of yaw after pitch after roll.',
  ['inputs'], 'any quaternion, vector and angles',
  'The tests compare a few examples, several of them with unit quaternions where wrong terms cancel.',
  ['rotationlib/src/hat.cpp', 'rotationlib/src/jacobian/quaternion.cpp', 'rotationlib/include/rotationlib/quaternion.hpp'], [('Hat', 'rotationlib/src/hat.cpp'), ('DRpDq, LeftMultiplicationMatrix, RightMultiplicationMatrix', 'rotationlib/src/jacobian/quaternion.cpp')],
  [E(RO, n, 'real', ['end'], 'any real values') for n in ['h_hat', 'h_wxyz', 'h_multiplication_matrices', 'h_drpdq', 'h_rpy']])
P('C16', 'Edge residuals measure distance to the line through the nearest map points',
  'For every scan point the edge problem yields a three-component residual, the cross product of the moved point\'s differences to two points at mean plus and minus the principal axis of its nearest map points, and a 3x7 Jacobian that is its exact derivative by rotation and translation. Mean and covariance are those of the neighbours (population covariance, x y z only); curvature counts as a fourth coordinate when choosing neighbours. A principal direction is reliable exactly when the largest value exceeds three times the second.',
  ['inputs'], 'any coordinates, poses and axes; maps of 2..3 points, scans of 0..2 points',
  'The tests use one or two scans against fixed maps and compare Jacobians numerically at one pose.',
  ['localization/src/edge.cpp', LH + 'edge.hpp'], [('Edge::Make', LH + 'edge.hpp'), ('MakeEdgeResidual, MakeEdgeJacobianRow, CalcMeanAndCovariance, PrincipalIsReliable, TripletCross', 'localization/src/edge.cpp')],
  [E(LN, 'h_mean_covariance', 'real', ['end'], '1..3 (thorough 1..4) points in 2 or 3 dimensions'), E(LN, 'h_triplet_cross', 'real', ['end']), E(LN, 'h_edge_residual', 'real', ['end'], 'any affine pose'),
   E(LN, 'h_edge_jacobian', 'real', ['end'], 'any quaternion'), E(LN, 'h_get_xyz', 'real', ['end']), E(LN, 'h_principal_reliable', 'real', ['yes', 'no']),
   E(LN, 'h_edge_problem', 'real', ['end'], '2 map points, 0..2 scan points, 2 (thorough 3) rotations, any translation, any principal axis'), E(LN, 'h_edge_neighbours', 'real', ['end'], '3 fixed map points, scan point with any x and curvature')],
  assumptions=['the 3x3 eigen decomposition returns an arbitrary axis in its last column: that it is the principal one is Eigen\'s guarantee'])
P('C17', 'Alignment and surface residuals and Jacobians are exact',
  'Point-to-point alignment yields, per point, the transformed source minus the target and the exact 3x7 derivative by rotation and translation. The surface problem yields, per scan point, the signed distance to the plane through its nearest map points and the exact derivative; the plane fit reproduces the plane through its points, and points count as planar exactly when all lie within 0.2 m. The combined problem lists all edge blocks, then all surface rows, Jacobians in step with residuals.',
  ['inputs'], 'any coordinates, translations and plane coefficients; any quaternion for derivatives; up to 3 points; planes through 3 or 4 points in any order',
  'The tests check a handful of points at fixed poses.',
  ['localization/src/alignment.cpp', 'localization/src/jacobian.cpp', LH + 'surface.hpp', LH + 'loam_optimization_problem.hpp', LH + 'math.hpp'],
  [('MakeJacobian, MakeResidual, AlignmentProblem', 'localization/src/alignment.cpp'), ('MakeJacobian', 'localization/src/jacobian.cpp'), ('Surface, EstimatePlaneCoefficients, CheckPointsDistributeAlongPlane', LH + 'surface.hpp'), ('LOAMOptimizationProblem::Make', LH + 'loam_optimization_problem.hpp')],
  [E(LO, 'h_alignment', 'real', ['end'], '0..2 (thorough 0..3) or 10 points, any quaternion'), E(LO, 'h_alignment_problem', 'real', ['end'], '0..2 or 8 points, six rotations'), E(LO, 'h_row_jacobian', 'real', ['end'], '0..2 (thorough 0..3) or 10 rows'),
   E(LN, 'h_plane_distance', 'real', ['end']), E(LN, 'h_plane_check', 'real', ['yes', 'no'], '0..3 points, or 10 points of which one is at any distance from a fixed plane'), E(LN, 'h_plane_fit', 'real', ['end'], '3 points on the axes at 0.5..100, six orders; 4 fixed points'),
   E(LN, 'h_surface_jacobian', 'real', ['end']), E(LN, 'h_surface_problem', 'real', ['end'], '3 map points, 0..1 (thorough 0..2) scan points, two rotations'), E(LN, 'h_loam_problem', 'real', ['end'], '0..2 edge and 0..1 surface points')],
  assumptions=['voxel downsampling of the surface map (PCL) is replaced by one that keeps every point; the leaf size given to it is checked'])
P('C18', 'Robust weights and the weighted step follow their definitions',
  'Residual errors are squared norms; their scale is 1.482602218505602 times the median absolute deviation; weights are the Huber slope of the scaled errors, in (0, 1], 1 inside the threshold and continuous at it. The update solves the weighted normal equations restricted to the rotation tangent and is returned as a rotation and a translation; it is zero exactly when the unweighted normal matrix has an eigenvalue of magnitude below 0.1 (by default).',
  ['inputs'], 'any errors, residuals and thresholds; 1..3 (thorough 4) errors; triangular 3x3 Jacobian blocks',
  'The tests check single values of each formula.',
  ['localization/src/robust.cpp', 'localization/src/optimizer.cpp', 'localization/src/degenerate.cpp'], [('MedianAbsoluteDeviation, Scale, Huber, HuberDerivative', 'localization/src/robust.cpp'), ('ComputeErrors, NormalizeErrorScale, ComputeWeights, WeightedUpdate, CalcUpdate', 'localization/src/optimizer.cpp'), ('IsDegenerate', 'localization/src/degenerate.cpp')],
  [E(LO, 'h_mad', 'real', ['end'], '1..3 (thorough 1..4) values'), E(LO, 'h_mad_long', 'real', ['end'], '14..15 values, one of them any'), E(LO, 'h_huber', 'real', ['inside', 'outside']), E(LO, 'h_huber_default', 'real', ['end']), E(LO, 'h_huber_continuous', 'real', ['end']),
   E(LO, 'h_degenerate', 'real', ['end'], 'diagonal matrices up to 2x2 (thorough 3x3)'), E(LO, 'h_errors', 'real', ['end'], '0..3 or 20 residuals of 1..3 components'), E(LO, 'h_normalize', 'real', ['end'], '1..3 errors'),
   E(LO, 'h_weights', 'real', ['end'], '0..2 errors'), E(LO, 'h_weights_long', 'real', ['end'], '20 errors, one of them any'), E(LO, 'h_update_matrix', 'real', ['end']),
   E(LL, 'h_weighted_update', 'real', ['degenerate', 'step'], 'two 3-row blocks, four weightings, any residuals'), E(LL, 'h_calc_update', 'real', ['end'], 'two diagonal blocks')])
P('C19', 'The optimiser follows its stopping rules on every error sequence',
  'From the initial pose each iteration evaluates the problem at the current pose and, if errors or error scale grew against the previous iteration, returns that pose as success; otherwise it composes the update (q dq, t + dt) and succeeds once rotation and translation steps are both below 1e-3. Empty residuals and reaching the iteration limit are reported as failure. Pose, iteration count, error and scale are those of the stopping point.',
  ['inputs', 'histories'], 'every sequence of errors and updates over up to 3 (thorough 4) iterations, one or two residuals, empty input at any of the first iterations',
  'The tests run the optimiser on one alignment problem that converges.',
  [LH + 'optimizer.hpp', LH + 'optimization_result.hpp', 'localization/src/optimizer.cpp', 'localization/src/posevec.cpp'], [('Optimizer::Run', LH + 'optimizer.hpp'), ('CheckConvergence', 'localization/src/optimizer.cpp'), ('AngleAxisToQuaternion, MakePose', 'localization/src/posevec.cpp')],
  [E(LL, 'h_loop', 'real', ['empty', 'larger-error', 'larger-scale', 'converged', 'limit'], 'up to 3 (thorough 4) iterations with 1 residual, 2 (thorough 3) with 2; updates about one axis at a time', opt=dict(budget=200), topt=dict(budget=800)), E(LL, 'h_loop_long', 'real', ['larger-error', 'larger-scale', 'converged', 'limit'], 'limits of 20 (given and by default) and 40; one of 3 iterations (thorough any one) with any error and step'),
   E(LO, 'h_check_convergence', 'real', ['converged', 'not']), E(LO, 'h_angle_axis', 'real', ['tiny', 'rotation']), E(LO, 'h_make_pose', 'real', ['end'])])
P('C20', 'Time-stamped queue returns the closest object and keeps those up to the limit',
  'The queue holds one object per stamp, the last one inserted. GetClosest returns a stored object with its own stamp such that none is closer in time. RemoveOlderThan(limit) leaves exactly the objects stamped at or before the limit, whatever was stored.',
  ['inputs', 'histories'], 'every insertion sequence of up to 3 (thorough 4) stamps, any stamps, ties included, any query and limit',
  'The tests use four ascending stamps and never a limit before the first one.',
  [LH + 'stamp_sorted_objects.hpp'], [('StampSortedObjects', LH + 'stamp_sorted_objects.hpp')],
  [E(LO, 'h_stamp_sorted', 'real', ['replaced', 'closest', 'some-removed', 'all-removed'], '0..3 (thorough 0..4) insertions'), E(LO, 'h_stamp_sorted_long', 'real', ['replaced', 'end'], '60 insertions, one at any time'), E(LO, 'h_stamp_sorted_many', 'real', ['end'], '310 (thorough 1010) insertions, one at any time within 3 s')])
P('C21', 'Odometry, local maps and localizer track the pose scan by scan',
  'The local map holds the points of exactly the last n scans added, each transformed by its pose, in order; saving writes the whole cloud unless it is empty. Odometry starts at the identity, matches each later scan from the previous pose against the map so far and adds every scan once at its resulting pose. The localizer runs each update from the initial or previous pose and keeps and reports that result.',
  ['inputs', 'histories'], 'up to 3 (thorough 4) scans of 0..2 points, any affine pose; up to 3 (thorough 5) odometry updates; two localizer updates',
  'The tests use one or two scans.',
  [LH + 'recent_scans.hpp', LH + 'point_cloud_map.hpp', LH + 'map_io.hpp', LH + 'odometry.hpp', LH + 'localizer.hpp'], [('RecentScans', LH + 'recent_scans.hpp'), ('PointCloudMap', LH + 'point_cloud_map.hpp'), ('Odometry::Update', LH + 'odometry.hpp'), ('Localizer', LH + 'localizer.hpp')],
  [E(LN, 'h_recent_scans', 'real', ['window', 'all'], '0..3 (thorough 0..4) or 270 scans', opt=dict(narrow=False)), E(LN, 'h_save_map', 'real', ['saved', 'empty'], '0..2 or 300 points'), E(LN, 'h_odometry', 'real', ['end'], '0..3 (thorough 0..5) or 270 scans'), E(LN, 'h_localizer', 'real', ['end'], 'two updates, any optimiser results')])
P('C22', 'Nearest-neighbour lookup and cloud-to-matrix conversion lose nothing',
  'A search for k neighbours returns min(k, map size) map points in ascending order of their reported squared distances, leaving no nearer point out. Converting a cloud gives one row per point in order with its x, y, z (and curvature for the four-channel conversion). Filtering by flags keeps exactly the flagged values in order.',
  ['inputs'], 'any coordinates; maps of 0..3 (thorough 0..4) points, k up to 3',
  'The tests search a fixed grid for fewer neighbours than it has points.',
  ['localization/src/kdtree.cpp', LH + 'kdtree.hpp', LH + 'pointcloud_to_matrix.hpp', LH + 'point_to_vector.hpp', LH + 'filter.hpp'], [('KDTreeEigen::NearestKSearch', 'localization/src/kdtree.cpp'), ('PointCloudToMatrix', LH + 'pointcloud_to_matrix.hpp'), ('Filter', LH + 'filter.hpp')],
  [E(LO, 'h_kdtree', 'real', ['few', 'enough'], '0..3 (thorough 0..4) points in two dimensions, k = 1..3'), E(LO, 'h_cloud_matrix', 'real', ['end'], '0..3 or 30 points'), E(LO, 'h_cloud_matrix', 'fp', ['end'], '0..3 or 30 points, coordinates that are not finite included'), E(LO, 'h_filter', 'real', ['end'], '0..4 (thorough 0..6) or 30 flags')],
  assumptions=['nanoflann is replaced by an exhaustive nearest-neighbour search with the same interface'])
P('C23', 'Localization node publishes one stamped pose per scan from the closest prior',
  'A scan pair before any prior pose is ignored. Otherwise the localizer is initialised with the prior closest in time to the edge scan and updated once with the edge and surface clouds; its pose is published and broadcast once, stamped as the edge scan, from map to lidar_feature_base_link, with diagonal covariance (1, 1, 1, 0.1, 0.1, 0.1). Priors up to one second after the scan stay available.',
  ['inputs', 'histories'], 'up to 2 priors (odometry and pose topics) at any stamps and positions, two scans at any stamp, any localizer result in two rotations',
  'The node itself has no tests.',
  [LH + 'subscriber.hpp'], [('LocalizationSubscriber::PoseUpdateCallback', LH + 'subscriber.hpp')],
  [E(LN, 'h_node', 'real', ['no-prior', 'kept', 'dropped', 'end'], '0..2 priors, two scans')])
P('C39', 'The localization program runs only with both maps, each in its own role',
  'Without maps/edge.pcd or maps/surface.pcd the localization program ends with an error status and never starts its node. With both, it matches the edge points of every scan against the edge map and the surface points against the surface map, starting from the prior pose, and publishes the resulting pose.',
  ['inputs', 'fault_sequences'], 'any of the two files missing; one prior at any stamp and position; one edge and one surface point at any position', 'No test runs the program: it needs ROS 2 and map files.',
  ['localization/app/localization.cpp', LH + 'localizer.hpp'], [('main, CheckMapPathExists', 'localization/app/localization.cpp')],
  [E(LN, 'h_localization_program', 'real', ['missing', 'runs'], 'one prior, one scan of one edge and one surface point')])
DS = 'downsample'
unit(DS, LIB, exclude=['lib/src/random.cpp'])
P('C40', 'Downsampling leaves the centroid of every occupied cube',
  'Downsampling a cloud with a leaf size returns exactly one point for every occupied cube of that edge length (cubes aligned with the origin), at the centroid of the points inside it, and leaves its input as it was.',
  ['inputs'], '1..2 (thorough 1..3) points differing in one coordinate, of any value within 2 of 0, 256 or -256, and optionally far apart in another; leaf sizes 0.5 and 1 (thorough also 2)',
  'No test downsamples.',
  ['lib/include/lidar_feature_library/downsample.hpp'], [('Downsample', 'lib/include/lidar_feature_library/downsample.hpp')],
  [E(DS, 'h_downsample', 'real', ['merged', 'apart', 'end'], '1..2 (thorough 1..3) points, leaf 1 or 0.5 (thorough also 2)')],
  note='the voxel grid of the installed PCL headers is executed symbolically along with the function')
