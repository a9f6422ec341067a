LI = 'lib'
unit(LI, LIB, exclude=['lib/src/random.cpp'])
H = 'lib/include/lidar_feature_library/'
P('C12', 'Medians, deviations and the index shuffle are exact for every input',
  'The median of any non-empty list is the mean of its two middle values in sorted order (the middle value for odd sizes) and an empty list is refused; the sample standard deviation is the root of the unbiased variance. Shuffled unique indices are always a permutation of 0..n-1 whatever the generator draws. Sorting three values returns them in ascending order.',
  ['inputs'], 'lists of 1..5 (thorough 6) values, any values; generators drawing any 32-bit values for up to 3 (thorough 4) indices',
  'The tests use short fixed lists; the partial sorting inside depends on the input order, and random draws are never controlled.',
  ['lib/src/stats.cpp', 'lib/src/random.cpp', 'lib/src/algorithm.cpp'], [('Median', 'lib/src/stats.cpp'), ('RandomizedUniqueIndices, SampleStandardDeviation', 'lib/src/random.cpp'), ('SortThreeValues', 'lib/src/algorithm.cpp')],
  [E(LI, 'h_median_vector', 'real', ['odd', 'even'], '1..5 (thorough 1..6) values'), E(LI, 'h_median_array', 'real', ['odd', 'even'], 'as above'), E(LI, 'h_median_empty', 'real', ['end']),
   E(LI, 'h_median_long', 'real', ['odd', 'even'], '20..21 values, one of them any'), E(LI, 'h_stddev', 'real', ['end'], '2..4 (thorough 2..6) values'), E(LI, 'h_shuffle', 'real', ['moved', 'end'], '0..3 (thorough 0..4) indices, up to 6 draws of any value'),
   E(LI, 'h_sort3', 'real', ['end'])])
P('C13', 'Index, span, matrix and point-cloud helpers keep every element in place',
  'Selecting by indices returns the addressed elements in order and refuses indices outside; selecting by value lists exactly the matching positions in order; a span reads and writes only its own elements and refuses indices outside. Rows, stacks and 6x6 covariances (row-major) keep every element at its place and survive a round trip. Transforming a point or cloud applies rotation and translation to x, y, z only, keeps all other channels and the source; NaN and infinity checks report exactly whether one is present.',
  ['inputs'], 'lists, matrices and clouds of up to 4 elements with any values; any affine transform',
  'The tests check one or two examples per helper.',
  [H + 'algorithm.hpp', H + 'span.hpp', H + 'eigen.hpp', 'lib/src/eigen.cpp', 'lib/src/pcl_utils.cpp', H + 'pcl_utils.hpp', H + 'numeric.hpp'],
  [('GetByIndices, GetIndicesByValue', H + 'algorithm.hpp'), ('span_base, span', H + 'span.hpp'), ('GetEigenCovariance, TransformXYZ, GetRows', 'lib/src/eigen.cpp'), ('TransformPointCloud, Get', H + 'pcl_utils.hpp')],
  [E(LI, 'h_get_by_indices', 'real', ['refused', 'end'], '0..3 or 300 elements, 0..3 or 270 indices'), E(LI, 'h_indices_by_value', 'real', ['some', 'end'], '0..4 (thorough 0..5) or 40 labels'),
   E(LI, 'h_span', 'real', ['in', 'out'], 'every span of 4 elements, indices -1..5'), E(LI, 'h_covariance_layout', 'real', ['end']), E(LI, 'h_stacking', 'real', ['end'], '0..3 or 20 blocks'),
   E(LI, 'h_rows', 'real', ['end'], '3 rows, 0..3 indices; 40 rows, 30 indices'), E(LI, 'h_transform_xyz', 'real', ['end'], '3..5 channels'), E(LI, 'h_transform_cloud', 'real', ['end'], '0..2 (thorough 0..3) or 12 points', opt=dict(narrow=False)),
   E(LI, 'h_convert_cloud', 'real', ['end'], '0..2 (thorough 0..3) or 300 points'), E(LI, 'h_nan_inf', 'fp', ['nan', 'inf', 'finite'], 'matrices up to 2x2, exact IEEE')])
P('C14', 'Message conversions lose nothing and stamp and frame every message',
  'Converting a pose message to a transform and transforms to pose and transform messages preserves position and orientation for every rotation (up to the sign of the quaternion), covariances are written row by row, and vectors, points, twists and quaternions keep each component. Every stamped message and cloud carries exactly the given stamp and frames; a cloud survives the conversion to a message and back; line markers hold two points per line in order.',
  ['inputs'], 'every unit quaternion (to transform), six rotations covering all conversion branches (from transform), any positions, covariances, stamps; clouds of up to 2 points',
  'ROS message conversion is not tested at all without ROS.',
  [H + 'ros_msg.hpp', 'lib/src/ros_msg.cpp', 'lib/src/eigen.cpp'], [('GetIsometry3d, MakePose..., MakeTransformStamped, AddLine', 'lib/src/ros_msg.cpp'), ('ToRosMsg, GetPointCloud', H + 'ros_msg.hpp')],
  [E(LI, 'h_pose_to_isometry', 'real', ['end'], 'any unit quaternion and position'), E(LI, 'h_pose_messages', 'real', ['end'], 'six rotations, any position, covariance and stamp'),
   E(LI, 'h_vector_messages', 'real', ['end']), E(LI, 'h_cloud_messages', 'real', ['end'], '0..2 or 300 points')])
