AP = 'apps'
unit(AP, LIB)
P('C34', 'Mapping adds a cloud iff it has points and the pose moved enough, and saves them all',
  'A cloud with points is added to the map unless the map has points and the pose is less than 1 m and less than 0.1 (sine of half the angle) away from the pose of the last cloud added. Each point enters once, in order, at its place under the pose of its message, with its other fields kept. The program pairs scan_edge with pose while it spins and afterwards writes exactly the map to maps/edge.pcd, or nothing if the map is empty.',
  ['inputs', 'histories'], 'any pair of poses, turned by any angle about a coordinate axis, and thresholds; up to 4 clouds of 0..1 (thorough 0..2) points at any distance along a line, or with three turns and two distances; any points',
  'The tests add two clouds and compare two pose pairs; MapBuilder itself is not tested.',
  ['mapping/include/lidar_feature_mapping/map.hpp', 'mapping/src/mapping.cpp'], [('PoseDiffIsSufficientlySmall, MapBuilder::Callback, SaveMap, Map', 'mapping/include/lidar_feature_mapping/map.hpp'), ('MapSubscriber, main', 'mapping/src/mapping.cpp')],
  [E(AP, 'h_pose_diff', 'real', ['small', 'turned', 'moved'], 'any two positions, thresholds and angle; two base rotations, three axes'), E(AP, 'h_map_builder', 'real', ['none', 'some', 'all', 'skipped'], '1..4 clouds; memory of the builder starts zeroed', opt=dict(uninit0=True, narrow=False)), E(AP, 'h_map_builder_long', 'real', ['end'], '12 (thorough 24) clouds, one of them at any position', opt=dict(uninit0=True, narrow=False)),
   E(AP, 'h_mapping_program', 'real', ['saved', 'empty', 'skipped'], '0..2 clouds; memory of the builder starts zeroed', opt=dict(uninit0=True, narrow=False))])
P('C35', 'Path recorder publishes every pose received so far, in order',
  'Each pose message received is appended, with its own header, to one path, which is published once per message under the header of that message; no pose is lost, changed or reordered. Poses with covariance are recorded by their pose, and the program records topic pose to topic path.',
  ['inputs', 'histories'], 'up to 3 (thorough 4) messages with any pose and stamp in two frames',
  'The tests send two fixed poses.',
  ['path_generator/include/path_generator/path_generator.hpp', 'path_generator/src/node.cpp'], [('PathGenerator::Publish, FromPose, FromPoseWithCovariance', 'path_generator/include/path_generator/path_generator.hpp'), ('main', 'path_generator/src/node.cpp')],
  [E(AP, 'h_path', 'real', ['end'], '0..3 (thorough 0..4) or 270 messages'), E(AP, 'h_path_program', 'real', ['end'], 'two messages')])
P('C36', 'Viewer frame sits at the centre of the map',
  'For every map with points received, one static transform from the map frame to the viewer frame is broadcast, stamped now, with the mean of all points as translation and no rotation; frame names follow the parameters. An empty map broadcasts nothing.',
  ['inputs'], 'maps of 0..3 (thorough 0..5) points at any coordinates, then one more map; default and given frame names',
  'The package has no tests.',
  ['map_tf_generator/src/map_tf_generator_node.cpp'], [('MapTFGeneratorNode::onPointCloud', 'map_tf_generator/src/map_tf_generator_node.cpp')],
  [E(AP, 'h_map_tf', 'real', ['centre', 'empty'], '0..3 (thorough 0..5) or 300 points, one or two maps')])
P('C37', 'Map loader publishes exactly the named file, once, in the map frame',
  'The node reads exactly the file named by pcd_filename and publishes its cloud once on map_topic, complete and unchanged apart from the frame, which becomes map. Without a file name it throws invalid_argument and reads nothing.',
  ['inputs'], 'clouds of 0..2 points at any coordinates with two frame names; no, two file names',
  'The package has no tests.',
  ['map_loader/src/map_loader.cpp'], [('LoadMap, MapLoaderNode', 'map_loader/src/map_loader.cpp')],
  [E(AP, 'h_map_loader', 'real', ['refused', 'published'], '0..2 or 300 points, three file names')],
  assumptions=['reading the file itself is the PCL library and is replaced by a stand-in that supplies the cloud'])

P('C41', 'Nodes take each parameter from its ROS parameter, or from its default',
  'Each value comes from the ROS parameter of its name, else from its default. Extraction: convolution_padding 5, neighbor_degree_threshold 2, distance_diff_threshold 0.3, parallel_beam_min_range_ratio 0.02, edge_threshold and surface_threshold 0.05, min_range 0.1, max_range 100, n_blocks 6. EKF: predict_frequency 50, extend_state_step 50, pose_frame_id map, pose_smoothing_steps 5, twist_smoothing_steps 2, pose_gate_dist and twist_gate_dist 10000, proc_stddev_yaw_c 0.005, enable_yaw_bias_estimation true, proc_stddev_yaw_bias_c 0.001, proc_stddev_vx_c 5, proc_stddev_wz_c 1.',
  ['configurations', 'inputs'], 'no parameter or any one of them set; one scan of a ring of 24 points with one point at any range; any pose and twist over six ticks',
  'The nodes have no tests.',
  ['extraction/include/lidar_feature_extraction/hyper_parameter.hpp', KH2 + 'ekf_localizer.hpp', KS2 + 'ekf_localizer.cpp'], [('HyperParameters', 'extraction/include/lidar_feature_extraction/hyper_parameter.hpp'), ('EKFParameters', KH2 + 'ekf_localizer.hpp')],
  [E(XA, 'h_extraction_parameters', 'real', ['edge', 'surface'], 'none or one of 9 parameters set'), E(EN, 'h_ekf_parameters', 'real', ['both', 'pose-gated', 'twist-gated', 'too-late'], 'none or one of 12 parameters set; delays of 0 and around the horizon')],
  assumptions=['the time-delay Kalman filter is a recorder that returns a zero state and fixed covariances'])
