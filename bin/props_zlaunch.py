LD = 'lidar_feature_launch/launch/'
P('C42', 'Launch files connect the programs into the localization and mapping pipelines',
  'For any launch arguments (absolute topic names, or none given), the localization launch file starts converter, extraction, localization, EKF and one loader per map so that extraction hears the converted points, localization the edge and surface scans and the EKF odometry, and the EKF the estimated pose; the mapping launch file starts converter, extraction and mapping likewise. '
  'Linked topics agree in message type and quality of service, nothing else is connected while distinct arguments name distinct topics, and sensor points (input_sensor_points_topic, /points_raw), initial pose (/initialpose3d), twist (/twist), mapping pose (input_pose_topic, /pose), maps (edge_map_topic of maps/edge.pcd, surface_map_topic of maps/surface.pcd), lidar pose and EKF odometry follow their argument or default. '
  'Parameters given are declared by the program with that type and let it start; the viewer launch file passes its map topic and frame names on.',
  ['configurations'], 'any subset of the launch arguments, each any absolute topic name of up to 40 characters',
  'The launch files have no tests, and unit tests run one node at a time.',
  [LD + 'localization.launch.py', LD + 'mapping.launch.py', 'lidar_feature_launch/config/lidar_feature_extraction.param.yaml', 'map_tf_generator/launch/map_tf_generator.launch.xml'],
  [('generate_launch_description', LD + 'localization.launch.py'), ('generate_launch_description', LD + 'mapping.launch.py')],
  [E(None, 'h_localization_launch', 'py', ['connected', 'named-by-its-argument', 'nothing-else'], 'eight arguments, given or not', py='launch_check.py', opt=dict(timeout=400)),
   E(None, 'h_mapping_launch', 'py', ['connected', 'named-by-its-argument', 'nothing-else'], 'two arguments, given or not', py='launch_check.py', opt=dict(timeout=400)),
   E(None, 'h_viewer_launch', 'py', ['named-by-its-argument'], 'three arguments, given or not', py='launch_check.py', opt=dict(timeout=400))],
  ['the launch system is a stand-in: launch arguments, text and path substitutions, node actions with remappings (first rule that matches the full name) and parameters, groups; the topics of the programs are those their real mains open on the ROS stand-ins',
   'odometry.launch.py is outside: the program it starts is not built (its source is commented out)'])
