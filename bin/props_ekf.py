EK, EN = 'ekf', 'ekf_node'
unit(EK, LIB, 'rotationlib/src/**/*.cpp', 'kalman_filter/src/**/*.cpp', 'ekf_localizer/src/**/*.cpp', exclude=['ekf_localizer/src/ekf_localizer_node.cpp'])
unit(EN, LIB, 'rotationlib/src/**/*.cpp', 'kalman_filter/src/**/*.cpp', 'ekf_localizer/src/**/*.cpp', exclude=['ekf_localizer/src/ekf_localizer_node.cpp', 'kalman_filter/src/time_delay_kalman_filter.cpp'])
KH2 = 'ekf_localizer/include/ekf_localizer/'
KS2 = 'ekf_localizer/src/'
P('C26', 'Aged message queue returns each message once per step of its age, in order',
  'Pop returns the oldest waiting message and appends it again until it has been returned max_age times (once if max_age is 0 or 1), so that every message pushed is returned exactly that often and messages of one age keep their order. Size is the number of messages waiting; clear leaves none.',
  ['histories'], 'every sequence of up to 5 (thorough 7) pushes, pops and clears, followed by draining the queue; max_age 0..3 (thorough 0..4)',
  'The tests run one push-pop sequence for one age.',
  [KH2 + 'aged_message_queue.hpp'], [('AgedMessageQueue', KH2 + 'aged_message_queue.hpp')],
  [E(EK, 'h_queue', 'real', ['cleared', 'expired', 'again'], '0..5 (thorough 0..7) operations, max_age 0..3 (thorough 0..4)'), E(EK, 'h_queue_long', 'real', ['end'], '300 messages, max_age 1..3 (thorough 1..5)')])
P('C27', 'Measurement checks accept exactly the valid input and log one warning otherwise',
  'A frame is accepted iff it equals the expected one, a delay time iff it is not negative, a delay step iff it is below the maximum, a matrix iff all elements are finite, and a measurement iff its Mahalanobis distance is at most the gate; each refusal logs exactly one warning. The delay step is the nearest whole number of steps, 0 for stamps in the future, and total for any delay and interval. Log messages are written as they are whatever characters they hold, and EraseBeginSlash removes one leading slash.',
  ['inputs'], 'any IEEE double or int for the checks and delays; any real vectors and positive definite matrices for the gate',
  'The tests try a few fixed values, none of them infinite, out of int range or containing a % sign.',
  [KS2 + 'check.cpp', KS2 + 'mahalanobis.cpp', KS2 + 'string.cpp', KH2 + 'delay.hpp', KH2 + 'warning.hpp'],
  [('CheckFrameId, CheckDelayTime, CheckDelayStep, CheckMeasurementMatrixNanInf, CheckMahalanobisGate', KS2 + 'check.cpp'), ('SquaredMahalanobis, MahalanobisGate', KS2 + 'mahalanobis.cpp'), ('ComputeDelayStep, ComputeDelayTime', KH2 + 'delay.hpp'), ('Warning', KH2 + 'warning.hpp'), ('EraseBeginSlash', KS2 + 'string.cpp')],
  [E(EK, 'h_check_time', 'real', ['good', 'bad'], 'any delay'), E(EK, 'h_check_step', 'real', ['good', 'bad'], 'any two ints'), E(EK, 'h_check_finite', 'fp', ['good', 'bad'], 'matrices of 0..2 rows and 1..2 columns, any doubles'),
   E(EK, 'h_check_frame', 'real', ['good', 'bad'], 'five names'), E(EK, 'h_log_text', 'real', ['end'], 'messages of 0..2 (thorough 0..3) characters from % s a'), E(EK, 'h_slash', 'real', ['end'], 'names of 0..3 (thorough 0..4) characters'),
   E(EK, 'h_delay_step', 'real', ['none', 'some'], 'delay -1..6 s (thorough 12), interval 0.5..20 s'), E(EK, 'h_delay_step_total', 'fp', ['kept', 'refused'], 'any delay, interval 0 or of finite inverse up to 11 s, horizon 1..100000'), E(EK, 'h_delay_time', 'real', ['end'], 'any two times'),
   E(EK, 'h_mahalanobis', 'real', ['end'], '1..3 dimensions, the 3x3 covariance fixed'), E(EK, 'h_gate', 'real', ['inside', 'outside'], '1..2 dimensions')])
P('C28', 'EKF motion model: state transition, its derivative, yaw and process noise',
  'The predicted state advances x and y by vx dt along the heading yaw + bias, the yaw by wz dt wrapped to half a turn, and keeps bias, vx and wz; the transition matrix is the derivative of that map at the current state. normalizeYaw returns the same heading within [-pi, pi]. The process noise is diagonal: zero for x and y, squared deviation times squared interval for yaw, bias, vx and wz.',
  ['inputs'], 'any real state, interval, angle and deviations',
  'The tests use one state and a few angles.',
  [KS2 + 'state_transition.cpp', KH2 + 'normalize_yaw.hpp', KH2 + 'state_transition.hpp'], [('predictNextState, createStateTransitionMatrix, processNoiseCovariance', KS2 + 'state_transition.cpp'), ('normalizeYaw', KH2 + 'normalize_yaw.hpp'), ('DefaultVariance', KH2 + 'ekf_localizer.hpp')],
  [E(EK, 'h_transition', 'real', ['end'], 'any state and interval'), E(EK, 'h_normalize_yaw', 'real', ['end'], 'any angle'), E(EK, 'h_noise', 'real', ['end'], 'any deviations and interval')])
P('C29', 'EKF state, message covariances and measurement models use the same components',
  'Pose messages measure (x, y, yaw) and twist messages (vx, wz) of the state: the measurement matrix, vector, noise (the message covariance of those components times the smoothing steps), state selection and covariance block all agree on them. Published covariances place those blocks at the message rows of x, y, yaw and of vx, wz, and zero elsewhere. The filter starts at (x, y, yaw, 0, 0, 0) with variances x, y, yaw of the message, 0.0001, 0.01, 0.01; a disabled yaw bias gets no process noise.',
  ['inputs'], 'any real matrices, messages and states; smoothing 0..5; planar message orientations of any norm',
  'The tests fill one matrix with fixed numbers.',
  [KS2 + 'covariance.cpp', KS2 + 'pose_measurement.cpp', KS2 + 'twist_measurement.cpp', KS2 + 'ekf_localizer.cpp'],
  [('EKFCovarianceToPoseMessageCovariance, EKFCovarianceToTwistMessageCovariance', KS2 + 'covariance.cpp'), ('PoseMeasurementMatrix, PoseMeasurementCovariance, PoseMeasurementVector, PoseCovariance, GetPoseState', KS2 + 'pose_measurement.cpp'), ('TwistMeasurementMatrix, TwistMeasurementCovariance, TwistMeasurementVector, TwistCovariance, GetTwistState', KS2 + 'twist_measurement.cpp'), ('InitState, InitCovariance, InitYawBias', KS2 + 'ekf_localizer.cpp')],
  [E(EK, 'h_covariance', 'real', ['end'], 'any 6x6 matrix'), E(EK, 'h_measurement', 'real', ['end'], 'any 6x6 covariance and state, smoothing 0..5'), E(EK, 'h_measurement_vector', 'real', ['end'], 'any twist, any planar orientation'), E(EK, 'h_init', 'real', ['end'], 'any state and covariance')])
P('C30', 'Update interval is the bounded time since the last accepted call',
  'The first call returns the default interval, 1 / max(0.1, frequency). A later call returns the time since the last accepted call, at most 10 seconds, and is a number from 0 to 10 also when the clock stands still. A time before the last accepted one throws invalid_argument and changes nothing.',
  ['inputs', 'histories'], 'up to 4 (thorough 5) calls at any times, any frequency',
  'The tests make two calls with fixed times.',
  [KS2 + 'update_interval.cpp', KH2 + 'update_interval.hpp'], [('UpdateInterval::Compute, ComputeInterval', KS2 + 'update_interval.cpp')],
  [E(EK, 'h_interval', 'real', ['first', 'back', 'forward'], '1..4 (thorough 1..5) calls'), E(EK, 'h_interval_ieee', 'fp', ['still', 'moved'], 'two calls, times between 0 and 1e10')])
P('C31', 'Height and tilt filters are the variance-weighted mean and stay numbers',
  'The one-dimensional filter starts at its first observation with that variance. Each later observation moves the state to the mean weighted by the inverse variances, after the state variance has grown by (deviation x elapsed time) squared. Finite observations never turn the state into NaN, also when both variances are zero; init restarts at the given value.',
  ['inputs', 'histories'], 'up to 2 (thorough 3) observations of any real value, positive deviation and time; 3 (thorough 4) observations with chosen deviations and times; IEEE for the zero variances',
  'The tests use none of this class beyond the build.',
  [KH2 + 'ekf_localizer.hpp'], [('Simple1DFilter', KH2 + 'ekf_localizer.hpp')],
  [E(EK, 'h_filter1d', 'real', ['first', 'later'], '1..2 (thorough 1..3) observations'), E(EK, 'h_filter1d_history', 'real', ['end'], '3 (thorough 3..4) observations in [-1, 1], three deviations, 0 or 1 s apart'), E(EK, 'h_filter1d_init', 'real', ['end'], 'two restarts'), E(EK, 'h_filter1d_number', 'fp', ['end'], 'two observations in [-1e6, 1e6], deviations 0, 1 or 2')])
P('C32', 'Every waiting measurement is fused once per tick, with the right state and noise',
  'Update offers each waiting message once, in order of arrival, for smoothing_steps updates; it is fused iff its delay step is below the horizon, it is finite, and the Mahalanobis distance between it and the state kept for its stamp, under the latest covariance of the measured components, is within the gate, and a message refused or failing never keeps a later one from being fused. Fusion passes the measurement, its matrix, its noise times the smoothing steps and its delay step to the filter, with the pose yaw turned to within half a turn of the kept yaw. Clear drops all waiting messages.',
  ['inputs', 'histories'], 'up to 3 (thorough 4) messages arriving over 3 (thorough 4) ticks, one of any kind (valid, gated out, too late, failing in the filter); any values, stamps, covariances and gate for a single message',
  'The tests call the helper functions only; nothing tests an update with waiting messages.',
  [KS2 + 'pose_measurement.cpp', KS2 + 'twist_measurement.cpp', KH2 + 'pose_measurement.hpp', KH2 + 'twist_measurement.hpp'], [('PoseMeasurement::Update, Push, Clear', KS2 + 'pose_measurement.cpp'), ('TwistMeasurement::Update, Push, Clear', KS2 + 'twist_measurement.cpp')],
  [E(EN, 'h_pose_rounds', 'real', ['cleared', 'fused'], '1..3 (thorough 1..4) messages, 3 (4) ticks, 1..3 smoothing steps'), E(EN, 'h_twist_rounds', 'real', ['cleared', 'fused'], 'as for poses'), E(EN, 'h_pose_many', 'real', ['fused', 'done'], '12 (thorough 25) messages, 5 (10) smoothing steps'), E(EN, 'h_twist_many', 'real', ['fused', 'done'], 'as for poses'), E(EN, 'h_pose_values', 'real', ['refused', 'fused', 'too-late'], 'one message, horizon 1..3'),
   E(EN, 'h_pose_gate', 'real', ['inside', 'outside'], 'one message, delay 0..1, three yaws, one latest covariance'), E(EN, 'h_twist_values', 'real', ['outside', 'fused', 'too-late'], 'one message, horizon 1..3, one latest covariance'), E(EN, 'h_not_finite', 'fp', ['end'], 'one NaN or infinite value, one finite message in [-1, 1]')],
  assumptions=['the time-delay Kalman filter is a recorder that returns arbitrary kept states (its own properties are C24 and C25)'])
P('C33', 'EKF node: one prediction, fusion and publication per tick from the initial pose on',
  'The first initial pose (message position plus the looked-up translation, sum of both yaws, variances of the message) starts the filter, and a later one replaces it and drops all waiting measurements; without a transform an initial pose is ignored. Nothing is published before the first pose or when the clock goes back. Otherwise each tick predicts once with the elapsed time, fuses waiting poses, then twists, and publishes one odometry message and one equal transform: x, y, yaw + bias, twist and covariances from the filter, height and tilt from the filtered pose messages.',
  ['inputs', 'histories'], 'any initial pose, transform, states and parameters in single ticks; up to 3 (thorough 4) ticks at any times; up to 2 (thorough 3) heights',
  'The node itself has no tests.',
  [KS2 + 'ekf_localizer.cpp', KH2 + 'ekf_localizer.hpp', KS2 + 'tf.cpp'], [('EKFLocalizer::timerCallback, callbackInitialPose, callbackPoseWithCovariance, callbackTwistWithCovariance, updateSimple1DFilters, publishEstimateResult', KS2 + 'ekf_localizer.cpp'), ('TransformListener', KS2 + 'tf.cpp')],
  [E(EN, 'h_make_pose', 'real', ['end'], 'any position and angles'), E(EN, 'h_initial_pose', 'real', ['ignored', 'started'], 'two map frames, three source frames, 0..2 failing lookups or none succeeding'), E(EN, 'h_tick', 'real', ['end'], 'one tick, 0..1 pose and twist'), E(EN, 'h_clock', 'real', ['predicted', 'back'], '1..3 (thorough 1..4) ticks'),
   E(EN, 'h_restart', 'real', ['end'], '0..2 waiting poses and twists'), E(EN, 'h_height', 'real', ['end'], '1 (thorough 1..2) or 13 (26) pose messages'), E(EN, 'h_tilt', 'real', ['end'], 'nine tilts about x or y'), E(EN, 'h_ekf_program', 'real', ['end'], '0..2 ticks')],
  assumptions=['the time-delay Kalman filter is a recorder that returns arbitrary states (its own properties are C24 and C25)'])
