KA = 'kalman'
unit(KA, LIB, 'kalman_filter/src/**/*.cpp')
KH = 'kalman_filter/include/kalman_filter/'
KS = 'kalman_filter/src/'
P('C24', 'Kalman filter predict and update follow the Kalman equations',
  'Predict turns state x and covariance P into A x + B u and A P A\' + Q, with the stored or the given matrices. Update solves K (R + C P C\') = P C\', moves the state by K (y - C x) and the covariance to P - K C P, which keeps it symmetric and positive semidefinite and grows no variance; a gain that is NaN or infinite throws invalid_argument and leaves state and covariance as they were. Init replaces state and covariance.',
  ['inputs'], 'any real states, matrices, inputs and measurements of the stated sizes; any IEEE measurement noise for the refusal',
  'The tests use one system with fixed numbers and no singular or invalid gain.',
  [KS + 'kalman_filter.cpp', KS + 'matrix.cpp', KH + 'kalman_filter.hpp'], [('KalmanFilter::predict, update, init', KS + 'kalman_filter.cpp'), ('calcKalmanGain, updateState, updateCovariance, predictNextState, predictNextCovariance', KH + 'kalman_filter.hpp')],
  [E(KA, 'h_predict', 'real', ['end'], 'state size 1..2 (thorough 1..3), 1..2 inputs'), E(KA, 'h_gain', 'real', ['end'], '1 measurement of 1..2 states; 2 measurements of 2 states, fixed C'),
   E(KA, 'h_update', 'real', ['end'], 'state size 1..2 (thorough 1..3), one measurement'), E(KA, 'h_covariance_valid', 'real', ['end'], '2 states, one measurement, three measurement rows'),
   E(KA, 'h_invalid_gain', 'fp', ['refused', 'updated'], '1 state, prior variance 0, 1 or -2, any double as noise, state and measurement'), E(KA, 'h_zero_elements', 'real', ['end'], 'shapes up to 2x2')])
P('C25', 'Time-delay filter equals the Kalman filter on the augmented state',
  'The filter keeps the last n states: all start at x0 with block-diagonal covariance P0; predict shifts them by one step with the covariance of the augmented model, so getX(k) is the state k predictions ago. A measurement delayed by k steps corrects every kept state through its cross-covariance with state k; a delay of n or more, or a gain that is NaN or infinite, throws invalid_argument and changes nothing.',
  ['inputs', 'histories'], 'any real states, matrices and measurements; 1..3 (thorough 4) kept steps of 1..2 components; up to 4 (thorough 5) predictions; every delay',
  'The tests compare a single prediction and update with fixed numbers.',
  [KS + 'time_delay_kalman_filter.cpp', KH + 'time_delay_kalman_filter.hpp', KH + 'kalman_filter.hpp'], [('TimeDelayKalmanFilter, initX, initP, updateX, updateP, makeMeasurementMatrix, PredictWithDelay, UpdateWithDelay', KS + 'time_delay_kalman_filter.cpp')],
  [E(KA, 'h_delay_init', 'real', ['end']), E(KA, 'h_delay_predict', 'real', ['end']), E(KA, 'h_delay_history', 'real', ['end']), E(KA, 'h_delay_matrix', 'real', ['end']),
   E(KA, 'h_delay_update', 'real', ['refused', 'updated']), E(KA, 'h_delay_sequence', 'real', ['refused', 'updated']), E(KA, 'h_delay_long', 'real', ['refused', 'updated'], '5 or 8 (thorough 16) kept steps, 12 (30) predictions, an update after every third; fixed covariances'),
   E(KA, 'h_delay_invalid_gain', 'fp', ['refused', 'updated'], '1 kept step of 1 component, prior variance 0, 1 or -2, any double as noise, state and measurement')])
