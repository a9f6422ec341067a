// EKF localizer: the functions and classes around the filter.
#include "common.hpp"
#include "ros_stub.hpp"
#include <climits>
#include <optional>
#include <rclcpp/rclcpp.hpp>
#include <Eigen/Core>
#include <Eigen/LU>
#include <queue>
#include "ekf_localizer/aged_message_queue.hpp"
#include "ekf_localizer/check.hpp"
#include "ekf_localizer/covariance.hpp"
#include "ekf_localizer/delay.hpp"
#include "ekf_localizer/mahalanobis.hpp"
#include "ekf_localizer/state_transition.hpp"
#include "ekf_localizer/state_index.hpp"
#include "ekf_localizer/string.hpp"
#include "ekf_localizer/update_interval.hpp"
#include "ekf_localizer/ekf_localizer.hpp"
using Eigen::MatrixXd; using Eigen::VectorXd; using Eigen::Vector3d; using Eigen::Matrix3d;
double SquaredMahalanobis(const VectorXd & x, const VectorXd & y, const MatrixXd & C);
static std::shared_ptr<rclcpp::Node> g_node;
static Warning warning() { g_node = std::make_shared<rclcpp::Node>("n"); vh::g_warns = vh::g_errors = vh::g_infos = 0; vh::g_log.clear(); vh::g_bad_logs = 0; return Warning(g_node.get()); }
// ------------------------------------------------------------- message queue
extern "C" void h_queue() {                           // every sequence of pushes, pops and clears, against a reference queue
  const int max_age = vchoose("max_age", TIER(4, 5)), n = vchoose("operations", TIER(6, 8)); AgedMessageQueue<int> q(max_age); std::vector<std::pair<int, int>> ref; int next = 1;
  for (int i = 0; i < n; i++) {
    const int op = vchoose(vname("op", i).c_str(), ref.empty() ? 2 : 3);
    if (op == 0) { q.push(next); ref.push_back({next, 0}); next++; }
    else if (op == 1) { q.clear(); ref.clear(); vreach("cleared"); }
    else { const int m = q.pop(); auto f = ref.front(); ref.erase(ref.begin()); vassert(m == f.first, "first-in-first-out"); if (++f.second < max_age) { ref.push_back(f); vreach("again"); } else vreach("expired"); }
    vassert(q.size() == ref.size(), "size");
  }
  std::vector<int> pops(next, 0); int left = 0; for (const auto & r : ref) left += std::max(1, max_age - r.second);
  for (int i = 0; i < left; i++) { vassert(q.size() > 0, "still-queued"); const int m = q.pop(); vassert(m > 0 && m < next, "a-pushed-message"); pops[m]++; }
  vassert(q.size() == 0, "drained"); for (const auto & r : ref) vassert(pops[r.first] == std::max(1, max_age - r.second), "returned-once-per-step-of-its-age");
}
extern "C" void h_queue_long() {                      // many messages at once
  const int max_age = 1 + vchoose("max_age", TIER(3, 5)), n = 150, first = 10 * vchoose("first", 3); AgedMessageQueue<int> q(max_age); std::vector<std::pair<int, int>> ref; int next = 1;
  const auto pop = [&] { const int m = q.pop(); auto f = ref.front(); ref.erase(ref.begin()); vassert(m == f.first, "first-in-first-out"); if (++f.second < max_age) ref.push_back(f); vassert(q.size() == ref.size(), "size"); };
  const auto push = [&] { const int m = (int)sym_int(vname("message", next++).c_str(), -1000000, 1000000); q.push(m); ref.push_back({m, 0}); };
  for (int i = 0; i < n; i++) push(); for (int i = 0; i < first; i++) pop(); for (int i = 0; i < n; i++) push(); vassert(q.size() == ref.size(), "size");
  while (!ref.empty()) pop(); vassert(q.size() == 0, "drained"); vreach("end");
}
// ------------------------------------------------------------------- checks
extern "C" void h_check_time() {
  const Warning w = warning(); const double d = sym_double("delay"); const bool ok = CheckDelayTime(w, d), good = vdecide(d >= 0.);
  vassert(ok == good, "delay-is-valid-iff-not-negative"); vassert(vh::g_warns == (good ? 0 : 1), "one-warning-iff-invalid"); vreach(good ? "good" : "bad");
}
extern "C" void h_check_step() {
  const Warning w = warning(); const int s = (int)sym_int("step", INT_MIN, INT_MAX), m = (int)sym_int("max", INT_MIN, INT_MAX); const bool ok = CheckDelayStep(w, s, m), good = vdecide(s < m);
  vassert(ok == good, "step-is-valid-iff-below-the-maximum"); vassert(vh::g_warns == (good ? 0 : 1), "one-warning-iff-invalid"); vreach(good ? "good" : "bad");
}
extern "C" void h_check_finite() {                    // IEEE
  const Warning w = warning(); const int r = vchoose("rows", 3), c = 1 + vchoose("cols", 2); MatrixXd M(r, c); bool fin = true;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { M(i, j) = sym_d("m", c * i + j); fin = vand(fin, M(i, j) - M(i, j) == 0.); }
  const bool ok = CheckMeasurementMatrixNanInf(w, M), good = vdecide(fin);
  vassert(ok == good, "valid-iff-every-element-is-finite"); vassert(vh::g_warns == (good ? 0 : 1), "one-warning-iff-invalid"); vreach(good ? "good" : "bad");
}
extern "C" void h_check_frame() {
  static const char * F[5] = {"map", "", "base_link", "map ", "m"}; const std::string a = F[vchoose("frame", 5)], b = F[vchoose("expected", 5)]; const Warning w = warning();
  const bool ok = CheckFrameId(w, a, b), good = a == b; vassert(ok == good, "valid-iff-equal"); vassert(vh::g_warns == (good ? 0 : 1), "one-warning-iff-invalid"); vreach(good ? "good" : "bad");
}
extern "C" void h_log_text() {                        // whatever the message contains, it is logged as it is
  vh::g_keep_logs = true; const Warning w = warning(); std::string m; const int n = vchoose("length", TIER(3, 4)); static const char A[4] = {'%', 's', 'a', '%'};
  for (int i = 0; i < n; i++) m += A[vchoose(vname("char", i).c_str(), 3)];
  switch (vchoose("level", 5)) { case 0: w.Info(m); break; case 1: w.Warn(m); break; case 2: w.Error(m); break; case 3: w.WarnThrottle(1000, m); break; default: CheckFrameId(w, m, "expected"); m = "frame_id is " + m + " while expected is expected"; }
  vassert(vh::g_bad_logs == 0, "the-message-is-no-format"); vassert(vh::g_log.size() == 1 && vh::g_log[0].find(m.substr(0, m.find(" while"))) != std::string::npos, "the-message-is-logged-as-it-is"); vreach("end");
}
extern "C" void h_slash() {
  const int n = vchoose("length", TIER(4, 5)); std::string s; for (int i = 0; i < n; i++) s += vchoose(vname("slash", i).c_str(), 2) ? '/' : (char)('a' + i);
  const std::string r = EraseBeginSlash(s); vassert(r == (!s.empty() && s[0] == '/' ? s.substr(1) : s), "one-leading-slash-removed"); vreach("end");
}
// -------------------------------------------------------------------- delay
extern "C" void h_delay_step() {                      // the nearest step, halves up; negative delays count as none
  const double delay = sym_range("delay", -1, TIER(6, 12)), dt = sym_range("dt", 0.5, 20); const int s = ComputeDelayStep(delay, dt);
  if (vdecide(delay <= 0)) { vassert(s == 0, "no-delay-for-stamps-in-the-future"); vreach("none"); return; }
  const double k = s; vassert(vand(s >= 0, vand((k - 0.5) * dt <= delay, delay < (k + 0.5) * dt)), "nearest-step"); vreach("some");
}
extern "C" void h_delay_step_total() {                // IEEE, any delay and any interval of at least zero
  const double delay = sym_double("delay"), dt = vchoose("still", 2) ? 0. : sym_double("dt"); vassume(vand(dt <= 11, vor(dt > 0, 1. / dt > 1))); const int m = (int)sym_int("max", 1, 100000); const Warning w = warning();
  const int s = ComputeDelayStep(delay, dt); vassert(s >= 0, "never-negative");
  const double q = delay / dt; if (CheckDelayStep(w, s, m)) { vassert(!vand(delay > 0, q >= m + 0.5), "a-delay-beyond-the-horizon-is-refused"); vreach("kept"); } else { vassert(vand(delay > 0, q >= 0.49), "a-stamp-in-the-future-is-kept"); vreach("refused"); }
}
extern "C" void h_delay_time() { const double a = sym_double("now"), b = sym_double("stamp"); vassert_eq(ComputeDelayTime(rclcpp::Time(a), rclcpp::Time(b)) * 1e9, a - b, "seconds-since-the-stamp"); vreach("end"); }
// --------------------------------------------------------------------- gate
static VectorXd any_vec(const char * n, int d) { VectorXd v(d); for (int i = 0; i < d; i++) v(i) = sym_d(n, i); return v; }
static MatrixXd any_spd(int d) {
  MatrixXd C = MatrixXd::Zero(d, d);
  if (d == 1) { C(0, 0) = sym_double("c"); vassume(C(0, 0) > 0); }
  else if (d == 2) { C(0, 0) = sym_double("c0"); C(1, 1) = sym_double("c1"); C(0, 1) = C(1, 0) = sym_double("c01"); vassume(vand(C(0, 0) > 0, C(0, 0) * C(1, 1) > C(0, 1) * C(0, 1))); }
  else C << 2, 1, 0, 1, 2, 0.5, 0, 0.5, 1;
  return C;
}
extern "C" void h_mahalanobis() {                     // C u = d, distance² = d u
  const int d = 1 + vchoose("d", 3); const VectorXd x = any_vec("x", d), y = any_vec("y", d); const MatrixXd C = any_spd(d); const double m = SquaredMahalanobis(x, y, C);
  const VectorXd e = x - y;
  if (d == 1) vassert_eq(m * C(0, 0), e(0) * e(0), "squared-distance");
  else if (d == 2) { const double det = C(0, 0) * C(1, 1) - C(0, 1) * C(0, 1); vassert_eq(m * det, C(1, 1) * e(0) * e(0) - 2 * C(0, 1) * e(0) * e(1) + C(0, 0) * e(1) * e(1), "squared-distance"); }
  else { static const double A[3][3] = {{1.75, -1, 0.5}, {-1, 2, -1}, {0.5, -1, 3}}; double s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += A[i][j] * e(i) * e(j); vassert_eq(m * 2.5, s, "squared-distance"); }
  vreach("end");
}
extern "C" void h_gate() {
  const int d = 1 + vchoose("d", 2); const VectorXd x = any_vec("x", d), y = any_vec("y", d); MatrixXd C = any_spd(1); if (d == 2) { const double c = C(0, 0); C = MatrixXd(2, 2); C << c, 0, 0, 2; }
  const double lim = sym_double("limit"); const Warning w = warning(); const bool ok = MahalanobisGate(lim, x, y, C); const bool ok2 = CheckMahalanobisGate(w, lim, x, y, C);
  const double e0 = x(0) - y(0), e1 = d == 2 ? x(1) - y(1) : 0.; const bool in = vdecide(2 * e0 * e0 + C(0, 0) * e1 * e1 <= 2 * lim * lim * C(0, 0));
  vassert(ok == in, "passes-iff-distance-at-most-the-limit"); vassert(ok2 == in, "same-decision"); vassert(vh::g_warns == (in ? 0 : 1), "one-warning-iff-outside"); vreach(in ? "inside" : "outside");
}
// --------------------------------------------------------- state transition
static Vector6d any_x() { Vector6d x; for (int i = 0; i < 6; i++) x(i) = sym_d("x", i); return x; }
extern "C" void h_transition() {
  const Vector6d x = any_x(); const double dt = sym_double("dt"), yaw = x(2) + x(3), s = std::sin(yaw), c = std::cos(yaw); const Vector6d n = predictNextState(x, dt); const Matrix6d A = createStateTransitionMatrix(x, dt);
  vassert_eq(n(0), x(0) + x(4) * c * dt, "x-advances-along-the-heading"); vassert_eq(n(1), x(1) + x(4) * s * dt, "y-advances-along-the-heading");
  const double t = x(2) + x(5) * dt; vassert(vand(n(2) >= -3.1415926536, n(2) <= 3.1415926536), "yaw-within-half-a-turn"); vassert_eq(std::sin(n(2)), std::sin(t), "same-heading"); vassert_eq(std::cos(n(2)), std::cos(t), "same-heading");
  for (int i = 3; i < 6; i++) vassert_eq(n(i), x(i), "bias-and-velocities-kept");
  // the derivative of each component by each state; sin' = cos, cos' = -sin
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
    double d = i == j ? 1. : 0.;
    if (i == 0 && (j == 2 || j == 3)) d = -x(4) * s * dt; if (i == 0 && j == 4) d = c * dt;
    if (i == 1 && (j == 2 || j == 3)) d = x(4) * c * dt; if (i == 1 && j == 4) d = s * dt;
    if (i == 2 && j == 5) d = dt;
    vassert_eq(A(i, j), d, "transition-matrix-is-the-derivative");
  }
  vreach("end");
}
extern "C" void h_normalize_yaw() { const double a = sym_double("yaw"), n = normalizeYaw(a); vassert(vand(n >= -3.1415926536, n <= 3.1415926536), "within-half-a-turn"); vassert_eq(std::sin(n), std::sin(a), "same-sine"); vassert_eq(std::cos(n), std::cos(a), "same-cosine"); vreach("end"); }
extern "C" void h_noise() {
  const double a = sym_double("a"), b = sym_double("b"), c = sym_double("c"), d = sym_double("d"), dt = sym_double("dt"); const Eigen::Vector4d v = DefaultVariance(a, b, c, d).TimeScaledVariances(dt); const double e[4] = {a, b, c, d};
  for (int i = 0; i < 4; i++) vassert_eq(v(i), e[i] * e[i] * dt * dt, "variance-is-the-squared-deviation-over-the-interval");
  const Matrix6d Q = processNoiseCovariance(v); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) vassert_eq(Q(i, j), i == j && i >= 2 ? v(i - 2) : 0., "diagonal-noise-of-yaw-bias-and-velocities"); vreach("end");
}
// -------------------------------------------------------- covariance mapping
static std::array<double, 36> any_36(const char * n) { std::array<double, 36> a; for (int i = 0; i < 36; i++) a[i] = sym_d(n, i); return a; }
extern "C" void h_covariance() {
  Matrix6d P; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) P(i, j) = sym_d("p", 6 * i + j);
  const auto a = EKFCovarianceToPoseMessageCovariance(P), b = EKFCovarianceToTwistMessageCovariance(P); static const int pi[6] = {0, 1, -1, -1, -1, 2}, ti[6] = {4, -1, -1, -1, -1, 5};
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { vassert_eq(a[6 * i + j], pi[i] < 0 || pi[j] < 0 ? 0. : P(pi[i], pi[j]), "pose-covariance-of-x-y-yaw"); vassert_eq(b[6 * i + j], ti[i] < 0 || ti[j] < 0 ? 0. : P(ti[i], ti[j]), "twist-covariance-of-vx-wz"); }
  const Matrix3d pc = PoseCovariance(P); const Eigen::Matrix2d tc = TwistCovariance(P); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vassert_eq(pc(i, j), P(i, j), "pose-block"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vassert_eq(tc(i, j), P(4 + i, 4 + j), "twist-block");
  vreach("end");
}
extern "C" void h_measurement() {
  const auto c = any_36("c"); const size_t k = vchoose("smoothing", 6); const Matrix3d R = PoseMeasurementCovariance(c, k); const Eigen::Matrix2d S = TwistMeasurementCovariance(c, k); static const int pi[3] = {0, 1, 5}, ti[2] = {0, 5};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vassert_eq(R(i, j), c[6 * pi[i] + pi[j]] * (double)k, "pose-noise-times-smoothing-steps"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vassert_eq(S(i, j), c[6 * ti[i] + ti[j]] * (double)k, "twist-noise-times-smoothing-steps");
  const Vector6d x = any_x(); const VectorXd a = PoseMeasurementMatrix() * x, b = TwistMeasurementMatrix() * x; const Vector3d p = GetPoseState(x); const Eigen::Vector2d t = GetTwistState(x);
  for (int i = 0; i < 3; i++) { vassert_eq(a(i), x(i), "pose-measures-x-y-yaw"); vassert_eq(p(i), x(i), "pose-state"); } for (int i = 0; i < 2; i++) { vassert_eq(b(i), x(4 + i), "twist-measures-vx-wz"); vassert_eq(t(i), x(4 + i), "twist-state"); }
  vreach("end");
}
extern "C" void h_measurement_vector() {              // a planar rotation (0, 0, z, w)
  geometry_msgs::msg::Twist t; t.linear.x = sym_double("vx"); t.linear.y = sym_double("vy"); t.linear.z = sym_double("vz"); t.angular.x = sym_double("wx"); t.angular.y = sym_double("wy"); t.angular.z = sym_double("wz");
  const Eigen::Vector2d m = TwistMeasurementVector(t); vassert_eq(m(0), t.linear.x, "forward-velocity"); vassert_eq(m(1), t.angular.z, "yaw-rate");
  geometry_msgs::msg::Pose p; p.position.x = sym_double("x"); p.position.y = sym_double("y"); p.position.z = sym_double("zz"); p.orientation.x = p.orientation.y = 0; p.orientation.z = sym_double("z"); p.orientation.w = sym_double("w"); const double n = p.orientation.z * p.orientation.z + p.orientation.w * p.orientation.w; vassume(n > 0);
  const Vector3d y = PoseMeasurementVector(p); vassert_eq(y(0), p.position.x, "x"); vassert_eq(y(1), p.position.y, "y"); vassert(vand(y(2) >= -3.1415926536, y(2) <= 3.1415926536), "yaw-within-half-a-turn");
  vassert_eq(std::sin(y(2)) * n, 2 * p.orientation.z * p.orientation.w, "yaw-of-the-orientation"); vassert_eq(std::cos(y(2)) * n, p.orientation.w * p.orientation.w - p.orientation.z * p.orientation.z, "yaw-of-the-orientation"); vreach("end");
}
Vector6d InitState(const double x, const double y, const double yaw); Matrix6d InitCovariance(const std::array<double, 36> & c); double InitYawBias(const bool enable, const double v);
extern "C" void h_init() {
  const double x = sym_double("x"), y = sym_double("y"), w = sym_double("w"); const Vector6d s = InitState(x, y, w); const double e[6] = {x, y, w, 0, 0, 0}; for (int i = 0; i < 6; i++) vassert_eq(s(i), e[i], "initial-state");
  const auto c = any_36("c"); const Matrix6d P = InitCovariance(c); const double d[6] = {c[0], c[7], c[35], 0.0001, 0.01, 0.01}; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) vassert_eq(P(i, j), i == j ? d[i] : 0., "initial-covariance");
  const double b = sym_double("b"); vassert_eq(InitYawBias(true, b), b, "bias-estimated"); vassert_eq(InitYawBias(false, b), 0., "bias-fixed"); vreach("end");
}
// ---------------------------------------------------------- update interval
extern "C" void h_interval() {                        // every sequence of clock values
  const double f0 = sym_double("frequency"); UpdateInterval u(f0); double last = 0; const int n = 1 + vchoose("calls", TIER(4, 5)); vassert_eq(ComputeInterval(f0) * vite(f0 > 0.1, f0, 0.1), 1., "interval-of-a-frequency");
  for (int i = 0; i < n; i++) {
    const double t = sym_d("t", i); double dt = -1; const bool ok = returns_or_throws<std::invalid_argument>([&] { dt = u.Compute(t); });
    if (i == 0) { vassert(ok, "first-call-succeeds"); vassert_eq(dt * vite(f0 > 0.1, f0, 0.1), 1., "first-interval-from-the-default-frequency"); last = t; vreach("first"); continue; }
    vassert(ok == vdecide(t >= last), "refused-iff-the-clock-went-back"); if (!ok) { vreach("back"); continue; }
    if (vdecide(t > last)) { vassert_eq(dt, vite(t - last < 10, t - last, 10), "time-since-the-last-accepted-call-at-most-ten-seconds"); vreach("forward"); } last = t;
  }
}
extern "C" void h_interval_ieee() {                   // IEEE: also when the clock stands still, the interval is a number from 0 to 10
  UpdateInterval u(50.); const double t = sym_double("t0"), s = sym_double("t1"); vassume(vand(vand(t > 0, t < 1e10), vand(s >= t, s < 1e10))); u.Compute(t); const double dt = u.Compute(s);
  vassert(vand(dt >= 0, dt <= 10.0000001), "an-interval-from-0-to-10-seconds"); if (vdecide(s == t)) { vassert(dt == 0, "no-time-passed"); vreach("still"); } else vreach("moved");
}
// ---------------------------------------------------------------- 1d filter
extern "C" void h_filter1d() {
  Simple1DFilter f; const double p = sym_double("process"); f.set_proc_stddev(p); vassert_eq(f.get_x(), 0., "zero-before-the-first-observation"); const int n = 1 + vchoose("observations", TIER(2, 3)); double x = 0, v = 0, t = 0;
  for (int i = 0; i < n; i++) {
    const double z = sym_d("z", i), s = sym_d("s", i), ti = sym_d("t", i); vassume(s > 0); f.update(z, s, rclcpp::Time(ti));
    if (i == 0) { x = z; v = s * s; vreach("first"); } else { const double dt = (ti - t) / 1e9, pv = v + p * dt * p * dt, k = pv / (pv + s * s); x = x + k * (z - x); v = (1 - k) * pv; vreach("later"); }
    vassert_eq(f.get_x(), x, "variance-weighted-mean"); t = ti;
  }
}
extern "C" void h_filter1d_history() {                // a longer history with chosen deviations and times
  Simple1DFilter f; f.set_proc_stddev(1.0); const int n = 3 + vchoose("observations", TIER(1, 2)); double x = 0, v = 0; long t = 0; static const double S[3] = {1, 4, 0.5};
  for (int i = 0; i < n; i++) {
    const double z = sym_d("z", i), s = S[vchoose(vname("s", i).c_str(), 3)]; const int dt = i == 0 ? 0 : vchoose(vname("dt", i).c_str(), 2); t += dt; f.update(z, s, rclcpp::Time(t * 1e9));
    if (i == 0) { x = z; v = s * s; } else { v += dt; const double k = v / (v + s * s); x = x + k * (z - x); v = (1 - k) * v; }
    const double e = f.get_x() - x, lim = 1e-6; bool in = vand(-1 <= z, z <= 1); vassume(in); vassert(vand(-lim < e, e < lim), "variance-weighted-mean");
  }
  vreach("end");
}
extern "C" void h_filter1d_init() { Simple1DFilter f; f.set_proc_stddev(sym_double("p")); for (int i = 0; i < 2; i++) { const double z = sym_d("z", i); f.init(z, sym_d("s", i), rclcpp::Time(sym_d("t", i))); vassert_eq(f.get_x(), z, "restarted-at-the-observation"); } vreach("end"); }
extern "C" void h_filter1d_number() {                 // IEEE: finite observations of finite deviation, zero included, never turn it into NaN
  Simple1DFilter f; f.set_proc_stddev(1.0); const int k = vchoose("case", 4); const double big = 1e6, z0 = sym_range("z0", -big, big), z1 = sym_range("z1", -big, big);
  static const double S[4][2] = {{0, 0}, {0, 1}, {1, 0}, {1, 2}}; const int same = vchoose("same_time", 2); f.update(z0, S[k][0], rclcpp::Time(0.)); f.update(z1, S[k][1], rclcpp::Time(same ? 0. : 1e9));
  const double x = f.get_x(); vassert(x == x, "stays-a-number"); vreach("end");
}
