// EKF localizer: measurement handling and the node, against a recording stand-in for the time-delay Kalman filter
// (which has properties of its own): every call is recorded, every answer is arbitrary.
#include "common.hpp"
#include "ros_stub.hpp"
#include <map>
#include <optional>
#include <rclcpp/rclcpp.hpp>
#include <Eigen/Core>
#include <Eigen/LU>
#include <queue>
#include "ekf_localizer/aged_message_queue.hpp"
#include "ekf_localizer/ekf_localizer.hpp"
#include "ekf_localizer/state_transition.hpp"
#include "ekf_localizer/covariance.hpp"
#include "rotationlib/quaternion.hpp"
using Eigen::MatrixXd; using Eigen::VectorXd; using Eigen::Vector3d;
#include "geometry_ref.hpp"
struct Call { int kind; VectorXd y; MatrixXd a, b; int delay; };        // 0 made, 1 predict, 2 update
static std::vector<Call> g_calls; static int g_throw = 0, g_symbolic = 1; static std::vector<VectorXd> g_x; static std::vector<std::pair<std::pair<int, int>, VectorXd>> g_h;
static MatrixXd latest_P(int v) { MatrixXd P = MatrixXd::Zero(6, 6); P << 2, 1, 0, .1, .2, .3, 1, 2, .5, .4, .6, .7, 0, .5, 1, .8, .9, .15, .1, .4, .8, 3, .25, .35, .2, .6, .9, .25, 1, .5, .3, .7, .15, .35, .5, 2; return P * (1 + v); }
static int version() { int v = 0; for (auto & c : g_calls) v += c.kind != 0; return v; }
static VectorXd x_at(int v) { while ((int)g_x.size() <= v) { VectorXd x = VectorXd::Zero(6); if (g_symbolic) for (int i = 0; i < 6; i++) x(i) = sym_d(vname("x_", (int)g_x.size()).append("_").c_str(), i); g_x.push_back(x); } return g_x[v]; }
static VectorXd h_at(int v, int k) {
  for (auto & h : g_h) if (h.first == std::make_pair(v, k)) return h.second;
  VectorXd x = VectorXd::Zero(6); if (g_symbolic) for (int i = 0; i < 6; i++) x(i) = sym_d((vname("h_", v) + vname("_", k) + "_").c_str(), i); g_h.push_back({{v, k}, x}); return x; }
TimeDelayKalmanFilter::TimeDelayKalmanFilter(const VectorXd & x, const MatrixXd & P, const int n) : x_(x), P_(P), max_delay_step_(n), dim_x_(x.size()) { g_calls.push_back({0, x, P, MatrixXd(), n}); }
VectorXd TimeDelayKalmanFilter::getLatestX() const { return x_at(version()); }
MatrixXd TimeDelayKalmanFilter::getLatestP() const { return latest_P(version()); }
VectorXd TimeDelayKalmanFilter::getX(const int k) const { vassert(k >= 0 && k < max_delay_step_, "only-kept-states-are-read"); return h_at(version(), k); }
void TimeDelayKalmanFilter::predict(const VectorXd & x, const MatrixXd & A, const MatrixXd & Q) { g_calls.push_back({1, x, A, Q, 0}); }
void TimeDelayKalmanFilter::update(const VectorXd & y, const MatrixXd & C, const MatrixXd & R, const int k) { vassert(k >= 0 && k < max_delay_step_, "only-kept-states-are-corrected"); g_calls.push_back({2, y, C, R, k}); if (g_throw > 0 && --g_throw == 0) throw std::invalid_argument("invalid gain"); }
static void reset() { g_calls.clear(); g_x.clear(); g_h.clear(); g_throw = 0; g_symbolic = 1; vh::params().clear(); vh::g_tf.clear(); vh::g_warns = vh::g_errors = 0; vh::g_lookups = vh::g_lookup_failures = 0; vh::g_lookup_available = true; vh::g_lookup = geometry_msgs::msg::TransformStamped(); }
static std::shared_ptr<TimeDelayKalmanFilter> filter(int n) { auto f = std::make_shared<TimeDelayKalmanFilter>(VectorXd::Zero(6), MatrixXd::Identity(6, 6), n); g_calls.clear(); return f; }
static std::shared_ptr<rclcpp::Node> g_node;
static Warning warning() { g_node = std::make_shared<rclcpp::Node>("n"); return Warning(g_node.get()); }
static void same(const MatrixXd & a, const MatrixXd & b, const char * l) { vassert(a.rows() == b.rows() && a.cols() == b.cols(), l); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) vassert_eq(a(i, j), b(i, j), l); }
static geometry_msgs::msg::PoseWithCovarianceStamped::SharedPtr pose_at(double x, double ns) { auto m = std::make_shared<geometry_msgs::msg::PoseWithCovarianceStamped>(); m->header.frame_id = "map"; m->header.stamp.ns = ns; m->pose.pose.position.x = x; for (int i = 0; i < 36; i++) m->pose.covariance[i] = 1 + i; return m; }
static geometry_msgs::msg::TwistWithCovarianceStamped::SharedPtr twist_at(double x, double ns) { auto m = std::make_shared<geometry_msgs::msg::TwistWithCovarianceStamped>(); m->header.frame_id = "base_link"; m->header.stamp.ns = ns; m->twist.twist.linear.x = x; for (int i = 0; i < 36; i++) m->twist.covariance[i] = 1 + i; return m; }
static const int PI3[3] = {0, 1, 5}, TI[2] = {0, 5};
static MatrixXd noise(const std::array<double, 36> & c, bool pose, double k) { MatrixXd R(pose ? 3 : 2, pose ? 3 : 2); for (int i = 0; i < R.rows(); i++) for (int j = 0; j < R.rows(); j++) R(i, j) = c[6 * (pose ? PI3 : TI)[i] + (pose ? PI3 : TI)[j]] * k; return R; }
static MatrixXd measures(bool pose) { MatrixXd C = MatrixXd::Zero(pose ? 3 : 2, 6); for (int i = 0; i < C.rows(); i++) C(i, pose ? i : 4 + i) = 1; return C; }
// --------------------------------------------- which measurements are fused when
// Messages arrive before chosen ticks. At every tick each waiting message is fused once, in order of arrival, for as many ticks as there are smoothing steps.
static const std::array<double, 36> & cov(const geometry_msgs::msg::PoseWithCovarianceStamped & m) { return m.pose.covariance; }
static const std::array<double, 36> & cov(const geometry_msgs::msg::TwistWithCovarianceStamped & m) { return m.twist.covariance; }
template<typename Q, typename Make> static void rounds(Q & q, Make make, bool pose, int smoothing, int ext) {
  const int n = vchoose("messages", TIER(3, 4)) + 1, ticks = TIER(3, 4), clear = vchoose("clear_before", ticks), odd = vchoose("odd", n), what = vchoose("kind", 4); std::vector<int> arrive(n), kind(n, 0), age(n, 0); std::vector<double> x(n); kind[odd] = what;
  auto ekf = filter(ext); const double now = 1e9, dt = 0.125; std::vector<decltype(make(0., 0.))> msg(n);
  for (int i = 0; i < n; i++) { arrive[i] = i == 0 ? vchoose("arrival", 2) : arrive[i - 1] + vchoose(vname("arrival", i).c_str(), 3 - arrive[i - 1]); x[i] = sym_range_i("x", i, -1, 1); }
  for (int i = 0; i < n; i++) msg[i] = make(kind[i] == 1 ? x[i] + 1000 : x[i], kind[i] == 2 ? now - 1e9 * dt * (ext + 1) : now - 1e9 * dt);
  g_symbolic = 0;
  for (int t = 0; t < ticks; t++) {
    for (int i = 0; i < n; i++) if (arrive[i] == t) q.Push(msg[i]);
    if (clear && clear == t) { q.Clear(); for (int i = 0; i < n; i++) if (arrive[i] <= t) age[i] = 100; vreach("cleared"); }
    g_calls.clear(); g_x.clear(); g_h.clear(); std::vector<int> want; for (int i = 0; i < n; i++) if (arrive[i] <= t && age[i]++ < smoothing && kind[i] != 1 && kind[i] != 2) want.push_back(i);
    g_throw = 0; for (std::size_t i = 0; i < want.size() && !g_throw; i++) if (kind[want[i]] == 3) g_throw = (int)i + 1;
    q.Update(ekf, rclcpp::Time(now), dt);
    vassert(g_calls.size() == want.size(), "each-waiting-measurement-is-fused-once-per-tick");
    for (std::size_t i = 0; i < want.size(); i++) { vassert(g_calls[i].kind == 2, "an-update"); vassert_eq(g_calls[i].y(0), x[want[i]], "in-order-of-arrival"); vassert(g_calls[i].delay == 1, "delay-step"); same(g_calls[i].b, noise(cov(*msg[want[i]]), pose, smoothing), "noise-times-smoothing-steps"); }
    if (!want.empty()) vreach("fused");
  }
}
extern "C" void h_pose_rounds() { reset(); const int s = 1 + vchoose("smoothing", 3); PoseMeasurement q(warning(), "map", 3, 100., s); rounds(q, pose_at, true, s, 3); }
extern "C" void h_twist_rounds() { reset(); const int s = 1 + vchoose("smoothing", 3); TwistMeasurement q(warning(), 3, 100., s); rounds(q, twist_at, false, s, 3); }
template<typename Q, typename Make> static void many(Q & q, Make make, bool pose, int smoothing) {   // a long queue: the i-th message is of kind (i + shift) % 4 or valid throughout
  const int n = TIER(12, 25), ext = 3, shift = vchoose("shift", 5); auto ekf = filter(ext); const double now = 1e9, dt = 0.125; std::vector<decltype(make(0., 0.))> msg(n); std::vector<double> x(n); std::vector<int> kind(n, 0), age(n, 0); g_symbolic = 0; int sent = 0;
  for (int i = 0; i < n; i++) { x[i] = sym_range_i("x", i, -1, 1); if (shift < 4) kind[i] = (i + shift) % 4; if (kind[i] == 3) kind[i] = 0; msg[i] = make(kind[i] == 1 ? x[i] + 1000 : x[i], kind[i] == 2 ? now - 1e9 * dt * (ext + 1) : now - 1e9 * dt * (i % ext)); }
  for (int t = 0; t < smoothing + 2; t++) {
    for (; sent < (t == 0 ? n - 2 : n); sent++) q.Push(msg[sent]);
    g_calls.clear(); g_x.clear(); g_h.clear(); std::vector<int> want; for (int i = 0; i < sent; i++) if (age[i]++ < smoothing && !kind[i]) want.push_back(i);
    q.Update(ekf, rclcpp::Time(now), dt); vassert(g_calls.size() == want.size(), "each-waiting-measurement-is-fused-once-per-tick");
    for (std::size_t i = 0; i < want.size(); i++) { vassert_eq(g_calls[i].y(0), x[want[i]], "in-order-of-arrival"); vassert(g_calls[i].delay == want[i] % ext, "delay-step"); same(g_calls[i].b, noise(cov(*msg[want[i]]), pose, smoothing), "noise-times-smoothing-steps"); }
    vreach(want.empty() ? "done" : "fused");
  }
}
extern "C" void h_pose_many() { reset(); const int s = TIER(5, 10); PoseMeasurement q(warning(), "map", 3, 100., s); many(q, pose_at, true, s); }
extern "C" void h_twist_many() { reset(); const int s = TIER(5, 10); TwistMeasurement q(warning(), 3, 100., s); many(q, twist_at, false, s); }
// ------------------------------------------------- what exactly is fused
#ifdef VH_SYM
static bool eq(double a, double b) { return a == b; }
#else
static bool eq(double a, double b) { return std::fabs(a - b) < 1e-6; }
#endif
extern "C" void h_pose_values() {
  reset(); const int ext = 1 + vchoose("horizon", 3); const double limit = sym_double("limit"), dt = 0.125, stamp = sym_range("stamp", -1e9, 3e9), now = sym_range("now", -1e9, 3e9); vassume(now - stamp < 1e9 * 0.125 * 4); const bool frame = vchoose("frame", 2);
  PoseMeasurement q(warning(), "map", ext, limit, 2); auto ekf = filter(ext); auto m = pose_at(sym_double("mx"), stamp); m->pose.pose.position.y = sym_double("my"); m->pose.pose.position.z = sym_double("mz"); for (int i = 0; i < 36; i++) m->pose.covariance[i] = sym_d("c", i); if (frame) m->header.frame_id = "odom";
  const double z = sym_double("qz"), w = sym_double("qw"); vassume(z * z + w * w > 0); auto & o = m->pose.pose.orientation; o.x = o.y = 0; o.z = z; o.w = w;
  q.Push(m); q.Update(ekf, rclcpp::Time(now), dt);
  if (g_calls.empty()) { vreach("refused"); if (g_h.empty()) { vassert(now - stamp >= (ext - 0.5) * dt * 1e9, "refused-only-beyond-the-horizon"); vreach("too-late"); return; } }
  vassert(g_h.size() == 1, "one-kept-state-compared"); const int k = g_h[0].first.second; const double d = vite(now > stamp, (now - stamp) / 1e9, 0); vassert(vand(d >= (k - 0.5) * dt, d < (k + 0.5) * dt), "state-at-the-time-of-the-stamp");
  const VectorXd h = g_h[0].second;
  if (!g_calls.empty()) {
    vassert(g_calls.size() == 1 && g_calls[0].kind == 2, "one-update"); const Call c = g_calls[0]; vassert(c.delay == k, "corrects-the-state-at-the-time-of-the-stamp"); vassert(c.y.size() == 3, "three-measurements"); vassert_eq(c.y(0), m->pose.pose.position.x, "x"); vassert_eq(c.y(1), m->pose.pose.position.y, "y");
    const double e = c.y(2) - h(2), yaw = tf2::getYaw(o); vassert(vand(e >= -3.1415926536, e <= 3.1415926536), "yaw-innovation-within-half-a-turn");
    const double u = std::atan2(std::sin(yaw), std::cos(yaw)) - h(2), v = yaw - h(2); const double s = std::sin(e), cc = std::cos(e);   // the same heading, whether or not the yaw was normalised first
    vassert(vor(vand(eq(s, std::sin(u)), eq(cc, std::cos(u))), vand(eq(s, std::sin(v)), eq(cc, std::cos(v)))), "yaw-of-the-message-up-to-full-turns");
    same(c.a, measures(true), "measures-x-y-yaw"); same(c.b, noise(m->pose.covariance, true, 2), "noise-times-smoothing-steps"); vreach("fused"); vassert(vh::g_warns == (int)frame + (vdecide(now < stamp) ? 1 : 0), "warns-about-frame-and-time-only"); }
}
extern "C" void h_pose_gate() {                       // the gate compares with the kept state at the stamp, latest covariance block, yaw innovation wrapped
  reset(); const double limit = sym_double("limit"); PoseMeasurement q(warning(), "map", 2, limit, 1); auto ekf = filter(2); const int k = vchoose("delay", 2); auto m = pose_at(sym_double("mx"), -1e9 * 0.125 * k); m->pose.pose.position.y = sym_double("my");
  static const double Z[3] = {0, 1, 0.8}, W[3] = {1, 0, -0.6}; const int r = vchoose("rotation", 3); m->pose.pose.orientation.z = Z[r]; m->pose.pose.orientation.w = W[r];
  q.Push(m); const VectorXd h = h_at(0, k); vassume(vand(h(2) >= -3, h(2) <= 3)); q.Update(ekf, rclcpp::Time(0.), 0.125);
  if (r) { if (g_calls.empty()) vreach("outside"); else vreach("inside"); return; }
  const double e[3] = {m->pose.pose.position.x - h(0), m->pose.pose.position.y - h(1), -h(2)}; static const double A[3][3] = {{1.75, -1, 0.5}, {-1, 2, -1}, {0.5, -1, 3}}; double s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += A[i][j] * e[i] * e[j];
  const bool in = vdecide(s <= 2.5 * limit * limit); vassert(g_calls.size() == (in ? 1 : 0), "fused-iff-within-the-gate"); vassert(vh::g_warns == (in ? 0 : 1), "one-warning-iff-outside"); vreach(in ? "inside" : "outside");
}
extern "C" void h_twist_values() {
  reset(); const int ext = 1 + vchoose("horizon", 3); const double limit = sym_double("limit"), dt = 0.125, stamp = sym_range("stamp", -1e9, 3e9), now = sym_range("now", -1e9, 3e9); vassume(now - stamp < 1e9 * 0.125 * 4); const bool frame = vchoose("frame", 2);
  TwistMeasurement q(warning(), ext, limit, 2); auto ekf = filter(ext); auto m = twist_at(sym_double("vx"), stamp); m->twist.twist.angular.z = sym_double("wz"); m->twist.twist.linear.y = sym_double("vy"); m->twist.twist.angular.x = sym_double("wx"); for (int i = 0; i < 36; i++) m->twist.covariance[i] = sym_d("c", i); if (frame) m->header.frame_id = "map";
  q.Push(m); q.Update(ekf, rclcpp::Time(now), dt);
  if (g_h.empty()) { vassert(g_calls.empty(), "not-fused"); vassert(now - stamp >= (ext - 0.5) * dt * 1e9, "refused-only-beyond-the-horizon"); vreach("too-late"); return; }
  vassert(g_h.size() == 1, "one-kept-state-compared"); const int k = g_h[0].first.second; const double d = vite(now > stamp, (now - stamp) / 1e9, 0); vassert(vand(d >= (k - 0.5) * dt, d < (k + 0.5) * dt), "state-at-the-time-of-the-stamp");
  const VectorXd h = g_h[0].second; const double a = m->twist.twist.linear.x - h(4), b = m->twist.twist.angular.z - h(5); const bool in = vdecide(2 * a * a - 2 * 0.5 * a * b + b * b <= 1.75 * limit * limit);   // block [1 .5; .5 2], determinant 1.75
  vassert(g_calls.size() == (in ? 1 : 0), "fused-iff-within-the-gate"); if (!in) { vreach("outside"); return; }
  const Call c = g_calls[0]; vassert(c.kind == 2 && c.delay == k, "corrects-the-state-at-the-time-of-the-stamp"); vassert(c.y.size() == 2, "two-measurements"); vassert_eq(c.y(0), m->twist.twist.linear.x, "forward-velocity"); vassert_eq(c.y(1), m->twist.twist.angular.z, "yaw-rate");
  same(c.a, measures(false), "measures-vx-wz"); same(c.b, noise(m->twist.covariance, false, 2), "noise-times-smoothing-steps"); vassert(vh::g_warns == (int)frame + (vdecide(now < stamp) ? 1 : 0), "warns-about-frame-and-time-only"); vreach("fused");
}
extern "C" void h_not_finite() {                      // IEEE: a NaN or infinite measurement is dropped, the next one is still fused
  reset(); g_symbolic = 0; const double inf = INFINITY, bad[3] = {NAN, inf, -inf}; const int b = vchoose("bad", 3), where = vchoose("component", 2), pose = vchoose("pose", 2); const double good = sym_range("good", -1, 1);
  auto ekf = filter(2);
  if (pose) { PoseMeasurement q(warning(), "map", 2, 1e6, 1); auto m = pose_at(0, 0); (where ? m->pose.pose.position.x : m->pose.pose.position.y) = bad[b]; q.Push(m); q.Push(pose_at(good, 0)); q.Update(ekf, rclcpp::Time(0.), 0.125); }
  else { TwistMeasurement q(warning(), 2, 1e6, 1); auto m = twist_at(0, 0); (where ? m->twist.twist.linear.x : m->twist.twist.angular.z) = bad[b]; q.Push(m); q.Push(twist_at(good, 0)); q.Update(ekf, rclcpp::Time(0.), 0.125); }
  vassert(g_calls.size() == 1, "only-the-finite-measurement-is-fused"); vassert(g_calls[0].y(0) == good, "the-finite-one"); vreach("end");
}
// --------------------------------------------------------------------- node
Eigen::Isometry3d MakePoseFromXYZRPY(const double x, const double y, const double z, const double roll, const double pitch, const double yaw);
using PoseMsg = geometry_msgs::msg::PoseWithCovarianceStamped; using TwistMsg = geometry_msgs::msg::TwistWithCovarianceStamped; using Odom = nav_msgs::msg::Odometry;
extern "C" void h_make_pose() {
  const double r = sym_double("roll"), p = sym_double("pitch"), y = sym_double("yaw"); const Vector3d t = any_v("t"); const Eigen::Isometry3d T = MakePoseFromXYZRPY(t(0), t(1), t(2), r, p, y); const Eigen::Matrix3d R = rot_unit(rotationlib::RPYToQuaternionXYZ(r, p, y));
  for (int i = 0; i < 3; i++) { vassert_eq(T.translation()(i), t(i), "translation"); for (int j = 0; j < 3; j++) vassert_eq(T.linear()(i, j), R(i, j), "rotation"); } vreach("end");
}
static int made() { int n = 0; for (auto & c : g_calls) n += c.kind == 0; return n; }
static void planar(geometry_msgs::msg::Quaternion & q, const char * n) { q.x = q.y = 0; q.z = sym_double((std::string(n) + "z").c_str()); q.w = sym_double((std::string(n) + "w").c_str()); vassume(q.z * q.z + q.w * q.w > 0); }
extern "C" void h_initial_pose() {
  reset(); static const char * F[2] = {"map", "/map"}, *G[3] = {"odom", "/odom", ""}; const int f = vchoose("frame", 2), g = vchoose("source", 3), fails = vchoose("failures", 4); vh::set_param("pose_frame_id", F[f]); vh::set_param("extend_state_step", 7);
  if (fails == 3) vh::g_lookup_available = false; else vh::g_lookup_failures = fails;
  auto & T = vh::g_lookup.transform; T.translation.x = sym_double("tx"); T.translation.y = sym_double("ty"); T.translation.z = sym_double("tz"); planar(T.rotation, "r");
  EKFLocalizer node("ekf", rclcpp::NodeOptions()); vassert(made() == 0, "no-filter-before-the-first-pose"); vh::g_timer(); vassert(vh::published<Odom>("ekf_odom").empty() && vh::g_tf.empty(), "nothing-published-before-the-first-pose");
  PoseMsg m; m.header.frame_id = G[g]; m.pose.pose.position.x = sym_double("px"); m.pose.pose.position.y = sym_double("py"); m.pose.pose.position.z = sym_double("pz"); planar(m.pose.pose.orientation, "q"); for (int i = 0; i < 36; i++) m.pose.covariance[i] = sym_d("c", i); for (int i = 2; i < 5; i++) vassume(m.pose.covariance[7 * i] > 0);
  vh::deliver("initialpose", m); vassert(vh::g_lookups >= 1 && vh::g_lookup_target == "map" && vh::g_lookup_source == (g == 2 ? "" : "odom"), "transform-between-the-frames-without-leading-slash");
  if (fails == 3) { vassert(made() == 0, "ignored-without-a-transform"); vassert(vh::g_errors >= 1, "and-reported"); vh::g_timer(); vassert(vh::published<Odom>("ekf_odom").empty(), "nothing-published-without-a-pose"); vreach("ignored"); return; }
  vassert(made() == 1 && g_calls.size() == 1, "one-filter"); const Call c = g_calls[0]; vassert(c.delay == 7 && c.y.size() == 6, "keeps-the-configured-number-of-steps");
  vassert_eq(c.y(0), m.pose.pose.position.x + T.translation.x, "x"); vassert_eq(c.y(1), m.pose.pose.position.y + T.translation.y, "y"); vassert_eq(c.y(2), tf2::getYaw(m.pose.pose.orientation) + tf2::getYaw(T.rotation), "yaw"); for (int i = 3; i < 6; i++) vassert_eq(c.y(i), 0., "no-bias-no-motion");
  const double d[6] = {m.pose.covariance[0], m.pose.covariance[7], m.pose.covariance[35], 0.0001, 0.01, 0.01}; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) vassert_eq(c.a(i, j), i == j ? d[i] : 0., "covariance-of-the-message"); vreach("started");
}
extern "C" void h_tick() {                            // one tick: predict, fuse poses, fuse twists, publish
  reset(); const double f = 4; vh::set_param("predict_frequency", f); vh::set_param("pose_smoothing_steps", 1); vh::set_param("twist_smoothing_steps", 1); vh::set_param("extend_state_step", 3); const bool bias = vchoose("bias", 2); vh::set_param("enable_yaw_bias_estimation", bias); const double q0 = sym_double("q0"), q1 = sym_double("q1"), q2 = sym_double("q2"), q3 = sym_double("q3"); vh::set_param("proc_stddev_yaw_c", q0); vh::set_param("proc_stddev_yaw_bias_c", q1); vh::set_param("proc_stddev_vx_c", q2); vh::set_param("proc_stddev_wz_c", q3);
  EKFLocalizer node("ekf", rclcpp::NodeOptions()); PoseMsg m; m.header.frame_id = "map"; m.pose.pose.position.z = sym_double("pz"); m.pose.covariance[14] = 1; vh::deliver("initialpose", m); vassert(made() == 1, "started");
  const int p = vchoose("pose", 2), t = vchoose("twist", 2); vh::g_now_ns = 5e9; for (int i = 0; i < 36; i++) m.pose.covariance[i] = i % 7 == 0;
  if (p) { PoseMsg a = *pose_at(1, 5e9); a.pose.pose.position.z = m.pose.pose.position.z; vh::deliver("in_pose_with_covariance", a); } if (t) vh::deliver("in_twist_with_covariance", *twist_at(2, 5e9));
  const VectorXd x0 = x_at(0), h1 = h_at(1, 0), h2 = h_at(2, 0); for (int i = 0; i < 6; i++) { vassume(vand(h1(i) >= -1, h1(i) <= 1)); vassume(vand(h2(i) >= -1, h2(i) <= 1)); }
  g_calls.clear(); vh::g_tf.clear(); vh::g_timer();
  vassert((int)g_calls.size() == 1 + p + t && g_calls[0].kind == 1, "one-prediction-then-the-updates"); if (p) vassert(g_calls[1].kind == 2 && g_calls[1].y.size() == 3, "poses-first"); if (t) vassert(g_calls[1 + p].kind == 2 && g_calls[1 + p].y.size() == 2, "then-twists");
  same(g_calls[0].y, predictNextState(Vector6d(x0), 1 / f), "predicted-state"); same(g_calls[0].a, createStateTransitionMatrix(Vector6d(x0), 1 / f), "transition-matrix"); const double q[6] = {0, 0, q0, bias ? q1 : 0., q2, q3}; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) vassert_eq(g_calls[0].b(i, j), i == j ? q[i] * q[i] * (1 / f) * (1 / f) : 0., "process-noise");
  const int v = 1 + p + t; const VectorXd x = x_at(v); const auto & out = vh::published<Odom>("ekf_odom"); vassert(out.size() == 1 && vh::g_tf.size() == 1, "one-odometry-and-one-transform"); const Odom & o = out[0];
  vassert(o.header.frame_id == "map" && o.child_frame_id == "base_link" && o.header.stamp.ns == 5e9, "frames-and-stamp"); vassert(vh::g_tf[0].header.frame_id == "map" && vh::g_tf[0].child_frame_id == "base_link" && vh::g_tf[0].header.stamp.ns == 5e9, "frames-and-stamp-of-the-transform");
  const Eigen::Isometry3d e = MakePoseFromXYZRPY(x(0), x(1), m.pose.pose.position.z, 0, 0, x(2) + x(3)); const auto ep = tf2::toMsg(e); const auto et = tf2::eigenToTransform(e).transform;
  vassert_eq(o.pose.pose.position.x, x(0), "x"); vassert_eq(o.pose.pose.position.y, x(1), "y"); vassert_eq(o.pose.pose.position.z, m.pose.pose.position.z, "height-of-the-pose-messages"); vassert_eq(vh::g_tf[0].transform.translation.x, x(0), "x"); vassert_eq(vh::g_tf[0].transform.translation.y, x(1), "y"); vassert_eq(vh::g_tf[0].transform.translation.z, m.pose.pose.position.z, "z");
  vassert_eq(o.pose.pose.orientation.z, ep.orientation.z, "yaw-and-bias"); vassert_eq(o.pose.pose.orientation.w, ep.orientation.w, "yaw-and-bias"); vassert_eq(vh::g_tf[0].transform.rotation.z, et.rotation.z, "yaw-and-bias"); vassert_eq(vh::g_tf[0].transform.rotation.w, et.rotation.w, "yaw-and-bias");
  vassert_eq(o.twist.twist.linear.x, x(4), "forward-velocity"); vassert_eq(o.twist.twist.angular.z, x(5), "yaw-rate"); for (double u : {o.twist.twist.linear.y, o.twist.twist.linear.z, o.twist.twist.angular.x, o.twist.twist.angular.y}) vassert_eq(u, 0., "planar-motion");
  const auto pc = EKFCovarianceToPoseMessageCovariance(latest_P(v)), tc = EKFCovarianceToTwistMessageCovariance(latest_P(v)); for (int i = 0; i < 36; i++) { vassert_eq(o.pose.covariance[i], pc[i], "pose-covariance"); vassert_eq(o.twist.covariance[i], tc[i], "twist-covariance"); }
  vreach("end");
}
extern "C" void h_clock() {                           // any clock: time going back is skipped, otherwise the elapsed time drives the prediction
  reset(); g_symbolic = 0; vh::set_param("predict_frequency", 4.); EKFLocalizer node("ekf", rclcpp::NodeOptions()); vassert_eq(vh::g_timer_period_s, 0.25, "timer-period"); PoseMsg m; m.header.frame_id = "map"; m.pose.covariance[14] = 1; vh::deliver("initialpose", m);
  double last = 0; int sent = 0; const int n = 1 + vchoose("ticks", TIER(3, 4));
  for (int i = 0; i < n; i++) {
    const double t = sym_range_i("now", i, 0, 1e11); vh::g_now_ns = t; g_calls.clear(); vh::g_timer(); const bool ok = i == 0 || vdecide(t >= last);
    if (!ok) { vassert(g_calls.empty(), "no-prediction-when-the-clock-went-back"); vassert((int)vh::published<Odom>("ekf_odom").size() == sent && (int)vh::g_tf.size() == sent, "nothing-published-when-the-clock-went-back"); vreach("back"); continue; }
    sent++; vassert(g_calls.size() == 1 && g_calls[0].kind == 1, "one-prediction-per-tick"); vassert((int)vh::published<Odom>("ekf_odom").size() == sent && (int)vh::g_tf.size() == sent, "one-odometry-per-tick");
    if (i == 0) vassert_eq(g_calls[0].a(2, 5), 0.25, "first-interval"); else if (vdecide(t > last)) vassert_eq(g_calls[0].a(2, 5) * 1e9, vite(t - last < 1e10, t - last, 1e10), "elapsed-time"); last = t; vreach("predicted");
  }
}
extern "C" void h_restart() {                         // an initial pose starts over: new filter, waiting measurements dropped
  reset(); g_symbolic = 0; EKFLocalizer node("ekf", rclcpp::NodeOptions()); PoseMsg m; m.header.frame_id = "map"; m.pose.covariance[14] = 1; vh::deliver("initialpose", m); const int p = vchoose("poses", 3), t = vchoose("twists", 3), tick = vchoose("tick", 2);
  for (int i = 0; i < p; i++) vh::deliver("in_pose_with_covariance", *pose_at(0, 0)); for (int i = 0; i < t; i++) vh::deliver("in_twist_with_covariance", *twist_at(0, 0));
  if (tick) { g_calls.clear(); vh::g_now_ns = 1e6; vh::g_timer(); vassert((int)g_calls.size() == 1 + p + t, "waiting-measurements-are-fused"); }
  g_calls.clear(); m.pose.pose.position.x = sym_double("px"); vh::deliver("initialpose", m); vassert(made() == 1, "a-new-filter"); vassert_eq(g_calls[0].y(0), m.pose.pose.position.x, "at-the-new-pose");
  g_calls.clear(); vh::g_now_ns = 2e6; vh::g_timer(); vassert(g_calls.size() == 1 && g_calls[0].kind == 1, "no-measurement-from-before"); vreach("end");
}
extern "C" void h_height() {                          // z is filtered from the initial pose and every pose message
  reset(); g_symbolic = 0; EKFLocalizer node("ekf", rclcpp::NodeOptions()); Simple1DFilter ref; ref.set_proc_stddev(1.0); PoseMsg m; m.header.frame_id = "map"; const int n = 1 + some_size("poses", TIER(1, 2), TIER(70, 270)); static const double S[3] = {1, 2, 0.5};
  for (int i = 0; i < n; i++) {
    m.pose.pose.position.z = sym_d("z", i); m.header.stamp.ns = i * 5e8; m.pose.covariance.fill(0); m.pose.covariance[14] = S[i % 3] * S[i % 3]; m.pose.covariance[21] = m.pose.covariance[28] = 1; vh::deliver(i ? "in_pose_with_covariance" : "initialpose", m); ref.update(m.pose.pose.position.z, S[i % 3], rclcpp::Time(i * 5e8)); }
  vh::g_timer(); const auto & out = vh::published<Odom>("ekf_odom"); vassert(out.size() == 1, "published"); vassert_eq(out[0].pose.pose.position.z, ref.get_x(), "filtered-height"); vassert_eq(vh::g_tf[0].transform.translation.z, ref.get_x(), "filtered-height"); vreach("end");
}
extern "C" void h_tilt() {                            // roll and pitch come from the pose messages
  reset(); g_symbolic = 0; EKFLocalizer node("ekf", rclcpp::NodeOptions()); PoseMsg m; m.header.frame_id = "map"; for (int i = 2; i < 5; i++) m.pose.covariance[7 * i] = 1;
  static const double S[5] = {0, 0.6, 0.28, -0.6, 0.96}, W[5] = {1, 0.8, 0.96, 0.8, 0.28}; const int axis = vchoose("axis", 2), k = vchoose("angle", axis ? 4 : 5); const double s = S[k], c = W[k]; (axis ? m.pose.pose.orientation.y : m.pose.pose.orientation.x) = s; m.pose.pose.orientation.w = c; m.pose.pose.position.x = sym_double("px");
  vh::deliver("initialpose", m); vh::g_timer(); const auto & q = vh::published<Odom>("ekf_odom").at(0).pose.pose.orientation; const auto near = [](double a, double b, const char * l) { vassert(vand(a - b < 1e-6, b - a < 1e-6), l); };
  near((axis ? q.y : q.x) * q.w, s * c, "tilt"); near(q.w * q.w, c * c, "tilt"); near(axis ? q.x : q.y, 0., "no-other-tilt"); near(q.z, 0., "no-other-rotation"); vreach("end");
}
// Parameters: at most one of them is set, to any of its values below; the others have their defaults.
extern "C" void h_ekf_parameters() {
  reset(); g_symbolic = 0; vh::declared().clear(); static const char * N[12] = {"predict_frequency", "extend_state_step", "pose_frame_id", "pose_smoothing_steps", "pose_gate_dist", "twist_gate_dist", "twist_smoothing_steps", "proc_stddev_yaw_c", "enable_yaw_bias_estimation", "proc_stddev_yaw_bias_c", "proc_stddev_vx_c", "proc_stddev_wz_c"};
  const double D[12] = {50, 50, 0, 5, 10000, 10000, 2, 0.005, 1, 0.001, 5, 1}; double v[12]; for (int i = 0; i < 12; i++) v[i] = D[i];
  const int k = vchoose("which", 13); std::string frame = "map"; static const double other[7] = {4, 3, 0, 1, 2, 2, 1};
  if (k == 2) { frame = "world"; vh::set_param(N[2], "world"); } else if (k == 8) { v[8] = 0; vh::set_param(N[8], 0.); } else if (k < 7) { v[k] = other[k]; vh::set_param(N[k], v[k]); } else if (k < 12) { v[k] = sym_double("value"); vh::set_param(N[k], v[k]); }
  EKFLocalizer node("ekf", rclcpp::NodeOptions()); for (int i = 0; i < 12; i++) { int n = 0; for (auto & d : vh::declared()) if (d.name == N[i]) { n++; if (i == 2) vassert(d.s == "map", "default-frame"); else vassert(d.d == D[i], "default-value"); } vassert(n == 1, "declared-once"); }
  const double dt = 1 / v[0]; vassert_eq(vh::g_timer_period_s, dt, "frequency"); PoseMsg m; m.header.frame_id = "map"; for (int i = 2; i < 5; i++) m.pose.covariance[7 * i] = 1; vh::deliver("initialpose", m);
  vassert(made() == 1 && g_calls[0].delay == (int)v[1], "kept-steps"); vassert(vh::g_lookup_target == frame, "frame");
  const double now = 1e12, px = sym_double("px"), tx = sym_double("tx"); const int age = vchoose("age", 3); const int steps = age == 0 ? 0 : (int)v[1] - 2 + age; PoseMsg p = *pose_at(px, now - 1e9 * dt * steps); p.header.frame_id = frame; TwistMsg t = *twist_at(tx, now); for (int i = 0; i < 36; i++) p.pose.covariance[i] = i % 7 == 0;
  vh::g_warns = 0; vh::deliver("in_pose_with_covariance", p); vh::deliver("in_twist_with_covariance", t); const int ticks = 6;
  for (int i = 0; i < ticks; i++) {
    g_calls.clear(); g_x.clear(); g_h.clear(); vh::g_now_ns = now + 1e9 * dt * i; vh::g_timer();
    const bool late = steps + i >= (int)v[1], pin = vdecide(1.75 * px * px <= 5 * v[4] * v[4]); const bool fp = i < (int)v[3] && !late && pin; const bool tin = vdecide(8 * tx * tx <= 7 * (fp ? 3 : 2) * v[5] * v[5]), ft = i < (int)v[6] && i < (int)v[1] && tin;
    vassert((int)g_calls.size() == 1 + fp + ft && g_calls[0].kind == 1, "fused-as-often-as-configured-within-the-gates");
    if (fp) { vassert(g_calls[1].delay == steps + i, "delay-step"); same(g_calls[1].b, noise(p.pose.covariance, true, v[3]), "pose-noise-times-smoothing-steps"); } if (ft) same(g_calls[1 + fp].b, noise(t.twist.covariance, false, v[6]), "twist-noise-times-smoothing-steps");
    if (i == 0) { const double q[6] = {0, 0, v[7], v[8] != 0 ? v[9] : 0., v[10], v[11]}; for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) vassert_eq(g_calls[0].b(a, b), a == b ? q[a] * q[a] * dt * dt : 0., "process-noise"); }
    const auto & out = vh::published<Odom>("ekf_odom"); vassert(!out.empty() && out.back().header.frame_id == frame && vh::g_tf.back().header.frame_id == frame, "frame-of-the-odometry");
    if (fp && ft) vreach("both"); if (i == 0 && !pin) vreach("pose-gated"); if (i == 0 && !tin) vreach("twist-gated"); if (late) vreach("too-late");
  }
}
#define main ekf_main
#include "ekf_localizer/src/ekf_localizer_node.cpp"
#undef main
extern "C" void h_ekf_program() {                     // the program is such a node, run until it is told to stop
  reset(); g_symbolic = 0; vh::set_param("predict_frequency", 4.); int spun = 0; PoseMsg m; m.header.frame_id = "map"; m.pose.covariance[14] = 1; m.pose.pose.position.z = sym_double("pz"); const int n = vchoose("ticks", 3);
  vh::g_spin = [&] { spun++; vassert_eq(vh::g_timer_period_s, 0.25, "timer-period"); vh::deliver("initialpose", m);
    for (int i = 0; i < n; i++) { vh::g_now_ns = 1e9 * (i + 1); vh::g_timer(); const auto & out = vh::published<Odom>("ekf_odom"); vassert((int)out.size() == i + 1 && (int)vh::g_tf.size() == i + 1, "one-odometry-per-tick"); vassert_eq(out[i].pose.pose.position.z, m.pose.pose.position.z, "height-of-the-initial-pose"); } };
  char * argv[1] = {nullptr}; const int rc = ekf_main(0, argv); vh::g_spin = nullptr; vassert(rc == 0 && spun == 1, "spins-once-and-succeeds"); vreach("end");
}
