#include "common.hpp"
#include "ros_stub.hpp"
#include <algorithm>
#include <numeric>
#include <random>
#include <limits>
// the index shuffle runs with an arbitrary generator: every draw is an unconstrained 32-bit value
namespace std { struct vh_any_engine {
  using result_type = uint32_t; int draws = 0;
  explicit vh_any_engine(result_type = 0) {}
  static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { if (draws >= 6) vassume(false); return (result_type)sym_int(vname("draw", draws++).c_str(), 0, 0xffffffffll); }
};
struct vh_no_device { unsigned operator()() { return 0; } }; }
#define mt19937 vh_any_engine
#define random_device vh_no_device
#include "lib/src/random.cpp"
#undef mt19937
#undef random_device
#include "lidar_feature_library/algorithm.hpp"
#include "lidar_feature_library/convert_point_cloud_type.hpp"
#include "lidar_feature_library/degree_to_radian.hpp"
#include "lidar_feature_library/eigen.hpp"
#include "lidar_feature_library/matrix_types.hpp"
#include "lidar_feature_library/numeric.hpp"
#include "lidar_feature_library/pcl_utils.hpp"
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_library/ros_msg.hpp"
#include "lidar_feature_library/span.hpp"
#include "lidar_feature_library/stats.hpp"

// ------------------------------------------------------------ statistics
template<typename V> static void median_of() {
  const int n = 1 + vchoose("n", TIER(5, 6));
  V v(n);
  for (int i = 0; i < n; i++) v(i) = sym_d("v", i);
  const V before = v;
  const double m = Median(v);
  int eq = 0, le = 0, ge = 0;
  double lo = 0, hi = 0;                     // the middle order statistics, found without sorting
  bool have_lo = false, have_hi = false;
  for (int i = 0; i < n; i++) {
    int less = 0, same = 0;
    for (int j = 0; j < n; j++) { if (v(j) < v(i)) less++; else if (!(v(i) < v(j))) same++; }
    const int k0 = (n - 1) / 2, k1 = n / 2;
    if (less <= k0 && k0 < less + same && !have_lo) { lo = v(i); have_lo = true; }
    if (less <= k1 && k1 < less + same && !have_hi) { hi = v(i); have_hi = true; }
  }
  vassert(have_lo && have_hi, "order-statistics-exist");
  vassert_eq(m, (lo + hi) / 2., "median-is-the-mean-of-the-middle-values");
  for (int i = 0; i < n; i++) vassert_eq(v(i), before(i), "input-unchanged");
  if (n % 2) vreach("odd"); else vreach("even");
  (void)eq; (void)le; (void)ge;
}
extern "C" void h_median_vector() { median_of<Eigen::VectorXd>(); }
extern "C" void h_median_array() { median_of<Eigen::ArrayXd>(); }
extern "C" void h_median_empty() {
  expect_throw<std::invalid_argument>([] { Median(Eigen::VectorXd(0)); }, "empty-vector-refused");
  expect_throw<std::invalid_argument>([] { Median(Eigen::ArrayXd(0)); }, "empty-array-refused");
  vreach("end");
}
extern "C" void h_median_long() {   // enough values for the sorting routines to split their input
  const int n = 20 + vchoose("odd", 2); Eigen::VectorXd v(n); for (int i = 0; i < n; i++) v(i) = (11 * i + 5) % n;
  const int at = vchoose("at", 3) * 9; v(at) = sym_double("v"); const double m = Median(v); const Eigen::ArrayXd a = v; const double ma = Median(a);
  const double k = (11 * at + 5) % n, x = v(at); const auto order = [&](int p) {   // p-th of the n - 1 fixed values (without k) and x
    const auto fixed = [&](int j) { return (double)(j < k ? j : j + 1); };
    const double lo = p > 0 ? fixed(p - 1) : x, hi = p < n - 1 ? fixed(p) : x; return vite(x < lo, lo, vite(x > hi, hi, x)); };
  const double want = (order((n - 1) / 2) + order(n / 2)) / 2; vassert_eq(m, want, "median-is-the-mean-of-the-middle-values"); vassert_eq(ma, want, "median-is-the-mean-of-the-middle-values");
  if (n % 2) vreach("odd"); else vreach("even");
}
extern "C" void h_stddev() {
  const int n = 2 + vchoose("n", TIER(3, 5));
  Eigen::VectorXd v(n); double s = 0; for (int i = 0; i < n; i++) { v(i) = sym_d("v", i); s += v(i); }
  double q = 0; for (int i = 0; i < n; i++) q += (v(i) - s / n) * (v(i) - s / n);
  const double d = SampleStandardDeviation(v);
  vassert(d >= 0, "not-negative");
  vassert_eq(d * d, q / (n - 1), "square-is-the-unbiased-variance");
  vreach("end");
}
extern "C" void h_shuffle() {
  const int n = vchoose("n", TIER(4, 5));
  const std::vector<size_t> v = RandomizedUniqueIndices(n);
  vassert((int)v.size() == n, "size");
  std::vector<int> seen(n, 0);
  for (size_t i : v) { vassert(i < (size_t)n, "in-range"); seen.at(i)++; }
  for (int i = 0; i < n; i++) vassert(seen[i] == 1, "every-index-once");
  if (n > 1 && v[0] != 0) vreach("moved");
  vreach("end");
}
// ------------------------------------------------------------- selection
extern "C" void h_get_by_indices() {
  const int n = some_size("n", 4, 300), m = some_size("m", 4, 270);
  std::vector<double> a(n); for (int i = 0; i < n; i++) a[i] = sym_d("a", i);
  std::vector<size_t> idx(m); bool bad = false;
  for (int i = 0; i < m; i++) { idx[i] = m > 4 && i != 17 ? (n ? (7 * i + 3) % n : 0) : n > 4 ? (std::size_t)sym_int(vname("i", i).c_str(), 36, 41) : vchoose(vname("i", i).c_str(), n + 1); if ((int)idx[i] >= n) bad = true; }
  bool threw = false; std::vector<double> r;
  try { r = GetByIndices(idx, a); } catch (const std::out_of_range &) { threw = true; }
  vassert(threw == bad, "index-outside-refused");
  if (bad) { vreach("refused"); return; }
  vassert((int)r.size() == m, "one-per-index");
  for (int i = 0; i < m; i++) vassert_eq(r[i], a[idx[i]], "element-of-its-index");
  vreach("end");
}
extern "C" void h_indices_by_value() {
  const int n = some_size("n", TIER(5, 6), 300);
  std::vector<int> a(n); for (int i = 0; i < n; i++) a[i] = n > 6 && i != 13 && i != 104 ? i % 4 : (int)sym_int(vname("a", i).c_str(), -3, 3);
  const int l = (int)sym_int("l", -3, 3);
  const std::vector<size_t> r = GetIndicesByValue(a, l);
  size_t k = 0;
  for (int i = 0; i < n; i++) if (a[i] == l) { vassert(k < r.size() && r[k] == (size_t)i, "matching-index-listed-in-order"); k++; }
  vassert(k == r.size(), "nothing-else-listed");
  if (k) vreach("some");
  vreach("end");
}
extern "C" void h_sort3() {
  const Eigen::Vector3d v(sym_double("a"), sym_double("b"), sym_double("c"));
  const Eigen::Vector3d s = SortThreeValues(v);
  vassert(vand(s(0) <= s(1), s(1) <= s(2)), "ascending");
  bool perm = false; static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto & p : P) perm = vor(perm, vand(vand(s(0) == v(p[0]), s(1) == v(p[1])), s(2) == v(p[2])));
  vassert(perm, "a-permutation-of-the-input");
  vreach("end");
}
extern "C" void h_span() {
  const int n = 4; std::vector<double> a(n); for (int i = 0; i < n; i++) a[i] = sym_d("a", i);
  const std::vector<double> before = a;
  const int b = vchoose("b", n + 1), e = b + vchoose("l", n - b + 1), i = vchoose("i", 7) - 1;
  const const_span<double> c(a.cbegin() + b, a.cbegin() + e);
  span<double> s(a.begin() + b, a.begin() + e);
  vassert(c.size() == e - b && s.size() == e - b, "size");
  const bool in = 0 <= i && i < e - b;
  vassert(returns_or_throws<std::out_of_range>([&] { c.at(i); }) == in, "const-index-checked");
  const double w = sym_double("w");
  vassert(returns_or_throws<std::out_of_range>([&] { s.at(i) = w; }) == in, "index-checked");
  for (int k = 0; k < n; k++) vassert_eq(a[k], in && k == b + i ? w : before[k], "writes-through-to-its-element-only");
  if (in) { vassert_eq(c.at(i), w, "reads-element"); vreach("in"); } else vreach("out");
  int cnt = 0; for (double x : c) { vassert_eq(x, a[b + cnt], "iterates-in-order"); cnt++; }
  vassert(cnt == e - b, "iterates-all");
}
// ------------------------------------------------------------- matrices
extern "C" void h_covariance_layout() {
  std::array<double, 36> a; for (int i = 0; i < 36; i++) a[i] = sym_d("a", i);
  const Matrix6d M = GetEigenCovariance(a);
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) vassert_eq(M(i, j), a[6 * i + j], "row-major");
  const std::array<double, 36> b = FromEigenCovariance(M);
  for (int i = 0; i < 36; i++) vassert_eq(b[i], a[i], "round-trip");
  vreach("end");
}
extern "C" void h_stacking() {
  const int n = some_size("n", 4, 270);
  std::vector<Eigen::Matrix<double, 3, 1>> vs; std::vector<Eigen::Matrix<double, 2, 3>> ms; std::vector<double> xs;
  for (int k = 0; k < n; k++) {
    Eigen::Vector3d v; for (int i = 0; i < 3; i++) v(i) = sym_d("v", 3 * k + i); vs.push_back(v);
    Eigen::Matrix<double, 2, 3> m; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) m(i, j) = sym_d("m", 6 * k + 3 * i + j); ms.push_back(m);
    xs.push_back(sym_d("x", k));
  }
  const Eigen::MatrixXd V = VectorsToEigen<3>(vs), H = HorizontalStack<2, 3>(ms); const Eigen::VectorXd X = VectorToEigen(xs);
  vassert(V.rows() == n && V.cols() == 3 && H.rows() == 2 * n && H.cols() == 3 && X.size() == n, "shapes");
  for (int k = 0; k < n; k++) {
    for (int i = 0; i < 3; i++) vassert_eq(V(k, i), vs[k](i), "row-per-vector");
    for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) vassert_eq(H(2 * k + i, j), ms[k](i, j), "blocks-in-order");
    vassert_eq(X(k), xs[k], "values-in-order");
  }
  vreach("end");
}
extern "C" void h_rows() {
  const int m = some_size("m", 4, 270), n = m > 4 ? 120 : 3;
  Eigen::MatrixXd A(n, 2); for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) A(i, j) = sym_d("A", 2 * i + j);
  pcl::PointCloud<pcl::PointXYZ>::Ptr c(new pcl::PointCloud<pcl::PointXYZ>());
  for (int i = 0; i < n; i++) c->push_back(pcl::PointXYZ(sym_float(vname("x", i).c_str()), sym_float(vname("y", i).c_str()), sym_float(vname("z", i).c_str())));
  std::vector<std::uint64_t> u; std::vector<int> s;
  for (int k = 0; k < m; k++) { int i = m > 4 ? (7 * k + 3) % n : vchoose(vname("i", k).c_str(), n); u.push_back(i); s.push_back(i); }
  const Eigen::MatrixXd B = GetRows(A, u), G = Get(c, s);
  vassert(B.rows() == m && B.cols() == 2 && G.rows() == m && G.cols() == 3, "shapes");
  for (int k = 0; k < m; k++) {
    vassert_eq(B(k, 0), A(u[k], 0), "row-0"); vassert_eq(B(k, 1), A(u[k], 1), "row-1");
    vassert_eq(G(k, 0), c->at(s[k]).x, "point-x"); vassert_eq(G(k, 1), c->at(s[k]).y, "point-y"); vassert_eq(G(k, 2), c->at(s[k]).z, "point-z");
  }
  vreach("end");
}
static Eigen::Isometry3d any_transform() {
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) T.matrix()(i, j) = sym_d("T", 4 * i + j);
  return T;
}
extern "C" void h_transform_xyz() {
  const Eigen::Isometry3d T = any_transform();
  const int d = 3 + vchoose("extra", 3);
  Eigen::VectorXd p(d); for (int i = 0; i < d; i++) p(i) = sym_d("p", i);
  const Eigen::VectorXd q = TransformXYZ(T, p);
  vassert(q.size() == d, "size");
  for (int i = 0; i < 3; i++) vassert_eq(q(i), T(i, 0) * p(0) + T(i, 1) * p(1) + T(i, 2) * p(2) + T(i, 3), "coordinates-transformed");
  for (int i = 3; i < d; i++) vassert_eq(q(i), p(i), "other-channels-kept");
  vreach("end");
}
extern "C" void h_transform_cloud() {
  const Eigen::Isometry3d T = any_transform();
  const int n = some_size("n", TIER(3, 4), 12);
  pcl::PointCloud<PointXYZIR>::Ptr c(new pcl::PointCloud<PointXYZIR>());
  for (int i = 0; i < n; i++) { PointXYZIR p(sym_float(vname("x", i).c_str()), sym_float(vname("y", i).c_str()), sym_float(vname("z", i).c_str()), sym_float(vname("i", i).c_str()), 7 + i); c->push_back(p); }
  const pcl::PointCloud<PointXYZIR> before = *c;
  const auto r = TransformPointCloud<PointXYZIR>(Eigen::Affine3d(T.matrix()), c);
  vassert((int)r->size() == n && (int)c->size() == n, "size");
  for (int k = 0; k < n; k++) {
    const auto & p = before.at(k); const auto & q = r->at(k);
    vassert_eq(q.x, T(0, 0) * p.x + T(0, 1) * p.y + T(0, 2) * p.z + T(0, 3), "x"); vassert_eq(q.y, T(1, 0) * p.x + T(1, 1) * p.y + T(1, 2) * p.z + T(1, 3), "y");
    vassert_eq(q.z, T(2, 0) * p.x + T(2, 1) * p.y + T(2, 2) * p.z + T(2, 3), "z"); vassert_eq(q.intensity, p.intensity, "intensity-kept"); vassert(q.ring == p.ring, "ring-kept");
    vassert_eq(c->at(k).x, p.x, "source-kept");
  }
  vreach("end");
}
extern "C" void h_convert_cloud() {
  const int n = some_size("n", TIER(3, 4), 300);
  pcl::PointCloud<PointXYZIR>::Ptr c(new pcl::PointCloud<PointXYZIR>());
  for (int i = 0; i < n; i++) c->push_back(PointXYZIR(sym_float(vname("x", i).c_str()), sym_float(vname("y", i).c_str()), sym_float(vname("z", i).c_str()), 0, i));
  const auto r = ToPointXYZ<PointXYZIR>(c);
  vassert((int)r->size() == n, "size");
  for (int k = 0; k < n; k++) { vassert_eq(r->at(k).x, c->at(k).x, "x"); vassert_eq(r->at(k).y, c->at(k).y, "y"); vassert_eq(r->at(k).z, c->at(k).z, "z"); }
  const auto E = PointsToEigen(std::vector<PointXYZIR>(c->begin(), c->end()));
  vassert((int)E.size() == n, "eigen-size");
  for (int k = 0; k < n; k++) { vassert_eq(E[k](0), c->at(k).x, "ex"); vassert_eq(E[k](1), c->at(k).y, "ey"); vassert_eq(E[k](2), c->at(k).z, "ez"); }
  vassert(returns_or_throws<std::invalid_argument>([&] { ThrowsIfPointCloudIsEmpty<PointXYZIR>(c); }) == (n > 0), "empty-cloud-refused");
  const double d = sym_double("deg"); vassert_eq(DegreeToRadian(d) * 180., d * M_PI, "degrees");
  vreach("end");
}
extern "C" void h_nan_inf() {
  const int r = 1 + vchoose("r", 2), c = 1 + vchoose("c", 2);
  Eigen::MatrixXd M(r, c); bool nan = false, inf = false;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { M(i, j) = sym_d("m", i * c + j); nan = vor(nan, std::isnan(M(i, j))); inf = vor(inf, std::isinf(M(i, j))); }
  const bool n = vdecide(nan), f = vdecide(inf);
  vassert(HasNan(M) == n, "has-nan"); vassert(HasInf(M) == f, "has-inf");
  if (n) vreach("nan"); if (f) vreach("inf"); if (!n && !f) vreach("finite");
}
// -------------------------------------------------------------- messages
static rclcpp::Time any_stamp() { rclcpp::Time t; t.ns_ = sym_double("stamp"); t.sec_ = (int32_t)sym_int("sec", 0, 2147483647); t.nanosec_ = (uint32_t)sym_int("nanosec", 0, 999999999); return t; }
static bool same_stamp(const builtin_interfaces::msg::Time & a, const rclcpp::Time & t) { return vand(vand(a.ns == t.ns_, a.sec == t.sec_), a.nanosec == t.nanosec_); }
static Eigen::Quaterniond unit_quaternion() {
  const double w = sym_double("qw"), x = sym_double("qx"), y = sym_double("qy"), z = sym_double("qz");
  vassume(w * w + x * x + y * y + z * z == 1.);
  return Eigen::Quaterniond(w, x, y, z);
}
static Eigen::Matrix3d rot(double w, double x, double y, double z) {
  Eigen::Matrix3d R; R << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
    2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z;
  return R;
}
extern "C" void h_pose_to_isometry() {
  const Eigen::Quaterniond q = unit_quaternion();
  geometry_msgs::msg::Pose p; p.orientation.w = q.w(); p.orientation.x = q.x(); p.orientation.y = q.y(); p.orientation.z = q.z();
  p.position.x = sym_double("px"); p.position.y = sym_double("py"); p.position.z = sym_double("pz");
  const Eigen::Isometry3d T = GetIsometry3d(p);
  const Eigen::Matrix3d R = rot(q.w(), q.x(), q.y(), q.z());
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vassert_eq(T(i, j), R(i, j), "rotation");
  vassert_eq(T(0, 3), p.position.x, "tx"); vassert_eq(T(1, 3), p.position.y, "ty"); vassert_eq(T(2, 3), p.position.z, "tz");
  const Eigen::Isometry3d M = MakeIsometry3d(q, Eigen::Vector3d(p.position.x, p.position.y, p.position.z));
  for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) vassert_eq(M(i, j), T(i, j), "same-from-parts");
  for (int j = 0; j < 4; j++) { vassert_eq(M(3, j), j == 3 ? 1. : 0., "bottom-row"); vassert_eq(T(3, j), j == 3 ? 1. : 0., "bottom-row"); }
  vreach("end");
}
// a rotation by one of a set of rational quaternions: covers each branch of the matrix-to-quaternion conversion
static Eigen::Quaterniond some_rotation(int k) {
  static const double Q[6][4] = {{1, 0, 0, 0}, {0.5, 0.5, 0.5, 0.5}, {0, 1, 0, 0}, {0, 0, 0.6, 0.8}, {0.1, 0.7, 0.1, -0.7}, {0, 0, 1, 0}};
  return Eigen::Quaterniond(Q[k][0], Q[k][1], Q[k][2], Q[k][3]);
}
extern "C" void h_pose_messages() {
  const Eigen::Quaterniond q = some_rotation(vchoose("q", 6));
  const Eigen::Vector3d t(sym_double("tx"), sym_double("ty"), sym_double("tz"));
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); T.matrix().block<3, 3>(0, 0) = rot(q.w(), q.x(), q.y(), q.z()); T.matrix().block<3, 1>(0, 3) = t;
  Matrix6d C; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) C(i, j) = sym_d("c", 6 * i + j);
  const rclcpp::Time s = any_stamp();
  const auto near = [](double a, double b) { return vand(a - b < 1e-9, b - a < 1e-9); };
  const auto same = [&](const geometry_msgs::msg::Pose & p) {
    vassert_eq(p.position.x, t(0), "x"); vassert_eq(p.position.y, t(1), "y"); vassert_eq(p.position.z, t(2), "z");
    const Eigen::Matrix3d R = rot(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vassert(near(R(i, j), T(i, j)), "orientation"); };
  same(MakePose(T));
  const auto ps = MakePoseStamped(T, s, "frame_a"); same(ps.pose); vassert(same_stamp(ps.header.stamp, s), "stamp"); vassert(ps.header.frame_id == "frame_a", "frame");
  const auto pc = MakePoseWithCovariance(T, C); same(pc.pose);
  const auto pcs = MakePoseWithCovarianceStamped(T, C, s, "frame_b"); same(pcs.pose.pose); vassert(same_stamp(pcs.header.stamp, s), "stamp"); vassert(pcs.header.frame_id == "frame_b", "frame");
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { vassert_eq(pc.covariance[6 * i + j], C(i, j), "covariance-row-major"); vassert_eq(pcs.pose.covariance[6 * i + j], C(i, j), "covariance-row-major"); }
  const auto tf = MakeTransformStamped(T, s, "parent", "child");
  geometry_msgs::msg::Pose tp; tp.position.x = tf.transform.translation.x; tp.position.y = tf.transform.translation.y; tp.position.z = tf.transform.translation.z; tp.orientation = tf.transform.rotation;
  same(tp); vassert(same_stamp(tf.header.stamp, s), "stamp"); vassert(tf.header.frame_id == "parent" && tf.child_frame_id == "child", "frames");
  vreach("end");
}
extern "C" void h_vector_messages() {
  const Eigen::Vector3d a(sym_double("ax"), sym_double("ay"), sym_double("az")), b(sym_double("bx"), sym_double("by"), sym_double("bz"));
  const rclcpp::Time s = any_stamp();
  const auto eq = [](const Eigen::Vector3d & u, const Eigen::Vector3d & v) { for (int i = 0; i < 3; i++) vassert_eq(u(i), v(i), "vector"); };
  eq(ToVector3d(MakePoint(a)), a); eq(ToVector3d(MakeVector3(a)), a);
  const auto p = MakePoint(a); vassert(vand(p.x == a(0), vand(p.y == a(1), p.z == a(2))), "point-fields");
  const auto v = MakeVector3(b); vassert(vand(v.x == b(0), vand(v.y == b(1), v.z == b(2))), "vector-fields");
  const auto t = MakeTwist(a, b); eq(ToVector3d(t.linear), a); eq(ToVector3d(t.angular), b);
  const auto ts = MakeTwistStamped(a, b, s, "f"); eq(ToVector3d(ts.twist.linear), a); eq(ToVector3d(ts.twist.angular), b); vassert(same_stamp(ts.header.stamp, s) && ts.header.frame_id == "f", "header");
  geometry_msgs::msg::Quaternion m; m.w = a(0); m.x = a(1); m.y = a(2); m.z = b(0);
  const Eigen::Quaterniond q = ToQuaterniond(m); vassert(vand(vand(q.w() == m.w, q.x() == m.x), vand(q.y() == m.y, q.z() == m.z)), "quaternion-order");
  vassert_eq(MakePointXYZ(Eigen::Vector3d(1.5, -2., 0.25)).y, -2., "pcl-point");
  auto l = InitLines(s, "lines"); vassert(l.type == visualization_msgs::msg::Marker::LINE_LIST && l.points.empty() && l.header.frame_id == "lines" && same_stamp(l.header.stamp, s), "lines");
  SetWidth(l, 0.5f); vassert(l.scale.x == 0.5, "width"); SetColor(l, 0.25f, 0.5f, 0.75f, 1.f); vassert(l.color.r == 0.25f && l.color.g == 0.5f && l.color.b == 0.75f && l.color.a == 1.f, "color");
  AddLine(l, a, b); AddLine(l, b, a); vassert(l.points.size() == 4, "two-points-per-line");
  eq(ToVector3d(l.points[0]), a); eq(ToVector3d(l.points[1]), b); eq(ToVector3d(l.points[2]), b); eq(ToVector3d(l.points[3]), a);
  vreach("end");
}
extern "C" void h_cloud_messages() {
  const int n = some_size("n", 3, 300);
  pcl::PointCloud<PointXYZIR>::Ptr c(new pcl::PointCloud<PointXYZIR>());
  for (int i = 0; i < n; i++) c->push_back(PointXYZIR(sym_float(vname("x", i).c_str()), sym_float(vname("y", i).c_str()), sym_float(vname("z", i).c_str()), sym_float(vname("i", i).c_str()), (uint16_t)sym_int(vname("r", i).c_str(), 0, 65535)));
  const rclcpp::Time s = any_stamp();
  const auto m = ToRosMsg<PointXYZIR>(c, s, "laser");
  vassert(same_stamp(m.header.stamp, s), "stamp"); vassert(m.header.frame_id == "laser", "frame");
  const auto r = GetPointCloud<PointXYZIR>(m);
  vassert((int)r->size() == n, "size");
  for (int k = 0; k < n; k++) { const auto & p = c->at(k), & q = r->at(k);
    vassert_eq(p.x, q.x, "x"); vassert_eq(p.y, q.y, "y"); vassert_eq(p.z, q.z, "z"); vassert_eq(p.intensity, q.intensity, "intensity"); vassert(p.ring == q.ring, "ring"); }
  vreach("end");
}
