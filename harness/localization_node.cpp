// Edge and surface problems, maps, odometry, localizer and the localization node.
// Stand-ins: the 3x3 eigen decomposition returns an arbitrary unit axis, voxel downsampling keeps every point, the optimiser returns an arbitrary result.
#include "common.hpp"
#include "ros_stub.hpp"
#include <Eigen/Eigenvalues>
using Eigen::Quaterniond; using Eigen::Vector3d; using Eigen::Vector4d; using Eigen::MatrixXd; using Eigen::VectorXd;
#include "geometry_ref.hpp"
static std::vector<Eigen::Matrix3d> g_cov; static std::vector<Vector3d> g_axis;
namespace Eigen {
template<> inline SelfAdjointEigenSolver<Matrix3d> & SelfAdjointEigenSolver<Matrix3d>::computeDirect(const Matrix3d & m, int) {
  const int i = (int)g_cov.size(); g_cov.push_back(m); const Vector3d a = any_v(vname("axis", i).c_str()); g_axis.push_back(a);
  m_eivec.setZero(); m_eivec(0, 0) = sym_d("other", 2 * i); m_eivec(1, 1) = sym_d("other", 2 * i + 1); m_eivec.col(2) = a;
  for (int k = 0; k < 3; k++) m_eivalues(k) = sym_d("eigenvalue", 3 * i + k);
  m_isInitialized = true; m_eigenvectorsOk = true; m_info = Success; return *this; }
}
#include "lidar_feature_library/downsample.hpp"
static std::vector<float> g_leaf;
template<> inline pcl::PointCloud<pcl::PointXYZ>::Ptr Downsample<pcl::PointXYZ>(const pcl::PointCloud<pcl::PointXYZ>::Ptr & c, const float leaf) {
  g_leaf.push_back(leaf); return pcl::PointCloud<pcl::PointXYZ>::Ptr(new pcl::PointCloud<pcl::PointXYZ>(*c)); }
#include "localization/src/edge.cpp"
#include "lidar_feature_localization/surface.hpp"
#include "lidar_feature_localization/optimization_result.hpp"
#include "lidar_feature_localization/localizer.hpp"
#include "lidar_feature_localization/odometry.hpp"
#include "lidar_feature_localization/map_io.hpp"
#include "lidar_feature_localization/point_cloud_map.hpp"
#include "lidar_feature_localization/subscriber.hpp"
#define main localization_main
#include "localization/app/localization.cpp"
#undef main
using XYZ = pcl::PointXYZ; using CloudXYZ = pcl::PointCloud<XYZ>;
static CloudXYZ::Ptr any_cloud(const char * n, int size) {
  CloudXYZ::Ptr c(new CloudXYZ()); const std::string s(n);
  for (int i = 0; i < size; i++) c->push_back(XYZ(sym_float(vname((s + "x").c_str(), i).c_str()), sym_float(vname((s + "y").c_str(), i).c_str()), sym_float(vname((s + "z").c_str(), i).c_str())));
  return c; }
static Eigen::Isometry3d pose_of(int k, const char * n) { Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); T.matrix().block<3, 3>(0, 0) = rot_unit(some_rotation(k)); for (int i = 0; i < 3; i++) T.matrix()(i, 3) = sym_d(n, i); return T; }
static Vector3d apply(const Eigen::Isometry3d & T, const Vector3d & p) { Vector3d r; for (int i = 0; i < 3; i++) r(i) = T(i, 0) * p(0) + T(i, 1) * p(1) + T(i, 2) * p(2) + T(i, 3); return r; }
static Vector3d cross(const Vector3d & a, const Vector3d & b) { return Vector3d(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)); }
// ------------------------------------------------------------------ edge
extern "C" void h_mean_covariance() {
  const int n = 1 + vchoose("n", TIER(3, 4)), d = 2 + vchoose("d", 2); MatrixXd X(n, d); for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) X(i, j) = sym_d("x", d * i + j);
  const VectorXd c = Center(X); const auto [m, C] = CalcMeanAndCovariance(X);
  vassert(c.size() == d && m.size() == d && C.rows() == d && C.cols() == d, "shapes");
  VectorXd e = VectorXd::Zero(d); for (int j = 0; j < d; j++) { for (int i = 0; i < n; i++) e(j) += X(i, j); e(j) = e(j) / n; vassert_eq(c(j), e(j), "center-is-the-mean"); vassert_eq(m(j), e(j), "mean"); }
  for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) { double s = 0; for (int i = 0; i < n; i++) s += (X(i, a) - e(a)) * (X(i, b) - e(b)); vassert_eq(C(a, b) * n, s, "population-covariance"); }
  vreach("end");
}
extern "C" void h_triplet_cross() {
  const Vector3d a = any_v("a"), b = any_v("b"), c = any_v("c"); const Vector3d t = TripletCross(a, b, c), e = cross(c - b, cross(a - b, a - c));
  for (int i = 0; i < 3; i++) vassert_eq(t(i), e(i), "triplet-cross"); vreach("end");
}
extern "C" void h_edge_residual() {
  const Eigen::Isometry3d T = any_transform("T"); const Vector3d p0 = any_v("p"), p1 = any_v("a"), p2 = any_v("b");
  const Vector3d r = MakeEdgeResidual(T, p0, p1, p2), p = apply(T, p0), e = cross(p - p1, p - p2);
  for (int i = 0; i < 3; i++) vassert_eq(r(i), e(i), "residual-is-the-cross-product-to-both-line-points"); vreach("end");
}
extern "C" void h_edge_jacobian() {                    // exact derivative: the residual is linear in the moved point
  const Quaterniond q = any_q("q"); const Vector3d p0 = any_v("p"), p1 = any_v("a"), p2 = any_v("b");
  const Eigen::Matrix<double, 3, 7> J = MakeEdgeJacobianRow(q, p0, p1, p2);
  const auto res = [&](const Vector3d & p) { return cross(p - p1, p - p2); };
  const Vector3d at = any_v("at");                     // wherever the point currently is
  for (int j = 0; j < 7; j++) {
    Vector3d dp = Vector3d::Zero(); if (j < 4) dp = d_rotated(q, j, p0); else dp(j - 4) = 1;
    const Vector3d d = (res(at + dp) - res(at - dp)) / 2.;
    for (int i = 0; i < 3; i++) vassert_eq(J(i, j), d(i), "derivative-of-the-residual");
  }
  vreach("end");
}
extern "C" void h_get_xyz() {
  const int n = vchoose("n", 4), d = 3 + vchoose("d", 2); MatrixXd X(n, d); for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) X(i, j) = sym_d("x", d * i + j);
  const MatrixXd Y = GetXYZ(X); vassert(Y.rows() == n && Y.cols() == 3, "shape"); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) vassert_eq(Y(i, j), X(i, j), "first-three-columns"); vreach("end");
}
extern "C" void h_principal_reliable() {
  const Vector3d v = any_v("v"); const bool r = PrincipalIsReliable(v);
  bool e = false;                                     // some value exceeds three times both the middle one: the largest against the second largest
  for (int i = 0; i < 3; i++) { const double a = v((i + 1) % 3), b = v((i + 2) % 3); const double second = vite(a < b, b, a); e = vor(e, vand(v(i) >= second, v(i) > second * 3.0)); }
  vassert(r == vdecide(e), "reliable-iff-largest-exceeds-three-times-the-second"); if (r) vreach("yes"); else vreach("no");
}
extern "C" void h_edge_problem() {
  g_cov.clear(); g_axis.clear();
  const int n = vchoose("n", 3); const Eigen::Isometry3d T = pose_of(vchoose("rot", TIER(2, 3)), "t");
  pcl::PointCloud<PointXYZCR>::Ptr map(new pcl::PointCloud<PointXYZCR>()), scan(new pcl::PointCloud<PointXYZCR>());
  const auto any_p = [](const char * nm, int i) { const std::string s(nm); return PointXYZCR(sym_float(vname((s + "x").c_str(), i).c_str()), sym_float(vname((s + "y").c_str(), i).c_str()), sym_float(vname((s + "z").c_str(), i).c_str()), sym_float(vname((s + "c").c_str(), i).c_str()), 0); };
  for (int i = 0; i < 2; i++) map->push_back(any_p("m", i));
  for (int i = 0; i < n; i++) scan->push_back(any_p("s", i));
  const Edge<PointXYZCRToVector> edge(map, 2);
  const auto [J, r] = edge.Make(scan, T);
  vassert((int)J.size() == n && (int)r.size() == n, "one-block-per-scan-point");
  Vector3d mean; mean << (double)map->at(0).x + map->at(1).x, (double)map->at(0).y + map->at(1).y, (double)map->at(0).z + map->at(1).z; mean = mean / 2.;
  for (int k = 0; k < n; k++) {
    const Vector3d p0(scan->at(k).x, scan->at(k).y, scan->at(k).z), p = apply(T, p0);
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) {
      double s = 0; for (int i = 0; i < 2; i++) { const Vector3d m(map->at(i).x, map->at(i).y, map->at(i).z); s += (m(a) - mean(a)) * (m(b) - mean(b)); }
      vassert_eq(g_cov.at(k)(a, b) * 2, s, "axis-of-the-neighbours-covariance"); }
    const Vector3d e = cross(p - (mean - g_axis[k]), p - (mean + g_axis[k]));
    for (int i = 0; i < 3; i++) vassert_eq(r[k](i), e(i), "distance-to-the-line-through-the-neighbours");
    const Vector3d l = 2 * g_axis[k];                  // J_t = hat(p2 - p1)
    for (int j = 0; j < 3; j++) { Vector3d d = Vector3d::Zero(); d(j) = 1; const Vector3d c = cross(l, d); for (int i = 0; i < 3; i++) vassert_eq(J[k](i, 4 + j), c(i), "translation-derivative"); }
  }
  vreach("end");
}
extern "C" void h_edge_neighbours() {                  // which map points feed the line: the nearest ones, curvature counting as a coordinate
  g_cov.clear(); g_axis.clear();
  pcl::PointCloud<PointXYZCR>::Ptr map(new pcl::PointCloud<PointXYZCR>()), scan(new pcl::PointCloud<PointXYZCR>());
  map->push_back(PointXYZCR(1, 0, 0, 0, 0)); map->push_back(PointXYZCR(0, 2, 0, 0, 0)); map->push_back(PointXYZCR(0, 0, 1, 5, 0));
  PointXYZCR s(sym_float("sx"), 0, 0, sym_float("sc"), 0); scan->push_back(s);
  const Edge<PointXYZCRToVector> edge(map, 2);
  const auto [J, r] = edge.Make(scan, Eigen::Isometry3d::Identity());
  double d[3]; for (int i = 0; i < 3; i++) { const auto & m = map->at(i); d[i] = (m.x - s.x) * (m.x - s.x) + (double)m.y * m.y + (double)m.z * m.z + (m.curvature - s.curvature) * (m.curvature - s.curvature); }
  vassume(d[0] != d[1] && d[1] != d[2] && d[0] != d[2]);
  int far = 0; for (int i = 1; i < 3; i++) if (d[i] > d[far]) far = i;
  Vector3d mean = Vector3d::Zero(); for (int i = 0; i < 3; i++) if (i != far) mean += Vector3d(map->at(i).x, map->at(i).y, map->at(i).z) / 2.;
  const Vector3d p(s.x, 0, 0), e = cross(p - (mean - g_axis.at(0)), p - (mean + g_axis.at(0)));
  for (int i = 0; i < 3; i++) vassert_eq(r.at(0)(i), e(i), "line-through-the-nearest-points");
  vreach("end");
}
// --------------------------------------------------------------- surface
extern "C" void h_plane_distance() {
  const Vector3d w = any_v("w"), x = any_v("x"); const double n2 = w(0) * w(0) + w(1) * w(1) + w(2) * w(2); vassume(n2 > 0);
  const double d = SignedPointPlaneDistance(w, x), n = std::sqrt(n2), e = w(0) * x(0) + w(1) * x(1) + w(2) * x(2) + 1.;
  vassert_eq(d * n, e, "signed-distance"); const VectorXd v = SignedPointPlaneDistanceVector1d(w, x); vassert(v.size() == 1, "one-component"); vassert_eq(v(0), d, "same-distance");
  vassert_eq(PointPlaneDistance(w, x), vite(d < 0, -d, d), "absolute-distance"); vreach("end");
}
extern "C" void h_plane_check() {
  const int n = some_size("n", 4, 10), at = n == 10 ? 3 * vchoose("at", 4) : 0; MatrixXd X(n, 3); const Vector3d w(0, 0, n == 10 ? 0.5 : sym_double("w")); vassume(w(2) > 0); bool all = true;
  for (int i = 0; i < n; i++) { if (n == 10 && i != at) { X(i, 0) = 7 * i % 5; X(i, 1) = 5 - i; X(i, 2) = -2 + 0.0625 * (i % 7 - 3); continue; } X(i, 0) = sym_d("x", i); X(i, 1) = sym_d("y", i); X(i, 2) = sym_d("z", i); const double d = (X(i, 2) * w(2) + 1) / w(2); all = vand(all, vand(d <= 0.2, -d <= 0.2)); }
  const bool r = CheckPointsDistributeAlongPlane(X, w); vassert(r == vdecide(all), "all-within-20cm"); if (r) vreach("yes"); else vreach("no");
}
static const double kPlane[3] = {2, -4, 8};             // axis intercepts of a plane
extern "C" void h_plane_fit() {                        // plane through three (and four) of its points, in any order
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; const int k = vchoose("order", 6), four = vchoose("four", 2);
  MatrixXd X = MatrixXd::Zero(3 + four, 3); double a[3]; for (int i = 0; i < 3; i++) { a[i] = sym_d("a", i); vassume(vor(vand(a[i] >= 0.5, a[i] <= 100.), vand(a[i] <= -0.5, a[i] >= -100.))); }
  if (four) for (int i = 0; i < 3; i++) a[i] = kPlane[i];
  for (int i = 0; i < 3; i++) X(i, P[k][i]) = a[P[k][i]];
  if (four) { X(3, 0) = a[0]; X(3, 1) = a[1] * 0.5; X(3, 2) = -a[2] * 0.5; }
  const VectorXd w = EstimatePlaneCoefficients(X);
  vassert(w.size() == 3, "three-coefficients");
  for (int i = 0; i < 3; i++) {
    if (!four) vassert_eq(w(i) * a[i], -1., "plane-through-its-points");
    else vassert(vand(w(i) * a[i] + 1. < 1e-6, w(i) * a[i] + 1. > -1e-6), "plane-through-four-points");
  }
  vreach("end");
}
extern "C" void h_surface_jacobian() {
  const Vector3d w = any_v("w"), p = any_v("p"); const Quaterniond q = any_q("q"); const double n2 = w(0) * w(0) + w(1) * w(1) + w(2) * w(2); vassume(n2 > 0); const double n = std::sqrt(n2);
  const Eigen::Matrix<double, 1, 7> J = MakeJacobianRow(w, q, p);
  for (int j = 0; j < 7; j++) { Vector3d d = Vector3d::Zero(); if (j < 4) d = d_rotated(q, j, p); else d(j - 4) = 1; vassert_eq(J(0, j) * n, w(0) * d(0) + w(1) * d(1) + w(2) * d(2), "derivative-of-the-plane-distance"); }
  vreach("end");
}
static void plane_map(CloudXYZ::Ptr & m) { m.reset(new CloudXYZ()); m->push_back(XYZ(2, 0, 0)); m->push_back(XYZ(0, -4, 0)); m->push_back(XYZ(0, 0, 8)); }
static bool near(double a, double b) { return vand(a - b < 1e-5, b - a < 1e-5); }
static double absd(double v) { return vite(v < 0, -v, v); }
static void surface_block(const MatrixXd & J, const VectorXd & r, const Vector3d & p, const Eigen::Isometry3d & T) {
  const Vector3d w(-0.5, 0.25, -0.125), m = apply(T, p); const double n = 0.57282196186947999;   // |w| = sqrt(21)/8
  vassert(J.rows() == 1 && J.cols() == 7 && r.size() == 1, "surface-shapes");
  const double e = (w(0) * m(0) + w(1) * m(1) + w(2) * m(2) + 1.) / n; const double b = 1e-5 * (1 + absd(m(0)) + absd(m(1)) + absd(m(2)));
  vassert(vand(r(0) - e <= b, e - r(0) <= b), "signed-distance-to-the-plane-through-the-neighbours");
  for (int j = 0; j < 3; j++) vassert(near(J(0, 4 + j) * n, w(j)), "normal-as-translation-derivative");
}
extern "C" void h_surface_problem() {
  g_leaf.clear(); CloudXYZ::Ptr map; plane_map(map);
  const int n = vchoose("n", TIER(2, 3)); const Eigen::Isometry3d T = pose_of(vchoose("rot", 2), "t"); const auto scan = any_cloud("s", n);
  const Surface<PointXYZToVector> surface(map, 3);
  const auto [J, r] = surface.Make(scan, T);
  vassert((int)J.size() == n && (int)r.size() == n, "one-row-per-point"); vassert(g_leaf.size() == 1 && g_leaf[0] == 1.0f, "downsampled-to-one-metre");
  for (int k = 0; k < n; k++) surface_block(J[k], r[k], Vector3d(scan->at(k).x, scan->at(k).y, scan->at(k).z), T);
  vreach("end");
}
extern "C" void h_loam_problem() {                     // edge blocks first, then surface rows, jacobians matching residuals
  g_cov.clear(); g_axis.clear(); g_leaf.clear(); CloudXYZ::Ptr smap; plane_map(smap); CloudXYZ::Ptr emap(new CloudXYZ()); emap->push_back(XYZ(1, 1, 1)); emap->push_back(XYZ(3, 5, 7)); emap->push_back(XYZ(2, 3, 4));
  const int ne = vchoose("n_edge", 3), ns = vchoose("n_surface", 2);
  const auto e = any_cloud("e", ne), s = any_cloud("s", ns); Eigen::Isometry3d T = pose_of(0, "t");
  const LOAMOptimizationProblem<PointXYZToVector> problem(emap, smap, 3);
  const auto [J, r] = problem.Make(std::make_tuple(e, s), T);
  vassert((int)J.size() == ne + ns && (int)r.size() == ne + ns, "edge-and-surface-residuals");
  for (int k = 0; k < ne; k++) {
    vassert(J[k].rows() == 3 && J[k].cols() == 7 && r[k].size() == 3, "edge-shapes");
    const Vector3d p = apply(T, Vector3d(e->at(k).x, e->at(k).y, e->at(k).z)), m(2, 3, 4), c = cross(p - (m - g_axis.at(k)), p - (m + g_axis.at(k)));
    for (int i = 0; i < 3; i++) vassert_eq(r[k](i), c(i), "edge-residual");
  }
  for (int k = 0; k < ns; k++) surface_block(J[ne + k], r[ne + k], Vector3d(s->at(k).x, s->at(k).y, s->at(k).z), T);
  vreach("end");
}
// ------------------------------------------------------- maps and odometry
extern "C" void h_recent_scans() {
  const int n = some_size("scans", TIER(4, 5), 270); RecentScans<XYZ> recent; PointCloudMap<XYZ> map(2); std::vector<std::vector<Vector3d>> all;
  vassert(recent.IsEmpty() && map.IsEmpty(), "starts-empty"); vassert(recent.GetAll()->empty() && recent.GetRecent(2)->empty(), "empty-map-has-no-points");
  for (int k = 0; k < n; k++) {
    const auto c = any_cloud(vname("c", k).c_str(), (k + 1) % 3); const Eigen::Isometry3d T = any_transform(vname("T", k).c_str());
    std::vector<Vector3d> v; for (auto & p : *c) v.push_back(apply(T, Vector3d(p.x, p.y, p.z))); all.push_back(v);
    recent.Add(T, c); map.Add(T, c);
  }
  vassert(recent.IsEmpty() == (n == 0) && map.IsEmpty() == (n == 0), "empty-iff-nothing-added");
  const auto same = [&](const CloudXYZ::Ptr & c, int from) {
    size_t i = 0; for (int k = from; k < n; k++) for (auto & v : all[k]) { vassert(i < c->size(), "points-of-the-last-scans"); vassert_eq(c->at(i).x, v(0), "x"); vassert_eq(c->at(i).y, v(1), "y"); vassert_eq(c->at(i).z, v(2), "z"); i++; }
    vassert(i == c->size(), "nothing-else"); };
  const int m = some_size("recent", 6, 270); same(recent.GetRecent(m), std::max(0, n - m)); same(recent.GetAll(), 0); same(map.GetRecent(), std::max(0, n - 2));
  if (m < n) vreach("window"); else vreach("all");
}
extern "C" void h_save_map() {
  vh::g_saved.clear(); const int n = some_size("n", 3, 300); const auto c = any_cloud("c", n); SaveMapIfNotEmpty<XYZ>("dir/edge.pcd", c);
  vassert(vh::g_saved.size() == (n > 0 ? 1u : 0u), "saved-unless-empty");
  if (n > 0) { vassert(vh::g_saved[0].path == "dir/edge.pcd" && (int)vh::g_saved[0].n == n, "whole-cloud-to-the-given-file"); for (int i = 0; i < n; i++) vassert_eq(vh::saved_cloud<XYZ>().at(i).x, c->at(i).x, "saved-points"); vreach("saved"); } else vreach("empty");
}
struct MockMap {
  std::vector<std::pair<Eigen::Isometry3d, int>> added; int recent = 0;
  bool IsEmpty() const { return added.empty(); }
  void Add(const Eigen::Isometry3d & p, const int & s) { added.push_back({p, s}); }
  int GetRecent() const { return 1000 + (int)added.size(); }
};
static std::vector<Eigen::Isometry3d> g_from, g_out; static int g_calls;
struct MockUpdater {
  int local; explicit MockUpdater(int m) : local(m) {}
  Eigen::Isometry3d operator()(const int & scan, const Eigen::Isometry3d & pose) const { vassert(local == 1000 + scan, "matched-against-the-map-so-far"); g_from.push_back(pose); g_calls++; g_out.push_back(any_transform(vname("out", scan).c_str())); return g_out.back(); }
};
static void same_T(const Eigen::Isometry3d & a, const Eigen::Isometry3d & b, const char * l) { for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) vassert_eq(a(i, j), b(i, j), l); }
extern "C" void h_odometry() {
  g_from.clear(); g_out.clear(); g_calls = 0; auto map = std::make_shared<MockMap>(); Odometry<MockUpdater, MockMap, int> odo(map);
  same_T(odo.CurrentPose(), Eigen::Isometry3d::Identity(), "starts-at-identity");
  const int n = some_size("n", TIER(4, 6), 270); Eigen::Isometry3d pose = Eigen::Isometry3d::Identity();
  for (int s = 0; s < n; s++) {
    odo.Update(s);
    if (s > 0) { vassert(g_calls == s, "one-match-per-scan"); same_T(g_from.at(s - 1), pose, "matched-from-the-previous-pose"); pose = g_out.at(s - 1); }
    same_T(odo.CurrentPose(), pose, "current-pose"); vassert((int)map->added.size() == s + 1 && map->added[s].second == s, "every-scan-added-once"); same_T(map->added[s].first, pose, "added-at-the-matched-pose");
  }
  vreach("end");
}
// --------------------------------------------------------------- localizer
using LoamOptimizer = Optimizer<LOAMOptimizationProblem<PointXYZToVector>, EdgeSurfaceScan>;
static std::vector<Eigen::Isometry3d> g_run_from; static std::vector<const void *> g_run_scan; static std::vector<OptimizationResult> g_results; static int g_runs = 0; static bool g_blocks = false; static std::vector<VectorXd> g_residuals;
template<> inline OptimizationResult LoamOptimizer::Run(const EdgeSurfaceScan & x, const Eigen::Isometry3d & pose) const {
  if (g_blocks) { const auto [J, r] = problem_.Make(x, pose); g_residuals = r; }
  const int i = g_runs++; g_run_from.push_back(pose); g_run_scan.push_back(std::get<0>(x).get()); g_run_scan.push_back(std::get<1>(x).get());
  g_results.push_back(OptimizationResult{any_transform(vname("opt", i).c_str()), "", 1, 0., 0., vchoose(vname("success", i).c_str(), 2) == 1}); return g_results.back(); }
extern "C" void h_localizer() {
  g_run_from.clear(); g_run_scan.clear(); g_results.clear(); g_runs = 0; CloudXYZ::Ptr m(new CloudXYZ()); m->push_back(XYZ(1, 2, 3));
  Localizer<PointXYZToVector, XYZ> loc(m, m, 20); vassert(!loc.IsInitialized(), "not-initialised"); same_T(loc.Get(), Eigen::Isometry3d::Identity(), "identity-before");
  Eigen::Isometry3d pose = Eigen::Isometry3d::Identity();
  for (int k = 0; k < 2; k++) {
    if (vchoose(vname("init", k).c_str(), 2)) { pose = any_transform(vname("prior", k).c_str()); loc.Init(pose); vassert(loc.IsInitialized(), "initialised"); same_T(loc.Get(), pose, "pose-after-init"); }
    const EdgeSurfaceScan scan = std::make_tuple(CloudXYZ::Ptr(new CloudXYZ()), CloudXYZ::Ptr(new CloudXYZ()));
    const bool ok = loc.Update(scan); same_T(g_run_from.at(k), pose, "optimised-from-the-current-pose");
    vassert(g_run_scan.at(2 * k) == std::get<0>(scan).get() && g_run_scan.at(2 * k + 1) == std::get<1>(scan).get(), "edge-and-surface-clouds-in-order");
    vassert(ok == g_results.at(k).success, "success-reported"); pose = g_results.at(k).pose; same_T(loc.Get(), pose, "result-kept");
  }
  vreach("end");
}
// -------------------------------------------------------------------- node
static std::vector<Eigen::Isometry3d> g_inits; static std::vector<std::pair<CloudXYZ::Ptr, CloudXYZ::Ptr>> g_updates; static std::vector<Eigen::Isometry3d> g_res; static int g_order_ok = 1, g_pending = 0, g_sel = 0;
struct MockLocalizer {
  void Init(const Eigen::Isometry3d & p) { g_inits.push_back(p); g_pending = 1; }
  bool Update(const EdgeSurfaceScan & s) { if (g_pending != 1) g_order_ok = 0; g_pending = 2; g_updates.push_back({std::get<0>(s), std::get<1>(s)}); g_res.push_back(pose_of(g_sel, vname("result", (int)g_updates.size()).c_str())); return false; }
  Eigen::Isometry3d Get() const { if (g_pending != 2) g_order_ok = 0; return g_res.at(g_updates.size() - 1); }
};

extern "C" void h_node() {
  g_inits.clear(); g_updates.clear(); g_res.clear(); g_order_ok = 1; g_pending = 0; vh::g_tf.clear(); g_sel = vchoose("rot", 2);
  MockLocalizer m; LocalizationSubscriber<MockLocalizer, XYZ> node(m);
  auto & out = vh::published<geometry_msgs::msg::PoseWithCovarianceStamped>("estimated_pose");
  auto * sync = message_filters::Synchronizer<Exact>::all().back(); vassert(sync->topic0 == "scan_edge" && sync->topic1 == "scan_surface", "edge-and-surface-topics");
  const int n = vchoose("priors", 3); std::vector<double> st(n); std::vector<Vector3d> pos(n);
  const int turn = vchoose("turn", 2);   // the first prior is turned in one way, the second in another
  for (int i = 0; i < n; i++) {
    st[i] = sym_d("prior_stamp", i); pos[i] = any_v(vname("prior", i).c_str()); geometry_msgs::msg::Pose p; p.position.x = pos[i](0); p.position.y = pos[i](1); p.position.z = pos[i](2); const Quaterniond pq = some_rotation((i + turn) % 2); p.orientation.w = pq.w(); p.orientation.x = pq.x(); p.orientation.y = pq.y(); p.orientation.z = pq.z();
    if (i % 2 == 0) { nav_msgs::msg::Odometry o; o.header.stamp.ns = st[i]; o.pose.pose = p; vh::deliver("optimization_start_odom", o); }
    else { geometry_msgs::msg::PoseStamped o; o.header.stamp.ns = st[i]; o.pose = p; vh::deliver("optimization_start_pose", o); }
  }
  if (n == 2) vassume(vor(st[0] < st[1], st[1] < st[0]));
  vassert(out.empty() && vh::g_tf.empty() && g_updates.empty(), "priors-alone-publish-nothing");
  rclcpp::Time t; t.ns_ = sym_double("scan_stamp"); t.sec_ = 7; t.nanosec_ = 9; rclcpp::Time t2 = t; t2.ns_ = sym_double("surface_stamp"); t2.sec_ = 8;
  const auto ce = any_cloud("edge", 1), cs = any_cloud("surface", 1); const auto e = ToRosMsg<XYZ>(ce, t, "lidar"), s = ToRosMsg<XYZ>(cs, t2, "lidar");
  sync->cb(std::make_shared<const sensor_msgs::msg::PointCloud2>(e), std::make_shared<const sensor_msgs::msg::PointCloud2>(s));
  if (n == 0) { vassert(out.empty() && vh::g_tf.empty() && g_updates.empty(), "no-estimate-without-a-prior"); vreach("no-prior"); return; }
  vassert(g_updates.size() == 1 && g_inits.size() == 1 && g_order_ok == 1, "initialised-then-updated-once");
  vassert(g_updates[0].first->size() == 1 && g_updates[0].second->size() == 1, "clouds-passed-on"); vassert_eq(g_updates[0].first->at(0).x, ce->at(0).x, "edge-cloud-first"); vassert_eq(g_updates[0].second->at(0).x, cs->at(0).x, "surface-cloud-second");
    bool matches = false;
  for (int i = 0; i < n; i++) {
    const double d = vite(st[i] < t.ns_, t.ns_ - st[i], st[i] - t.ns_); bool closest = true;
    for (int j = 0; j < n; j++) { const double dj = vite(st[j] < t.ns_, t.ns_ - st[j], st[j] - t.ns_); closest = vand(closest, d <= dj); }
    bool eq = true; for (int k = 0; k < 3; k++) eq = vand(eq, g_inits[0](k, 3) == pos[i](k)); const Eigen::Matrix3d Ri = rot_unit(some_rotation((i + turn) % 2)); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) eq = vand(eq, near(g_inits[0](a, b), Ri(a, b))); matches = vor(matches, vand(closest, eq)); }
  vassert(matches, "starts-from-the-prior-closest-in-time");
  vassert(out.size() == 1 && vh::g_tf.size() == 1, "one-estimate-per-scan");
  const auto & o = out[0]; const auto & f = vh::g_tf[0];
  vassert(o.header.stamp.ns == t.ns_ && o.header.stamp.sec == 7 && o.header.stamp.nanosec == 9, "estimate-stamped-as-the-scan"); vassert(f.header.stamp.ns == t.ns_ && f.header.stamp.sec == 7, "transform-stamped-as-the-scan");
  vassert(o.header.frame_id == "map" && f.header.frame_id == "map" && f.child_frame_id == "lidar_feature_base_link", "frames");
  const Vector3d res(g_res.at(0)(0, 3), g_res.at(0)(1, 3), g_res.at(0)(2, 3)), po(o.pose.pose.position.x, o.pose.pose.position.y, o.pose.pose.position.z), pf(f.transform.translation.x, f.transform.translation.y, f.transform.translation.z);
  for (int k = 0; k < 3; k++) { vassert_eq(po(k), res(k), "estimated-position"); vassert_eq(pf(k), res(k), "broadcast-position"); }
  const auto & q = o.pose.pose.orientation; const auto & fq = f.transform.rotation; const Eigen::Matrix3d R = rot_unit(some_rotation(g_sel)), A = rot_unit(Quaterniond(q.w, q.x, q.y, q.z)), B = rot_unit(Quaterniond(fq.w, fq.x, fq.y, fq.z));
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { vassert(near(A(i, j), R(i, j)), "orientation"); vassert(near(B(i, j), R(i, j)), "tf-orientation"); }
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) vassert(o.pose.covariance[6 * i + j] == (i != j ? 0. : i < 3 ? 1.0 : 0.1), "covariance-metres-first-then-radians");
  // a second scan: priors up to one second after the first scan are still there
  if (n > 0) {
    const auto e2 = ToRosMsg<XYZ>(any_cloud("edge2", 1), t, "lidar"); sync->cb(std::make_shared<const sensor_msgs::msg::PointCloud2>(e2), std::make_shared<const sensor_msgs::msg::PointCloud2>(s));
    bool any = false; for (int i = 0; i < n; i++) any = vor(any, st[i] <= t.ns_ + 1e9);
    if (vdecide(any)) { vassert(g_updates.size() == 2 && out.size() == 2, "priors-kept-for-the-next-scan"); vreach("kept"); } else { vassert(g_updates.size() == 1 && out.size() == 1, "priors-far-ahead-dropped"); vreach("dropped"); }
  }
  vreach("end");
}

// ----------------------------------------------------------------- program
extern "C" void h_localization_program() {             // both maps have to be there, and each is used for its own features
  g_cov.clear(); g_axis.clear(); g_leaf.clear(); g_run_from.clear(); g_run_scan.clear(); g_results.clear(); g_runs = 0; g_blocks = true; g_residuals.clear(); vh::g_tf.clear(); vh::g_loaded.clear(); vh::g_missing.clear();
  const int missing = vchoose("missing", 4); if (missing & 1) vh::g_missing.push_back("maps/edge.pcd"); if (missing & 2) vh::g_missing.push_back("maps/surface.pcd");
  CloudXYZ emap, smap; emap.push_back(XYZ(1, 1, 1)); emap.push_back(XYZ(3, 5, 7)); CloudXYZ::Ptr plane; plane_map(plane); smap = *plane; vh::files<XYZ>()["maps/edge.pcd"] = emap; vh::files<XYZ>()["maps/surface.pcd"] = smap;
  bool spun = false; vh::g_spin = [&] {
    spun = true; vassert(!missing, "never-without-a-map"); auto & out = vh::published<geometry_msgs::msg::PoseWithCovarianceStamped>("estimated_pose"); auto * sync = message_filters::Synchronizer<Exact>::all().back();
    geometry_msgs::msg::PoseStamped o; o.header.stamp.ns = sym_double("prior_stamp"); const Vector3d t = any_v("prior"); o.pose.position.x = t(0); o.pose.position.y = t(1); o.pose.position.z = t(2); o.pose.orientation.w = 1; vh::deliver("optimization_start_pose", o);
    rclcpp::Time at; at.ns_ = sym_double("scan_stamp"); const auto ce = any_cloud("edge", 1), cs = any_cloud("surface", 1);
    sync->cb(std::make_shared<const sensor_msgs::msg::PointCloud2>(ToRosMsg<XYZ>(ce, at, "lidar")), std::make_shared<const sensor_msgs::msg::PointCloud2>(ToRosMsg<XYZ>(cs, at, "lidar")));
    vassert(out.size() == 1 && vh::g_tf.size() == 1 && g_runs == 1, "one-pose-per-scan"); for (int i = 0; i < 3; i++) vassert_eq(g_run_from[0](i, 3), t(i), "optimised-from-the-prior");
    vassert_eq(out[0].pose.pose.position.x, g_results[0].pose(0, 3), "result-published");
    vassert(g_residuals.size() == 2 && g_residuals[0].size() == 3 && g_residuals[1].size() == 1, "an-edge-and-a-surface-residual");
    const Vector3d p(ce->at(0).x + t(0), ce->at(0).y + t(1), ce->at(0).z + t(2)), m(2, 3, 4), c = cross(p - (m - g_axis.at(0)), p - (m + g_axis.at(0))); for (int i = 0; i < 3; i++) vassert_eq(g_residuals[0](i), c(i), "edge-point-against-the-edge-map");
    const Vector3d w(-0.5, 0.25, -0.125), q(cs->at(0).x + t(0), cs->at(0).y + t(1), cs->at(0).z + t(2)); const double n = 0.57282196186947999, e = (w(0) * q(0) + w(1) * q(1) + w(2) * q(2) + 1.) / n, b = 1e-5 * (1 + absd(q(0)) + absd(q(1)) + absd(q(2)));
    vassert(vand(g_residuals[1](0) - e <= b, e - g_residuals[1](0) <= b), "surface-point-against-the-surface-map"); };
  char * argv[1] = {nullptr}; const int rc = localization_main(0, argv); vh::g_spin = nullptr; g_blocks = false; vh::g_missing.clear();
  vassert((rc == 0) == !missing, "fails-without-a-map"); vassert(spun == !missing, "spins-with-both-maps"); vreach(missing ? "missing" : "runs");
}
