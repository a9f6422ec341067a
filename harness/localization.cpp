#include "common.hpp"
#include "ros_stub.hpp"
#include <map>
#include "lidar_feature_library/eigen.hpp"
#include "lidar_feature_localization/alignment.hpp"
#include "lidar_feature_localization/degenerate.hpp"
#include "lidar_feature_localization/filter.hpp"
#include "lidar_feature_localization/jacobian.hpp"
#include "lidar_feature_localization/kdtree.hpp"
#include "lidar_feature_localization/matrix_type.hpp"
#include "lidar_feature_localization/math.hpp"
#include "lidar_feature_localization/optimizer.hpp"
#include "lidar_feature_localization/point_to_vector.hpp"
#include "lidar_feature_localization/pointcloud_to_matrix.hpp"
#include "lidar_feature_localization/posevec.hpp"
#include "lidar_feature_localization/rad2deg.hpp"
#include "lidar_feature_localization/robust.hpp"
#include "lidar_feature_localization/stamp_sorted_objects.hpp"
using Eigen::Quaterniond; using Eigen::Vector3d; using Eigen::Vector4d; using Eigen::MatrixXd; using Eigen::VectorXd;
#include "geometry_ref.hpp"
// -------------------------------------------------------------- posevec
extern "C" void h_angle_axis() {
  const Vector3d t = any_v("t");
  const Quaterniond q = AngleAxisToQuaternion(t);
  const double k2 = t(0) * t(0) + t(1) * t(1) + t(2) * t(2), k = std::sqrt(k2);
  if (vdecide(k < 1e-8)) {
    vassert(q.w() == 1. && q.x() == 0. && q.y() == 0. && q.z() == 0., "tiny-rotation-is-identity"); vreach("tiny"); return;
  }
  vassert_eq(q.w(), std::cos(k / 2.), "w");
  const double s = std::sin(k / 2.);
  vassert_eq(q.x() * k, t(0) * s, "x-along-the-axis"); vassert_eq(q.y() * k, t(1) * s, "y-along-the-axis"); vassert_eq(q.z() * k, t(2) * s, "z-along-the-axis");
  vreach("rotation");
}
extern "C" void h_make_pose() {
  const Quaterniond q = any_q("q"); const Vector3d t = any_v("t");
  const Eigen::Isometry3d T = MakePose(q, t);
  const Eigen::Matrix3d R = rot_unit(q);
  for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) vassert_eq(T(i, j), R(i, j), "rotation"); vassert_eq(T(i, 3), t(i), "translation"); vassert_eq(T(3, i), 0., "bottom-row"); }
  vassert_eq(T(3, 3), 1., "bottom-row");
  const double a = sym_double("a"); MatrixXd m(1, 1); m(0, 0) = a; vassert_eq(Rad2Deg(m)(0, 0), a * (180.0 / M_PI), "degrees");
  vreach("end");
}
// ------------------------------------------------------------- alignment
extern "C" void h_alignment() {
  const int n = some_size("n", TIER(3, 4), 10);
  const Quaterniond q = any_q("q"); MatrixXd X(n, 3), Y(n, 3);
  for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) { X(i, j) = sym_d("x", 3 * i + j); Y(i, j) = sym_d("y", 3 * i + j); }
  const auto J = MakeJacobian(q, X);
  vassert((int)J.size() == n, "one-jacobian-per-point");
  for (int k = 0; k < n; k++) {
    vassert(J[k].rows() == 3 && J[k].cols() == 7, "jacobian-shape");
    for (int j = 0; j < 4; j++) { const Vector3d d = d_rotated(q, j, X.row(k)); for (int i = 0; i < 3; i++) vassert_eq(J[k](i, j), d(i), "derivative-by-rotation"); }
    for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) vassert_eq(J[k](i, 4 + j), i == j ? 1. : 0., "derivative-by-translation");
  }
  const Eigen::Isometry3d T = any_transform("T");
  const auto r = MakeResidual(T, X, Y);
  vassert((int)r.size() == n, "one-residual-per-point");
  for (int k = 0; k < n; k++) for (int i = 0; i < 3; i++) vassert_eq(r[k](i), T(i, 0) * X(k, 0) + T(i, 1) * X(k, 1) + T(i, 2) * X(k, 2) + T(i, 3) - Y(k, i), "residual-is-transformed-minus-target");
  vreach("end");
}
extern "C" void h_alignment_problem() {
  const int n = some_size("n", 3, 8), k = vchoose("rot", 6);
  const Quaterniond q = some_rotation(k); MatrixXd X(n, 3), Y(n, 3);
  for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) { X(i, j) = sym_d("x", 3 * i + j); Y(i, j) = sym_d("y", 3 * i + j); }
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); T.matrix().block<3, 3>(0, 0) = rot_unit(q); for (int i = 0; i < 3; i++) T.matrix()(i, 3) = sym_d("t", i);
  const auto [J, r] = AlignmentProblem().Make(std::make_tuple(X, Y), T);
  vassert((int)J.size() == n && (int)r.size() == n, "one-per-point");
  for (int p = 0; p < n; p++) for (int i = 0; i < 3; i++) {
    vassert_eq(r[p](i), T(i, 0) * X(p, 0) + T(i, 1) * X(p, 1) + T(i, 2) * X(p, 2) + T(i, 3) - Y(p, i), "residual");
    for (int j = 0; j < 3; j++) vassert_eq(J[p](i, 4 + j), i == j ? 1. : 0., "derivative-by-translation");
  }
  // rotating the pose by a small angle moves the residual as the jacobian says: J_q (q * (0, theta/2)) = R (theta x p)
  for (int p = 0; p < n; p++) {
    const Vector3d th = any_v("th"), x = X.row(p); const Vector4d v = mul(Vector4d(q.w(), q.x(), q.y(), q.z()), Vector4d(0, th(0) / 2, th(1) / 2, th(2) / 2));
    const Vector3d c(th(1) * x(2) - th(2) * x(1), th(2) * x(0) - th(0) * x(2), th(0) * x(1) - th(1) * x(0));
    // q and -q describe the same rotation, so the sign of the rotational part is compared up to one common sign
    double pos = 0, sgn = 1;
    for (int i = 0; i < 3; i++) {
      double l = 0, m = 0; for (int j = 0; j < 4; j++) l += J[p](i, j) * v(j); for (int j = 0; j < 3; j++) m += T(i, j) * c(j);
      const double d = l - m, s = l + m;
      vassert(vor(vand(d < 1e-9 * (1 + bnd(x, th)), d > -1e-9 * (1 + bnd(x, th))), vand(s < 1e-9 * (1 + bnd(x, th)), s > -1e-9 * (1 + bnd(x, th)))), "derivative-by-rotation");
    }
    (void)pos; (void)sgn;
  }
  vreach("end");
}
extern "C" void h_row_jacobian() {
  const int n = some_size("n", TIER(3, 4), 10);
  const Quaterniond q = any_q("q"); std::vector<Vector3d> P, C;
  for (int k = 0; k < n; k++) { P.push_back(any_v(vname("p", k).c_str())); C.push_back(any_v(vname("c", k).c_str())); }
  const MatrixXd J = MakeJacobian(P, C, q);
  vassert(J.rows() == n && J.cols() == 7, "shape");
  for (int k = 0; k < n; k++) {
    for (int j = 0; j < 4; j++) { const Vector3d d = d_rotated(q, j, P[k]); vassert_eq(J(k, j), C[k](0) * d(0) + C[k](1) * d(1) + C[k](2) * d(2), "coefficients-times-derivative"); }
    for (int j = 0; j < 3; j++) vassert_eq(J(k, 4 + j), C[k](j), "translation-coefficients");
  }
  vreach("end");
}
// ---------------------------------------------------------------- robust
static double ab(double x) { return vite(x < 0, -x, x); }
static double med(std::vector<double> v) {          // by comparing, not sorting in place
  const int n = (int)v.size(); double lo = 0, hi = 0;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (vdecide(v[j] < v[i])) std::swap(v[i], v[j]);
  lo = v[(n - 1) / 2]; hi = v[n / 2]; return (lo + hi) / 2;
}
extern "C" void h_mad_long() {
  const int n = 14 + vchoose("odd", 2), at = 4 * vchoose("at", 3); VectorXd v(n); std::vector<double> u(n), d(n);
  for (int i = 0; i < n; i++) u[i] = v(i) = i == at ? sym_double("v") : (double)(11 * i % n) * 0.5 - 2;
  const double m = med(u); for (int i = 0; i < n; i++) d[i] = ab(u[i] - m);
  const double e = med(d); vassert_eq(MedianAbsoluteDeviation(v), e, "median-absolute-deviation"); vassert_eq(Scale(v), 1.482602218505602 * e, "scale-is-the-normalised-mad");
  vreach("end");
}
extern "C" void h_weights_long() {
  const int n = 20, at = 5 * vchoose("at", 3); VectorXd z(n); for (int i = 0; i < n; i++) z(i) = i == at ? sym_double("z") : (double)(7 * i % n) * 0.5; vassume(z(at) >= 0);
  const VectorXd w = ComputeWeights(z); vassert(w.size() == n, "size");
  for (int i = 0; i < n; i++) { vassert(vand(w(i) > 0, w(i) <= 1), "weight-in-0-1"); vassert_eq(w(i), HuberDerivative(z(i), 1.345), "huber-weight"); }
  vreach("end");
}
extern "C" void h_mad() {
  const int n = 1 + vchoose("n", TIER(3, 4)); VectorXd v(n); std::vector<double> u(n), d(n);
  for (int i = 0; i < n; i++) u[i] = v(i) = sym_d("v", i);
  const double m = med(u); for (int i = 0; i < n; i++) d[i] = ab(u[i] - m);
  const double e = med(d), g = MedianAbsoluteDeviation(v), s = Scale(v);
  vassert_eq(g, e, "median-absolute-deviation"); vassert_eq(s, 1.482602218505602 * e, "scale-is-the-normalised-mad"); vassert(s >= 0, "not-negative");
  vreach("end");
}
extern "C" void h_huber() {
  const double e = sym_double("e"), k = sym_double("k"); vassume(vand(e >= 0, k > 0));
  const double h = Huber(e, k), d = HuberDerivative(e, k);
  if (vdecide(e < k * k)) { vassert_eq(h, e, "quadratic-inside"); vassert_eq(d, 1., "unit-slope-inside"); vreach("inside"); return; }
  const double r = std::sqrt(e);
  vassert_eq(h, 2 * k * r - k * k, "linear-in-the-root-outside"); vassert_eq(d * r, k, "slope-outside");
  vassert(h <= e, "never-above-the-error"); vassert(vand(d > 0, d <= 1), "weight-in-0-1");
  vreach("outside");
}
extern "C" void h_huber_default() {
  const double e = sym_double("e"); vassume(e >= 0);
  vassert_eq(Huber(e), Huber(e, 1.345), "default-threshold"); vassert_eq(HuberDerivative(e), HuberDerivative(e, 1.345), "default-threshold-slope"); vreach("end");
}
extern "C" void h_huber_continuous() {              // value and slope meet at e = k^2
  const double k = sym_double("k"); vassume(k > 0);
  vassert_eq(Huber(k * k, k), k * k, "continuous-value"); vassert_eq(HuberDerivative(k * k, k), 1., "continuous-slope"); vreach("end");
}
// ----------------------------------------------------------- degenerate
extern "C" void h_degenerate() {
  const int n = 1 + vchoose("n", TIER(2, 3)); MatrixXd C = MatrixXd::Zero(n, n); const double th = sym_double("threshold"); vassume(th > 0);
  bool any = false;
  for (int i = 0; i < n; i++) { C(i, i) = sym_d("c", i); any = vor(any, ab(C(i, i)) < th); }
  vassert(IsDegenerate(C, th) == vdecide(any), "degenerate-iff-an-eigenvalue-is-small"); vreach("end");
}
// -------------------------------------------------------------- optimiser
extern "C" void h_check_convergence() {
  const Quaterniond q = any_q("q"); const Vector3d t = any_v("t");
  const bool c = CheckConvergence(q, t);
  const double a = q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), b = t(0) * t(0) + t(1) * t(1) + t(2) * t(2);
  vassert(c == vdecide(vand(std::sqrt(a) < 1e-3, std::sqrt(b) < 1e-3)), "converged-iff-both-steps-are-small");
  if (c) vreach("converged"); else vreach("not");
}
extern "C" void h_update_matrix() {
  const Quaterniond q = any_q("q"); const Vector3d th = any_v("th"), t = any_v("t");
  const Eigen::Matrix<double, 7, 6> M = MakeM(q);
  const Vector4d d = mul(Vector4d(q.w(), q.x(), q.y(), q.z()), Vector4d(0, th(0) / 2, th(1) / 2, th(2) / 2));
  for (int i = 0; i < 7; i++) {
    double s = 0; for (int j = 0; j < 6; j++) s += M(i, j) * (j < 3 ? th(j) : t(j - 3));
    vassert_eq(s, i < 4 ? d(i) : t(i - 4), "derivative-of-the-pose-by-the-update");
  }
  vreach("end");
}
extern "C" void h_errors() {
  const int n = some_size("n", 4, 270), m = 1 + vchoose("m", 3); std::vector<VectorXd> r;
  for (int k = 0; k < n; k++) { VectorXd v(m); for (int i = 0; i < m; i++) v(i) = sym_d("r", 3 * k + i); r.push_back(v); }
  const VectorXd e = ComputeErrors(r); vassert(e.size() == n, "one-per-residual");
  for (int k = 0; k < n; k++) { double s = 0; for (int i = 0; i < m; i++) s += r[k](i) * r[k](i); vassert_eq(e(k), s, "squared-norm"); }
  vreach("end");
}
extern "C" void h_normalize() {
  const int n = 1 + vchoose("n", 3); VectorXd e(n); std::vector<double> u(n), d(n); for (int i = 0; i < n; i++) { u[i] = e(i) = sym_d("e", i); vassume(e(i) >= 0); }
  const double m = med(u); for (int i = 0; i < n; i++) d[i] = ab(u[i] - m);
  const double s = 1.482602218505602 * med(d);
  const auto [z, scale] = NormalizeErrorScale(e);
  vassert_eq(scale, s, "scale"); vassert(z.size() == n, "size");
  for (int i = 0; i < n; i++) vassert_eq(z(i) * (s + 1e-16), e(i), "errors-in-units-of-the-scale");
  vreach("end");
}
extern "C" void h_weights() {
  const int n = vchoose("n", 3); VectorXd z(n); for (int i = 0; i < n; i++) { z(i) = sym_d("z", i); vassume(z(i) >= 0); }
  const VectorXd w = ComputeWeights(z); vassert(w.size() == n, "size");
  for (int i = 0; i < n; i++) { vassert(vand(w(i) > 0, w(i) <= 1), "weight-in-0-1"); vassert_eq(w(i), HuberDerivative(z(i), 1.345), "huber-weight"); }
  vreach("end");
}
// -------------------------------------------------- stamp-sorted objects
extern "C" void h_stamp_sorted_long() {   // many objects: one at any time, the others every second in some order
  const int n = 60; StampSortedObjects<int> s; std::vector<double> t(n); const double any = sym_double("t"); const int at = 13 * vchoose("at", 5);
  for (int i = 0; i < n; i++) { t[i] = i == at ? any : (double)((37 * i + 11) % n); s.Insert(t[i], i); }
  int twin = -1; for (int i = 0; i < n; i++) if (i != at && vdecide(t[i] == any)) twin = i;
  vassert((int)s.Size() == (twin < 0 ? n : n - 1), "one-object-per-stamp"); const double q = 5 + 17 * vchoose("query", 4) + 0.25;
  const auto [ct, co] = s.GetClosest(q); vassert(0 <= co && co < n, "a-stored-object"); vassert_eq(ct, t[co], "with-its-own-stamp"); if (twin >= 0) vassert(co != std::min(at, twin), "the-last-one-of-a-stamp");
  for (int i = 0; i < n; i++) vassert(ab(ct - q) <= ab(t[i] - q), "no-closer-object-exists");
  s.RemoveOlderThan(q); int keep = 0; for (int i = 0; i < n; i++) if ((twin < 0 || i != at) && vdecide(t[i] <= q)) keep++;
  vassert((int)s.Size() == keep, "keeps-exactly-the-stamps-up-to-the-limit"); if (twin >= 0) vreach("replaced"); vreach("end");
}
extern "C" void h_stamp_sorted_many() {   // a long history: one at any time near the middle, the others every second in some order
  const int n = TIER(310, 1010), at = 150; StampSortedObjects<int> s; std::vector<double> t(n); const double any = sym_double("t"); vassume(vand(any > 99, any < 102));
  for (int i = 0; i < n; i++) { t[i] = i == at ? any : (double)((37 * i + 11) % n); s.Insert(t[i], i); }
  int twin = -1; for (int i = 0; i < n; i++) if (i != at && 98 < t[i] && t[i] < 103 && vdecide(t[i] == any)) twin = i;
  vassert((int)s.Size() == (twin < 0 ? n : n - 1), "one-object-per-stamp"); const double Q[3] = {0.25, 100.25, n - 20.25}, q = Q[vchoose("query", 3)];
  const auto [ct, co] = s.GetClosest(q); vassert(0 <= co && co < n, "a-stored-object"); vassert_eq(ct, t[co], "with-its-own-stamp"); for (int i = 0; i < n; i++) if (i == at || ab(t[i] - q) < 4) vassert(ab(ct - q) <= ab(t[i] - q), "no-closer-object-exists");
  s.RemoveOlderThan(q); int keep = 0; for (int i = 0; i < n; i++) if ((twin < 0 || i != at) && vdecide(t[i] <= q)) keep++;
  vassert((int)s.Size() == keep, "keeps-exactly-the-stamps-up-to-the-limit"); vreach("end");
}
extern "C" void h_stamp_sorted() {
  const int n = vchoose("n", TIER(4, 5)); StampSortedObjects<int> s; std::vector<double> t(n);
  for (int i = 0; i < n; i++) { t[i] = sym_d("t", i); s.Insert(t[i], i); }
  std::vector<int> live;                            // the last one inserted at each stamp
  for (int i = 0; i < n; i++) { bool later = false; for (int j = i + 1; j < n; j++) if (vdecide(t[i] == t[j])) later = true; if (!later) live.push_back(i); else vreach("replaced"); }
  vassert(s.Size() == live.size(), "one-object-per-stamp");
  const double x = sym_double("query");
  if (!live.empty()) {
    const auto [ct, co] = s.GetClosest(x);
    bool found = false; for (int i : live) if (i == co) found = true;
    vassert(found, "a-stored-object"); vassert_eq(ct, t.at(co), "with-its-own-stamp");
    for (int i : live) vassert(ab(ct - x) <= ab(t[i] - x), "no-closer-object-exists");
    vreach("closest");
  }
  const double y = sym_double("limit");
  s.RemoveOlderThan(y);
  int keep = 0; for (int i : live) if (vdecide(t[i] <= y)) keep++;
  vassert((int)s.Size() == keep, "keeps-exactly-the-stamps-up-to-the-limit");
  if (keep > 0 && keep < (int)live.size()) vreach("some-removed");
  if (keep == 0 && !live.empty()) vreach("all-removed");
  if (keep > 0) {                                    // the kept ones are still found
    const int i = live.at(vchoose("probe", (int)live.size()));
    const auto [ct, co] = s.GetClosest(t[i]);
    vassert(vdecide(t[co] <= y), "only-kept-objects-are-returned");
    if (vdecide(t[i] <= y)) vassert(co == i, "kept-object-still-there");
  }
}
// ------------------------------------------------- kd-tree and conversion
extern "C" void h_kdtree() {
  const int n = vchoose("n", TIER(4, 5)), k = 1 + vchoose("k", 3), dim = 2;
  MatrixXd map(n, dim); for (int i = 0; i < n; i++) for (int j = 0; j < dim; j++) map(i, j) = sym_d("m", dim * i + j);
  VectorXd q(dim); for (int j = 0; j < dim; j++) q(j) = sym_d("q", j);
  const KDTreeEigen tree(map, 10);
  const auto [X, d] = tree.NearestKSearch(q, k);
  const int m = std::min(n, k);
  vassert(X.rows() == m && (int)d.size() == m && X.cols() == dim, "as-many-neighbours-as-asked-for-and-available");
  std::vector<int> used(n, 0);
  for (int a = 0; a < m; a++) {
    const double s = (X(a, 0) - q(0)) * (X(a, 0) - q(0)) + (X(a, 1) - q(1)) * (X(a, 1) - q(1));
    vassert_eq(d[a], s, "squared-distance-of-the-neighbour");
    if (a > 0) vassert(d[a - 1] <= d[a], "nearest-first");
    bool in = false; for (int i = 0; i < n; i++) in = vor(in, vand(map(i, 0) == X(a, 0), map(i, 1) == X(a, 1)));
    vassert(in, "neighbour-is-a-map-point");
  }
  if (m > 0) for (int i = 0; i < n; i++) {            // at least n - m map points are no closer than the last neighbour
    const double s = (map(i, 0) - q(0)) * (map(i, 0) - q(0)) + (map(i, 1) - q(1)) * (map(i, 1) - q(1));
    bool listed = false; for (int a = 0; a < m; a++) listed = vor(listed, vand(map(i, 0) == X(a, 0), map(i, 1) == X(a, 1)));
    vassert(vor(listed, s >= d[m - 1]), "no-nearer-point-left-out");
  }
  if (n < k) vreach("few"); else vreach("enough");
}
extern "C" void h_cloud_matrix() {
  const int n = some_size("n", 4, 270);
  pcl::PointCloud<PointXYZCR>::Ptr c(new pcl::PointCloud<PointXYZCR>()); pcl::PointCloud<pcl::PointXYZ>::Ptr x(new pcl::PointCloud<pcl::PointXYZ>());
  for (int i = 0; i < n; i++) {
    c->push_back(PointXYZCR(sym_float(vname("x", i).c_str()), sym_float(vname("y", i).c_str()), sym_float(vname("z", i).c_str()), sym_float(vname("c", i).c_str()), 3));
    x->push_back(pcl::PointXYZ(c->at(i).x, c->at(i).y, c->at(i).z));
  }
  const MatrixXd A = PointCloudToMatrix<PointXYZCRToVector, PointXYZCR>(c), B = PointCloudToMatrix<PointXYZCRToXYZVector, PointXYZCR>(c), C = PointCloudToMatrix<PointXYZToVector, pcl::PointXYZ>(x);
  vassert(A.rows() == n && A.cols() == 4 && B.rows() == n && B.cols() == 3 && C.rows() == n && C.cols() == 3, "shapes");
  for (int i = 0; i < n; i++) {
    const auto & p = c->at(i); const double v[4] = {p.x, p.y, p.z, p.curvature};
    for (int j = 0; j < 4; j++) { vassert_eq(A(i, j), v[j], "all-channels"); if (j < 3) { vassert_eq(B(i, j), v[j], "xyz"); vassert_eq(C(i, j), v[j], "xyz"); } }
  }
  vreach("end");
}
extern "C" void h_filter() {
  const int n = some_size("n", TIER(5, 7), 270); std::vector<bool> f(n); std::vector<double> v(n); std::vector<int> want;
  for (int i = 0; i < n; i++) { v[i] = sym_d("v", i); f[i] = n > 7 && i != 17 ? i % 3 == 1 : vdecide(sym_bool(vname("f", i).c_str())); if (f[i]) want.push_back(i); }
  const auto r = Filter(f, v); vassert(r.size() == want.size(), "as-many-as-flags");
  for (size_t k = 0; k < want.size(); k++) vassert_eq(r[k], v[want[k]], "flagged-values-in-order");
  vreach("end");
}
