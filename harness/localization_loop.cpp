// The optimisation loop with a stand-in problem and a stand-in update step; the weighted update with a stand-in degeneracy test.
#include "common.hpp"
#include "ros_stub.hpp"
#include "lidar_feature_localization/optimizer.hpp"
#include "lidar_feature_localization/degenerate.hpp"
#include "lidar_feature_localization/posevec.hpp"
#include "lidar_feature_localization/robust.hpp"
using Eigen::Quaterniond; using Eigen::Vector3d; using Eigen::Vector4d; using Eigen::MatrixXd; using Eigen::VectorXd;
#include "geometry_ref.hpp"
#define CalcUpdate real_CalcUpdate
#include "localization/src/optimizer.cpp"
#undef CalcUpdate
static MatrixXd * g_degenerate_arg = nullptr; static bool g_degenerate = false; static int g_degenerate_calls = 0;
bool IsDegenerate(const MatrixXd & C, const double threshold) { vassert(threshold == 0.1, "default-threshold"); g_degenerate_calls++; delete g_degenerate_arg; g_degenerate_arg = new MatrixXd(C); return g_degenerate; }

struct Step { Quaterniond q, dq; Vector3d t, dt; };
static std::vector<Step> g_updates; static std::vector<VectorXd> g_weights; static std::vector<MatrixXd> g_jac; static std::vector<std::vector<VectorXd>> g_res;
static std::vector<Eigen::Isometry3d> g_poses; static std::vector<std::vector<VectorXd>> g_made; static int g_count, g_empty_at;
static int g_only = -1;                               // the one iteration with any error and step, or -1 for all of them
static bool symbolic(int it) { return g_only < 0 || it == g_only; }
std::tuple<Quaterniond, Vector3d> CalcUpdate(const Quaterniond & q, const VectorXd & w, const std::vector<MatrixXd> & J, const std::vector<VectorXd> & r) {
  const int i = (int)g_updates.size(); Step s; s.q = q; s.dq = Quaterniond(1, 0, 0, 0); s.dt = Vector3d::Zero(); s.dt((i + 1) % 3) = 0.5;
  if (symbolic(i)) { s.dq.w() = sym_d("dqw", i); s.dq.vec()(i % 3) = sym_d("dqv", i); s.dt((i + 1) % 3) = sym_d("dt", i); }   // one axis at a time
  g_updates.push_back(s); g_weights.push_back(w); g_res.push_back(r);
  vassert(J.size() == r.size(), "a-jacobian-per-residual"); for (auto & j : J) vassert(j(0, 0) == 100 * i + 7, "jacobians-of-this-iterate");
  return std::make_tuple(s.dq, s.dt);
}
struct Problem {
  std::tuple<std::vector<MatrixXd>, std::vector<VectorXd>> Make(const int & arg, const Eigen::Isometry3d & pose) const {
    vassert(arg == 42, "argument-passed-on");
    const int it = (int)g_poses.size(); g_poses.push_back(pose);
    std::vector<MatrixXd> J; std::vector<VectorXd> r;
    const int n = it == g_empty_at ? 0 : g_count;
    for (int i = 0; i < n; i++) { MatrixXd j(1, 7); j.setConstant(100 * it + 7); J.push_back(j); VectorXd v(1); if (symbolic(it)) { const double e = sym_range_i(vname("e", it).c_str(), i, 0, 1e9); v(0) = std::sqrt(e); } else v(0) = (100 - it) * (1 + i); r.push_back(v); }   // squared: any value
    g_made.push_back(r); return std::make_tuple(J, r);
  }
};
static void same_pose(const Eigen::Isometry3d & a, const Eigen::Matrix3d & R, const Vector3d & t, const char * l) {
  for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) vassert_eq(a(i, j), R(i, j), l); vassert_eq(a(i, 3), t(i), l); } }
static double median2(const VectorXd & e) { return e.size() == 1 ? e(0) : (e(0) + e(1)) / 2; }
static void check_loop(const Optimizer<Problem, int> & opt, const int max_iter) {
  g_updates.clear(); g_weights.clear(); g_res.clear(); g_poses.clear(); g_made.clear();
  Eigen::Isometry3d init = Eigen::Isometry3d::Identity(); const Vector3d t0 = any_v("t0"); init.matrix().block<3, 1>(0, 3) = t0;
  const OptimizationResult res = opt.Run(42, init);
  Vector4d q(1, 0, 0, 0); Vector3d t = t0; double pe = 1e300, ps = 1e300; bool first = true;
  for (int it = 0; it < max_iter; it++) {
    vassert((int)g_poses.size() > it, "problem-evaluated-at-every-iterate");
    const Quaterniond Q(q(0), q(1), q(2), q(3));
    same_pose(g_poses[it], rot_unit(Q), t, "evaluated-at-the-current-pose");
    const auto & r = g_made[it];
    if (r.empty()) {
      vassert(!res.success && res.iteration == it && res.error == 0 && res.error_scale == 0, "empty-input-is-a-failure"); same_pose(res.pose, rot_unit(Q), t, "empty-input-keeps-the-pose");
      vassert((int)g_poses.size() == it + 1, "stops-there"); vreach("empty"); return;
    }
    double e = 0; VectorXd ev(r.size()); for (size_t i = 0; i < r.size(); i++) { ev(i) = r[i](0) * r[i](0); e += ev(i); }
    const double m = median2(ev); VectorXd d(r.size()); for (size_t i = 0; i < r.size(); i++) { const double x = ev(i) - m; d(i) = vite(x < 0, -x, x); }
    const double s = 1.482602218505602 * median2(d);
    if (!first && vdecide(e > pe)) {
      vassert(res.success && res.iteration == it, "a-grown-error-stops-the-search"); vassert_eq(res.error, e, "error-reported"); vassert_eq(res.error_scale, s, "scale-reported");
      same_pose(res.pose, rot_unit(Q), t, "grown-error-pose"); vassert((int)g_poses.size() == it + 1, "stops-there"); vreach("larger-error"); return;
    }
    if (!first && vdecide(s > ps)) {
      vassert(res.success && res.iteration == it, "a-grown-scale-stops-the-search"); vassert_eq(res.error, e, "error-reported"); vassert_eq(res.error_scale, s, "scale-reported");
      same_pose(res.pose, rot_unit(Q), t, "grown-scale-pose"); vassert((int)g_poses.size() == it + 1, "stops-there"); vreach("larger-scale"); return;
    }
    first = false; pe = e; ps = s;
    vassert((int)g_updates.size() > it, "an-update-per-iterate");
    const Step & u = g_updates[it];
    vassert(u.q.w() == q(0) && u.q.x() == q(1) && u.q.y() == q(2) && u.q.z() == q(3), "update-computed-at-the-current-rotation");
    vassert(g_res[it].size() == r.size() && g_weights[it].size() == (long)r.size(), "update-uses-all-residuals");
    for (size_t i = 0; i < r.size(); i++) { vassert_eq(g_res[it][i](0), r[i](0), "residuals-of-this-iterate"); vassert_eq(g_weights[it](i), HuberDerivative(ev(i) / (s + 1e-16), 1.345), "robust-weights-of-the-scaled-errors"); }
    q = mul(q, Vector4d(u.dq.w(), u.dq.x(), u.dq.y(), u.dq.z())); t = t + u.dt;
    const double a = std::sqrt(u.dq.x() * u.dq.x() + u.dq.y() * u.dq.y() + u.dq.z() * u.dq.z()), b = std::sqrt(u.dt(0) * u.dt(0) + u.dt(1) * u.dt(1) + u.dt(2) * u.dt(2));
    if (vdecide(vand(a < 1e-3, b < 1e-3))) {
      vassert(res.success && res.iteration == it, "small-step-converges"); vassert_eq(res.error, e, "error-reported"); vassert_eq(res.error_scale, s, "scale-reported");
      same_pose(res.pose, rot_unit(Quaterniond(q(0), q(1), q(2), q(3))), t, "converged-pose-includes-the-last-step"); vassert((int)g_poses.size() == it + 1, "stops-there"); vreach("converged"); return;
    }
  }
  vassert(!res.success && res.iteration == max_iter, "iteration-limit-is-a-failure");
  same_pose(res.pose, rot_unit(Quaterniond(q(0), q(1), q(2), q(3))), t, "limit-pose-includes-all-steps");
  if (max_iter > 0) { vassert_eq(res.error, pe, "error-reported"); vassert_eq(res.error_scale, ps, "scale-reported"); }
  vassert((int)g_poses.size() == max_iter, "no-further-evaluation"); vreach("limit");
}
extern "C" void h_loop() {
  g_only = -1; g_count = 1 + vchoose("residuals", 2); const int max_iter = vchoose("max_iter", g_count == 1 ? TIER(4, 5) : TIER(3, 4)); g_empty_at = vchoose("empty_at", 3) - 1;
  check_loop(Optimizer<Problem, int>(Problem(), max_iter), max_iter);
}
extern "C" void h_loop_long() {                       // many iterations, one of them with any error and step
  static const int N[3] = {20, 20, 40}; const int k = vchoose("limit", 3), n = N[k], at = vchoose("any_at", TIER(3, n)); g_count = 1 + vchoose("residuals", 2); g_only = TIER(at == 0 ? n - 1 : at == 1 ? n / 2 : 11, at); g_empty_at = -1;
  if (k == 0) check_loop(Optimizer<Problem, int>(Problem()), 20); else check_loop(Optimizer<Problem, int>(Problem(), N[k]), N[k]);
  g_only = -1;
}
// Weighted Gauss-Newton step: one 3-row block per residual. Rotational rows see only the rotation, translational rows only the translation,
// so that the 6x6 system splits into two 3x3 ones.
extern "C" void h_weighted_update() {
  g_degenerate = vchoose("degenerate", 2) == 1; g_degenerate_calls = 0;
  const Eigen::Matrix<double, 7, 6> M = MakeM(Quaterniond(1, 0, 0, 0));
  static const double G[3][3] = {{2, 0, 0}, {4, 6, 0}, {-2, 4, 8}}, H[3][3] = {{1, 0, 0}, {-1, 2, 0}, {3, 0, 4}};
  std::vector<MatrixXd> J(2, MatrixXd::Zero(3, 7)); std::vector<VectorXd> r(2, VectorXd::Zero(3));
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { J[0](i, 1 + j) = G[j][i]; J[1](i, 4 + j) = H[j][i]; }   // transposed: J^T is lower triangular
  for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) r[k](i) = sym_d("r", 3 * k + i);
  static const double W[4][2] = {{1, 1}, {0.25, 1}, {1, 0.0625}, {0.25, 0.25}}; const int wk = vchoose("weights", 4);
  VectorXd w(2); w(0) = W[wk][0]; w(1) = W[wk][1];
  const Vector6d x = WeightedUpdate(M, w, J, r);
  vassert(g_degenerate_calls == 1, "degeneracy-checked");
  for (int i = 0; i < 7; i++) for (int j = 0; j < 7; j++) {
    double s = 0; for (int k = 0; k < 2; k++) for (int a = 0; a < 3; a++) s += J[k](a, i) * J[k](a, j);
    vassert_eq((*g_degenerate_arg)(i, j), s, "degeneracy-of-the-unweighted-normal-matrix"); }
  if (g_degenerate) { for (int i = 0; i < 6; i++) vassert_eq(x(i), 0., "no-step-when-degenerate"); vreach("degenerate"); return; }
  for (int i = 0; i < 6; i++) {                       // M^T A M x + M^T b = 0
    double lhs = 0, rhs = 0;
    for (int k = 0; k < 2; k++) for (int a = 0; a < 3; a++) {
      double jm_i = 0, jmx = 0; for (int c = 0; c < 7; c++) jm_i += J[k](a, c) * M(c, i);
      for (int j = 0; j < 6; j++) { double jm = 0; for (int c = 0; c < 7; c++) jm += J[k](a, c) * M(c, j); jmx += jm * x(j); }
      lhs += w(k) * jm_i * jmx; rhs += w(k) * jm_i * r[k](a); }
    vassert_eq(lhs, -rhs, "solves-the-weighted-normal-equations");
  }
  vreach("step");
}
extern "C" void h_calc_update() {                     // the step as a rotation and a translation
  g_degenerate = vchoose("degenerate", 2) == 1;
  std::vector<MatrixXd> J(2, MatrixXd::Zero(3, 7)); std::vector<VectorXd> r(2, VectorXd::Zero(3));
  for (int i = 0; i < 3; i++) { J[0](i, 1 + i) = 2; J[1](i, 4 + i) = 1; r[0](i) = sym_d("r", i); r[1](i) = sym_d("s", i); }
  VectorXd w(2); w(0) = 1; w(1) = 1;
  const auto [dq, dt] = real_CalcUpdate(Quaterniond(1, 0, 0, 0), w, J, r);
  const double sg = g_degenerate ? 0. : -1.;
  for (int i = 0; i < 3; i++) vassert_eq(dt(i), sg * r[1](i), "translation-part");
  const Quaterniond e = AngleAxisToQuaternion(Vector3d(sg * r[0](0), sg * r[0](1), sg * r[0](2)));
  vassert_eq(dq.w(), e.w(), "rotation-part-w"); vassert_eq(dq.x(), e.x(), "rotation-part-x"); vassert_eq(dq.y(), e.y(), "rotation-part-y"); vassert_eq(dq.z(), e.z(), "rotation-part-z");
  vreach("end");
}
