// Reference geometry written out independently of the code under test.
#pragma once
static inline Eigen::Quaterniond any_q(const char * n) { const std::string s(n); return Eigen::Quaterniond(sym_double((s + "w").c_str()), sym_double((s + "x").c_str()), sym_double((s + "y").c_str()), sym_double((s + "z").c_str())); }
static inline Eigen::Vector3d any_v(const char * n) { const std::string s(n); return Eigen::Vector3d(sym_double((s + "x").c_str()), sym_double((s + "y").c_str()), sym_double((s + "z").c_str())); }
static inline Eigen::Vector4d mul(const Eigen::Vector4d & a, const Eigen::Vector4d & b) {
  return Eigen::Vector4d(a(0) * b(0) - a(1) * b(1) - a(2) * b(2) - a(3) * b(3), a(0) * b(1) + a(1) * b(0) + a(2) * b(3) - a(3) * b(2),
    a(0) * b(2) - a(1) * b(3) + a(2) * b(0) + a(3) * b(1), a(0) * b(3) + a(1) * b(2) - a(2) * b(1) + a(3) * b(0)); }
static inline Eigen::Vector3d sandwich(const Eigen::Vector4d & q, const Eigen::Vector3d & p) {   // q p q*
  const Eigen::Vector4d r = mul(mul(q, Eigen::Vector4d(0, p(0), p(1), p(2))), Eigen::Vector4d(q(0), -q(1), -q(2), -q(3))); return Eigen::Vector3d(r(1), r(2), r(3)); }
// exact derivative of q p q* by component j of (w, x, y, z): it is quadratic in q
static inline Eigen::Vector3d d_rotated(const Eigen::Quaterniond & q, int j, const Eigen::Vector3d & p) {
  Eigen::Vector4d v(q.w(), q.x(), q.y(), q.z()), e = Eigen::Vector4d::Zero(); e(j) = 1; return (sandwich(v + e, p) - sandwich(v - e, p)) / 2.; }
static inline Eigen::Matrix3d rot_unit(const Eigen::Quaterniond & q) {
  const double w = q.w(), x = q.x(), y = q.y(), z = q.z(); Eigen::Matrix3d R;
  R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y); return R; }
static inline Eigen::Isometry3d any_transform(const char * n) { Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) T.matrix()(i, j) = sym_d(n, 4 * i + j); return T; }
static inline Eigen::Quaterniond some_rotation(int k) {   // covers each branch of the matrix-to-quaternion conversion
  static const double Q[6][4] = {{1, 0, 0, 0}, {0.5, 0.5, 0.5, 0.5}, {0, 1, 0, 0}, {0, 0, 0.6, 0.8}, {0.1, 0.7, 0.1, -0.7}, {0, 0, 1, 0}};
  return Eigen::Quaterniond(Q[k][0], Q[k][1], Q[k][2], Q[k][3]); }
static inline double bnd(const Eigen::Vector3d & a, const Eigen::Vector3d & b) { double s = 0; for (int i = 0; i < 3; i++) s += a(i) * a(i) + b(i) * b(i); return s; }
