#include "common.hpp"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include "rotationlib/hat.hpp"
#include "rotationlib/quaternion.hpp"
#include "rotationlib/jacobian/quaternion.hpp"
using Eigen::Quaterniond; using Eigen::Vector3d; using Eigen::Vector4d;
static Quaterniond any_q(const char * n) { const std::string s(n); return Quaterniond(sym_double((s + "w").c_str()), sym_double((s + "x").c_str()), sym_double((s + "y").c_str()), sym_double((s + "z").c_str())); }
static Vector3d any_v(const char * n) { const std::string s(n); return Vector3d(sym_double((s + "x").c_str()), sym_double((s + "y").c_str()), sym_double((s + "z").c_str())); }
// Hamilton product, written out
static Vector4d mul(const Vector4d & a, const Vector4d & b) {
  return Vector4d(a(0) * b(0) - a(1) * b(1) - a(2) * b(2) - a(3) * b(3), a(0) * b(1) + a(1) * b(0) + a(2) * b(3) - a(3) * b(2),
    a(0) * b(2) - a(1) * b(3) + a(2) * b(0) + a(3) * b(1), a(0) * b(3) + a(1) * b(2) - a(2) * b(1) + a(3) * b(0));
}
// q p q*: quadratic in q, so that a central difference is its exact derivative
static Vector3d sandwich(const Vector4d & q, const Vector3d & p) {
  const Vector4d r = mul(mul(q, Vector4d(0, p(0), p(1), p(2))), Vector4d(q(0), -q(1), -q(2), -q(3))); return Vector3d(r(1), r(2), r(3));
}
extern "C" void h_hat() {
  const Vector3d a = any_v("a"), b = any_v("b");
  const Eigen::Matrix3d H = rotationlib::Hat(a);
  const double c[3] = {a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)};
  for (int i = 0; i < 3; i++) {
    vassert_eq(H(i, 0) * b(0) + H(i, 1) * b(1) + H(i, 2) * b(2), c[i], "hat-times-vector-is-the-cross-product");
    for (int j = 0; j < 3; j++) vassert_eq(H(i, j), -H(j, i), "skew-symmetric");
  }
  vreach("end");
}
extern "C" void h_wxyz() {
  const Vector4d v(sym_double("w"), sym_double("x"), sym_double("y"), sym_double("z"));
  const Quaterniond q = rotationlib::FromWXYZ(v);
  vassert_eq(q.w(), v(0), "w"); vassert_eq(q.x(), v(1), "x"); vassert_eq(q.y(), v(2), "y"); vassert_eq(q.z(), v(3), "z");
  const Vector4d u = rotationlib::ToWXYZ(q);
  for (int i = 0; i < 4; i++) vassert_eq(u(i), v(i), "round-trip");
  vreach("end");
}
extern "C" void h_multiplication_matrices() {
  const Quaterniond q = any_q("q"), r = any_q("r");
  const Vector4d a(q.w(), q.x(), q.y(), q.z()), b(r.w(), r.x(), r.y(), r.z()), p = mul(a, b);
  const Eigen::Matrix4d L = rotationlib::LeftMultiplicationMatrix(q), R = rotationlib::RightMultiplicationMatrix(r);
  for (int i = 0; i < 4; i++) {
    double l = 0, m = 0; for (int j = 0; j < 4; j++) { l += L(i, j) * b(j); m += R(i, j) * a(j); }
    vassert_eq(l, p(i), "left-matrix-multiplies-from-the-left"); vassert_eq(m, p(i), "right-matrix-multiplies-from-the-right");
  }
  vreach("end");
}
extern "C" void h_drpdq() {
  const Quaterniond q = any_q("q"); const Vector3d p = any_v("p");
  const Eigen::Matrix<double, 3, 4> J = rotationlib::DRpDq(q, p);
  const Vector4d v(q.w(), q.x(), q.y(), q.z());
  for (int j = 0; j < 4; j++) {
    Vector4d e = Vector4d::Zero(); e(j) = 1;
    const Vector3d d = (sandwich(v + e, p) - sandwich(v - e, p)) / 2.;
    for (int i = 0; i < 3; i++) vassert_eq(J(i, j), d(i), "derivative-of-the-rotated-point");
  }
  vreach("end");
}
extern "C" void h_rpy() {
  const double r = sym_double("roll"), p = sym_double("pitch"), y = sym_double("yaw");
  const Quaterniond q = rotationlib::RPYToQuaternionXYZ(r, p, y);
  const Vector4d X(std::cos(0.5 * r), std::sin(0.5 * r), 0, 0), Y(std::cos(0.5 * p), 0, std::sin(0.5 * p), 0), Z(std::cos(0.5 * y), 0, 0, std::sin(0.5 * y));
  const Vector4d e = mul(mul(Z, Y), X);
  vassert_eq(q.w(), e(0), "w"); vassert_eq(q.x(), e(1), "x"); vassert_eq(q.y(), e(2), "y"); vassert_eq(q.z(), e(3), "z");
  vreach("end");
}
