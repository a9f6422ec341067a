#include "common.hpp"
#include <Eigen/Core>
#include <Eigen/LU>
#include <stdexcept>
#include "kalman_filter/kalman_filter.hpp"
#include "kalman_filter/matrix_size.hpp"
#include "kalman_filter/time_delay_kalman_filter.hpp"
using Eigen::MatrixXd; using Eigen::VectorXd;
static MatrixXd any_m(const char * n, int r, int c) { MatrixXd m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = sym_d(n, c * i + j); return m; }
static MatrixXd any_sym(const char * n, int d) { MatrixXd m(d, d); for (int i = 0; i < d; i++) for (int j = 0; j <= i; j++) m(i, j) = m(j, i) = sym_d(n, d * i + j); return m; }
static MatrixXd prod(const MatrixXd & a, const MatrixXd & b) { MatrixXd r(a.rows(), b.cols()); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < b.cols(); j++) { double s = 0; for (int k = 0; k < a.cols(); k++) s += a(i, k) * b(k, j); r(i, j) = s; } return r; }
static MatrixXd tr(const MatrixXd & a) { MatrixXd r(a.cols(), a.rows()); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) r(j, i) = a(i, j); return r; }
static void same(const MatrixXd & a, const MatrixXd & b, const char * l) { vassert(a.rows() == b.rows() && a.cols() == b.cols(), l); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) vassert_eq(a(i, j), b(i, j), l); }
struct KF : KalmanFilter { using KalmanFilter::KalmanFilter; const VectorXd & x() const { return x_; } const MatrixXd & P() const { return P_; } };
static MatrixXd full(int r, int c) { MatrixXd m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = 1 + i + 2 * j; return m; }
extern "C" void h_predict() {
  const int n = 1 + vchoose("n", TIER(2, 3)), m = 1 + vchoose("inputs", 2); const bool own = vchoose("own", 2);
  const VectorXd x = any_m("x", n, 1), u = any_m("u", m, 1); const MatrixXd P = any_m("P", n, n), A = any_m("A", n, n), B = any_m("B", n, m), Q = any_m("Q", n, n);
  KF f(x, own ? A : full(n, n), own ? B : full(n, m), full(1, n), own ? Q : full(n, n), full(1, 1), P);
  same(f.x(), x, "initial-state"); same(f.P(), P, "initial-covariance");
  if (own) f.predict(u); else f.predict(u, A, B, Q);
  same(f.x(), prod(A, x) + prod(B, u), "state-prediction"); same(f.P(), prod(prod(A, P), tr(A)) + Q, "covariance-prediction");
  for (int i = 0; i < n; i++) vassert_eq(f.getXelement(i), f.x()(i), "element-access");
  const VectorXd x2 = any_m("x2", n, 1); const MatrixXd P2 = any_m("P2", n, n); f.init(x2, P2); same(f.x(), x2, "reinitialised-state"); same(f.P(), P2, "reinitialised-covariance");
  vreach("end");
}
extern "C" void h_gain() {                            // K (R + C P C') = P C'
  const int n = 1 + vchoose("n", 2), m = 1 + vchoose("m", n);
  MatrixXd C, P, R;
  if (m == 1) { C = any_m("C", 1, n); P = any_m("P", n, n); R = any_m("R", 1, 1); }
  else { C.resize(2, 2); C << 1, 0, 0.5, 2; P = MatrixXd::Zero(2, 2); P(0, 0) = sym_double("p0"); P(1, 1) = sym_double("p1"); P(0, 1) = P(1, 0) = sym_double("p01"); R = MatrixXd::Zero(2, 2); R(0, 0) = sym_double("r0"); R(1, 1) = sym_double("r1"); vassume(vand(R(0, 0) > 0, vand(R(1, 1) > 0, vand(P(0, 0) > 0, vand(P(1, 1) > 0, P(0, 0) * P(1, 1) > P(0, 1) * P(0, 1)))))); }
  const MatrixXd S = R + prod(prod(C, P), tr(C)); if (m == 1) vassume(vor(S(0, 0) > 0, S(0, 0) < 0));
  const MatrixXd K = calcKalmanGain(P, C, R);
  same(prod(K, S), prod(P, tr(C)), "gain-solves-the-innovation-equation"); vreach("end");
}
extern "C" void h_update() {
  const int n = 1 + vchoose("n", TIER(2, 3));
  const VectorXd x = any_m("x", n, 1), y = any_m("y", 1, 1); const MatrixXd P = any_m("P", n, n), C = any_m("C", 1, n), R = any_m("R", 1, 1);
  const MatrixXd PC = prod(P, tr(C)), S = R + prod(C, PC); const double s = S(0, 0); vassume(vor(s > 0, s < 0));
  KF f(x, full(n, n), full(n, 1), C, full(n, n), R, P); f.update(y);
  const MatrixXd CP = prod(C, P); const double e = y(0) - prod(C, x)(0, 0);
  for (int i = 0; i < n; i++) {
    vassert_eq(f.x()(i) * s, x(i) * s + PC(i, 0) * e, "state-moves-by-the-gain-times-the-innovation");
    for (int j = 0; j < n; j++) vassert_eq(f.P()(i, j) * s, P(i, j) * s - PC(i, 0) * CP(0, j), "covariance-shrinks-by-the-gain"); }
  vreach("end");
}
extern "C" void h_covariance_valid() {                // a positive semidefinite covariance stays one and no variance grows
  const int n = 2; const MatrixXd P = any_sym("P", n), R = any_m("R", 1, 1); MatrixXd C(1, 2); static const double Cs[3][2] = {{1, 0}, {0, 1}, {1, -2}}; const int k = vchoose("C", 3); C << Cs[k][0], Cs[k][1];
  vassume(vand(vand(P(0, 0) >= 0, P(1, 1) >= 0), vand(P(0, 0) * P(1, 1) >= P(0, 1) * P(0, 1), R(0, 0) > 0)));
  const MatrixXd K = calcKalmanGain(P, C, R), N = updateCovariance(P, C, K);
  vassert_eq(N(0, 1), N(1, 0), "stays-symmetric"); vassert(vand(N(0, 0) <= P(0, 0), N(1, 1) <= P(1, 1)), "variances-do-not-grow"); vassert(vand(N(0, 0) >= 0, N(1, 1) >= 0), "variances-stay-non-negative");
  vassert(N(0, 0) * N(1, 1) - N(0, 1) * N(1, 0) >= 0, "stays-positive-semidefinite"); vreach("end");
}
static void invalid_gain(bool td) {                      // IEEE: a gain that is not finite is refused and leaves the filter as it was
  static const double Ps[3] = {0., 1., -2.}; const double p = Ps[vchoose("p", 3)], r = sym_double("r"), x0 = sym_double("x"), y0 = sym_double("y");
  MatrixXd P(1, 1), R(1, 1), C(1, 1), one = MatrixXd::Ones(1, 1); VectorXd x(1), y(1); P(0, 0) = p; R(0, 0) = r; C(0, 0) = 1; x(0) = x0; y(0) = y0;
  const double k = p * (1.0 / (r + p)); const bool finite = vdecide(vand(k - k == 0, true));
  bool ok; double xa, pa;
  if (td) { TimeDelayKalmanFilter f(x, P, 1); ok = returns_or_throws<std::invalid_argument>([&] { f.update(y, C, R, 0); }); xa = f.getLatestX()(0); pa = f.getLatestP()(0, 0); }
  else { KF f(x, one, one, C, one, R, P); ok = returns_or_throws<std::invalid_argument>([&] { f.update(y); }); xa = f.x()(0); pa = f.P()(0, 0); }
  vassert(ok == finite, "refused-iff-the-gain-is-not-finite");
  if (!ok) { vassert(vor(xa == x0, x0 != x0), "state-kept"); vassert(vor(pa == p, p != p), "covariance-kept"); vreach("refused"); } else vreach("updated");
}
extern "C" void h_invalid_gain() { invalid_gain(false); }
extern "C" void h_delay_invalid_gain() { invalid_gain(true); }
extern "C" void h_zero_elements() { const int r = vchoose("rows", 3), c = vchoose("cols", 3); vassert(hasZeroElements(MatrixXd::Zero(r, c)) == (r * c == 0), "empty-iff-no-elements"); vreach("end"); }
// ------------------------------------------------------------- time delay
MatrixXd makeMeasurementMatrix(const MatrixXd & C, const int max_delay_step, const int delay_step);
std::tuple<VectorXd, MatrixXd> UpdateWithDelay(const VectorXd & x0, const MatrixXd & P0, const VectorXd & y, const MatrixXd & C, const MatrixXd & R, const int delay_step, const int max_delay_step_);
std::tuple<VectorXd, MatrixXd> PredictWithDelay(const VectorXd & x0, const MatrixXd & P0, const VectorXd & x_next, const MatrixXd & A, const MatrixXd & Q);
extern "C" void h_delay_init() {
  const int d = 1 + vchoose("d", 2), n = 1 + vchoose("steps", TIER(3, 4)); const VectorXd x0 = any_m("x", d, 1); const MatrixXd P0 = any_m("P", d, d);
  const VectorXd x = initX(x0, n); const MatrixXd P = initP(P0, n); vassert(x.size() == n * d && P.rows() == n * d && P.cols() == n * d, "shape");
  for (int a = 0; a < n; a++) for (int i = 0; i < d; i++) { vassert_eq(x(a * d + i), x0(i), "initial-state-at-every-step");
    for (int b = 0; b < n; b++) for (int j = 0; j < d; j++) vassert_eq(P(a * d + i, b * d + j), a == b ? P0(i, j) : 0., "block-diagonal-covariance"); }
  TimeDelayKalmanFilter f(x0, P0, n); same(f.getLatestX(), x0, "latest-state"); same(f.getLatestP(), P0, "latest-covariance"); for (int a = 0; a < n; a++) same(f.getX(a), x0, "delayed-state");
  vreach("end");
}
extern "C" void h_delay_predict() {                   // the augmented model [A 0 0; I 0 0; 0 I 0]
  const int d = 1 + vchoose("d", 2), n = 1 + vchoose("steps", d == 1 ? TIER(3, 4) : TIER(2, 3)), N = n * d;
  const VectorXd x0 = any_m("x", N, 1), xn = any_m("next", d, 1); const MatrixXd P0 = any_m("P", N, N), A = any_m("A", d, d), Q = any_m("Q", d, d);
  const auto [x, P] = PredictWithDelay(x0, P0, xn, A, Q);
  MatrixXd F = MatrixXd::Zero(N, N), G = MatrixXd::Zero(N, N); F.block(0, 0, d, d) = A; G.block(0, 0, d, d) = Q; for (int i = 0; i < N - d; i++) F(d + i, i) = 1;
  vassert(x.size() == N, "size"); for (int i = 0; i < N; i++) vassert_eq(x(i), i < d ? xn(i) : x0(i - d), "states-shift-by-one-step");
  same(P, prod(prod(F, P0), tr(F)) + G, "augmented-covariance-prediction"); same(updateP(P0, A, Q), P, "same-covariance"); same(updateX(x0, xn), x, "same-state"); vreach("end");
}
extern "C" void h_delay_history() {                   // getX(k) is the state predicted k steps ago
  const int n = 1 + vchoose("steps", TIER(3, 4)), k = vchoose("predictions", TIER(5, 6)); std::vector<VectorXd> hist; VectorXd x = any_m("x", 1, 1); const MatrixXd P = any_m("P", 1, 1), A = any_m("A", 1, 1), Q = any_m("Q", 1, 1);
  TimeDelayKalmanFilter f(x, P, n); for (int i = 0; i < n; i++) hist.push_back(x); double p = P(0, 0);
  for (int i = 0; i < k; i++) { const VectorXd xn = any_m(vname("next", i).c_str(), 1, 1); f.predict(xn, A, Q); hist.push_back(xn); p = A(0, 0) * p * A(0, 0) + Q(0, 0); }
  for (int j = 0; j < n; j++) same(f.getX(j), hist.at(hist.size() - 1 - j), "state-that-many-predictions-ago");
  same(f.getLatestX(), hist.back(), "latest-state"); vassert_eq(f.getLatestP()(0, 0), p, "latest-covariance"); vreach("end");
}
extern "C" void h_delay_matrix() {
  const int w = 1 + vchoose("w", 3), h = 1 + vchoose("h", 2), n = 1 + vchoose("steps", 3), k = vchoose("delay", n); const MatrixXd C = any_m("C", h, w), D = makeMeasurementMatrix(C, n, k);
  vassert(D.rows() == h && D.cols() == w * n, "shape"); for (int i = 0; i < h; i++) for (int j = 0; j < w * n; j++) vassert_eq(D(i, j), j / w == k ? C(i, j % w) : 0., "measures-the-delayed-state"); vreach("end");
}
extern "C" void h_delay_update() {                    // a measurement of the state k steps ago corrects all steps
  const int d = 1 + vchoose("d", 2), n = 1 + vchoose("steps", d == 1 ? 3 : 2), N = n * d, k = vchoose("delay", n + 2);
  const VectorXd x0 = any_m("x", N, 1), y = any_m("y", 1, 1); const MatrixXd P0 = any_m("P", N, N), C = any_m("C", 1, d), R = any_m("R", 1, 1);
  if (k >= n) { expect_throw<std::invalid_argument>([&] { UpdateWithDelay(x0, P0, y, C, R, k, n); }, "too-large-a-delay-is-refused"); vreach("refused"); return; }
  MatrixXd D = MatrixXd::Zero(1, N); D.block(0, k * d, 1, d) = C; const MatrixXd PC = prod(P0, tr(D)), S = R + prod(D, PC), CP = prod(D, P0); const double s = S(0, 0); vassume(vor(s > 0, s < 0));
  const auto [x, P] = UpdateWithDelay(x0, P0, y, C, R, k, n); const double e = y(0) - prod(D, x0)(0, 0);
  for (int i = 0; i < N; i++) { vassert_eq(x(i) * s, x0(i) * s + PC(i, 0) * e, "state-correction"); for (int j = 0; j < N; j++) vassert_eq(P(i, j) * s, P0(i, j) * s - PC(i, 0) * CP(0, j), "covariance-correction"); }
  vreach("updated");
}
extern "C" void h_delay_sequence() {                  // predict, then update through the class; a refused update changes nothing
  const int n = 1 + vchoose("steps", 3), k = vchoose("delay", n + 1); VectorXd x0(1), x1(1), y(1); MatrixXd P(1, 1), A(1, 1), Q(1, 1), C(1, 1), R(1, 1);
  x0(0) = sym_double("x0"); x1(0) = sym_double("x1"); y(0) = sym_double("y"); P(0, 0) = sym_double("P"); A(0, 0) = sym_double("A"); Q(0, 0) = sym_double("Q"); C(0, 0) = 1; R(0, 0) = sym_double("R"); vassume(vand(P(0, 0) >= 0, vand(Q(0, 0) >= 0, R(0, 0) > 0)));
  TimeDelayKalmanFilter f(x0, P, n); f.predict(x1, A, Q); const double p11 = A(0, 0) * P(0, 0) * A(0, 0) + Q(0, 0), p12 = A(0, 0) * P(0, 0), p22 = P(0, 0);
  const bool ok = returns_or_throws<std::invalid_argument>([&] { f.update(y, C, R, k); }); vassert(ok == (k < n), "delay-within-the-horizon-is-accepted");
  if (!ok) { vassert_eq(f.getLatestX()(0), x1(0), "state-kept"); vassert_eq(f.getLatestP()(0, 0), p11, "covariance-kept"); vreach("refused"); return; }
  const double c = k == 0 ? p11 : k == 1 ? p12 : 0., v = k == 0 ? p11 : p22, s = v + R(0, 0), e = y(0) - (k == 0 ? x1(0) : x0(0));
  vassert_eq(f.getLatestX()(0) * s, x1(0) * s + c * e, "latest-state-corrected-through-the-cross-covariance"); vassert_eq(f.getLatestP()(0, 0) * s, p11 * s - c * c, "latest-covariance-corrected"); vreach("updated");
}
extern "C" void h_delay_long() {                      // many kept steps and predictions, with an update now and then; concrete covariances
  const int n = vchoose("steps", 2) ? TIER(8, 16) : 5, rounds = TIER(12, 30), phase = vchoose("phase", 3); VectorXd x = VectorXd::Zero(n), x0(1), y(1); MatrixXd P = MatrixXd::Zero(n, n), A(1, 1), Q(1, 1), C(1, 1), R(1, 1), P0(1, 1);
  x0(0) = sym_double("x0"); P0(0, 0) = 4; A(0, 0) = 0.5; Q(0, 0) = 1; C(0, 0) = 2; R(0, 0) = 3; for (int i = 0; i < n; i++) { x(i) = x0(0); P(i, i) = 4; }
  TimeDelayKalmanFilter f(x0, P0, n);
  for (int t = 0; t < rounds; t++) {
    VectorXd xn(1); xn(0) = sym_d("next", t); f.predict(xn, A, Q); MatrixXd F = MatrixXd::Zero(n, n); F(0, 0) = 0.5; for (int i = 1; i < n; i++) F(i, i - 1) = 1; P = prod(prod(F, P), tr(F)); P(0, 0) += 1; for (int i = n - 1; i > 0; i--) x(i) = x(i - 1); x(0) = xn(0);
    if (t % 3 == phase) {
      const int j = (t / 3 + phase) % 5, k = j == 0 ? n - 1 : j == 1 ? n : j == 2 ? 2 : j == 3 ? 0 : n / 2; y(0) = sym_d("y", t); const bool ok = returns_or_throws<std::invalid_argument>([&] { f.update(y, C, R, k); }); vassert(ok == (k < n), "delay-within-the-horizon-is-accepted");
      if (ok) { const double s = 4 * P(k, k) + 3; const VectorXd g = P.col(k); const double e = y(0) - 2 * x(k); for (int i = 0; i < n; i++) x(i) += 2 * g(i) / s * e; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) P(i, j) -= 4 * g(i) * g(j) / s; vreach("updated"); } else vreach("refused"); }
    vassert(f.getLatestX().size() == 1 && f.getLatestP().rows() == 1, "one-component"); vassert_eq(f.getLatestX()(0), x(0), "latest-state"); vassert_eq(f.getLatestP()(0, 0), P(0, 0), "latest-covariance");
  }
  for (int k = 0; k < n; k++) vassert_eq(f.getX(k)(0), x(k), "state-that-many-predictions-ago");
}
