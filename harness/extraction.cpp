#include "common.hpp"
#include "ros_stub.hpp"
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include "lidar_feature_extraction/color_points.hpp"
#include "lidar_feature_extraction/curvature.hpp"
#include "lidar_feature_extraction/index_range.hpp"
#include "lidar_feature_extraction/label.hpp"
#include "lidar_feature_extraction/math.hpp"
#include "lidar_feature_extraction/neighbor.hpp"
#include "lidar_feature_extraction/occlusion.hpp"
#include "lidar_feature_extraction/out_of_range.hpp"
#include "lidar_feature_extraction/parallel_beam.hpp"
#include "lidar_feature_extraction/range.hpp"
#include "lidar_feature_extraction/ring.hpp"

using Cloud = pcl::PointCloud<PointXYZIR>;
using L = PointLabel;
// ------------------------------------------------------------ rings
// exact polar-angle order on (-pi, pi], the origin counting as angle 0 (products of two floats are exact in double)
static int half(double x, double y) { return y < 0 ? 0 : (y == 0 && x >= 0) ? 1 : y > 0 ? 2 : 3; }   // 3: the negative x axis (angle pi)
static bool angle_less(double ax, double ay, double bx, double by) {
  const int ha = half(ax, ay), hb = half(bx, by);
  if (ha != hb) return ha < hb;
  if (ha == 1 || ha == 3) return false;
  return ax * by > ay * bx;
}
static void ring_cmp() {
  PointXYZIR a, b;
  a.x = sym_float("ax"); a.y = sym_float("ay"); b.x = sym_float("bx"); b.y = sym_float("by");
  vassume(std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(b.x) && std::isfinite(b.y));
  const AHasSmallerPolarAngleThanB<PointXYZIR> less{};
  const bool ab = less(a, b), ba = less(b, a);
  vassert(!(ab && ba), "asymmetric");
  vassert(!less(a, a), "irreflexive");
  if (vdecide(vand(a.x == b.x, a.y == b.y))) { vassert(!ab, "equal-points-are-equivalent"); vreach("equal"); return; }
  vassert(ab == angle_less(a.x, a.y, b.x, b.y), "agrees-with-polar-angle");
  if (ab) vreach("less"); else vreach("not-less");
}
extern "C" void h_ring_cmp_real() { ring_cmp(); }
extern "C" void h_ring_cmp_fp() { ring_cmp(); }
extern "C" void h_ring_transitive_real() {
  PointXYZIR p[3];
  for (int i = 0; i < 3; i++) { p[i].x = sym_float(vname("x", i).c_str()); p[i].y = sym_float(vname("y", i).c_str()); }
  const AHasSmallerPolarAngleThanB<PointXYZIR> less{};
  if (less(p[0], p[1]) && less(p[1], p[2])) { vassert(less(p[0], p[2]), "transitive"); vreach("chain"); }
  if (!less(p[0], p[1]) && !less(p[1], p[0]) && !less(p[1], p[2]) && !less(p[2], p[1])) {
    vassert(!less(p[0], p[2]) && !less(p[2], p[0]), "equivalence-transitive"); vreach("equivalent"); }
}
static void check_rings(const Cloud & c) {
  const int n = (int)c.size();
  auto rings = ExtractAngleSortedRings(c);
  std::vector<int> seen(n, 0);
  for (auto & [ring, idx] : rings) {
    vassert(!idx.empty(), "ring-has-points");
    for (size_t k = 0; k < idx.size(); k++) {
      const int i = idx.at(k);
      vassert(0 <= i && i < n, "index-valid"); seen.at(i)++;
      vassert(c.at(i).ring == ring, "index-in-own-ring");
      if (k > 0) vassert(!angle_less(c.at(i).x, c.at(i).y, c.at(idx.at(k - 1)).x, c.at(idx.at(k - 1)).y), "sorted-by-angle");
    }
  }
  for (int i = 0; i < n; i++) vassert(seen[i] == 1, "every-point-once");
  const int m = n > 5 ? 6 : (int)vchoose("min_points", 4);
  auto kept = rings;
  RemoveSparseRings(kept, m);
  for (auto & [ring, idx] : rings) {
    if ((int)idx.size() < m) { vassert(kept.count(ring) == 0, "sparse-removed"); vreach("removed"); }
    else { vassert(kept.count(ring) == 1 && kept.at(ring) == idx, "dense-kept"); vreach("kept"); }
  }
  vassert(kept.size() <= rings.size(), "no-new-ring");
}
extern "C" void h_ring_extract() {
  const int n = vchoose("n", TIER(4, 5));
  static const uint16_t rid[3] = {0, 13, 65535};
  Cloud c;
  for (int i = 0; i < n; i++) {
    PointXYZIR p; p.x = sym_float(vname("x", i).c_str()); p.y = sym_float(vname("y", i).c_str()); p.z = sym_float(vname("z", i).c_str());
    p.ring = rid[vchoose(vname("ring", i).c_str(), i < 2 ? i + 1 : 3)];
    c.push_back(p);
  }
  check_rings(c);
  vreach("end");
}
extern "C" void h_ring_extract_long() {   // rings long enough for the sorting routine to split them
  static const uint16_t rid[5] = {0, 127, 128, 1, 65535}; static const float D[8][2] = {{-1, 0}, {-1, -0.5f}, {0, -2}, {1, -0.25f}, {1, 0}, {1, 3}, {0, 0}, {-1, 0.125f}};
  const int n = 50, at = 7 * vchoose("at", 3); Cloud c;
  for (int i = 0; i < n; i++) { const float m = 1 + i % 3; PointXYZIR p(D[(5 * i + i / 16) % 8][0] * m, D[(5 * i + i / 16) % 8][1] * m, 0, 0, rid[i % 9 ? 0 : i / 9 % 5]); if (i == at) { p.x = sym_float("x"); p.y = sym_float("y"); } c.push_back(p); }
  check_rings(c);
  vreach("end");
}
extern "C" void h_ring_available() {
  const int n = vchoose("n", 4); std::vector<sensor_msgs::msg::PointField> f(n); bool any = false;
  static const char * nm[5] = {"x", "ring", "rin", "ring ", "intensity"};
  for (int i = 0; i < n; i++) { int k = vchoose(vname("name", i).c_str(), 5); f[i].name = nm[k]; if (k == 1) any = true; }
  vassert(RingIsAvailable(f) == any, "ring-available"); if (any) vreach("yes"); else vreach("no");
}
// -------------------------------------------------------- neighbours
static const double kThr[3] = {0.03490658503988659, 0.5, 1.7};   // 2 degrees, and a wide and an obtuse one
extern "C" void h_radian() {
  const double x1 = sym_double("x1"), y1 = sym_double("y1"), x2 = sym_double("x2"), y2 = sym_double("y2");
  const double s1 = x1 * x1 + y1 * y1, s2 = x2 * x2 + y2 * y2;
  vassume(vand(s1 > 0, s2 > 0));
  const double r = CalcRadian(x1, y1, x2, y2);
  vassert(vand(r >= 0, r <= 3.1415926535898), "angle-in-0-pi");
  const double n1 = std::sqrt(s1), n2 = std::sqrt(s2);
  const double c = (x1 * x2 + y1 * y2) / (n1 * n2);
  vassert_eq(r, std::acos(c), "is-the-angle-between");
  vassert_eq(CalcRadian(x2, y2, x1, y1), r, "symmetric");
  vreach("end");
}
extern "C" void h_radian_collinear_fp() {   // exact IEEE: a point is at angle 0 from itself and from its multiples
  static const float Y[3] = {1.f, 0.1f, 30.f};
  const float x = sym_float("x"), y = Y[vchoose("y", TIER(1, 3))];
  vassume(x >= 1.f && x <= 2.f);
  const double r = CalcRadian(x, y, x, y);
  vassert(!std::isnan(r), "angle-is-a-number");
  vreach("end");
}
extern "C" void h_radian_zero() {
  const double x = sym_double("x"), y = sym_double("y");
  vassume(vor(x != 0, y != 0));
  expect_throw<std::invalid_argument>([] { CalcRadian(0, 0, 0, 0); }, "both-zero-throws");
  vreach("end");
}
extern "C" void h_neighbor() {
  const int t = vchoose("thr", 3);
  Cloud::Ptr c(new Cloud());
  for (int i = 0; i < 3; i++) { PointXYZIR p; p.x = sym_float(vname("x", i).c_str()); p.y = sym_float(vname("y", i).c_str()); vassume(p.x * p.x + p.y * p.y > 0); c->push_back(p); }
  const int perm = vchoose("perm", 3); std::vector<int> idx = perm == 0 ? std::vector<int>{0, 1, 2} : perm == 1 ? std::vector<int>{2, 0, 1} : std::vector<int>{1, 2};
  const MappedPoints<PointXYZIR> m(c, idx);
  const NeighborCheckXY<PointXYZIR> nb(m, kThr[t]);
  vassert(nb.size() == (int)idx.size(), "size");
  const PointXYZIR & p = c->at(idx[0]); const PointXYZIR & q = c->at(idx[1]);
  const double n1 = std::sqrt(p.x * p.x + p.y * p.y), n2 = std::sqrt(q.x * q.x + q.y * q.y);
  const bool near = (p.x * q.x + p.y * q.y) / (n1 * n2) > std::cos(kThr[t]);
  vassert(nb(0, 1) == near, "neighbour-iff-angle-below-threshold");
  vassert(nb(1, 0) == near, "neighbour-symmetric");
  if (near) vreach("near"); else vreach("far");
  const int n = (int)idx.size();
  expect_throw<std::out_of_range>([&] { nb(-1, 0); }, "index1-negative"); expect_throw<std::out_of_range>([&] { nb(0, -1); }, "index2-negative");
  expect_throw<std::out_of_range>([&] { nb(n, 0); }, "index1-large"); expect_throw<std::out_of_range>([&] { nb(0, n); }, "index2-large");
  if (n == 3) { const auto s = nb.Slice(1, 3); vassert(s.size() == 2, "slice-size"); vassert(s(0, 1) == nb(1, 2), "slice-shifts"); vreach("slice"); }
}
extern "C" void h_neighbor_min() {
  const int n = vchoose("n", 4);
  Cloud::Ptr c(new Cloud()); std::vector<int> idx;
  for (int i = 0; i < n; i++) { c->push_back(PointXYZIR(1, i, 0, 0, 0)); idx.push_back(i); }
  const bool ok = returns_or_throws<std::invalid_argument>([&] { NeighborCheckXY<PointXYZIR> nb(MappedPoints<PointXYZIR>(c, idx), 1.0); });
  vassert(ok == (n >= 2), "needs-two-points"); if (ok) vreach("ok"); else vreach("throws");
}
// ------------------------------------------------------------- range
static L any_label(const char * nm) { return (L)(uint8_t)sym_int(nm, 0, 7); }
static std::vector<L> any_labels(int n) { std::vector<L> l; for (int i = 0; i < n; i++) l.push_back(any_label(vname("label", i).c_str())); return l; }
static void range_and_labels(int maxn) {
  const int n = vchoose("n", maxn);
  Cloud::Ptr c(new Cloud()); std::vector<int> idx; std::vector<L> labels = any_labels(n);
  for (int i = 0; i < n; i++) {
    PointXYZIR p; p.x = sym_float(vname("x", i).c_str()); p.y = sym_float(vname("y", i).c_str()); p.z = sym_float(vname("z", i).c_str());
    c->push_back(p); idx.push_back(n - 1 - i);
  }
  const double mn = sym_double("min"), mx = sym_double("max");
  const Range<PointXYZIR> range(MappedPoints<PointXYZIR>(c, idx));
  vassert(range.size() == n, "range-size");
  const std::vector<L> before = labels;
  LabelOutOfRange(labels, range, mn, mx);
  vassert((int)labels.size() == n, "labels-size");
  for (int i = 0; i < n; i++) {
    const PointXYZIR & p = c->at(idx[i]); const double x = p.x, y = p.y;
    const double r = std::sqrt(x * x + y * y);
    const bool in = vand(mn <= r, r <= mx);
    vassert(labels[i] == (vdecide(in) ? before[i] : L::OutOfRange), "out-of-range-iff");
    vassert_eq(range(i), r, "range-is-horizontal-norm");
    if (vdecide(in)) vreach("in"); else vreach("out");
  }
}
extern "C" void h_range_real() { range_and_labels(TIER(3, 4)); }
extern "C" void h_range_fp() { range_and_labels(2); }
extern "C" void h_range_slice() {
  const int n = 4; Cloud::Ptr c(new Cloud()); std::vector<int> idx;
  for (int i = 0; i < n; i++) { PointXYZIR p; p.x = sym_float(vname("x", i).c_str()); p.y = sym_float(vname("y", i).c_str()); c->push_back(p); idx.push_back((i * 3 + 1) % n); }
  const Range<PointXYZIR> range(MappedPoints<PointXYZIR>(c, idx));
  const int b = vchoose("begin", n + 1), e = b + vchoose("len", n - b + 1);
  const std::vector<double> v = range(b, e);
  vassert((int)v.size() == e - b, "slice-size");
  for (int k = 0; k < e - b; k++) vassert_eq(v.at(k), range(b + k), "slice-element");
  if (b > 0 && e > b) vreach("offset-slice");
}
extern "C" void h_mapped_points() {
  const int n = 4; Cloud::Ptr c(new Cloud()); std::vector<int> idx;
  for (int i = 0; i < n; i++) { PointXYZIR p; p.x = sym_float(vname("x", i).c_str()); p.y = 0; p.ring = i; c->push_back(p); }
  const int m = vchoose("m", 4); for (int i = 0; i < m; i++) idx.push_back(vchoose(vname("idx", i).c_str(), n));
  const MappedPoints<PointXYZIR> mp(c, idx);
  vassert(mp.size() == m, "size");
  for (int i = 0; i < m; i++) { vassert(mp.at(i).ring == idx[i], "maps-index"); vassert_eq(mp.at(i).x, c->at(idx[i]).x, "maps-point"); }
  expect_throw<std::out_of_range>([&] { mp.at(m); }, "past-end-throws"); expect_throw<std::out_of_range>([&] { mp.at(-1); }, "negative-throws");
  const int b = vchoose("b", m + 1), e = b + vchoose("l", m - b + 1);
  const auto s = mp.Slice(b, e); vassert(s.size() == e - b, "slice-size");
  for (int i = 0; i < e - b; i++) vassert(s.at(i).ring == idx[b + i], "slice-maps");
  vreach("end");
}
// ------------------------------------------------------------ blocks
static void blocks(int nb, int s, int e) {
  const bool ok = returns_or_throws<std::invalid_argument>([&] {
    const IndexRange r(s, e, nb);
    vassert(r.NBlocks() == nb, "n-blocks");
    vassert(e - s >= nb, "accepted-only-if-each-block-can-have-a-point");
    vassert(r.Begin(0) == s, "first-begins-at-start");
    vassert(r.End(nb - 1) == e, "last-ends-at-end");
    const int j = vchoose("j", nb);
    vassert(r.Begin(j) < r.End(j), "block-not-empty");
    vassert(r.Begin(j) >= s && r.End(j) <= e, "block-inside");
    if (j + 1 < nb) vassert(r.End(j) == r.Begin(j + 1), "contiguous");
    const int w = r.End(j) - r.Begin(j), q = (e - s) / nb;
    vassert(w >= q - 1 && w <= q + 2, "balanced");
    expect_throw<std::out_of_range>([&] { r.Begin(-1); }, "begin-negative"); expect_throw<std::out_of_range>([&] { r.End(-1); }, "end-negative");
    expect_throw<std::out_of_range>([&] { r.Begin(nb); }, "begin-past"); expect_throw<std::out_of_range>([&] { r.End(nb); }, "end-past");
    vreach("blocks");
  });
  if (!ok) { vassert(e - s < nb, "rejected-only-if-too-short"); vreach("rejected"); }
}
extern "C" void h_blocks() {
  static const int NB[8] = {6, 1, 2, 3, 4, 5, 7, 8};
  const int nb = NB[vchoose("n_blocks", TIER(4, 8))];
  const int s = (int)sym_int("start", 0, TIER(14, 63)), e = (int)sym_int("end", -20, TIER(255, 2047));
  blocks(nb, s, e);
}
extern "C" void h_blocks_odd() {
  static const int NB[6] = {5, 9, 11, 13, 17, 20};
  const int nb = NB[vchoose("n_blocks", TIER(3, 6))];
  const int s = (int)sym_int("start", 0, 10), e = (int)sym_int("end", 0, 127);
  vassume(e - s >= nb);
  blocks(nb, s, e);
}
extern "C" void h_blocks_padded() {
  const int pad = (int)sym_int("padding", 0, 10), n = (int)sym_int("n", 0, TIER(100, 300)); const int nb = 1 + vchoose("n_blocks", TIER(2, 3));
  const bool ok = returns_or_throws<std::invalid_argument>([&] {
    const PaddedIndexRange r(n, nb, pad);
    vassert(r.Begin(0) == pad, "first-begins-after-padding"); vassert(r.End(nb - 1) == n - pad, "last-ends-before-padding");
    vreach("blocks");
  });
  vassert(ok == (n - 2 * pad >= nb), "accepted-iff-long-enough");
}
// --------------------------------------------------------- curvature
extern "C" void h_curvature() {
  const int big = vchoose("big", 2), pad = big ? 5 + vchoose("padding", 2) : 1 + vchoose("padding", TIER(2, 3)), n = big ? 10 + vchoose("n", 4) * 5 : vchoose("n", TIER(7, 10));
  std::vector<double> r; for (int i = 0; i < n; i++) r.push_back(sym_d("r", i));
  std::vector<double> c;
  const bool ok = returns_or_throws<std::invalid_argument>([&] { c = CalcCurvature(r, pad); });
  vassert(ok == (n >= 2 * pad + 1), "rejects-iff-too-short");
  if (!ok) { vreach("short"); return; }
  vassert((int)c.size() == n, "same-size");
  for (int i = 0; i < n; i++) {
    double s = 0;
    if (i >= pad && i < n - pad) { for (int d = -pad; d <= pad; d++) s = s + r[i + d]; s = s - (2 * pad + 1) * r[i]; }
    vassert_eq(c[i], s * s, "curvature-is-squared-laplacian");
  }
  vreach("long");
}
extern "C" void h_convolution() {
  const int big = vchoose("big", 2), h = big ? 5 + vchoose("half", 2) : vchoose("half", 3), n = big ? 10 + vchoose("n", 3) * 5 : vchoose("n", TIER(6, 8)), w = 2 * h + 1;
  std::vector<double> in, we; for (int i = 0; i < n; i++) in.push_back(sym_d("x", i)); for (int i = 0; i < w; i++) we.push_back(sym_d("w", i));
  std::vector<double> o;
  const bool ok = returns_or_throws<std::invalid_argument>([&] { o = Convolution1D(in, we); });
  vassert(ok == (n >= w), "rejects-iff-shorter-than-kernel");
  if (!ok) { vreach("short"); return; }
  vassert((int)o.size() == n, "same-size");
  for (int i = 0; i < n; i++) { double s = 0; if (i >= h && i < n - h) for (int k = 0; k < w; k++) s = s + in[i - h + k] * we[k]; vassert_eq(o[i], s, "correlation"); }
  vreach("long");
}
extern "C" void h_curvature_flat() {   // exact: a locally constant or linear range profile has no curvature (real arithmetic)
  const int pad = 1 + vchoose("padding", 2), n = 2 * pad + 1 + vchoose("extra", 3);
  const double a = sym_double("a"), b = sym_double("b"); std::vector<double> r; for (int i = 0; i < n; i++) r.push_back(a + b * i);
  const auto c = CalcCurvature(r, pad); for (int i = 0; i < n; i++) vassert_eq(c.at(i), 0., "flat-is-zero"); vreach("end");
}
extern "C" void h_argsort() {
  const int n = vchoose("n", TIER(5, 6)); std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(sym_d("v", i));
  const std::vector<int> o = Argsort(v.cbegin(), v.cend()); vassert((int)o.size() == n, "size");
  std::vector<int> seen(n, 0); for (int k = 0; k < n; k++) { seen.at(o.at(k))++; if (k) vassert(v[o[k - 1]] <= v[o[k]], "ascending"); }
  for (int i = 0; i < n; i++) vassert(seen[i] == 1, "permutation");
  vreach("end");
}
// ------------------------------------------------------- fill, labels
struct Adjacent : public NeighborCheckBase {   // an arbitrary symmetric neighbour relation along the ring
  std::vector<bool> b; int n;
  bool operator()(const int i, const int j) const override {
    if (i < 0 || j < 0 || i >= n || j >= n) throw std::out_of_range("neighbour index");
    if (i == j) return true;
    return b.at(std::min(i, j));
  }
  int size() const override { return n; }
  // i and j are joined by an unbroken chain of neighbours
  bool joined(int i, int j) const { for (int k = std::min(i, j); k < std::max(i, j); k++) if (!b.at(k)) return false; return true; }
};
static Adjacent adjacency(int n, const char * nm) { Adjacent a; a.n = n; for (int i = 0; i + 1 < n; i++) a.b.push_back(vdecide(sym_bool(vname(nm, i).c_str()))); return a; }
extern "C" void h_fill() {
  const int n = 1 + vchoose("n", TIER(4, 5)); const Adjacent nb = adjacency(n, "adj");
  const std::vector<L> before = any_labels(n); std::vector<L> l = before; const L fill = any_label("fill");
  const bool left = vchoose("left", 2);
  const int b = vchoose("begin", n + 4) - 2, e = vchoose("end", n + 4) - 2;
  if (left) {
    const bool bad = e > n || b < 0;
    if (!bad && b >= e) return;     // callers pass a non-empty interval
    const bool ok = returns_or_throws<std::invalid_argument>([&] { FillFromLeft(l, nb, b, e, fill); });
    vassert(ok == !bad, "left-rejects-iff-outside");
    for (int i = 0; i < n; i++) vassert(l[i] == (ok && b <= i && i < e && nb.joined(b, i) ? fill : before[i]), "left-fills-the-chain-only");
    if (ok) vreach("left"); else vreach("left-rejected");
  } else {
    const bool bad = e >= n || b < -1;
    if (!bad && b >= e) return;
    const bool ok = returns_or_throws<std::invalid_argument>([&] { FillFromRight(l, nb, b, e, fill); });
    vassert(ok == !bad, "right-rejects-iff-outside");
    for (int i = 0; i < n; i++) vassert(l[i] == (ok && b < i && i <= e && nb.joined(i, e) ? fill : before[i]), "right-fills-the-chain-only");
    if (ok) vreach("right"); else vreach("right-rejected");
  }
}
extern "C" void h_fill_neighbors() {
  const int n = 1 + vchoose("n", TIER(5, 6)); const Adjacent nb = adjacency(n, "adj"); const std::vector<L> before = any_labels(n); std::vector<L> l = before; const L fill = any_label("fill");
  const int i = vchoose("i", n), p = vchoose("padding", TIER(4, 6));
  FillNeighbors(l, nb, i, p, fill);
  for (int k = 0; k < n; k++) vassert(l[k] == (std::abs(k - i) <= p && nb.joined(i, k) ? fill : before[k]), "neighbours-within-padding-and-chain");
  vreach("end");
}
// greedy non-maximum suppression, judged by what holds of the result
static void check_nms(bool edge, int p, const Adjacent & nb, const std::vector<double> & c, double t, const std::vector<L> & init) {
  const int n = nb.n; const L F = edge ? L::Edge : L::Surface, N = edge ? L::EdgeNeighbor : L::SurfaceNeighbor;
  std::vector<L> l = init;
  span<L> lv(l.begin(), l.end()); const const_span<double> cv(c.cbegin(), c.cend());
  if (edge) EdgeLabel(p, t).Assign(lv, cv, nb); else SurfaceLabel(p, t).Assign(lv, cv, nb);
  auto near = [&](int i, int j) { return std::abs(i - j) <= p && nb.joined(i, j); };
  auto strong = [&](int i) { return edge ? c[i] >= t : c[i] <= t; };
  int feats = 0;
  for (int i = 0; i < n; i++) {
    bool suppressed = false;
    for (int j = 0; j < n; j++) if (j != i && l[j] == F && near(i, j)) suppressed = true;
    if (l[i] == F) {
      feats++;
      vassert(init[i] == L::Default, "feature-was-unlabelled");
      vassert(strong(i), "feature-passes-threshold");
      vassert(!suppressed, "features-are-apart");
    } else {
      vassert(l[i] == (suppressed ? N : init[i]), "neighbour-iff-near-a-feature");
      if (init[i] == L::Default && vdecide(strong(i))) {
        bool dom = false;
        for (int j = 0; j < n; j++) if (j != i && l[j] == F && near(i, j)) dom = vor(dom, edge ? c[j] >= c[i] : c[j] <= c[i]);
        vassert(dom, "suppressed-only-by-an-at-least-as-strong-feature");
      }
    }
  }
  if (feats) vreach("feature"); else vreach("none");
  if (feats > 1) vreach("two");
}
static void nms(bool edge) {
  const int n = 2 + vchoose("n", TIER(3, 4)), p = vchoose("padding", 3);
  if (n > 4 && p == 0) return;
  const Adjacent nb = adjacency(n, "adj");
  std::vector<double> c; std::vector<L> init;
  for (int i = 0; i < n; i++) c.push_back(sym_d("c", i));
  const double t = sym_double("threshold");
  const int other = vchoose("other", n + 1);   // one point may carry a label already
  if (TIER(1, 0) && n == 4 && (other == 1 || other == 3)) return;
  const L F = edge ? L::Edge : L::Surface, N = edge ? L::EdgeNeighbor : L::SurfaceNeighbor;
  const L prior = any_label("prior"); vassume(vand(prior != L::Default, prior != F));
  for (int i = 0; i < n; i++) init.push_back(i == other ? prior : L::Default);
  check_nms(edge, p, nb, c, t, init);
}
// a longer ring with a longer padding: fixed curvatures but for one, a gap between neighbours at one place or nowhere
static void nms_long(bool edge) {
  static const double C[16] = {3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3}; const int n = 16, p = 3 + vchoose("padding", 3), at = 3 + 4 * vchoose("at", 3), gap = 7 * vchoose("gap", 3);
  Adjacent nb; nb.n = n; for (int i = 0; i + 1 < n; i++) nb.b.push_back(i + 1 != gap);
  std::vector<double> c(C, C + n); c[at] = sym_double("c"); check_nms(edge, p, nb, c, 4.5, std::vector<L>(n, L::Default));
}
// a ring with many features: fixed curvatures, one of any curvature
static void nms_many(bool edge) {
  const int n = TIER(130, 200), at = 40 * vchoose("at", 3) + 1; Adjacent nb; nb.n = n; for (int i = 0; i + 1 < n; i++) nb.b.push_back(i % 43 != 20);
  std::vector<double> c; for (int i = 0; i < n; i++) c.push_back(i == at ? sym_double("c") : i % 3 == 1 ? 2 : 7); check_nms(edge, 1, nb, c, edge ? 4.5 : 4.5, std::vector<L>(n, L::Default));
}
extern "C" void h_edge_label_many() { nms_many(true); }
extern "C" void h_surface_label_many() { nms_many(false); }
extern "C" void h_edge_label_long() { nms_long(true); }
extern "C" void h_surface_label_long() { nms_long(false); }
extern "C" void h_edge_label() { nms(true); }
extern "C" void h_surface_label() { nms(false); }
// both stages on consecutive blocks of a real ring
static void check_assign(const NeighborCheckXY<PointXYZIR> & nb, const std::vector<double> & c, int pad, int nbk, double te, double ts) {
  const int n = (int)c.size();
  std::vector<L> l = InitLabels(n);
  AssignLabel(l, c, nb, PaddedIndexRange(n, nbk, pad), EdgeLabel(pad, te), SurfaceLabel(pad, ts));
  vassert((int)l.size() == n, "size");
  const PaddedIndexRange r(n, nbk, pad);
  for (int i = 0; i < n; i++) {
    if (i < pad || i >= n - pad) { vassert(l[i] == L::Default, "padding-unlabelled"); continue; }
    int b = 0; while (!(r.Begin(b) <= i && i < r.End(b))) b++;
    bool nearE = false, nearS = false, domE = false, domS = false;
    for (int j = std::max(r.Begin(b), i - pad); j <= std::min(r.End(b) - 1, i + pad); j++) if (j != i) {
      if (l[j] == L::Edge) { nearE = true; domE = vor(domE, c[j] >= c[i]); }
      if (l[j] == L::Surface) { nearS = true; domS = vor(domS, c[j] <= c[i]); }
    }
    if (l[i] == L::Edge) { vassert(c[i] >= te, "edge-threshold"); vassert(!nearE && !nearS, "edge-apart"); vreach("edge"); }
    else if (vdecide(c[i] >= te)) vassert(domE, "strong-point-is-edge-or-beside-a-stronger-edge");
    if (l[i] == L::Surface) { vassert(c[i] <= ts, "surface-threshold"); vassert(!nearE && !nearS, "surface-apart"); vreach("surface"); }
    if (l[i] == L::EdgeNeighbor) vassert(nearE, "edge-neighbour");
    if (l[i] == L::SurfaceNeighbor) vassert(nearS, "surface-neighbour");
    if (l[i] == L::Default) vassert(!nearE && !nearS && vor(false, c[i] > ts), "default-is-neither");
    if (nearE) vassert(l[i] == L::EdgeNeighbor || l[i] == L::SurfaceNeighbor, "beside-edge-labelled");
    if (!nearE && l[i] != L::Surface && l[i] != L::Edge && vdecide(c[i] <= ts)) vassert(domS, "flat-point-is-surface-or-beside-a-flatter-surface");
  }
  vreach("end");
}
extern "C" void h_assign_label() {
  const int pad = 1, nbk = 1 + vchoose("blocks", 2), n = nbk * TIER(2, 3) + 2 * pad;
  Cloud::Ptr cl(new Cloud()); std::vector<int> idx; for (int i = 0; i < n; i++) { cl->push_back(PointXYZIR(1.f + i, 0, 0, 0, 0)); idx.push_back(i); }
  const NeighborCheckXY<PointXYZIR> nb(MappedPoints<PointXYZIR>(cl, idx), 0.1);
  std::vector<double> c; for (int i = 0; i < n; i++) c.push_back(i < pad || i >= n - pad ? 0. : sym_d("c", i));
  const double te = sym_double("te"), ts = sym_double("ts");
  check_assign(nb, c, pad, nbk, te, ts);
}
extern "C" void h_assign_label_long() {   // more and longer blocks: fixed curvatures but for one
  static const double C[12] = {3, 1, 4, 1, 5, 9, 2, 6, 5, 0.5, 7, 0.25}; const int pad = 2 + vchoose("padding", 2), nbk = 3 + vchoose("blocks", 2), n = 24, at = 8 + 5 * vchoose("at", 3);
  Cloud::Ptr cl(new Cloud()); std::vector<int> idx; for (int i = 0; i < n; i++) { cl->push_back(PointXYZIR(1.f + i, 0, 0, 0, 0)); idx.push_back(i); }
  const NeighborCheckXY<PointXYZIR> nb(MappedPoints<PointXYZIR>(cl, idx), 0.1);
  std::vector<double> c; for (int i = 0; i < n; i++) c.push_back(i < pad || i >= n - pad ? 0. : i == at ? sym_double("c") : C[i % 12]);
  check_assign(nb, c, pad, nbk, 4.5, 1.5);
}
// -------------------------------------------- occlusion, parallel beam
// ring points lie on two rays 90 degrees apart: neighbours exactly when on the same ray
struct RayRing { Cloud::Ptr c{new Cloud()}; std::vector<int> idx; std::vector<double> r; std::vector<int> ray;
  bool joined(int i, int j) const { for (int k = std::min(i, j); k < std::max(i, j); k++) if (ray[k] != ray[k + 1]) return false; return true; } };
static RayRing ray_ring(int n) {
  RayRing g;
  for (int i = 0; i < n; i++) {
    const float r = sym_float(vname("r", i).c_str()); vassume(r > 0);
    g.ray.push_back(i == 0 ? 0 : g.ray.back() ^ vchoose(vname("turn", i).c_str(), 2));
    g.c->push_back(g.ray.back() ? PointXYZIR(0, r, 0, 0, 0) : PointXYZIR(r, 0, 0, 0, 0)); g.idx.push_back(i); g.r.push_back(r);
  }
  return g;
}
static void check_occlusion(const RayRing & g, int pad, double d) {
  const int n = (int)g.r.size();
  const MappedPoints<PointXYZIR> m(g.c, g.idx); const std::vector<L> before = any_labels(n); std::vector<L> l = before;
  LabelOccludedPoints(l, NeighborCheckXY<PointXYZIR>(m, 0.1), Range<PointXYZIR>(m), pad, d);
  for (int k = 0; k < n; k++) {
    bool occ = false;
    for (int i = 0; i + pad + 1 < n; i++) if (g.ray[i] == g.ray[i + 1] && k >= i + 1 && k <= i + 1 + pad && g.joined(i + 1, k)) occ = vor(occ, g.r[i + 1] > g.r[i] + d);
    for (int i = n - 1; i >= pad + 1; i--) if (g.ray[i] == g.ray[i - 1] && k <= i - 1 && k >= i - 1 - pad && g.joined(k, i - 1)) occ = vor(occ, g.r[i - 1] > g.r[i] + d);
    if (vdecide(occ)) { vassert(l[k] == L::Occluded, "occluded-if-behind-a-jump"); vreach("occluded"); } else { vassert(l[k] == before[k], "others-unchanged"); vreach("visible"); }
  }
}
extern "C" void h_occlusion() {
  const int pad = 1 + vchoose("padding", 2), n = pad + 2 + vchoose("extra", TIER(2, 3));
  const RayRing g = ray_ring(n); const double d = sym_double("diff");
  vassume(d > 0);
  check_occlusion(g, pad, d);
}
extern "C" void h_occlusion_long() {   // the configured padding on a longer ring: fixed ranges but for one, one turn or none
  static const float R[16] = {4, 4.25f, 4, 6, 6.25f, 6, 6.5f, 4.5f, 4.25f, 4.5f, 9, 9, 9.5f, 2, 2.25f, 2}; const int n = 16, pad = 4 + vchoose("padding", 3), at = 1 + 3 * vchoose("at", 5), turn = 4 * vchoose("turn", 3); RayRing g;
  for (int i = 0; i < n; i++) { float r = R[i]; if (i == at) { r = sym_float("r"); vassume(r > 0); } const int ray = turn && i >= turn; g.ray.push_back(ray); g.c->push_back(ray ? PointXYZIR(0, r, 0, 0, 0) : PointXYZIR(r, 0, 0, 0, 0)); g.idx.push_back(i); g.r.push_back(r); }
  check_occlusion(g, pad, 1.5);
}
extern "C" void h_parallel_beam() {
  const int n = 2 + vchoose("n", TIER(3, 4));
  const RayRing g = ray_ring(n); const double t = sym_double("ratio"); vassume(t > 0);
  const MappedPoints<PointXYZIR> m(g.c, g.idx); const std::vector<L> before = any_labels(n); std::vector<L> l = before;
  LabelParallelBeamPoints(l, Range<PointXYZIR>(m), t);
  for (int i = 0; i < n; i++) {
    const bool pb = i > 0 && i + 1 < n && vdecide(vand(std::fabs(g.r[i - 1] - g.r[i]) > t * g.r[i], std::fabs(g.r[i + 1] - g.r[i]) > t * g.r[i]));
    vassert(l[i] == (pb ? L::ParallelBeam : before[i]), "parallel-iff-both-sides-jump"); if (pb) vreach("parallel"); else vreach("other");
  }
}
// ------------------------------------------------------------ colours
extern "C" void h_colors() {
  const int n = some_size("n", 4, 300); Cloud::Ptr c(new Cloud()); std::vector<int> idx; std::vector<L> l;
  for (int i = 0; i < n; i++) { PointXYZIR p; p.x = sym_float(vname("x", i).c_str()); p.y = sym_float(vname("y", i).c_str()); p.z = sym_float(vname("z", i).c_str()); c->push_back(p); idx.push_back(n - 1 - i); l.push_back((L)(n > 4 ? 5 * i % 8 : vchoose(vname("l", i).c_str(), i == 0 ? 8 : 2))); }
  const MappedPoints<PointXYZIR> m(c, idx);
  const auto o = ColorPointsByLabel<PointXYZIR>(m, l);
  vassert((int)o->size() == n, "one-coloured-point-each");
  for (int i = 0; i < n; i++) { const auto & p = c->at(idx[i]); vassert(vand(vand(o->at(i).x == p.x, o->at(i).y == p.y), o->at(i).z == p.z), "position-kept"); const auto rgb = LabelToColor(l[i]); static const int C[8][3] = {{255, 255, 255}, {255, 0, 0}, {255, 63, 0}, {255, 0, 0}, {255, 63, 0}, {127, 127, 127}, {255, 0, 255}, {0, 255, 0}}; static const L O[8] = {L::Default, L::Edge, L::EdgeNeighbor, L::Surface, L::SurfaceNeighbor, L::OutOfRange, L::Occluded, L::ParallelBeam};
    for (int k = 0; k < 8; k++) if (l[i] == O[k]) vassert(rgb.size() == 3 && rgb[0] == C[k][0] && rgb[1] == C[k][1] && rgb[2] == C[k][2], "colour-of-that-label");
    vassert(rgb.size() == 3 && o->at(i).r == rgb[0] && o->at(i).g == rgb[1] && o->at(i).b == rgb[2], "label-colour"); }
  const bool ok = returns_or_throws<std::invalid_argument>([&] { LabelToColor((L)(8 + vchoose("bad", 3))); }); vassert(!ok, "invalid-label-throws");
  vreach("end");
}
extern "C" void h_value_color() {
  const double v = sym_double("value"), mn = sym_double("min"), mx = sym_double("max");
  vassume(mn < mx); vassume(vand(vand(mn >= -1000, mx <= 1000), vand(v >= -10000, v <= 10000))); vassume(mx - mn >= 0.001);
  const auto c = ValueToColor(v, mn, mx);
  vassert(c.size() == 3 && c[0] == c[1] && c[1] == c[2], "grey");
  const double s = v < mn ? mn : v > mx ? mx : v;
  const int k = c[0];
  vassert(vand((double)k * (mx - mn) <= 255. * (s - mn) + 1e-6 * (mx - mn), 255. * (s - mn) < ((double)k + 1.) * (mx - mn) + 1e-6 * (mx - mn)), "linear-in-value");
  vreach("end");
}
extern "C" void h_colors_by_value() {
  const int n = vchoose("n", TIER(3, 4)), at = n > 1 ? vchoose("any", n) : 0; Cloud::Ptr c(new Cloud()); std::vector<int> idx; std::vector<double> v;
  const bool wide = vchoose("wide", 2); const double mn = wide ? -2. : 0., mx = wide ? 3. : 0.125;
  for (int i = 0; i < n; i++) { PointXYZIR p; p.x = sym_float(vname("x", i).c_str()); p.y = sym_float(vname("y", i).c_str()); p.z = sym_float(vname("z", i).c_str()); c->push_back(p); idx.push_back(n - 1 - i);
    double q = 0.0625 * (i + 1); if (i == at) { q = sym_double("v"); vassume(vand(q >= -100, q <= 100)); } v.push_back(q); }
  const MappedPoints<PointXYZIR> m(c, idx);
  const auto o = ColorPointsByValue<PointXYZIR>(m, v, mn, mx);
  vassert((int)o->size() == n, "one-coloured-point-each");
  for (int i = 0; i < n; i++) { const auto & p = c->at(idx[i]); vassert(vand(vand(o->at(i).x == p.x, o->at(i).y == p.y), o->at(i).z == p.z), "position-kept");
    const int k = o->at(i).r; vassert(o->at(i).g == k && o->at(i).b == k, "grey");
    const double s = vite(v[i] < mn, mn, vite(v[i] > mx, mx, v[i]));
    vassert(vand((double)k * (mx - mn) <= 255. * (s - mn) + 1e-6 * (mx - mn), 255. * (s - mn) < ((double)k + 1.) * (mx - mn) + 1e-6 * (mx - mn)), "grey-of-its-own-value"); }
  vreach("end");
}
extern "C" void h_append() {
  const int n = some_size("n", 4, 300), pre = vchoose("pre", 2); Cloud::Ptr o(new Cloud()); if (pre) o->push_back(PointXYZIR(9, 9, 9, 9, 9));
  std::vector<PointXYZIR> p; std::vector<double> cu;
  for (int i = 0; i < n; i++) { p.push_back(PointXYZIR(sym_float(vname("x", i).c_str()), sym_float(vname("y", i).c_str()), sym_float(vname("z", i).c_str()), 0, (uint16_t)sym_int(vname("ring", i).c_str(), 0, 65535))); cu.push_back(sym_float(vname("c", i).c_str())); }
  AppendXYZIR<PointXYZIR>(o, p, cu);
  vassert((int)o->size() == n + pre, "appended");
  for (int i = 0; i < n; i++) { const auto & q = o->at(pre + i); vassert(vand(vand(q.x == p[i].x, q.y == p[i].y), vand(q.z == p[i].z, q.intensity == cu[i])), "xyz-and-curvature"); vassert(q.ring == p[i].ring, "ring"); }
  vreach("end");
}
