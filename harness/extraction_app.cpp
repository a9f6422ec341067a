#include "common.hpp"
#include "ros_stub.hpp"
#include "pcl_ros_stub.hpp"
#define main feature_extraction_main
#include "extraction/app/feature_extraction.cpp"
#undef main
using Cloud = pcl::PointCloud<PointXYZIR>;
using L = PointLabel;
using PC2 = sensor_msgs::msg::PointCloud2;
static sensor_msgs::msg::PointCloud2 msg_of(const Cloud & c, int sec, uint32_t nsec) {
  PC2 m; pcl::toROSMsg(c, m); m.header.stamp.sec = sec; m.header.stamp.nanosec = nsec; m.header.frame_id = "velodyne"; m.is_dense = true; return m; }
template<typename P> static pcl::PointCloud<P> cloud_of(const PC2 & m) { pcl::PointCloud<P> c; pcl::fromROSMsg(m, c); return c; }
struct Params { int padding, blocks; double degree, diff, ratio, et, st, mn, mx; };
static void set(const Params & p) {
  vh::set_param("convolution_padding", p.padding); vh::set_param("neighbor_degree_threshold", p.degree); vh::set_param("distance_diff_threshold", p.diff);
  vh::set_param("parallel_beam_min_range_ratio", p.ratio); vh::set_param("edge_threshold", p.et); vh::set_param("surface_threshold", p.st);
  vh::set_param("min_range", p.mn); vh::set_param("max_range", p.mx); vh::set_param("n_blocks", p.blocks);
}
static Params sym_params() {   // the parameters of one stage at a time are symbolic
  Params p{1, 1, 5., 0.5, 0.5, 0.25, 0.0625, 1.5, 40.};
  const int k = vchoose("symbolic", 3);
  if (k == 0) { p.et = sym_double("edge_threshold"); p.st = sym_double("surface_threshold"); }
  if (k == 1) { p.mn = sym_double("min_range"); p.mx = sym_double("max_range"); }
  if (k == 2) p.diff = sym_double("diff");
  vassume(vand(vand(p.diff > 0, vand(p.et > 0, p.st > 0)), vand(p.mn > 0, p.mx > 0)));
  return p;
}
// two rings whose points lie on the x axis (all neighbours, in input order) or alternately on two axes; z names the point
static void check_scan(const Cloud & c, const Params & p, const std::vector<std::vector<int>> & rings, int sec, uint32_t nsec, const Cloud * before = nullptr, bool set_all = true) {
  if (set_all) set(p);
  FeatureExtraction node;
  if (before) vh::deliver("points_raw", msg_of(*before, 1, 2));
  auto & E = vh::published<PC2>("scan_edge"); auto & S = vh::published<PC2>("scan_surface"); auto & K = vh::published<PC2>("colored_scan");
  if (before) { vassert(E.size() == 1 && S.size() == 1 && K.size() == 1, "one-message-for-the-first-scan"); E.clear(); S.clear(); K.clear(); }
  vh::deliver("points_raw", msg_of(c, sec, nsec));
  vassert(E.size() == 1 && S.size() == 1 && K.size() == 1, "one-message-on-each-topic");
  for (auto * m : {&E[0], &S[0], &K[0]}) {
    vassert(m->header.frame_id == "lidar_feature_base_link", "frame");
    vassert(m->header.stamp.sec == sec && m->header.stamp.nanosec == nsec, "stamp-of-the-scan");
  }
  const auto e = cloud_of<pcl::PointXYZ>(E[0]); const auto s = cloud_of<pcl::PointXYZ>(S[0]); const auto k = cloud_of<pcl::PointXYZRGB>(K[0]);
  const int n = (int)c.size();
  std::vector<int> inE(n, 0), inS(n, 0), inK(n, 0);
  auto tally = [&](const auto & out, std::vector<int> & cnt) {
    for (const auto & q : out) {
      const int i = (int)q.z; vassert(0 <= i && i < n && (float)i == q.z, "published-point-is-an-input-point"); cnt.at(i)++;
      vassert(vand(q.x == c.at(i).x, q.y == c.at(i).y), "coordinates-unchanged");
    }
  };
  tally(e, inE); tally(s, inS); tally(k, inK);
  std::vector<std::array<int, 3>> rgb(n); for (const auto & q : k) rgb.at((int)q.z) = {q.r, q.g, q.b};
  for (const auto & ring : rings) {
    const int m = (int)ring.size();
    const bool used = m >= 2 * p.padding + 1 && m - 2 * p.padding >= 2 * p.blocks;   // each block needs two points
    // what the labelling steps, applied in their documented order, make of this ring
    std::vector<L> l(m, L::Default);
    if (used) {
      Cloud::Ptr cp(new Cloud(c)); const MappedPoints<PointXYZIR> mp(cp, ring);
      const NeighborCheckXY<PointXYZIR> nb(mp, p.degree * M_PI / 180.); const Range<PointXYZIR> range(mp);
      std::vector<double> r; for (int i = 0; i < m; i++) r.push_back(range(i));
      AssignLabel(l, CalcCurvature(r, p.padding), nb, PaddedIndexRange(m, p.blocks, p.padding), EdgeLabel(p.padding, p.et), SurfaceLabel(p.padding, p.st));
      LabelOccludedPoints(l, nb, range, p.padding, p.diff); LabelOutOfRange(l, range, p.mn, p.mx); LabelParallelBeamPoints(l, range, p.ratio);
    }
    for (int j = 0; j < m; j++) {
      const int i = ring[j];
      vassert(inK[i] == (used ? 1 : 0), "usable-rings-coloured-once");
      if (used) { const auto w = LabelToColor(l[j]); vassert(rgb[i][0] == w[0] && rgb[i][1] == w[1] && rgb[i][2] == w[2], "coloured-by-the-label"); }
      vassert(inE[i] == (used && l[j] == L::Edge ? 1 : 0), "edge-cloud-is-the-edge-points");
      vassert(inS[i] == (used && l[j] == L::Surface ? 1 : 0), "surface-cloud-is-the-surface-points");
      if (inE[i] + inS[i]) {
        vassert(inE[i] + inS[i] == 1, "edge-and-surface-disjoint");
        const double d = std::sqrt((double)c[i].x * c[i].x + (double)c[i].y * c[i].y);
        vassert(vand(p.mn <= d, d <= p.mx), "feature-in-range");
        vassert(j >= p.padding && j < m - p.padding, "feature-off-the-padding");
        vreach(inE[i] ? "edge" : "surface");
      }
    }
    if (!used) vreach("short-ring");
  }
}
extern "C" void h_node_one_axis() {
  const Params p = sym_params();
  const int a = TIER(4, 5), b = vchoose("second", 3) + 1; Cloud c; std::vector<std::vector<int>> rings(2);
  for (int i = 0; i < a + b; i++) {
    const bool second = i % 2 == 1 && (int)rings[1].size() < b ? true : (int)rings[0].size() < a ? false : true;
    const float r = second ? 2.f + i : (i == 0 || i == TIER(2, 99)) ? 3.f : sym_float(vname("r", i).c_str()); vassume(r > 0);
    c.push_back(PointXYZIR(r, 0, (float)i, 0, second ? 7 : 3)); rings[second].push_back(i);
  }
  check_scan(c, p, rings, 12, 34);
}
extern "C" void h_node_two_axes() {
  const Params p = sym_params(); Cloud c; std::vector<std::vector<int>> rings(1);
  for (int i = 0; i < 4; i++) {
    const float r = i == TIER(0, 99) ? 3.f : sym_float(vname("r", i).c_str()); vassume(r > 0);
    c.push_back(i < 2 ? PointXYZIR(r, 0, (float)i, 0, 3) : PointXYZIR(0, r, (float)i, 0, 3)); rings[0].push_back(i);
  }
  check_scan(c, p, rings, -5, 999999999);
}
extern "C" void h_node_blocks() {   // padding, blocks and neighbour angle reach the stages they are meant for
  static const float D[9][2] = {{1, -0.5f}, {1, -0.375f}, {1, -0.25f}, {1, -0.0625f}, {1, 0}, {1, 0.0625f}, {1, 0.125f}, {1, 0.1875f}, {1, 0.5f}}; static const float R[9] = {4, 4, 4.5f, 4, 0, 4, 4.25f, 4.5f, 4};
  Params p{1 + vchoose("padding", 2), 1 + vchoose("blocks", 3), vchoose("degree", 2) ? 4.5 : 9., 2., 0.25, 0.5, 0.125, 1.5, 40.}; Cloud c; std::vector<std::vector<int>> rings(1);
  for (int i = 0; i < 9; i++) { float r = R[i]; if (i == 4) { r = sym_float("r"); vassume(r > 0); } c.push_back(PointXYZIR(D[i][0] * r, D[i][1] * r, (float)i, 0, 3)); rings[0].push_back(i); }
  check_scan(c, p, rings, 1, 1);
}
extern "C" void h_node_default_size() {   // a ring of the usual size: the default padding and number of blocks, one point at any range; all other ranges are rational
  const int n = TIER(40, 60); Params p{5, 6, 5., 0.5, 0.02, 0.5, 0.125, 1.5, 40.}; Cloud c; std::vector<std::vector<int>> rings(1); static const int AT[4] = {25, 18, 11, 32}; const int at = AT[vchoose("at", TIER(2, 4))];
  static const float R[16] = {1, 1.03125f, 1.0625f, 1.0625f, 1, 0.75f, 0.75f, 0.75f, 0.78125f, 0.75f, 0.75f, 0.75f, 2, 2, 2, 2};
  for (int i = 0; i < n; i++) {
    const int d = i - at; const float f = i >= 12 && i < 32 ? 1.5f : R[i % 16]; float x = f * (4096 - d * d) / 1024, y = f * d / 8; if (d == 0) { x = sym_float("r"); y = 0; vassume(x > 0); }
    c.push_back(PointXYZIR(x, y, (float)i, 0, 3)); rings[0].push_back(i); }
  check_scan(c, p, rings, 1, 1);
}
extern "C" void h_extraction_parameters() {   // at most one parameter is set, the others have their defaults
  static const char * N[9] = {"convolution_padding", "neighbor_degree_threshold", "distance_diff_threshold", "parallel_beam_min_range_ratio", "edge_threshold", "surface_threshold", "min_range", "max_range", "n_blocks"};
  static const double D[9] = {5, 2, 0.3, 0.02, 0.05, 0.05, 0.1, 100, 6}, O[9] = {3, 1.5, 1.5, 0.3, 4, 0.002, 4.5, 4.5, 3}; double v[9]; const int k = vchoose("which", 10); for (int i = 0; i < 9; i++) v[i] = D[i];
  if (k < 9) { v[k] = O[k]; vh::set_param(N[k], v[k]); }
  vh::declared().clear(); { FeatureExtraction node; for (int i = 0; i < 9; i++) { int n = 0; for (auto & d : vh::declared()) if (d.name == N[i]) { n++; vassert(d.d == D[i], "default-value"); } vassert(n == 1, "declared-once"); } }
  rclcpp::vh_detail::registry<rclcpp::Publisher<PC2>>().clear(); rclcpp::vh_detail::registry<rclcpp::Subscription<PC2>>().clear();
  const Params p{(int)v[0], (int)v[8], v[1], v[2], v[3], v[4], v[5], v[6], v[7]}; const int n = 24, at = 12; Cloud c; std::vector<std::vector<int>> rings(1); int t = -8 * at; const float R[4] = {1, 1.0078125f, 1, 1.0625f};
  for (int i = 0; i < n; i++, t += i == at + 5 ? 9 : 8) {   // bearings 1.8 degrees apart, one gap of 2.01; rational ranges
    const float f = i < 8 ? R[i % 4] : i < 16 ? 1 : 1.125f; float x = f * (262144 - t * t) / 65536, y = f * t / 64; if (i == at) { x = sym_float("r"); y = 0; vassume(x > 0); }
    c.push_back(PointXYZIR(x, y, (float)i, 0, 3)); rings[0].push_back(i); }
  check_scan(c, p, rings, 1, 1, nullptr, false);
}
extern "C" void h_node_any_order() {   // the order of the points in the message does not matter
  static const float D[5][2] = {{-1, -0.0625f}, {1, -0.03125f}, {1, 0}, {1, 0.03125f}, {-1, 0.0625f}};   // by rising bearing
  const Params p{1, 1, 5., 0.5, 0.5, 0.25, 0.0625, 1.5, 40.}; Cloud c; std::vector<int> left{0, 1, 2, 3, 4}; const int n = 5; std::vector<std::vector<int>> rings(2); std::vector<int> at(n);
  if (!TIER(0, 1)) { left = {1, 2, 3, 0, 4}; if (vchoose("turned", 2)) left = {4, 3, 2, 1, 0}; }   // a few orders, or all of them
  for (int i = 0; i < n; i++) {
    const int j = TIER(0, 1) ? vchoose(vname("next", i).c_str(), (int)left.size()) : i < 2 ? vchoose(vname("next", i).c_str(), 2) : 0, b = left[j]; left.erase(left.begin() + j);
    float r = 3; if (b == 2) { r = sym_float("r"); vassume(r > 0); }
    at[b] = (int)c.size(); c.push_back(PointXYZIR(D[b][0] * r, D[b][1] * r, (float)c.size(), 0, 3)); if (i % 2) { rings[1].push_back((int)c.size()); c.push_back(PointXYZIR(4, i - 2.f, (float)c.size(), 0, 1)); } }
  for (int b = 0; b < n; b++) rings[0].push_back(at[b]);
  check_scan(c, p, rings, 2, 3);
}
extern "C" void h_node_two_scans() {   // a scan before leaves no trace in what the next one becomes
  const Params p{1, 1, 5., 0.5, 0.5, 0.25, 0.0625, 1.5, 40.}; Cloud first, c; std::vector<std::vector<int>> rings(1);
  const int na = vchoose("first", 3);
  for (int i = 0; i < 3 + na; i++) first.push_back(PointXYZIR(i == 2 ? 8.f : 3.f + 0.25f * i, 0, 1000.f + i, 0, na == 1 ? 3 : 5));
  for (int i = 0; i < TIER(4, 5); i++) { const float r = i % 2 ? 3.f : sym_float(vname("r", i).c_str()); vassume(r > 0); c.push_back(PointXYZIR(r, 0, (float)i, 0, 3)); rings[0].push_back(i); }
  check_scan(c, p, rings, 7, 8, &first);
}
extern "C" void h_node_bad_scan() {   // scans without a ring channel or with invalid points shut the node down
  const Params p{1, 1, 5., 1., 1., 1., 1., 1., 9.}; set(p); FeatureExtraction node;
  Cloud c; c.push_back(PointXYZIR(1, 0, 0, 0, 0)); PC2 m = msg_of(c, 1, 2);
  const int k = vchoose("kind", 3);
  if (k == 1) m.is_dense = false;
  if (k == 2) for (auto & f : m.fields) if (f.name == "ring") f.name = "channel";
  vh::deliver("points_raw", m);
  vassert((vh::g_shutdowns > 0) == (k != 0), "shutdown-iff-unusable");
  vassert((vh::g_errors > 0) == (k != 0), "error-iff-unusable"); vreach("end");
}
extern "C" void h_node_empty() {
  const Params p = sym_params(); set(p); FeatureExtraction node; Cloud c; vh::deliver("points_raw", msg_of(c, 3, 4));
  vassert(vh::published<PC2>("scan_edge").size() == 1 && vh::published<PC2>("scan_edge")[0].width == 0, "empty-edge"); vassert(vh::published<PC2>("scan_surface").at(0).width == 0, "empty-surface"); vreach("end");
}
extern "C" void h_program() {   // the program feeds scans to such a node until it is told to stop
  const Params p{1, 1, 5., 0.5, 0.5, 0.25, 0.0625, 1.5, 40.}; set(p); Cloud c;
  for (int i = 0; i < 4; i++) { const float r = i % 2 ? 3.f : sym_float(vname("r", i).c_str()); vassume(r > 0); c.push_back(PointXYZIR(r, 0, (float)i, 0, 3)); }
  const int before = vh::g_shutdowns; int spun = 0;
  vh::g_spin = [&] { spun++; vassert(vh::g_shutdowns == before, "spins-before-the-end");
    auto & E = vh::published<PC2>("scan_edge"); auto & S = vh::published<PC2>("scan_surface"); auto & K = vh::published<PC2>("colored_scan");
    for (int k = 0; k < 2; k++) { vh::deliver("points_raw", msg_of(c, 5 + k, 6));
      vassert((int)E.size() == k + 1 && (int)S.size() == k + 1 && (int)K.size() == k + 1, "a-message-per-scan-on-each-topic"); vassert(K[k].width == 4 && K[k].header.stamp.sec == 5 + k, "the-scan-coloured"); } };
  char * argv[1] = {nullptr}; const int rc = feature_extraction_main(0, argv); vh::g_spin = nullptr;
  vassert(rc == 0 && spun == 1, "spins-once-and-succeeds"); vreach("end");
}
