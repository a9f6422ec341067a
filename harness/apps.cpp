// The small programs: map building, path recording, map viewer frame, map loading.
#include "common.hpp"
#include "ros_stub.hpp"
#include "pcl_ros_stub.hpp"
using Eigen::Vector3d; using Eigen::Quaterniond;
#include "geometry_ref.hpp"
#define main mapping_main
#include "mapping/src/mapping.cpp"
#undef main
#define main path_main
#include "path_generator/src/node.cpp"
#undef main
#include "map_tf_generator/src/map_tf_generator_node.cpp"
#include "map_loader/src/map_loader.cpp"
using XYZ = pcl::PointXYZ; using CloudXYZ = pcl::PointCloud<XYZ>; using PC2 = sensor_msgs::msg::PointCloud2; using PoseS = geometry_msgs::msg::PoseStamped; using PoseC = geometry_msgs::msg::PoseWithCovarianceStamped;
template<typename T> static std::shared_ptr<const T> ptr(const T & m) { return std::make_shared<const T>(m); }
// ------------------------------------------------------------------- mapping
static pcl::PointCloud<PointXYZCR>::Ptr any_scan(int k, int n) {
  pcl::PointCloud<PointXYZCR>::Ptr c(new pcl::PointCloud<PointXYZCR>()); const auto f = [&](const char * a, int i) { return sym_float((vname(a, k) + vname("_", i)).c_str()); };
  for (int i = 0; i < n; i++) c->push_back(PointXYZCR(f("x", i), f("y", i), f("z", i), f("c", i), 5 * k + i)); return c; }
extern "C" void h_pose_diff() {                       // small iff the distance and the sine of half the angle are both below their limits
  static const double A[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; const int r = vchoose("rotation", 2), a = vchoose("axis", 3);
  const double angle = sym_double("half_angle"), s = std::sin(angle), c = std::cos(angle), tt = sym_double("tt"), rt = sym_double("rt"); const Vector3d t0 = any_v("t"), t1 = any_v("u");
  Eigen::Isometry3d p = Eigen::Isometry3d::Identity(), q = p; const Eigen::Matrix3d R0 = rot_unit(some_rotation(r ? 1 : 0)), D = rot_unit(Quaterniond(c, s * A[a][0], s * A[a][1], s * A[a][2])); p.linear() = R0; p.translation() = t0; q.translation() = t1;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double v = 0; for (int k = 0; k < 3; k++) v += R0(i, k) * D(k, j); q.linear()(i, j) = v; }
  const Vector3d d = t1 - t0; const double n2 = d(0) * d(0) + d(1) * d(1) + d(2) * d(2); const bool near = vdecide(vand(tt > 0, n2 < tt * tt)), turned = !vdecide(vand(rt > 0, s * s < rt * rt));
  vassert(PoseDiffIsSufficientlySmall(p, q, tt, rt) == (near && !turned), "small-iff-both-differences-are-below-their-limits"); if (near && !turned) vreach("small"); else if (near) vreach("turned"); else vreach("moved");
}
struct Step { int n, rot; double x, y; pcl::PointCloud<PointXYZCR>::Ptr cloud; PC2 cm; PoseS pm; };
static const double H[4][2] = {{1, 0}, {2499. / 2501, 100. / 2501}, {0.96, 0.28}, {0, 1}};   // half angles: none, small, large, half a turn
static Step make_step(int k, int sizes, int mode) {    // mode 0: any distance, no or half a turn; 1: three distances, no, a small or a large turn
  static const double X[2] = {0.5, 2}; Step s; s.n = mode ? 1 : vchoose(vname("size", k).c_str(), sizes); s.rot = mode ? vchoose(vname("turn", k).c_str(), 3) : 3 * vchoose(vname("turn", k).c_str(), 2); if (mode) s.x = X[vchoose(vname("far", k).c_str(), 2)]; else s.x = sym_d("px", k); s.y = 0.75 * s.x; s.cloud = any_scan(k, s.n); s.cm = ToRosMsg<PointXYZCR>(s.cloud);
  s.pm.pose.position.x = s.x; s.pm.pose.position.y = s.y; s.pm.pose.orientation.w = H[s.rot][0]; s.pm.pose.orientation.z = H[s.rot][1]; return s; }
struct Reference {                                    // what the map has to hold
  bool any = false; Step last; std::vector<std::array<double, 5>> points; int added = 0;
  void add(const Step & s) {
    if (s.n == 0) return;
    if (any) { const double dx = s.x - last.x, dy = s.y - last.y, sine = H[s.rot][1] * H[last.rot][0] - H[s.rot][0] * H[last.rot][1]; const double d2 = dx * dx + dy * dy; if (std::fabs(sine) < 0.1 && vdecide(d2 < 1)) { vreach("skipped"); return; } }
    any = true; last = s; added++; const double i = 2 * H[s.rot][0] * H[s.rot][1];
    for (const auto & p : *s.cloud) points.push_back({(1 - 2 * H[s.rot][1] * H[s.rot][1]) * p.x - i * p.y + s.x, i * p.x + (1 - 2 * H[s.rot][1] * H[s.rot][1]) * p.y + s.y, p.z, p.curvature, (double)p.ring});
  }
  void check(const pcl::PointCloud<PointXYZCR> & m) const {
    vassert(m.size() == points.size(), "points-of-the-added-clouds-only");
    for (std::size_t i = 0; i < points.size(); i++) { vassert_eq(m.at(i).x, points[i][0], "x-at-its-pose"); vassert_eq(m.at(i).y, points[i][1], "y-at-its-pose"); vassert_eq(m.at(i).z, points[i][2], "z-at-its-pose"); vassert_eq(m.at(i).curvature, points[i][3], "curvature-kept"); vassert(m.at(i).ring == points[i][4], "ring-kept"); }
  }
};
extern "C" void h_map_builder() {
  MapBuilder<PointXYZCR> b; Reference ref; const int n = 1 + vchoose("clouds", 4), mode = vchoose("mode", 2);
  vassert(b.map_->IsEmpty(), "starts-empty");
  for (int k = 0; k < n; k++) { const Step s = make_step(k, TIER(2, 3), mode); b.Callback(ptr(s.cm), ptr(s.pm)); ref.add(s); vassert(b.map_->IsEmpty() == ref.points.empty(), "empty-iff-no-point-added"); }
  ref.check(*b.map_->map_ptr_); vh::g_saved.clear(); b.SaveMap("some/where.pcd"); vassert(vh::g_saved.size() == (ref.points.empty() ? 0u : 1u), "saved-unless-empty");
  if (!ref.points.empty()) { vassert(vh::g_saved[0].path == "some/where.pcd", "to-the-given-file"); ref.check(vh::saved_cloud<PointXYZCR>()); }
  vreach(ref.added == n ? "all" : ref.added == 0 ? "none" : "some");
}
extern "C" void h_map_builder_long() {                // a long drive: small and large steps and turns, one pose anywhere
  static const double X[12] = {0, 0.25, 0.5, 0.75, 1, 1.25, 2.5, 2.75, 2.75, 2.75, 3.5, 3.75}; static const int T[12] = {0, 0, 3, 0, 0, 0, 3, 3, 0, 0, 0, 3};   // half turns, exactly representable
 
  MapBuilder<PointXYZCR> b; Reference ref; const int n = TIER(12, 24), any = vchoose("any_at", n);
  for (int k = 0; k < n; k++) {
    Step s; s.n = k == 3 ? 0 : 1; s.rot = T[k % 12]; s.x = k == any ? sym_d("px", k) : X[k % 12] + 4 * (k / 12); s.y = 0.75 * s.x; s.cloud = any_scan(k, s.n); s.cm = ToRosMsg<PointXYZCR>(s.cloud); s.pm.pose.position.x = s.x; s.pm.pose.position.y = s.y; s.pm.pose.orientation.w = H[s.rot][0]; s.pm.pose.orientation.z = H[s.rot][1];
    b.Callback(ptr(s.cm), ptr(s.pm)); ref.add(s); }
  ref.check(*b.map_->map_ptr_); vreach("end");
}
extern "C" void h_mapping_program() {                 // scans and poses while it spins, the map to maps/edge.pcd afterwards
  Reference ref; vh::g_saved.clear(); bool listens = false;
  vh::g_spin = [&] {
    auto & all = Synchronizer::all(); vassert(all.size() == 1, "one-pair-of-topics"); vassert(all[0]->topic0 == "scan_edge" && all[0]->topic1 == "pose", "edge-scans-with-poses"); listens = true; vassert(vh::g_saved.empty(), "saved-at-the-end-only");
    const int n = vchoose("clouds", 3), mode = vchoose("mode", 2); for (int k = 0; k < n; k++) { const Step s = make_step(k, 2, mode); all[0]->cb(ptr(s.cm), ptr(s.pm)); ref.add(s); } };
  char * argv[1] = {nullptr}; vassert(mapping_main(0, argv) == 0, "succeeds"); vh::g_spin = nullptr; vassert(listens, "spins");
  vassert(vh::g_saved.size() == (ref.points.empty() ? 0u : 1u), "saved-unless-empty"); if (!ref.points.empty()) { vassert(vh::g_saved[0].path == "maps/edge.pcd", "to-the-edge-map"); ref.check(vh::saved_cloud<PointXYZCR>()); vreach("saved"); } else vreach("empty");
}
// ---------------------------------------------------------------------- path
static void same_pose(const geometry_msgs::msg::Pose & a, const geometry_msgs::msg::Pose & b) {
  vassert_eq(a.position.x, b.position.x, "position"); vassert_eq(a.position.y, b.position.y, "position"); vassert_eq(a.position.z, b.position.z, "position"); vassert_eq(a.orientation.x, b.orientation.x, "orientation"); vassert_eq(a.orientation.y, b.orientation.y, "orientation"); vassert_eq(a.orientation.z, b.orientation.z, "orientation"); vassert_eq(a.orientation.w, b.orientation.w, "orientation"); }
static bool same_header(const std_msgs::msg::Header & a, const std_msgs::msg::Header & b) { return a.stamp == b.stamp && a.frame_id == b.frame_id; }
static PoseS any_pose(int k) {
  PoseS m; m.header.frame_id = (k < 4 ? vchoose(vname("frame", k).c_str(), 2) : k % 2) ? "map" : "odom"; m.header.stamp.sec = (int)sym_int(vname("sec", k).c_str(), -5, 1000); m.header.stamp.nanosec = (unsigned)sym_int(vname("nsec", k).c_str(), 0, 999999999); auto & p = m.pose;
  p.position.x = sym_d("px", k); p.position.y = sym_d("py", k); p.position.z = sym_d("pz", k); p.orientation.x = sym_d("qx", k); p.orientation.y = sym_d("qy", k); p.orientation.z = sym_d("qz", k); p.orientation.w = sym_d("qw", k); return m; }
template<typename Send> static void record(const std::string & topic, int n, Send send) {
  std::vector<PoseS> all; vassert(vh::published<nav_msgs::msg::Path>(topic).empty(), "nothing-before-the-first-pose");
  for (int k = 0; k < n; k++) {
    const PoseS m = any_pose(k); all.push_back(m); send(m); const auto & out = vh::published<nav_msgs::msg::Path>(topic); vassert((int)out.size() == k + 1, "one-path-per-pose"); const auto & p = out.back(); vassert(same_header(p.header, m.header), "header-of-the-latest-pose");
    vassert((int)p.poses.size() == k + 1, "every-pose-so-far"); if (k < 12 || k == n - 1 || k % 50 == 0) for (int i = 0; i <= k; i++) { vassert(same_header(p.poses[i].header, all[i].header), "in-order-with-its-header"); same_pose(p.poses[i].pose, all[i].pose); } }
  vreach("end");
}
static PoseC with_covariance(const PoseS & m) { PoseC c; c.header = m.header; c.pose.pose = m.pose; return c; }
extern "C" void h_path() {
  const int n = some_size("poses", TIER(4, 5), 270);
  if (vchoose("covariance", 2)) { FromPoseWithCovariance f("my_path", "my_pose"); record("my_path", n, [](const PoseS & m) { vh::deliver<PoseC>("my_pose", with_covariance(m)); }); }
  else { FromPose f("my_path", "my_pose"); record("my_path", n, [](const PoseS & m) { vh::deliver<PoseS>("my_pose", m); }); }
}
extern "C" void h_path_program() {
  bool spun = false; vh::g_spin = [&] { record("path", 2, [](const PoseS & m) { vh::deliver<PoseC>("pose", with_covariance(m)); }); spun = true; }; char * argv[1] = {nullptr}; vassert(path_main(0, argv) == 0 && spun, "spins"); vh::g_spin = nullptr; }
// --------------------------------------------------------------- viewer frame
extern "C" void h_map_tf() {
  vh::params().clear(); vh::g_static_tf.clear(); const int named = vchoose("named", 2), n = some_size("points", TIER(4, 6), 300), rounds = 1 + vchoose("again", 2); if (named) { vh::set_param("map_frame", "m"); vh::set_param("viewer_frame", "v"); }
  MapTFGeneratorNode node{rclcpp::NodeOptions()}; vassert(vh::g_static_tf.empty(), "nothing-before-the-first-map");
  for (int r = 0; r < rounds; r++) {
    CloudXYZ c; double s[3] = {0, 0, 0}; const int m = r ? 1 : n; for (int i = 0; i < m; i++) { const int k = 10 * r + i; c.push_back(XYZ(sym_float(vname("x", k).c_str()), sym_float(vname("y", k).c_str()), sym_float(vname("z", k).c_str()))); s[0] += c[i].x; s[1] += c[i].y; s[2] += c[i].z; }
    PC2 msg; pcl::toROSMsg(c, msg); vh::g_now_ns = sym_d("now", r); vh::g_static_tf.clear(); vh::deliver("/pointcloud_map", msg);
    if (m == 0) { vassert(vh::g_static_tf.empty(), "no-frame-for-an-empty-map"); vreach("empty"); continue; }
    vassert(vh::g_static_tf.size() == 1, "one-frame-per-map"); const auto & t = vh::g_static_tf[0]; vassert(t.header.frame_id == (named ? "m" : "map") && t.child_frame_id == (named ? "v" : "viewer"), "from-the-map-to-the-viewer-frame"); vassert(t.header.stamp.ns == vh::g_now_ns, "stamped-now");
    vassert_eq(t.transform.translation.x * m, s[0], "at-the-centre-of-the-map"); vassert_eq(t.transform.translation.y * m, s[1], "at-the-centre-of-the-map"); vassert_eq(t.transform.translation.z * m, s[2], "at-the-centre-of-the-map");
    const auto & q = t.transform.rotation; for (double v : {q.x, q.y, q.z}) vassert_eq(v, 0., "not-rotated"); vassert_eq(q.w, 1., "not-rotated"); vreach("centre"); }
}
// ------------------------------------------------------------------- map file
extern "C" void h_map_loader() {
  vh::params().clear(); vh::g_loaded.clear(); const int file = vchoose("file", 3); static const char * F[3] = {"", "a.pcd", "dir/map.pcd"}; if (file || vchoose("given", 2)) vh::set_param("pcd_filename", F[file]);
  CloudXYZ c; const int n = some_size("points", 3, 300); for (int i = 0; i < n; i++) c.push_back(XYZ(sym_float(vname("x", i).c_str()), sym_float(vname("y", i).c_str()), sym_float(vname("z", i).c_str()))); PC2 & m = vh::file_msg(); pcl::toROSMsg(c, m); m.header.frame_id = vchoose("frame", 2) ? "lidar" : "";
  std::shared_ptr<MapLoaderNode> node; const bool ok = returns_or_throws<std::invalid_argument>([&] { node = std::make_shared<MapLoaderNode>(rclcpp::NodeOptions()); });
  vassert(ok == (file != 0), "refused-iff-no-file-is-named"); if (!ok) { vassert(vh::g_loaded.empty(), "nothing-loaded"); vreach("refused"); return; }
  vassert(vh::g_loaded.size() == 1 && vh::g_loaded[0] == F[file], "exactly-that-file"); const auto & out = vh::published<PC2>("map_topic"); vassert(out.size() == 1, "published-once"); const PC2 & o = out[0]; vassert(o.header.frame_id == "map", "in-the-map-frame");
  CloudXYZ d; pcl::fromROSMsg(o, d); vassert((int)d.size() == n && (int)o.width == n && o.fields.size() == m.fields.size() && o.point_step == m.point_step, "the-whole-cloud"); for (int i = 0; i < n; i++) { vassert_eq(d[i].x, c[i].x, "points-of-the-file"); vassert_eq(d[i].y, c[i].y, "points-of-the-file"); vassert_eq(d[i].z, c[i].z, "points-of-the-file"); } vreach("published");
}
