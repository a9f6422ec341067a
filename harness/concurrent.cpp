// Schedules: operations of the stamp-sorted objects and callbacks of the localization node, interleaved.
// Threads are operations run from inside one another: at every lock, unlock, map operation and copy of an object (the yield points) the running
// operation may be preempted by another one, which then runs until it ends; one that would wait for a mutex held by the preempted one makes the schedule infeasible.
#include <bits/stdc++.h>
#include <shared_mutex>
#include "common.hpp"
#include "ros_stub.hpp"
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_library/qos.hpp"
#include "lidar_feature_library/ros_msg.hpp"
#include "geometry_ref.hpp"
namespace vh {
static int g_thread = 0, g_budget = 0, g_held = 0, g_preemptions = 0; static std::function<void()> g_other;
struct Busy { const void * at; bool write; int thread; }; static std::vector<Busy> g_busy;
static void yield_point() {
  if (g_budget == 0 || !g_other) return;
  if (!vchoose("preempt", 2)) return;
  g_budget--; g_preemptions++; g_thread++; const int me = g_thread; g_other(); g_thread = me - 1; }
struct Touch {   // one access: two at a time to the same thing are a race unless both only read
  Touch(const void * at, bool write) { for (const Busy & b : g_busy) if (b.at == at && b.thread != g_thread && (b.write || write)) vfail("no-data-race"); g_busy.push_back({at, write, g_thread}); yield_point(); }
  ~Touch() { g_busy.pop_back(); } };
}
namespace std {
struct vh_mutex {
  int writer = -1, depth = 0; std::vector<int> readers; vh_mutex() {} vh_mutex(const vh_mutex &) = delete; virtual bool recursive() const { return false; } virtual ~vh_mutex() {}
  bool reads(int t) const { for (int r : readers) if (r == t) return true; return false; }
  void lock() { vh::yield_point(); if (writer == vh::g_thread && !recursive()) vfail("never-waits-for-itself"); if (reads(vh::g_thread)) vfail("never-waits-for-itself"); if ((writer >= 0 && writer != vh::g_thread) || !readers.empty()) vassume(false); writer = vh::g_thread; depth++; vh::g_held++; }
  bool try_lock() { vh::yield_point(); if ((writer >= 0 && !(recursive() && writer == vh::g_thread)) || !readers.empty()) return false; writer = vh::g_thread; depth++; vh::g_held++; return true; }
  void unlock() { if (writer != vh::g_thread) vfail("unlocks-what-it-holds"); if (--depth == 0) writer = -1; vh::g_held--; vh::yield_point(); } };
struct vh_recursive_mutex : vh_mutex { bool recursive() const override { return true; } };
struct vh_shared_mutex : vh_mutex {
  void lock_shared() { vh::yield_point(); if (writer == vh::g_thread) vfail("never-waits-for-itself"); if (writer >= 0) vassume(false); readers.push_back(vh::g_thread); vh::g_held++; }
  bool try_lock_shared() { vh::yield_point(); if (writer >= 0) return false; readers.push_back(vh::g_thread); vh::g_held++; return true; }
  void unlock_shared() { for (size_t i = 0; i < readers.size(); i++) if (readers[i] == vh::g_thread) { readers.erase(readers.begin() + i); vh::g_held--; vh::yield_point(); return; } vfail("unlocks-what-it-holds"); } };
template<class K, class V, class C = std::less<K>, class A = std::allocator<std::pair<const K, V>>> struct vh_map : private std::map<K, V, C, A> {
  using B = std::map<K, V, C, A>; using B::B; using typename B::iterator; using typename B::const_iterator; using typename B::value_type; using typename B::key_type; using typename B::mapped_type; using typename B::size_type; using typename B::reverse_iterator; using typename B::const_reverse_iterator; using typename B::reference; using typename B::const_reference; using typename B::node_type;
  vh_map() {} vh_map(const vh_map & o) : B(o) {}
#define READS(f) template<class... T> decltype(auto) f(T &&... a) { vh::Touch t(this, false); return B::f(std::forward<T>(a)...); } template<class... T> decltype(auto) f(T &&... a) const { vh::Touch t(this, false); return B::f(std::forward<T>(a)...); }
#define WRITES(f) template<class... T> decltype(auto) f(T &&... a) { vh::Touch t(this, true); return B::f(std::forward<T>(a)...); }
  READS(lower_bound) READS(upper_bound) READS(equal_range) READS(find) READS(count) READS(at) READS(size) READS(empty) READS(begin) READS(end) READS(rbegin) READS(rend) READS(cbegin) READS(cend) READS(crbegin) READS(crend)
  WRITES(insert) WRITES(merge) WRITES(emplace) WRITES(emplace_hint) WRITES(insert_or_assign) WRITES(try_emplace) WRITES(erase) WRITES(clear) WRITES(extract)
  V & operator[](K && k) { vh::Touch t(this, true); return B::operator[](std::move(k)); } V & operator[](const K & k) { vh::Touch t(this, true); return B::operator[](k); }
  auto insert(const value_type & v) { vh::Touch t(this, true); return B::insert(v); } auto insert(value_type && v) { vh::Touch t(this, true); return B::insert(std::move(v)); }
  auto insert(std::initializer_list<value_type> l) { vh::Touch t(this, true); return B::insert(l); }
  vh_map & operator=(const vh_map & o) { vh::Touch t(this, true), u(&o, false); B::operator=(static_cast<const B &>(o)); return *this; }
  void swap(vh_map & o) { vh::Touch t(this, true), u(&o, true); B::swap(o); } };
}
#define mutex vh_mutex
#define recursive_mutex vh_recursive_mutex
#define shared_mutex vh_shared_mutex
#ifndef VH_PLAIN_MAP   // where the stand-in does not fit the code: preemption at locks, unlocks and copies only
#define map vh_map
#endif
#include "lidar_feature_localization/stamp_sorted_objects.hpp"
#include "lidar_feature_localization/subscriber.hpp"
#undef mutex
#undef recursive_mutex
#undef shared_mutex
#undef map
using Eigen::Vector3d; using Eigen::Quaterniond;
static double gap(double a, double b) { return vite(a < b, b - a, a - b); }
// an object whose copies take time
struct Obj {
  int id = -1; Obj() {} explicit Obj(int i) : id(i) {}
  Obj(const Obj & o) { vh::Touch t(&o, false); id = o.id; }
  Obj & operator=(const Obj & o) { vh::Touch t(this, true), u(&o, false); id = o.id; return *this; }
  ~Obj() { vh::Touch t(this, true); } };
struct Op { int kind; double at; int id; double stamp = 0; int found = -1; int size = -1; };
using Stamped = std::pair<double, int>;
static void run(StampSortedObjects<Obj> & s, Op & o) {
  const int held = vh::g_held;
  if (o.kind == 0) { s.Insert(o.at, Obj(o.id)); }
  else if (o.kind == 1) { const auto [t, x] = s.GetClosest(o.at); o.stamp = t; o.found = x.id; }
  else if (o.kind == 2) { o.size = (int)s.Size(); }
  else { s.RemoveOlderThan(o.at); }
  vassert(vh::g_held == held, "mutex-free-afterwards"); }
static bool explains(const std::vector<Op> & order, StampSortedObjects<Obj> & s) {   // the results and the content are those of this order
  std::vector<Stamped> m = {{10, 100}, {20, 101}}; bool ok = true;
  for (const Op & o : order) {
    if (o.kind == 0) { bool there = false; for (Stamped & e : m) if (vdecide(e.first == o.at)) { e.second = o.id; there = true; } if (!there) m.push_back({o.at, o.id}); }
    else if (o.kind == 1) { bool found = false, closest = true; for (const Stamped & e : m) { if (e.second == o.found) found = vor(found, e.first == o.stamp); closest = vand(closest, gap(o.stamp, o.at) <= gap(e.first, o.at)); } ok = vand(ok, vand(found, closest)); }
    else if (o.kind == 2) { if (o.size != (int)m.size()) return false; }
    else { std::vector<Stamped> k; for (const Stamped & e : m) if (vdecide(e.first <= o.at)) k.push_back(e); m = k; } }
  if (s.Size() != m.size()) return false;
  for (const Stamped & e : m) { const auto [t, x] = s.GetClosest(e.first); if (x.id != e.second) return false; ok = vand(ok, t == e.first); }
  return ok; }
static void any_schedule(int extra) {
  vh::g_thread = 0; vh::g_budget = 0; vh::g_held = 0; vh::g_preemptions = 0; vh::g_busy.clear(); vh::g_other = nullptr;
  StampSortedObjects<Obj> s; s.Insert(10, Obj(100)); s.Insert(20, Obj(101));
  std::vector<Op> ops; for (int i = 0; i < 2 + extra; i++) { Op o{vchoose(vname("operation", i).c_str(), 4), sym_d("at", i), i}; if (o.kind == 3) vassume(o.at >= 10); ops.push_back(o); }
  int next = 1; vh::g_budget = 1 + extra; vh::g_other = [&] { if (next < (int)ops.size()) { const int k = next++; run(s, ops[k]); } };
  run(s, ops[0]); vh::g_budget = 0; vh::g_other = nullptr; vassert(vh::g_held == 0, "mutex-free-afterwards"); if (next == 1) { vreach("alone"); }
  while (next < (int)ops.size()) run(s, ops[next++]);
  std::vector<int> order(ops.size()); for (size_t i = 0; i < order.size(); i++) order[i] = (int)i; bool ok = false;
  do { std::vector<Op> p; for (int i : order) p.push_back(ops[i]); ok = vor(ok, explains(p, s)); } while (!vdecide(ok) && std::next_permutation(order.begin(), order.end()));
  vassert(ok, "as-if-one-after-the-other"); if (vh::g_preemptions > 0) vreach("preempted"); vreach("end"); }
extern "C" void h_two_operations() { any_schedule(0); }
extern "C" void h_three_operations() { any_schedule(1); }
// -------------------------------------------------------------------- node
static std::vector<Eigen::Isometry3d> g_inits; static int g_updates = 0; static std::vector<double> g_result;
struct SlowLocalizer {
  void Init(const Eigen::Isometry3d & p) { vh::yield_point(); g_inits.push_back(p); }
  template<typename S> bool Update(const S &) { vh::yield_point(); g_updates++; g_result.push_back(sym_d("result", g_updates)); return true; }
  Eigen::Isometry3d Get() const { vh::yield_point(); Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); T.matrix()(0, 3) = g_result.back(); return T; } };
extern "C" void h_scan_and_priors() {   // a scan is handled while initial poses arrive
  g_inits.clear(); g_updates = 0; g_result.clear(); vh::g_tf.clear(); vh::g_thread = 0; vh::g_budget = 0; vh::g_held = 0; vh::g_preemptions = 0; vh::g_busy.clear(); vh::g_other = nullptr;
  SlowLocalizer m; LocalizationSubscriber<SlowLocalizer, pcl::PointXYZ> node(m); auto & out = vh::published<geometry_msgs::msg::PoseWithCovarianceStamped>("estimated_pose"); auto * sync = message_filters::Synchronizer<Exact>::all().back();
  const int before = vchoose("before", 2), arriving = TIER(1, 2); std::vector<double> stamp, x; int got = 0;
  const auto prior = [&] { const int i = got++; stamp.push_back(sym_d("prior_stamp", i)); x.push_back(sym_d("prior_x", i)); geometry_msgs::msg::Pose p; p.position.x = x[i]; p.orientation.w = 1;
    if (i % 2 == 0) { nav_msgs::msg::Odometry o; o.header.stamp.ns = stamp[i]; o.pose.pose = p; vh::deliver("optimization_start_odom", o); } else { geometry_msgs::msg::PoseStamped o; o.header.stamp.ns = stamp[i]; o.pose = p; vh::deliver("optimization_start_pose", o); } };
  for (int i = 0; i < before; i++) prior();
  rclcpp::Time t; t.ns_ = sym_double("scan_stamp"); pcl::PointCloud<pcl::PointXYZ>::Ptr c(new pcl::PointCloud<pcl::PointXYZ>()); c->push_back(pcl::PointXYZ(1, 2, 3)); const auto msg = std::make_shared<const sensor_msgs::msg::PointCloud2>(ToRosMsg<pcl::PointXYZ>(c, t, "lidar"));
  vh::g_budget = arriving; vh::g_other = prior; sync->cb(msg, msg); const int during = vh::g_preemptions; vh::g_budget = 0; vh::g_other = nullptr; vassert(vh::g_held == 0, "mutex-free-afterwards");
  for (int i = 0; i < got; i++) for (int j = 0; j < i; j++) vassume(vor(stamp[i] < stamp[j], stamp[j] < stamp[i]));
  if (before == 0 && during == 0) { vassert(out.empty() && g_updates == 0 && vh::g_tf.empty(), "no-estimate-without-a-prior"); vreach("no-prior"); return; }
  if (before == 0 && out.empty()) vassert(g_updates == 0 && g_inits.empty() && vh::g_tf.empty(), "all-or-nothing");
  else {
    vassert(out.size() == 1 && g_updates == 1 && g_inits.size() == 1 && vh::g_tf.size() == 1, "one-estimate-per-scan"); vassert_eq(out[0].pose.pose.position.x, g_result[0], "its-own-result"); bool some = false;
    for (int n = std::max(before, 1); n <= got; n++) for (int i = 0; i < n; i++) { bool closest = g_inits[0](0, 3) == x[i]; for (int j = 0; j < n; j++) closest = vand(closest, gap(stamp[i], t.ns_) <= gap(stamp[j], t.ns_)); some = vor(some, closest); }
    vassert(some, "starts-from-the-closest-of-the-priors-so-far"); }
  if (during > 0) {   // none that came while the scan was handled is lost, up to one second after the scan
    bool near_enough = false; for (int i = 0; i < got; i++) near_enough = vor(near_enough, stamp[i] <= t.ns_ + 1e9);
    if (vdecide(near_enough)) { const size_t had = out.size(); sync->cb(msg, msg); vassert(out.size() == had + 1, "priors-kept-for-the-next-scan"); bool best = false;
      for (int i = 0; i < got; i++) { bool closest = g_inits.back()(0, 3) == x[i]; for (int j = 0; j < got; j++) closest = vand(closest, vor(stamp[j] > t.ns_ + 1e9, gap(stamp[i], t.ns_) <= gap(stamp[j], t.ns_))); best = vor(best, closest); } vassert(best, "the-next-scan-sees-every-prior-up-to-a-second-ahead"); vreach("next"); }
    vreach("during"); }
  vreach("end");
}
