// Stand-ins for the parts of ROS 2 the repository uses (ROS is not installed here).
// Messages are plain structs; publishers and broadcasters record what they are given;
// clocks, parameters, transforms and point-cloud files are set by the harness.
#pragma once
#include <algorithm>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

// ---------------------------------------------------------------- messages
#define VH_MSG_PTRS(T) using SharedPtr = std::shared_ptr<T>; using ConstSharedPtr = std::shared_ptr<const T>; using UniquePtr = std::unique_ptr<T>;
namespace builtin_interfaces { namespace msg {
struct Time { int32_t sec = 0; uint32_t nanosec = 0; double ns = 0.; };   // ns: the stamp used by the stand-in clock
inline bool operator==(const Time & a, const Time & b) { return a.ns == b.ns && a.sec == b.sec && a.nanosec == b.nanosec; }
}}
namespace std_msgs { namespace msg {
struct Header { builtin_interfaces::msg::Time stamp; std::string frame_id; VH_MSG_PTRS(Header) };
}}
namespace geometry_msgs { namespace msg {
struct Point { double x = 0., y = 0., z = 0.; VH_MSG_PTRS(Point) };
struct Vector3 { double x = 0., y = 0., z = 0.; VH_MSG_PTRS(Vector3) };
struct Quaternion { double x = 0., y = 0., z = 0., w = 1.; VH_MSG_PTRS(Quaternion) };
struct Pose { Point position; Quaternion orientation; VH_MSG_PTRS(Pose) };
struct PoseStamped { std_msgs::msg::Header header; Pose pose; VH_MSG_PTRS(PoseStamped) };
struct PoseArray { std_msgs::msg::Header header; std::vector<Pose> poses; VH_MSG_PTRS(PoseArray) };
struct PoseWithCovariance { Pose pose; std::array<double, 36> covariance{}; VH_MSG_PTRS(PoseWithCovariance) };
struct PoseWithCovarianceStamped { std_msgs::msg::Header header; PoseWithCovariance pose; VH_MSG_PTRS(PoseWithCovarianceStamped) };
struct Transform { Vector3 translation; Quaternion rotation; VH_MSG_PTRS(Transform) };
struct TransformStamped { std_msgs::msg::Header header; std::string child_frame_id; Transform transform; VH_MSG_PTRS(TransformStamped) };
struct Twist { Vector3 linear, angular; VH_MSG_PTRS(Twist) };
struct TwistStamped { std_msgs::msg::Header header; Twist twist; VH_MSG_PTRS(TwistStamped) };
struct TwistWithCovariance { Twist twist; std::array<double, 36> covariance{}; VH_MSG_PTRS(TwistWithCovariance) };
struct TwistWithCovarianceStamped { std_msgs::msg::Header header; TwistWithCovariance twist; VH_MSG_PTRS(TwistWithCovarianceStamped) };
}}
namespace nav_msgs { namespace msg {
struct Odometry { std_msgs::msg::Header header; std::string child_frame_id; geometry_msgs::msg::PoseWithCovariance pose; geometry_msgs::msg::TwistWithCovariance twist; VH_MSG_PTRS(Odometry) };
struct Path { std_msgs::msg::Header header; std::vector<geometry_msgs::msg::PoseStamped> poses; VH_MSG_PTRS(Path) };
}}
namespace sensor_msgs { namespace msg {
struct PointField {
  static constexpr uint8_t INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, FLOAT32 = 7, FLOAT64 = 8;
  std::string name; uint32_t offset = 0; uint8_t datatype = 0; uint32_t count = 0; VH_MSG_PTRS(PointField)
};
struct PointCloud2 {
  std_msgs::msg::Header header; uint32_t height = 0, width = 0; std::vector<PointField> fields; bool is_bigendian = false;
  uint32_t point_step = 0, row_step = 0; std::vector<uint8_t> data; bool is_dense = false; VH_MSG_PTRS(PointCloud2)
};
struct Imu { std_msgs::msg::Header header; geometry_msgs::msg::Quaternion orientation; geometry_msgs::msg::Vector3 angular_velocity, linear_acceleration; VH_MSG_PTRS(Imu) };
}}
namespace std_msgs { namespace msg {
struct ColorRGBA { float r = 0, g = 0, b = 0, a = 0; };
}}
namespace visualization_msgs { namespace msg {
struct Marker {
  enum : int32_t { ARROW = 0, CUBE = 1, SPHERE = 2, CYLINDER = 3, LINE_STRIP = 4, LINE_LIST = 5, CUBE_LIST = 6, SPHERE_LIST = 7, POINTS = 8, ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3 };
  std_msgs::msg::Header header; std::string ns; int32_t id = 0, type = 0, action = 0; geometry_msgs::msg::Pose pose; geometry_msgs::msg::Vector3 scale;
  std_msgs::msg::ColorRGBA color; std::vector<geometry_msgs::msg::Point> points; std::vector<std_msgs::msg::ColorRGBA> colors; VH_MSG_PTRS(Marker)
};
}}

// -------------------------------------------------------------- vh controls
namespace vh {
struct Param { std::string name; double d; std::string s; bool is_string; };
inline std::vector<Param> & params() { static std::vector<Param> p; return p; }
inline void set_param(const char * n, double v) { params().push_back({n, v, "", false}); }
inline void set_param(const char * n, const char * v) { params().push_back({n, 0., v, true}); }
inline std::vector<Param> & declared() { static std::vector<Param> p; return p; }   // with the defaults they were declared with
inline void note_declared(const std::string & n, double v) { declared().push_back({n, v, "", false}); }
inline void note_declared(const std::string & n, const std::string & v) { declared().push_back({n, 0., v, true}); }
inline double g_now_ns = 0.;                       // the node clock
inline int g_shutdowns = 0, g_warns = 0, g_errors = 0, g_infos = 0, g_sleeps = 0;
inline bool g_ok = true;
inline std::function<void()> g_timer;              // last created timer callback
inline double g_timer_period_s = 0.;
inline std::function<void()> g_spin;               // what happens while a program spins
inline std::vector<geometry_msgs::msg::TransformStamped> g_tf;        // broadcast
inline std::vector<geometry_msgs::msg::TransformStamped> g_static_tf;
inline int g_lookup_failures = 0;                  // lookups still to fail
inline int g_lookups = 0;
inline bool g_lookup_available = true;
inline geometry_msgs::msg::TransformStamped g_lookup;
inline std::string g_lookup_target, g_lookup_source;
template<typename T> inline T pick(double d, const std::string &) { return static_cast<T>(d); }
template<> inline std::string pick<std::string>(double, const std::string & s) { return s; }
}

// ------------------------------------------------------------------ rclcpp
namespace rclcpp {
struct Duration {
  double ns_ = 0.;
  Duration() {}
  explicit Duration(double ns) : ns_(ns) {}
  template<typename R, typename P> Duration(const std::chrono::duration<R, P> & d) : ns_(static_cast<double>(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count())) {}
  Duration(int32_t s, uint32_t n) : ns_(s * 1e9 + n) {}
  static Duration from_seconds(double s) { return Duration(s * 1e9); }
  double nanoseconds() const { return ns_; }
  double seconds() const { return ns_ / 1e9; }
  Duration operator+(const Duration & o) const { return Duration(ns_ + o.ns_); } Duration operator-(const Duration & o) const { return Duration(ns_ - o.ns_); } Duration operator*(double k) const { return Duration(ns_ * k); }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; } bool operator>(const Duration & o) const { return ns_ > o.ns_; } bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; } bool operator==(const Duration & o) const { return ns_ == o.ns_; } bool operator!=(const Duration & o) const { return ns_ != o.ns_; }
};
struct Time {
  double ns_ = 0.; int32_t sec_ = 0; uint32_t nanosec_ = 0;
  Time() {}
  Time(int32_t s, uint32_t n) : ns_(s * 1e9 + n), sec_(s), nanosec_(n) {}
  explicit Time(double ns) : ns_(ns) {}
  explicit Time(int64_t ns) : ns_(static_cast<double>(ns)) {}
  Time(const builtin_interfaces::msg::Time & t) : ns_(t.ns), sec_(t.sec), nanosec_(t.nanosec) {}
  operator builtin_interfaces::msg::Time() const { builtin_interfaces::msg::Time t; t.ns = ns_; t.sec = sec_; t.nanosec = nanosec_; return t; }
  double nanoseconds() const { return ns_; }
  double seconds() const { return ns_ / 1e9; }
  Duration operator-(const Time & o) const { return Duration(ns_ - o.ns_); }
  Time operator-(const Duration & o) const { return Time(ns_ - o.ns_); }
  Time operator+(const Duration & o) const { return Time(ns_ + o.ns_); }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }
  bool operator>(const Time & o) const { return ns_ > o.ns_; }
  bool operator<=(const Time & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Time & o) const { return ns_ >= o.ns_; }
  bool operator==(const Time & o) const { return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return ns_ != o.ns_; }
};
struct Logger { Logger get_child(const std::string &) const { return Logger(); } };
inline Logger get_logger(const std::string &) { return Logger(); }
struct Clock { using SharedPtr = std::shared_ptr<Clock>; using ConstSharedPtr = std::shared_ptr<const Clock>; Time now() const { return Time(vh::g_now_ns); } };
struct QoS {
  explicit QoS(int n = 10) : depth(n) {}
  int depth; bool rel = true, transient = false, all = false;
  QoS & reliable() { rel = true; return *this; } QoS & best_effort() { rel = false; return *this; }
  QoS & durability_volatile() { transient = false; return *this; } QoS & transient_local() { transient = true; return *this; }
  QoS & keep_all() { all = true; return *this; } QoS & keep_last(int n) { depth = n; all = false; return *this; }
  QoS get_rmw_qos_profile() const { return *this; }
};
struct SensorDataQoS : QoS { SensorDataQoS() : QoS(5) { rel = false; } };
enum class CallbackGroupType { MutuallyExclusive, Reentrant };
struct CallbackGroup { using SharedPtr = std::shared_ptr<CallbackGroup>; };
struct SubscriptionOptions { CallbackGroup::SharedPtr callback_group; };
struct NodeOptions { NodeOptions & use_intra_process_comms(bool) { return *this; } };
struct TimerBase { using SharedPtr = std::shared_ptr<TimerBase>; void cancel() {} void reset() {} };
struct Rate { template<typename T> explicit Rate(T) {} bool sleep() { vh::g_sleeps++; return true; } }; using WallRate = Rate;
struct Parameter {
  double d = 0.; std::string s; bool is_string = false;
  double as_double() const { return d; } int64_t as_int() const { return static_cast<int64_t>(d); } bool as_bool() const { return d != 0.; } const std::string & as_string() const { return s; }
  template<typename T> T get_value() const { return vh::pick<T>(d, s); }
};
#ifdef VH_ENDPOINTS   // records what a program listens and speaks to (only for the launch checks)
#include <typeinfo>
}
namespace vh { struct Endpoint { std::string kind, topic, type; bool reliable, transient; }; inline std::vector<Endpoint> & endpoints() { static std::vector<Endpoint> e; return e; } inline std::vector<std::pair<std::string, std::string>> & declared_types() { static std::vector<std::pair<std::string, std::string>> d; return d; }
inline void note_endpoint(const char * k, const std::string & t, const std::type_info & y, const rclcpp::QoS & q) { endpoints().push_back({k, t, y.name(), q.rel, q.transient}); } }
namespace rclcpp {
#define VH_NOTE(k, t, T, q) vh::note_endpoint(k, t, typeid(T), rclcpp::QoS(q));
#define VH_NOTE_PARAM(n, R) vh::declared_types().push_back({n, std::is_same_v<R, bool> ? "bool" : std::is_integral_v<R> ? "int" : std::is_floating_point_v<R> ? "float" : "str"});
#else
#define VH_NOTE(k, t, T, q)
#define VH_NOTE_PARAM(n, R)
#endif
template<typename T> struct Publisher {
  using SharedPtr = std::shared_ptr<Publisher<T>>;
  std::string topic; std::vector<T> sent;
  std::size_t get_subscription_count() const { return 1; } const char * get_topic_name() const { return topic.c_str(); }
  void publish(const T & m) { sent.push_back(m); }
  void publish(std::unique_ptr<T> m) { sent.push_back(*m); }
};
template<typename T> struct Subscription {
  using SharedPtr = std::shared_ptr<Subscription<T>>;
  std::string topic; std::function<void(typename T::ConstSharedPtr)> cb;
};
namespace vh_detail {
template<typename T, typename F> std::function<void(typename T::ConstSharedPtr)> wrap(F f)
{
  if constexpr (std::is_invocable_v<F, typename T::SharedPtr> && !std::is_invocable_v<F, typename T::ConstSharedPtr>)
    return [f](typename T::ConstSharedPtr p) mutable { f(std::const_pointer_cast<T>(p)); };
  else if constexpr (std::is_invocable_v<F, typename T::ConstSharedPtr>)
    return [f](typename T::ConstSharedPtr p) mutable { f(p); };
  else
    return [f](typename T::ConstSharedPtr p) mutable { f(*p); };
}
}
namespace vh_detail { template<typename P> std::vector<std::shared_ptr<P>> & registry() { static std::vector<std::shared_ptr<P>> r; return r; } }
class Node {
public:
  explicit Node(const std::string & name) : name_(name), clock_(std::make_shared<Clock>()) {}
  Node(const std::string & name, const NodeOptions &) : name_(name), clock_(std::make_shared<Clock>()) {}
  virtual ~Node() {}
  using SharedPtr = std::shared_ptr<Node>;
  Logger get_logger() const { return Logger(); }
  Clock::SharedPtr get_clock() const { return clock_; }
  Time now() const { return clock_->now(); }
  std::string get_name() const { return name_; }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType) { return std::make_shared<CallbackGroup>(); }
  template<typename T, typename Q> typename Publisher<T>::SharedPtr create_publisher(const std::string & topic, const Q & qos) { (void)qos; VH_NOTE("pub", topic, T, qos)
    auto p = std::make_shared<Publisher<T>>(); p->topic = topic; vh_detail::registry<Publisher<T>>().push_back(p); return p; }
  template<typename T, typename Q, typename F> typename Subscription<T>::SharedPtr create_subscription(
    const std::string & topic, const Q & qos, F f, const SubscriptionOptions & = SubscriptionOptions()) { (void)qos; VH_NOTE("sub", topic, T, qos)
    auto s = std::make_shared<Subscription<T>>(); s->topic = topic; s->cb = vh_detail::wrap<T>(f); vh_detail::registry<Subscription<T>>().push_back(s); return s; }
  template<typename T> auto declare_parameter(const std::string & name, const T & def) {
    using R = std::conditional_t<std::is_convertible_v<T, std::string>, std::string, T>;
    R v = R(def); VH_NOTE_PARAM(name, R) vh::note_declared(name, v); for (auto & p : vh::params()) if (p.name == name) { v = vh::pick<R>(p.d, p.s); break; }
    Parameter q; if constexpr (std::is_same_v<R, std::string>) { q.s = v; q.is_string = true; } else q.d = static_cast<double>(v);
    declared_.emplace_back(name, q); return v;
  }
  template<typename T> T declare_parameter(const std::string & name) { return declare_parameter(name, T()); }
  bool has_parameter(const std::string & name) const { for (auto & p : declared_) if (p.first == name) return true; return false; }
  Parameter get_parameter(const std::string & name) const { for (auto & p : declared_) if (p.first == name) return p.second; throw std::runtime_error("parameter not declared: " + name); }
  template<typename T> bool get_parameter(const std::string & name, T & v) const { if (!has_parameter(name)) return false; v = get_parameter(name).template get_value<T>(); return true; }
  template<typename D, typename F> TimerBase::SharedPtr create_wall_timer(D d, F f) { vh::g_timer = f; vh::g_timer_period_s = Duration(d).seconds(); return std::make_shared<TimerBase>(); }
private:
  std::string name_; Clock::SharedPtr clock_; std::vector<std::pair<std::string, Parameter>> declared_;
};
template<typename N, typename F> TimerBase::SharedPtr create_timer(N, Clock::SharedPtr, Duration d, F f) {
  vh::g_timer = f; vh::g_timer_period_s = d.seconds(); return std::make_shared<TimerBase>(); }
inline void init(int, char **) {}
inline void shutdown() { vh::g_shutdowns++; }
inline bool ok() { return vh::g_ok; }
template<typename T> inline void spin(T) { if (vh::g_spin) vh::g_spin(); }
template<typename T> inline void sleep_for(T) { vh::g_sleeps++; }
namespace executors { struct MultiThreadedExecutor { template<typename T> void add_node(T) {} void spin() { if (vh::g_spin) vh::g_spin(); } }; using SingleThreadedExecutor = MultiThreadedExecutor; }
}
// Log calls are counted. With vh::g_keep_logs they are also rendered as printf would: a conversion without an argument is undefined and counted in g_bad_logs.
namespace vh {
inline bool g_keep_logs = false; inline std::vector<std::string> g_log; inline int g_bad_logs = 0;
inline std::string log_text(const char * s) { return s; } inline std::string log_text(const std::string & s) { return s; } template<typename T> inline std::string log_text(const T &) { return "?"; }
inline void log_render(const char * f, const std::vector<std::string> & a) {
  std::string out; std::size_t k = 0;
  for (std::size_t i = 0; f[i]; i++) {
    if (f[i] != '%') { out += f[i]; continue; }
    i++; if (f[i] == '%') { out += '%'; continue; }
    while (f[i] == 'l' || f[i] == 'z' || f[i] == '.' || (f[i] >= '0' && f[i] <= '9')) i++;
    if (k < a.size() && f[i]) out += a[k++]; else { g_bad_logs++; return; }
  }
  g_log.push_back(out);
}
template<typename... A> inline void log(int & n, const char * f, const A &... a) { n++; if (g_keep_logs) log_render(f, std::vector<std::string>{log_text(a)...}); }
}
#define RCLCPP_DEBUG(...) (void)0
#define RCLCPP_INFO(l, ...) ((void)(l), vh::log(vh::g_infos, __VA_ARGS__))
#define RCLCPP_WARN(l, ...) ((void)(l), vh::log(vh::g_warns, __VA_ARGS__))
#define RCLCPP_ERROR(l, ...) ((void)(l), vh::log(vh::g_errors, __VA_ARGS__))
#define RCLCPP_FATAL(l, ...) ((void)(l), vh::log(vh::g_errors, __VA_ARGS__))
#define RCLCPP_WARN_THROTTLE(l, c, d, ...) ((void)(l), (void)(c), (void)(d), vh::log(vh::g_warns, __VA_ARGS__))
#define RCLCPP_ERROR_THROTTLE(l, c, d, ...) ((void)(l), (void)(c), (void)(d), vh::log(vh::g_errors, __VA_ARGS__))
#define RCLCPP_INFO_THROTTLE(l, c, d, ...) ((void)(l), (void)(c), (void)(d), vh::log(vh::g_infos, __VA_ARGS__))
#define RCLCPP_INFO_ONCE(l, ...) RCLCPP_INFO(l, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(l, ...) RCLCPP_WARN(l, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(l, ...) RCLCPP_ERROR(l, __VA_ARGS__)
#define RCLCPP_DEBUG_ONCE(...) (void)0
#define RCLCPP_DEBUG_STREAM(...) (void)0
#define RCLCPP_DEBUG_THROTTLE(...) (void)0
#define RCLCPP_DEBUG_EXPRESSION(...) (void)0
#define RCLCPP_INFO_EXPRESSION(l, e, ...) ((e) ? RCLCPP_INFO(l, __VA_ARGS__) : (void)0)
#define RCLCPP_WARN_EXPRESSION(l, e, ...) ((e) ? RCLCPP_WARN(l, __VA_ARGS__) : (void)0)
#define RCLCPP_ERROR_EXPRESSION(l, e, ...) ((e) ? RCLCPP_ERROR(l, __VA_ARGS__) : (void)0)
#define RCLCPP_ERROR_STREAM(l, ...) ((void)vh::g_errors++, (void)(vh::NullStream() << __VA_ARGS__))
#define RCLCPP_FATAL_STREAM(l, ...) ((void)vh::g_errors++, (void)(vh::NullStream() << __VA_ARGS__))
#define RCLCPP_WARN_STREAM_THROTTLE(l, c, d, ...) RCLCPP_WARN_STREAM(l, __VA_ARGS__)
#define RCLCPP_ERROR_STREAM_THROTTLE(l, c, d, ...) RCLCPP_ERROR_STREAM(l, __VA_ARGS__)
#define RCLCPP_INFO_STREAM_THROTTLE(l, c, d, ...) RCLCPP_INFO_STREAM(l, __VA_ARGS__)
namespace vh { struct NullStream { template<typename T> NullStream & operator<<(const T &) { return *this; } }; }
#define RCLCPP_INFO_STREAM(l, ...) ((void)vh::g_infos++, (void)(vh::NullStream() << __VA_ARGS__))
#define RCLCPP_WARN_STREAM(l, ...) ((void)vh::g_warns++, (void)(vh::NullStream() << __VA_ARGS__))
#define RCLCPP_COMPONENTS_REGISTER_NODE(X)

namespace vh {   // what nodes created so far publish to and listen to
template<typename T> inline std::vector<T> & published(const std::string & topic) {
  for (auto & p : rclcpp::vh_detail::registry<rclcpp::Publisher<T>>()) if (p->topic == topic) return p->sent;
  throw std::logic_error("nothing publishes to " + topic); }
template<typename T> inline void deliver(const std::string & topic, const T & m) {
  bool any = false;
  for (auto & s : rclcpp::vh_detail::registry<rclcpp::Subscription<T>>()) if (s->topic == topic) { any = true; s->cb(std::make_shared<const T>(m)); }
  if (!any) throw std::logic_error("nothing listens to " + topic); }
}
// ------------------------------------------------------------ tf2 (LinearMath as in tf2)
namespace tf2 {
class Quaternion {
public:
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) : v{x, y, z, w} {}
  void setRPY(const double & roll, const double & pitch, const double & yaw) {
    double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    v[0] = sr * cp * cy - cr * sp * sy; v[1] = cr * sp * cy + sr * cp * sy; v[2] = cr * cp * sy - sr * sp * cy; v[3] = cr * cp * cy + sr * sp * sy;
  }
  double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; } double w() const { return v[3]; }
  double length2() const { return v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3]; } double length() const { return std::sqrt(length2()); }
  Quaternion & normalize() { const double n = length(); for (double & c : v) c /= n; return *this; } Quaternion normalized() const { Quaternion q = *this; return q.normalize(); } Quaternion inverse() const { return Quaternion(-v[0], -v[1], -v[2], v[3]); }
  Quaternion operator*(const Quaternion & b) const {
    return Quaternion(w() * b.x() + x() * b.w() + y() * b.z() - z() * b.y(), w() * b.y() + y() * b.w() + z() * b.x() - x() * b.z(), w() * b.z() + z() * b.w() + x() * b.y() - y() * b.x(), w() * b.w() - x() * b.x() - y() * b.y() - z() * b.z()); }
  double getX() const { return v[0]; } double getY() const { return v[1]; } double getZ() const { return v[2]; } double getW() const { return v[3]; }
private:
  double v[4] = {0., 0., 0., 1.};
};
inline void fromMsg(const geometry_msgs::msg::Quaternion & in, Quaternion & out) { out = Quaternion(in.x, in.y, in.z, in.w); }
inline void convert(const geometry_msgs::msg::Quaternion & in, Quaternion & out) { fromMsg(in, out); }
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & in) { geometry_msgs::msg::Quaternion q; q.x = in.x(); q.y = in.y(); q.z = in.z(); q.w = in.w(); return q; }
class Matrix3x3 {
public:
  explicit Matrix3x3(const Quaternion & q) {
    double d = q.x() * q.x() + q.y() * q.y() + q.z() * q.z() + q.w() * q.w(), s = 2.0 / d;
    double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s, wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    double xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    m[0][0] = 1.0 - (yy + zz); m[0][1] = xy - wz; m[0][2] = xz + wy; m[1][0] = xy + wz; m[1][1] = 1.0 - (xx + zz); m[1][2] = yz - wx;
    m[2][0] = xz - wy; m[2][1] = yz + wx; m[2][2] = 1.0 - (xx + yy);
  }
  void getRPY(double & roll, double & pitch, double & yaw) const {
    if (std::fabs(m[2][0]) >= 1) {
      yaw = 0; double delta = std::atan2(m[2][1], m[2][2]);
      if (m[2][0] < 0) { pitch = M_PI / 2.0; roll = delta; } else { pitch = -M_PI / 2.0; roll = delta; }
    } else {
      pitch = -std::asin(m[2][0]); double c = std::cos(pitch);
      roll = std::atan2(m[2][1] / c, m[2][2] / c); yaw = std::atan2(m[1][0] / c, m[0][0] / c);
    }
  }
  void getEulerYPR(double & yaw, double & pitch, double & roll) const { getRPY(roll, pitch, yaw); }
private:
  double m[3][3];
};
inline double getYaw(const Quaternion & q) {
  double sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z(), sqw = q.w() * q.w();
  double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) return -2 * std::atan2(q.y(), q.x());
  if (sarg >= 0.99999) return 2 * std::atan2(q.y(), q.x());
  return std::atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
}
inline double getYaw(const geometry_msgs::msg::Quaternion & m) { Quaternion q; fromMsg(m, q); return getYaw(q); }
// ------------------------------------------------------------------ tf2_eigen
inline void fromMsg(const geometry_msgs::msg::Point & m, Eigen::Vector3d & o) { o << m.x, m.y, m.z; }
inline void fromMsg(const geometry_msgs::msg::Pose & m, Eigen::Isometry3d & o) {
  o = Eigen::Isometry3d(Eigen::Translation3d(m.position.x, m.position.y, m.position.z) *
    Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z)); }
inline geometry_msgs::msg::Point toMsg(const Eigen::Vector3d & in) { geometry_msgs::msg::Point m; m.x = in.x(); m.y = in.y(); m.z = in.z(); return m; }
inline geometry_msgs::msg::Quaternion toMsg(const Eigen::Quaterniond & in) { geometry_msgs::msg::Quaternion m; m.w = in.w(); m.x = in.x(); m.y = in.y(); m.z = in.z(); return m; }
inline geometry_msgs::msg::Pose toMsg(const Eigen::Isometry3d & in) {
  geometry_msgs::msg::Pose m; m.position.x = in.translation().x(); m.position.y = in.translation().y(); m.position.z = in.translation().z();
  Eigen::Quaterniond q(in.linear()); m.orientation.x = q.x(); m.orientation.y = q.y(); m.orientation.z = q.z(); m.orientation.w = q.w();
  if (m.orientation.w < 0) { m.orientation.x *= -1; m.orientation.y *= -1; m.orientation.z *= -1; m.orientation.w *= -1; }
  return m;
}
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & T) {
  geometry_msgs::msg::TransformStamped t; t.transform.translation.x = T.translation().x(); t.transform.translation.y = T.translation().y(); t.transform.translation.z = T.translation().z();
  Eigen::Quaterniond q(T.linear()); t.transform.rotation.x = q.x(); t.transform.rotation.y = q.y(); t.transform.rotation.z = q.z(); t.transform.rotation.w = q.w();
  return t;
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::Transform & t) {
  return Eigen::Isometry3d(Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) * Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z)); }
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::TransformStamped & t) { return transformToEigen(t.transform); }
struct TransformException : std::runtime_error { explicit TransformException(const std::string & s) : std::runtime_error(s) {} };
struct LookupException : TransformException { using TransformException::TransformException; };
struct ConnectivityException : TransformException { using TransformException::TransformException; };
struct ExtrapolationException : TransformException { using TransformException::TransformException; };
struct InvalidArgumentException : TransformException { using TransformException::TransformException; };
struct TimeoutException : TransformException { using TransformException::TransformException; };
struct TimePoint {}; inline const TimePoint TimePointZero{}; using Duration = std::chrono::nanoseconds; inline Duration durationFromSec(double s) { return Duration(static_cast<int64_t>(s * 1e9)); }
class BufferCore {
public:
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source, const TimePoint &) const {
    vh::g_lookups++; vh::g_lookup_target = target; vh::g_lookup_source = source;
    if (!vh::g_lookup_available) throw LookupException("unavailable");
    if (vh::g_lookup_failures > 0) { vh::g_lookup_failures--; throw LookupException("not yet"); }
    return vh::g_lookup;
  }
  template<typename T> geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source, const TimePoint & t, const T &) const { return lookupTransform(target, source, t); }   // with a time to wait
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source, const rclcpp::Time &) const { return lookupTransform(target, source, TimePointZero); }
  template<typename T> geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source, const rclcpp::Time &, const T &) const { return lookupTransform(target, source, TimePointZero); }
};
}
namespace tf2_ros {
struct Buffer : tf2::BufferCore {};
struct TransformListener { template<typename... A> explicit TransformListener(A &&...) {} };
struct TransformBroadcaster {
  template<typename N> explicit TransformBroadcaster(N &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) { vh::g_tf.push_back(t); }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & t) { for (auto & x : t) vh::g_tf.push_back(x); }
};
struct StaticTransformBroadcaster {
  template<typename N> explicit StaticTransformBroadcaster(N &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) { vh::g_static_tf.push_back(t); }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & t) { for (auto & x : t) vh::g_static_tf.push_back(x); }
};
}
// -------------------------------------------------------- message_filters
namespace message_filters {
template<typename T> struct Subscriber { template<typename N, typename Q> Subscriber(N, const std::string & t, const Q & qos) : topic(t) { (void)qos; VH_NOTE("sub", t, T, qos) } std::string topic; };
namespace sync_policies { template<typename A, typename B> struct ExactTime { explicit ExactTime(int n) : n(n) {} int n; using M0 = A; using M1 = B; }; }
template<typename P> struct Synchronizer {
  template<typename A, typename B> Synchronizer(const P &, A & a, B & b) : topic0(a.topic), topic1(b.topic) { all().push_back(this); }
  std::string topic0, topic1; static std::vector<Synchronizer *> & all() { static std::vector<Synchronizer *> v; return v; }
  std::function<void(const std::shared_ptr<const typename P::M0> &, const std::shared_ptr<const typename P::M1> &)> cb;
  template<typename F> void registerCallback(F f) { cb = f; }
};
}
namespace vh { inline std::vector<std::string> g_missing; }   // files that do not exist
namespace rcpputils { namespace fs { inline bool exists(const std::string & p) { return std::find(vh::g_missing.begin(), vh::g_missing.end(), p) == vh::g_missing.end(); } } }
