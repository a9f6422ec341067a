#pragma once
#include <map>
#include "ros_stub.hpp"
#include <pcl/point_cloud.h>
#include <pcl/PCLPointCloud2.h>
#include <pcl/conversions.h>
namespace pcl_conversions {
inline void fromPCL(const std::uint64_t & s, builtin_interfaces::msg::Time & t) { t.ns = static_cast<double>(s) * 1000.; }
inline void toPCL(const sensor_msgs::msg::PointCloud2 & m, pcl::PCLPointCloud2 & p) {
  p.header.frame_id = m.header.frame_id; p.height = m.height; p.width = m.width; p.is_bigendian = m.is_bigendian; p.point_step = m.point_step; p.row_step = m.row_step;
  p.is_dense = m.is_dense; p.data = m.data; p.fields.clear();
  for (auto & f : m.fields) { pcl::PCLPointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; p.fields.push_back(g); }
}
inline void fromPCL(const pcl::PCLPointCloud2 & p, sensor_msgs::msg::PointCloud2 & m) {
  m.header = std_msgs::msg::Header(); m.header.frame_id = p.header.frame_id; m.height = p.height; m.width = p.width; m.is_bigendian = p.is_bigendian; m.point_step = p.point_step; m.row_step = p.row_step;
  m.is_dense = p.is_dense; m.data = p.data; m.fields.clear();
  for (auto & f : p.fields) { sensor_msgs::msg::PointField g; g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count; m.fields.push_back(g); }
}
}
namespace pcl {
template<typename T> void toROSMsg(const pcl::PointCloud<T> & c, sensor_msgs::msg::PointCloud2 & m) { pcl::PCLPointCloud2 p; pcl::toPCLPointCloud2(c, p); pcl_conversions::fromPCL(p, m); }
template<typename T> void fromROSMsg(const sensor_msgs::msg::PointCloud2 & m, pcl::PointCloud<T> & c) { pcl::PCLPointCloud2 p; pcl_conversions::toPCL(m, p); pcl::fromPCLPointCloud2(p, c); }
}
// point-cloud files: recorded and supplied by the harness
namespace vh {
struct Saved { std::string path; std::size_t n; };
inline std::vector<Saved> g_saved;
inline std::vector<std::string> g_loaded;
template<typename T> inline pcl::PointCloud<T> & saved_cloud() { static pcl::PointCloud<T> c; return c; }
template<typename T> inline pcl::PointCloud<T> & file_cloud() { static pcl::PointCloud<T> c; return c; }
template<typename T> inline std::map<std::string, pcl::PointCloud<T>> & files() { static std::map<std::string, pcl::PointCloud<T>> f; return f; }   // clouds of particular files
inline sensor_msgs::msg::PointCloud2 & file_msg() { static sensor_msgs::msg::PointCloud2 m; return m; }
}
namespace pcl { namespace io {
template<typename T> int save(const std::string & p, const pcl::PointCloud<T> & c) { vh::g_saved.push_back({p, c.size()}); vh::saved_cloud<T>() = c; return 0; }
template<typename T> int savePCDFile(const std::string & p, const pcl::PointCloud<T> & c, bool = false) { return save(p, c); }
template<typename T> int savePCDFileBinary(const std::string & p, const pcl::PointCloud<T> & c) { return save(p, c); }
template<typename T> int savePCDFileASCII(const std::string & p, const pcl::PointCloud<T> & c) { return save(p, c); }
template<typename T> int loadPCDFile(const std::string & p, pcl::PointCloud<T> & c) { vh::g_loaded.push_back(p); const auto & f = vh::files<T>(); c = f.count(p) ? f.at(p) : vh::file_cloud<T>(); return 0; }
inline int loadPCDFile(const std::string & p, sensor_msgs::msg::PointCloud2 & c) { vh::g_loaded.push_back(p); c = vh::file_msg(); return 0; }
}}
