// Downsample with the point cloud library's own voxel grid, encoded along with it.
#include "common.hpp"
#include "lidar_feature_library/downsample.hpp"
#include <pcl/impl/pcl_base.hpp>
#include <pcl/filters/impl/filter.hpp>
#include <pcl/filters/impl/voxel_grid.hpp>
#include <pcl/common/impl/common.hpp>
using XYZ = pcl::PointXYZ; using CloudXYZ = pcl::PointCloud<XYZ>;
extern "C" void h_downsample() {
  static const float LEAF[3] = {1, 0.5f, 2}; const float leaf = LEAF[vchoose("leaf", TIER(2, 3))]; const int n = 1 + vchoose("n", TIER(2, 3)), axis = vchoose("axis", 3), place = vchoose("place", 4); static const float AT[4] = {0, 0, 256, -256}; const float at = AT[place];
  CloudXYZ::Ptr in(new CloudXYZ()); std::vector<float> v(n);
  for (int i = 0; i < n; i++) { XYZ p(0.25f, place == 1 && i == 1 ? 5.25f : 0.25f, -0.75f); v[i] = sym_float(vname("v", i).c_str()); vassume(vand(v[i] >= at - 2, v[i] <= at + 2)); const float y = p.y; if (axis == 0) p.x = v[i]; else if (axis == 1) { p.x = y; p.y = v[i]; } else p.z = v[i]; in->push_back(p); }
  const CloudXYZ before = *in; const auto out = Downsample<XYZ>(in, leaf);
  vassert((int)in->size() == n, "input-kept"); for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) vassert(in->at(i).data[k] == before[i].data[k], "input-kept");
  std::vector<std::array<int, 3>> cell(n); for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) { const double q = (double)before[i].data[k] / leaf; int c = (int)std::floor((k == axis ? at - 2 : -4) / leaf); while (vdecide(q >= c + 1)) c++; cell[i][k] = c; }
  std::vector<int> used; int groups = 0;
  for (int i = 0; i < n; i++) {
    bool first = true; for (int j = 0; j < i; j++) if (cell[j] == cell[i]) first = false; if (!first) continue; groups++;
    double s[3] = {0, 0, 0}; int m = 0; for (int j = 0; j < n; j++) if (cell[j] == cell[i]) { m++; for (int k = 0; k < 3; k++) s[k] += before[j].data[k]; }
    bool found = false; for (const auto & o : *out) { bool eq = true; for (int k = 0; k < 3; k++) eq = vand(eq, vand(o.data[k] * m - s[k] <= 1e-5, s[k] - o.data[k] * m <= 1e-5)); found = vor(found, eq); }
    vassert(found, "centroid-of-each-occupied-cube"); if (m > 1) vreach("merged"); }
  vassert((int)out->size() == groups, "one-point-per-occupied-cube"); if (groups > 1) vreach("apart"); vreach("end");
}
