// What a program of the repository listens and speaks to: its real main (or node) runs on the ROS stand-ins and the topics it opened are listed.
#include "ros_stub.hpp"
#include "pcl_ros_stub.hpp"
#include <cxxabi.h>
#include <cstdio>
#include <cstdlib>
#define main program_main
#if PROGRAM == 1
#include "extraction/app/feature_extraction.cpp"
#elif PROGRAM == 2
#include "localization/app/localization.cpp"
#elif PROGRAM == 3
#include "mapping/src/mapping.cpp"
#elif PROGRAM == 4
#include "ekf_localizer/src/ekf_localizer_node.cpp"
#elif PROGRAM == 5
#include "map_loader/src/map_loader.cpp"
static int program_main(int, char **) { MapLoaderNode node{rclcpp::NodeOptions()}; return 0; }
#elif PROGRAM == 6
#include "map_tf_generator/src/map_tf_generator_node.cpp"
static int program_main(int, char **) { MapTFGeneratorNode node{rclcpp::NodeOptions()}; return 0; }
#endif
#undef main
template<typename F> static auto call(F f, char ** argv) -> decltype(f(0, argv)) { return f(0, argv); }
int main(int argc, char ** argv)
{
  for (int i = 1; i + 2 < argc; i += 3) { if (argv[i][0] == 's') vh::set_param(argv[i + 1], static_cast<const char *>(argv[i + 2])); else vh::set_param(argv[i + 1], std::atof(argv[i + 2])); }
  char * none[1] = {nullptr}; const int r = call(program_main, none);
  for (const auto & e : vh::endpoints()) std::printf("%s\t%s\t%s\t%d\t%d\n", e.kind.c_str(), e.topic.c_str(), abi::__cxa_demangle(e.type.c_str(), nullptr, nullptr, nullptr), e.reliable, e.transient);
  for (const auto & d : vh::declared_types()) std::printf("param\t%s\t%s\n", d.first.c_str(), d.second.c_str());
  std::printf("exit\t%d\n", r); std::fflush(stdout); std::_Exit(0);
}
