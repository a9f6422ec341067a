#pragma once
#include "pcl_ros_stub.hpp"
