#pragma once
#include "ros_stub.hpp"
