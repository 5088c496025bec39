// Analysis stand-in for the part of ROS the importers use.
#pragma once
#include <ros/duration.h>
