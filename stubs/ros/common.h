#pragma once
#define ROS_VERSION_COMBINED(a,b,c) (((a) << 20) | ((b) << 10) | (c))
#define ROS_VERSION ROS_VERSION_COMBINED(1, 16, 0)
#define ROS_VERSION_MINIMUM(a,b,c) (ROS_VERSION >= ROS_VERSION_COMBINED(a,b,c))
