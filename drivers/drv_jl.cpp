#include <ros/ros.h>
#include <joint_limits_interface/joint_limits.h>
#include <joint_limits_interface/joint_limits_interface.h>
#include <joint_limits_interface/joint_limits_interface_exception.h>
#include <joint_limits_interface/joint_limits_rosparam.h>
#include <joint_limits_interface/joint_limits_urdf.h>
using namespace joint_limits_interface;
template class joint_limits_interface::JointLimitsInterface<PositionJointSaturationHandle>;
template class joint_limits_interface::JointLimitsInterface<PositionJointSoftLimitsHandle>;
template class joint_limits_interface::JointLimitsInterface<EffortJointSaturationHandle>;
template class joint_limits_interface::JointLimitsInterface<EffortJointSoftLimitsHandle>;
template class joint_limits_interface::JointLimitsInterface<VelocityJointSaturationHandle>;
template class joint_limits_interface::JointLimitsInterface<VelocityJointSoftLimitsHandle>;
static void use(bool (*a)(const std::string&, const ros::NodeHandle&, JointLimits&), bool (*b)(urdf::JointConstSharedPtr, JointLimits&),
                bool (*c)(const std::string&, const ros::NodeHandle&, SoftJointLimits&), bool (*d)(urdf::JointConstSharedPtr, SoftJointLimits&)) {}
void drv_jl_anchor() { use(&getJointLimits, &getJointLimits, &getSoftJointLimits, &getSoftJointLimits); }
