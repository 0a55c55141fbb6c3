#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/joint_mode_interface.h>
#include <hardware_interface/robot_hw.h>
#include <controller_interface/controller.h>
#include <controller_interface/controller_base.h>
#include <controller_interface/multi_interface_controller.h>
using namespace hardware_interface;
template class controller_interface::Controller<EffortJointInterface>;
template class controller_interface::MultiInterfaceController<EffortJointInterface, VelocityJointInterface>;
template class controller_interface::MultiInterfaceController<EffortJointInterface, VelocityJointInterface, PositionJointInterface, JointStateInterface>;
