#pragma once
#include <controller_interface/controller_base.h>
#include <controller_interface/internal/robothw_interfaces.h>
#include <hardware_interface/internal/demangle_symbol.h>
#include <hardware_interface/robot_hw.h>
#include <hardware_interface/hardware_interface.h>
#include <ros/ros.h>
namespace controller_interface
{
template <typename... T>
class MultiInterfaceController: public virtual ControllerBase
{
public:
  MultiInterfaceController(bool allow_optional_interfaces = false)
    : allow_optional_interfaces_(allow_optional_interfaces) {}
  virtual bool init(hardware_interface::RobotHW* ,
                    ros::NodeHandle& )
  {return true;}
  virtual bool init(hardware_interface::RobotHW* ,
                    ros::NodeHandle& ,
                    ros::NodeHandle& )
  {return true;}
protected:
  bool initRequest(hardware_interface::RobotHW* robot_hw,
                   ros::NodeHandle& root_nh,
                   ros::NodeHandle& controller_nh,
                   ClaimedResources& claimed_resources) override
  {
    if (state_ != ControllerState::CONSTRUCTED){
      ROS_ERROR("Cannot initialize this controller because it failed to be constructed");
      return false;
    }
    if (!allow_optional_interfaces_ && !hasRequiredInterfaces(robot_hw)) {return false;}
    hardware_interface::RobotHW* robot_hw_ctrl_p = &robot_hw_ctrl_;
    extractInterfaceResources(robot_hw, robot_hw_ctrl_p);
    clearClaims(robot_hw_ctrl_p);
    if (!init(robot_hw_ctrl_p, controller_nh) || !init(robot_hw_ctrl_p, root_nh, controller_nh))
    {
      ROS_ERROR("Failed to initialize the controller");
      return false;
    }
    claimed_resources.clear();
    populateClaimedResources(robot_hw_ctrl_p, claimed_resources);
    clearClaims(robot_hw_ctrl_p);
    state_ = ControllerState::INITIALIZED;
    return true;
  }
  static bool hasRequiredInterfaces(hardware_interface::RobotHW* robot_hw)
  {
    return internal::hasInterfaces<T...>(robot_hw);
  }
  static void clearClaims(hardware_interface::RobotHW* robot_hw)
  {
    internal::clearClaims<T...>(robot_hw);
  }
  static void extractInterfaceResources(hardware_interface::RobotHW* robot_hw_in,
                                        hardware_interface::RobotHW* robot_hw_out)
  {
    internal::extractInterfaceResources<T...>(robot_hw_in, robot_hw_out);
  }
  static void populateClaimedResources(hardware_interface::RobotHW* robot_hw,
                                       ClaimedResources& claimed_resources)
  {
    internal::populateClaimedResources<T...>(robot_hw, claimed_resources);
  }
  hardware_interface::RobotHW robot_hw_ctrl_;
  bool allow_optional_interfaces_;
};
}
