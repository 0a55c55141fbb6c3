#pragma once
#include <list>
#include <map>
#include <memory>
#include <typeinfo>
#include <hardware_interface/internal/demangle_symbol.h>
#include <hardware_interface/internal/interface_manager.h>
#include <hardware_interface/hardware_interface.h>
#include <hardware_interface/controller_info.h>
#include <ros/console.h>
#include <ros/node_handle.h>
namespace hardware_interface
{
class RobotHW : public InterfaceManager
{
public:
  virtual ~RobotHW() = default;
  virtual bool init(ros::NodeHandle& , ros::NodeHandle & ) {return true;}
  virtual bool checkForConflict(const std::list<ControllerInfo>& info) const
  {
    std::map<std::string, std::list<ControllerInfo>> resource_map;
    for (const auto& controller_info : info)
    {
      for (const auto& claimed_resource : controller_info.claimed_resources)
      {
        for (const auto& iface_resource : claimed_resource.resources)
        {
          resource_map[iface_resource].push_back(controller_info);
        }
      }
    }
    bool in_conflict = false;
    for (const auto& resource_name_and_claiming_controllers : resource_map)
    {
      if (resource_name_and_claiming_controllers.second.size() > 1)
      {
        std::string controller_list;
        for (const auto& controller : resource_name_and_claiming_controllers.second)
          controller_list += controller.name + ", ";
        ROS_WARN("Resource conflict on [%s].  Controllers = [%s]", resource_name_and_claiming_controllers.first.c_str(), controller_list.c_str());
        in_conflict = true;
      }
    }
    return in_conflict;
  }
  virtual bool prepareSwitch(const std::list<ControllerInfo>& ,
                             const std::list<ControllerInfo>& ) { return true; }
  virtual void doSwitch(const std::list<ControllerInfo>& ,
                        const std::list<ControllerInfo>& ) {}
  enum class SwitchState
  {
    DONE,
    ONGOING,
    ERROR
  };
  virtual SwitchState switchResult() const
  {
    return SwitchState::DONE;
  }
  virtual SwitchState switchResult(const ControllerInfo& ) const
  {
    return SwitchState::DONE;
  }
  virtual void read(const ros::Time& , const ros::Duration& ) {}
  virtual void write(const ros::Time& , const ros::Duration& ) {}
};
typedef std::shared_ptr<RobotHW> RobotHWSharedPtr;
}
