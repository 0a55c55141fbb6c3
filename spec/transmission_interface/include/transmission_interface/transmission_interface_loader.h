#pragma once
#include <algorithm>
#include <limits>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include <memory>
#include <ros/console.h>
#include <pluginlib/class_loader.hpp>
#include <hardware_interface/actuator_state_interface.h>
#include <hardware_interface/actuator_command_interface.h>
#include <hardware_interface/internal/demangle_symbol.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/robot_hw.h>
#include <transmission_interface/robot_transmissions.h>
#include <transmission_interface/transmission.h>
#include <transmission_interface/transmission_interface.h>
#include <transmission_interface/transmission_info.h>
#include <transmission_interface/transmission_loader.h>
#include <transmission_interface/transmission_parser.h>
namespace transmission_interface
{
struct RawJointData
{
  double position = {std::numeric_limits<double>::quiet_NaN()};
  double velocity = {std::numeric_limits<double>::quiet_NaN()};
  double effort = {std::numeric_limits<double>::quiet_NaN()};
  double position_cmd = {std::numeric_limits<double>::quiet_NaN()};
  double velocity_cmd = {std::numeric_limits<double>::quiet_NaN()};
  double effort_cmd = {std::numeric_limits<double>::quiet_NaN()};
  double absolute_position = {std::numeric_limits<double>::quiet_NaN()};
  double torque_sensor = {std::numeric_limits<double>::quiet_NaN()};
  bool hasAbsolutePosition = {true};
  bool hasTorqueSensor = {true};
};
typedef std::map<std::string, RawJointData> RawJointDataMap;
struct JointInterfaces
{
  hardware_interface::JointStateInterface joint_state_interface;
  hardware_interface::PositionJointInterface position_joint_interface;
  hardware_interface::VelocityJointInterface velocity_joint_interface;
  hardware_interface::EffortJointInterface effort_joint_interface;
};
struct ForwardTransmissionInterfaces
{
  ActuatorToJointStateInterface act_to_jnt_state;
  JointToActuatorPositionInterface jnt_to_act_pos_cmd;
  JointToActuatorVelocityInterface jnt_to_act_vel_cmd;
  JointToActuatorEffortInterface jnt_to_act_eff_cmd;
};
struct InverseTransmissionInterfaces
{
  JointToActuatorStateInterface jnt_to_act_state;
  ActuatorToJointPositionInterface act_to_jnt_pos_cmd;
  ActuatorToJointVelocityInterface act_to_jnt_vel_cmd;
  ActuatorToJointEffortInterface act_to_jnt_eff_cmd;
};
struct TransmissionLoaderData
{
  hardware_interface::RobotHW* robot_hw = {nullptr};
  RobotTransmissions* robot_transmissions = {nullptr};
  JointInterfaces joint_interfaces;
  RawJointDataMap raw_joint_data_map;
  ForwardTransmissionInterfaces transmission_interfaces;
  InverseTransmissionInterfaces inverse_transmission_interfaces;
  std::vector<TransmissionSharedPtr> transmission_data;
};
class RequisiteProvider
{
public:
  virtual ~RequisiteProvider() = default;
  virtual bool updateJointInterfaces(const TransmissionInfo& transmission_info,
                                     hardware_interface::RobotHW* robot_hw,
                                     JointInterfaces& joint_interfaces,
                                     RawJointDataMap& raw_joint_data_map) = 0;
  bool loadTransmissionMaps(const TransmissionInfo& transmission_info,
                            TransmissionLoaderData& loader_data,
                            TransmissionSharedPtr transmission);
protected:
  struct TransmissionHandleData
  {
    std::string name;
    ActuatorData act_state_data;
    ActuatorData act_cmd_data;
    JointData jnt_state_data;
    JointData jnt_cmd_data;
    TransmissionSharedPtr transmission;
  };
  virtual bool getJointStateData(const TransmissionInfo& transmission_info,
                                 const RawJointDataMap& raw_joint_data_map,
                                 JointData& jnt_state_data) = 0;
  virtual bool getJointCommandData(const TransmissionInfo& transmission_info,
                                   const RawJointDataMap& raw_joint_data_map,
                                   JointData& jnt_cmd_data) = 0;
  virtual bool getActuatorStateData(const TransmissionInfo& transmission_info,
                                    hardware_interface::RobotHW* robot_hw,
                                    ActuatorData& act_state_data) = 0;
  virtual bool getActuatorCommandData(const TransmissionInfo& transmission_info,
                                      hardware_interface::RobotHW* robot_hw,
                                      ActuatorData& act_cmd_data) = 0;
  virtual bool registerTransmission(TransmissionLoaderData& loader_data,
                                    TransmissionHandleData& handle_data) = 0;
  template <class Interface>
  static bool hasResource(const std::string& name, const Interface& iface)
  {
    using hardware_interface::internal::demangledTypeName;
    const std::vector<std::string>& existing_resources = iface.getNames();
    if (existing_resources.end() != std::find(existing_resources.begin(), existing_resources.end(), name))
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Resource '" << name << "' already exists on interface '" <<
                             demangledTypeName<Interface>());
      return true;
    }
    else
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Resource '" << name << "' does not exist on interface '" <<
                             demangledTypeName<Interface>());
      return false;
    }
  }
  template <class HardwareInterface, class Handle>
  bool getActuatorHandles(const std::vector<ActuatorInfo>& actuators_info,
                          hardware_interface::RobotHW* robot_hw,
                          std::vector<Handle>& handles)
  {
    using hardware_interface::RobotHW;
    using hardware_interface::HardwareInterfaceException;
    using hardware_interface::internal::demangledTypeName;
    HardwareInterface* hw_iface = robot_hw->get<HardwareInterface>();
    if (!hw_iface)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Robot does not have the required hardware interface '" <<
                             demangledTypeName<HardwareInterface>() << "'.");
      return false;
    }
    for (const auto& info : actuators_info)
    {
      try
      {
        handles.push_back(hw_iface->getHandle(info.name_));
      }
      catch(const HardwareInterfaceException& ex)
      {
        ROS_ERROR_STREAM_NAMED("parser", "Actuator '" << info.name_ <<
                               "' does not expose the required hardware interface '" <<
                               demangledTypeName<HardwareInterface>() << "'.");
        return false;
      }
    }
    return true;
  }
};
class TransmissionInterfaceLoader
{
public:
  TransmissionInterfaceLoader(hardware_interface::RobotHW* robot_hw,
                              RobotTransmissions* robot_transmissions);
  bool load(const std::string& urdf);
  bool load(const std::vector<TransmissionInfo>& transmission_info_vec);
  bool load(const TransmissionInfo& transmission_info);
  TransmissionLoaderData* getData() {return &loader_data_;}
private:
  typedef pluginlib::ClassLoader<TransmissionLoader> TransmissionClassLoader;
  typedef std::shared_ptr<TransmissionClassLoader> TransmissionClassLoaderPtr;
  typedef pluginlib::ClassLoader<RequisiteProvider> RequisiteProviderClassLoader;
  typedef std::shared_ptr<RequisiteProviderClassLoader> RequisiteProviderClassLoaderPtr;
  typedef std::shared_ptr<RequisiteProvider> RequisiteProviderPtr;
  TransmissionClassLoaderPtr transmission_class_loader_;
  RequisiteProviderClassLoaderPtr req_provider_loader_;
private:
  hardware_interface::RobotHW* robot_hw_ptr_;
  RobotTransmissions* robot_transmissions_ptr_;
  TransmissionLoaderData loader_data_;
};
}
