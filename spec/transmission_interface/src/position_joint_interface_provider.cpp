#include <pluginlib/class_list_macros.hpp>
#include <transmission_interface/position_joint_interface_provider.h>
namespace transmission_interface
{
bool PositionJointInterfaceProvider::updateJointInterfaces(const TransmissionInfo& transmission_info,
                                                           hardware_interface::RobotHW* robot_hw,
                                                           JointInterfaces& joint_interfaces,
                                                           RawJointDataMap& raw_joint_data_map)
{
  if (!JointStateInterfaceProvider::updateJointInterfaces(transmission_info,
                                                          robot_hw,
                                                          joint_interfaces,
                                                          raw_joint_data_map)) {return false;}
  using hardware_interface::PositionJointInterface;
  if (!robot_hw->get<PositionJointInterface>())
  {
    robot_hw->registerInterface(&joint_interfaces.position_joint_interface);
  }
  PositionJointInterface& interface = *(robot_hw->get<PositionJointInterface>());
  for (const auto& joint_info : transmission_info.joints_)
  {
    const std::string& name = joint_info.name_;
    if (hasResource(name, interface)) {continue;}
    using hardware_interface::JointHandle;
    RawJointData& raw_joint_data = raw_joint_data_map[name];
    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                       &raw_joint_data.position_cmd);
    interface.registerHandle(handle);
  }
  return true;
}
bool PositionJointInterfaceProvider::getJointCommandData(const TransmissionInfo& transmission_info,
                                                         const RawJointDataMap& raw_joint_data_map,
                                                         JointData& jnt_cmd_data)
{
  const unsigned int dim = transmission_info.joints_.size();
  jnt_cmd_data.position.resize(dim);
  for (unsigned int i = 0; i < dim; ++i)
  {
    const std::string& joint_name = transmission_info.joints_[i].name_;
    RawJointDataMap::const_iterator raw_joint_data_it = raw_joint_data_map.find(joint_name);
    if (raw_joint_data_it == raw_joint_data_map.end()) {return false;}
    const RawJointData& raw_joint_data = raw_joint_data_it->second;
    jnt_cmd_data.position[i] = const_cast<double*>(&(raw_joint_data.position_cmd));
  }
  return true;
}
bool PositionJointInterfaceProvider::getActuatorCommandData(const TransmissionInfo& transmission_info,
                                                            hardware_interface::RobotHW* robot_hw,
                                                            ActuatorData& act_cmd_data)
{
  using hardware_interface::PositionActuatorInterface;
  using hardware_interface::ActuatorHandle;
  std::vector<ActuatorHandle> handles;
  if (!this->getActuatorHandles<PositionActuatorInterface, ActuatorHandle>(transmission_info.actuators_,
                                                                           robot_hw,
                                                                           handles)) {return false;}
  const unsigned int dim = transmission_info.actuators_.size();
  act_cmd_data.position.resize(dim);
  for (unsigned int i = 0; i < dim; ++i)
  {
    act_cmd_data.position[i] = const_cast<double*>(handles[i].getCommandPtr());
  }
  return true;
}
bool PositionJointInterfaceProvider::registerTransmission(TransmissionLoaderData& loader_data,
                                                          TransmissionHandleData& handle_data)
{
  if (!hasResource(handle_data.name, loader_data.transmission_interfaces.act_to_jnt_state))
  {
    if (!JointStateInterfaceProvider::registerTransmission(loader_data, handle_data)) {return false;}
  }
  if (!loader_data.robot_transmissions->get<JointToActuatorPositionInterface>())
  {
    loader_data.robot_transmissions->registerInterface(&loader_data.transmission_interfaces.jnt_to_act_pos_cmd);
  }
  JointToActuatorPositionInterface& interface = *(loader_data.robot_transmissions->get<JointToActuatorPositionInterface>());
  JointToActuatorPositionHandle handle(handle_data.name,
                                       handle_data.transmission.get(),
                                       handle_data.act_cmd_data,
                                       handle_data.jnt_cmd_data);
  interface.registerHandle(handle);
  return true;
}
}
PLUGINLIB_EXPORT_CLASS(transmission_interface::PositionJointInterfaceProvider,
                       transmission_interface::RequisiteProvider)
