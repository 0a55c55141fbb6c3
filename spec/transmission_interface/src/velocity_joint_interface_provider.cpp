#include <pluginlib/class_list_macros.hpp>
#include <transmission_interface/velocity_joint_interface_provider.h>
namespace transmission_interface
{
bool VelocityJointInterfaceProvider::updateJointInterfaces(const TransmissionInfo& transmission_info,
                                                           hardware_interface::RobotHW* robot_hw,
                                                           JointInterfaces& joint_interfaces,
                                                           RawJointDataMap& raw_joint_data_map)
{
  if (!JointStateInterfaceProvider::updateJointInterfaces(transmission_info,
                                                          robot_hw,
                                                          joint_interfaces,
                                                          raw_joint_data_map)) {return false;}
  using hardware_interface::VelocityJointInterface;
  if (!robot_hw->get<VelocityJointInterface>())
  {
    robot_hw->registerInterface(&joint_interfaces.velocity_joint_interface);
  }
  VelocityJointInterface& interface = *(robot_hw->get<VelocityJointInterface>());
  for (const auto& joint_info : transmission_info.joints_)
  {
    const std::string& name = joint_info.name_;
    if (hasResource(name, interface)) {continue;}
    using hardware_interface::JointHandle;
    RawJointData& raw_joint_data = raw_joint_data_map[name];
    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                       &raw_joint_data.velocity_cmd);
    interface.registerHandle(handle);
  }
  return true;
}
bool VelocityJointInterfaceProvider::getJointCommandData(const TransmissionInfo& transmission_info,
                                                         const RawJointDataMap& raw_joint_data_map,
                                                         JointData& jnt_cmd_data)
{
  const unsigned int dim = transmission_info.joints_.size();
  jnt_cmd_data.velocity.resize(dim);
  for (unsigned int i = 0; i < dim; ++i)
  {
    const std::string& joint_name = transmission_info.joints_[i].name_;
    RawJointDataMap::const_iterator raw_joint_data_it = raw_joint_data_map.find(joint_name);
    if (raw_joint_data_it == raw_joint_data_map.end()) {return false;}
    const RawJointData& raw_joint_data = raw_joint_data_it->second;
    jnt_cmd_data.velocity[i] = const_cast<double*>(&(raw_joint_data.velocity_cmd));
  }
  return true;
}
bool VelocityJointInterfaceProvider::getActuatorCommandData(const TransmissionInfo& transmission_info,
                                                            hardware_interface::RobotHW* robot_hw,
                                                            ActuatorData& act_cmd_data)
{
  using hardware_interface::VelocityActuatorInterface;
  using hardware_interface::ActuatorHandle;
  std::vector<ActuatorHandle> handles;
  if (!this->getActuatorHandles<VelocityActuatorInterface, ActuatorHandle>(transmission_info.actuators_,
                                                                           robot_hw,
                                                                           handles)) {return false;}
  const unsigned int dim = transmission_info.actuators_.size();
  act_cmd_data.velocity.resize(dim);
  for (unsigned int i = 0; i < dim; ++i)
  {
    act_cmd_data.velocity[i] = const_cast<double*>(handles[i].getCommandPtr());
  }
  return true;
}
bool VelocityJointInterfaceProvider::registerTransmission(TransmissionLoaderData& loader_data,
                                                          TransmissionHandleData& handle_data)
{
  if (!hasResource(handle_data.name, loader_data.transmission_interfaces.act_to_jnt_state))
  {
    if (!JointStateInterfaceProvider::registerTransmission(loader_data, handle_data)) {return false;}
  }
  if (!loader_data.robot_transmissions->get<JointToActuatorVelocityInterface>())
  {
    loader_data.robot_transmissions->registerInterface(&loader_data.transmission_interfaces.jnt_to_act_vel_cmd);
  }
  JointToActuatorVelocityInterface& interface = *(loader_data.robot_transmissions->get<JointToActuatorVelocityInterface>());
  JointToActuatorVelocityHandle handle(handle_data.name,
                                       handle_data.transmission.get(),
                                       handle_data.act_cmd_data,
                                       handle_data.jnt_cmd_data);
  interface.registerHandle(handle);
  return true;
}
}
PLUGINLIB_EXPORT_CLASS(transmission_interface::VelocityJointInterfaceProvider,
                       transmission_interface::RequisiteProvider)
