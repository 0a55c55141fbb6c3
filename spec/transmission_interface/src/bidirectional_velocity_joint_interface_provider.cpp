#include <pluginlib/class_list_macros.hpp>
#include <transmission_interface/bidirectional_velocity_joint_interface_provider.h>
namespace transmission_interface
{
bool BiDirectionalVelocityJointInterfaceProvider::registerTransmission(TransmissionLoaderData &loader_data,
                                                                       TransmissionHandleData &handle_data)
{
  if(!VelocityJointInterfaceProvider::registerTransmission(loader_data,handle_data))
  {
    return false;
  }
  if(!hasResource(handle_data.name, loader_data.inverse_transmission_interfaces.jnt_to_act_state))
  {
    if(!loader_data.robot_transmissions->get<JointToActuatorStateInterface>())
    {
      loader_data.robot_transmissions->registerInterface(&loader_data.inverse_transmission_interfaces.jnt_to_act_state);
    }
    JointToActuatorStateInterface &interface = *(loader_data.robot_transmissions->get<JointToActuatorStateInterface>());
    JointToActuatorStateHandle handle(handle_data.name,
                                      handle_data.transmission.get(),
                                      handle_data.act_state_data,
                                      handle_data.jnt_state_data);
    interface.registerHandle(handle);
  }
  if(!loader_data.robot_transmissions->get<ActuatorToJointVelocityInterface>())
  {
    loader_data.robot_transmissions->registerInterface(&loader_data.inverse_transmission_interfaces.act_to_jnt_vel_cmd);
  }
  ActuatorToJointVelocityInterface &interface = *(loader_data.robot_transmissions->get<ActuatorToJointVelocityInterface>());
  ActuatorToJointVelocityHandle handle(handle_data.name,
                                       handle_data.transmission.get(),
                                       handle_data.act_cmd_data,
                                       handle_data.jnt_cmd_data);
  interface.registerHandle(handle);
  return true;
}
}
PLUGINLIB_EXPORT_CLASS(transmission_interface::BiDirectionalVelocityJointInterfaceProvider,
                       transmission_interface::RequisiteProvider)
