#include <pluginlib/class_list_macros.hpp>
#include <transmission_interface/bidirectional_effort_joint_interface_provider.h>
namespace transmission_interface
{
bool BiDirectionalEffortJointInterfaceProvider::registerTransmission(TransmissionLoaderData &loader_data,
                                                                     TransmissionHandleData &handle_data)
{
  if(!EffortJointInterfaceProvider::registerTransmission(loader_data, handle_data))
  {
    return false;
  }
  if(!hasResource(handle_data.name, loader_data.inverse_transmission_interfaces.jnt_to_act_state))
  {
    if(!loader_data.robot_transmissions->get<JointToActuatorStateInterface>())
    {
      loader_data.robot_transmissions->registerInterface(&loader_data.inverse_transmission_interfaces.jnt_to_act_state);
    }
    JointToActuatorStateInterface &interface = *(loader_data.robot_transmissions->get<JointToActuatorStateInterface>());
    JointToActuatorStateHandle handle(handle_data.name,
                                      handle_data.transmission.get(),
                                      handle_data.act_state_data,
                                      handle_data.jnt_state_data);
    interface.registerHandle(handle);
  }
  if(!loader_data.robot_transmissions->get<ActuatorToJointEffortInterface>())
  {
    loader_data.robot_transmissions->registerInterface(&loader_data.inverse_transmission_interfaces.act_to_jnt_eff_cmd);
  }
  ActuatorToJointEffortInterface &interface = *(loader_data.robot_transmissions->get<ActuatorToJointEffortInterface>());
  ActuatorToJointEffortHandle handle(handle_data.name,
                                     handle_data.transmission.get(),
                                     handle_data.act_cmd_data,
                                     handle_data.jnt_cmd_data);
  interface.registerHandle(handle);
  return true;
}
}
PLUGINLIB_EXPORT_CLASS(transmission_interface::BiDirectionalEffortJointInterfaceProvider,
                       transmission_interface::RequisiteProvider)
