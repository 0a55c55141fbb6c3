#pragma once
#include <string>
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <hardware_interface/actuator_state_interface.h>
namespace hardware_interface
{
class ActuatorHandle : public ActuatorStateHandle
{
public:
  ActuatorHandle() = default;
  ActuatorHandle(const ActuatorStateHandle& as, double* cmd)
    : ActuatorStateHandle(as), cmd_(cmd)
  {
    if (!cmd_)
    {
      throw HardwareInterfaceException("Cannot create handle '" + as.getName() + "'. Command data pointer is null.");
    }
  }
  void setCommand(double command) {assert(cmd_); *cmd_ = command;}
  double getCommand() const {assert(cmd_); return *cmd_;}
  double* getCommandPtr() {return cmd_;}
private:
  double* cmd_ = {nullptr};
};
class ActuatorCommandInterface : public HardwareResourceManager<ActuatorHandle> {};
class EffortActuatorInterface : public ActuatorCommandInterface {};
class VelocityActuatorInterface : public ActuatorCommandInterface {};
class PositionActuatorInterface : public ActuatorCommandInterface {};
}
