#pragma once
#include <cassert>
#include <string>
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <hardware_interface/posvel_command_interface.h>
namespace hardware_interface
{
class PosVelAccJointHandle : public PosVelJointHandle
{
public:
  PosVelAccJointHandle() = default;
  PosVelAccJointHandle(const JointStateHandle& js, double* cmd_pos, double* cmd_vel, double* cmd_acc)
    : PosVelJointHandle(js, cmd_pos, cmd_vel), cmd_acc_(cmd_acc)
  {
    if (!cmd_acc)
    {
      throw HardwareInterfaceException("Cannot create handle '" + js.getName() + "'. Command acceleration data pointer is null.");
    }
  }
  void setCommand(double cmd_pos, double cmd_vel, double cmd_acc)
  {
    setCommandPosition(cmd_pos);
    setCommandVelocity(cmd_vel);
    setCommandAcceleration(cmd_acc);
  }
  void setCommandAcceleration(double cmd_acc) {assert(cmd_acc_); *cmd_acc_ = cmd_acc;}
  double getCommandAcceleration() const {assert(cmd_acc_); return *cmd_acc_;}
private:
  double* cmd_acc_ = {nullptr};
};
class PosVelAccJointInterface : public HardwareResourceManager<PosVelAccJointHandle, ClaimResources> {};
}
