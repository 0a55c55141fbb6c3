#pragma once
#include <cassert>
#include <string>
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <hardware_interface/joint_state_interface.h>
namespace hardware_interface
{
class PosVelJointHandle : public JointStateHandle
{
public:
  PosVelJointHandle() = default;
  PosVelJointHandle(const JointStateHandle& js, double* cmd_pos, double* cmd_vel)
    : JointStateHandle(js), cmd_pos_(cmd_pos), cmd_vel_(cmd_vel)
  {
    if (!cmd_pos)
    {
      throw HardwareInterfaceException("Cannot create handle '" + js.getName() + "'. Command position pointer is null.");
    }
    if (!cmd_vel)
    {
      throw HardwareInterfaceException("Cannot create handle '" + js.getName() + "'. Command velocity  pointer is null.");
    }
  }
  void setCommand(double cmd_pos, double cmd_vel)
  {
    setCommandPosition(cmd_pos);
    setCommandVelocity(cmd_vel);
  }
  void setCommandPosition(double cmd_pos) {assert(cmd_pos_); *cmd_pos_ = cmd_pos;}
  void setCommandVelocity(double cmd_vel) {assert(cmd_vel_); *cmd_vel_ = cmd_vel;}
  double getCommandPosition() const {assert(cmd_pos_); return *cmd_pos_;}
  double getCommandVelocity() const {assert(cmd_vel_); return *cmd_vel_;}
private:
  double* cmd_pos_ = {nullptr};
  double* cmd_vel_ = {nullptr};
};
class PosVelJointInterface : public HardwareResourceManager<PosVelJointHandle, ClaimResources> {};
}
