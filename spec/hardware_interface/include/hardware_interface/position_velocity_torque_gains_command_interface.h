#pragma once
#include <cassert>
#include <string>
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <hardware_interface/posvel_command_interface.h>
namespace hardware_interface
{
class PositionVelocityTorqueGainsJointHandle : public PosVelJointHandle
{
public:
  PositionVelocityTorqueGainsJointHandle() = default;
  PositionVelocityTorqueGainsJointHandle(const JointStateHandle& js, double* cmd_pos, double* cmd_vel, double* cmd_eff, double* cmd_kp, double* cmd_kd)
    : PosVelJointHandle(js, cmd_pos, cmd_vel), cmd_eff_(cmd_eff), cmd_kp_(cmd_kp), cmd_kd_(cmd_kd)
  {
    if (!cmd_eff)
    {
      throw HardwareInterfaceException("Cannot create handle '" + js.getName() + "'. Command effort data pointer is null.");
    }
    if (!cmd_kp)
    {
      throw HardwareInterfaceException("Cannot create handle '" + js.getName() + "'. Command position gain data pointer is null.");
    }
    if (!cmd_kd)
    {
      throw HardwareInterfaceException("Cannot create handle '" + js.getName() + "'. Command derivative gain data pointer is null.");
    }
  }
  void setCommand(double cmd_pos, double cmd_vel, double cmd_eff, double cmd_kp, double cmd_kd)
  {
    setCommandPosition(cmd_pos);
    setCommandVelocity(cmd_vel);
    setCommandEffort(cmd_eff);
    setCommandKp(cmd_kp);
    setCommandKd(cmd_kd);
  }
  void setCommandEffort(double cmd_eff) {assert(cmd_eff_); *cmd_eff_ = cmd_eff;}
  double getCommandEffort() const {assert(cmd_eff_); return *cmd_eff_;}
  void setCommandKp(double cmd_kp) {assert(cmd_kp_); *cmd_kp_ = cmd_kp;}
  double getCommandKp() const {assert(cmd_kp_); return *cmd_kp_;}
  void setCommandKd(double cmd_kd) {assert(cmd_kd_); *cmd_kd_ = cmd_kd;}
  double getCommandKd() const {assert(cmd_kd_); return *cmd_kd_;}
private:
  double* cmd_eff_ = {nullptr};
  double* cmd_kp_ = {nullptr};
  double* cmd_kd_ = {nullptr};
};
class PositionVelocityTorqueGainsJointInterface : public HardwareResourceManager<PositionVelocityTorqueGainsJointHandle, ClaimResources> {};
}
