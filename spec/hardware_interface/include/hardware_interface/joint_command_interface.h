#pragma once
#include <cassert>
#include <string>
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <hardware_interface/joint_state_interface.h>
namespace hardware_interface
{
class JointHandle : public JointStateHandle
{
public:
  JointHandle() = default;
  JointHandle(const JointStateHandle& js, double* cmd)
    : JointStateHandle(js), cmd_(cmd)
  {
    if (!cmd_)
    {
      throw HardwareInterfaceException("Cannot create handle '" + js.getName() + "'. Command data pointer is null.");
    }
  }
  void setCommand(double command) {assert(cmd_); *cmd_ = command;}
  double getCommand() const {assert(cmd_); return *cmd_;}
  const double* getCommandPtr() const {assert(cmd_); return cmd_;}
private:
  double* cmd_ = {nullptr};
};
class JointCommandInterface : public HardwareResourceManager<JointHandle, ClaimResources> {};
class EffortJointInterface : public JointCommandInterface {};
class VelocityJointInterface : public JointCommandInterface {};
class PositionJointInterface : public JointCommandInterface {};
}
