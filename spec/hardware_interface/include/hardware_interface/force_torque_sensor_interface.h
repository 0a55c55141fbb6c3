#pragma once
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <string>
namespace hardware_interface
{
class ForceTorqueSensorHandle
{
public:
  ForceTorqueSensorHandle() = default;
  ForceTorqueSensorHandle(const std::string& name,
                          const std::string& frame_id,
                          const double* force,
                          const double* torque)
    : name_(name),
      frame_id_(frame_id),
      force_(force),
      torque_(torque)
  {}
  std::string getName() const {return name_;}
  std::string getFrameId() const {return frame_id_;}
  const double* getForce() const {return force_;}
  const double* getTorque() const {return torque_;}
private:
  std::string name_;
  std::string frame_id_;
  const double* force_ = {nullptr};
  const double* torque_ = {nullptr};
};
class ForceTorqueSensorInterface : public HardwareResourceManager<ForceTorqueSensorHandle> {};
}
