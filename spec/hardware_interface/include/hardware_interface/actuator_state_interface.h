#pragma once
#include <hardware_interface/internal/hardware_resource_manager.h>
#include <string>
namespace hardware_interface
{
class ActuatorStateHandle
{
public:
  ActuatorStateHandle() = default;
  ActuatorStateHandle(const std::string& name, const double* pos, const double* vel, const double* eff)
    : name_(name), pos_(pos), vel_(vel), eff_(eff)
  {
    if (!pos)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Position data pointer is null.");
    }
    if (!vel)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Velocity data pointer is null.");
    }
    if (!eff)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Effort data pointer is null.");
    }
  }
  ActuatorStateHandle(const std::string& name, const double* pos, const double* vel, const double* eff,
                      const double* absolute_pos, const double* torque_sensor)
    : name_(name), pos_(pos), vel_(vel), eff_(eff), absolute_pos_(absolute_pos), torque_sensor_(torque_sensor)
  {
    if (!pos)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Position data pointer is null.");
    }
    if (!vel)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Velocity data pointer is null.");
    }
    if (!eff)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Effort data pointer is null.");
    }
    if (!absolute_pos)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Absolute data pointer is null.");
    }
    if (!torque_sensor)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Torque sensor data pointer is null.");
    }
  }
  ActuatorStateHandle(const std::string& name, const double* pos, const double* vel, const double* eff,
                      const double* absolute_pos)
    : name_(name), pos_(pos), vel_(vel), eff_(eff), absolute_pos_(absolute_pos)
  {
    if (!pos)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Position data pointer is null.");
    }
    if (!vel)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Velocity data pointer is null.");
    }
    if (!eff)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Effort data pointer is null.");
    }
    if (!absolute_pos)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Absolute data pointer is null.");
    }
  }
  ActuatorStateHandle(const std::string& name, const double* pos, const double* vel, const double* eff,
                      const double* torque_sensor, bool)
    : name_(name), pos_(pos), vel_(vel), eff_(eff), torque_sensor_(torque_sensor)
  {
    if (!pos)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Position data pointer is null.");
    }
    if (!vel)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Velocity data pointer is null.");
    }
    if (!eff)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Effort data pointer is null.");
    }
    if (!torque_sensor)
    {
      throw HardwareInterfaceException("Cannot create handle '" + name + "'. Torque sensor data pointer is null.");
    }
  }
  std::string getName() const {return name_;}
  double getPosition() const {assert(pos_); return *pos_;}
  double getVelocity() const {assert(vel_); return *vel_;}
  double getEffort() const {assert(eff_); return *eff_;}
  double getAbsolutePosition() const
  {
    if(!hasAbsolutePosition())
    {
      throw std::runtime_error("Actuator does not support absolute encoders");
    }
    return *absolute_pos_;
  }
  double getTorqueSensor() const
  {
    if(!hasTorqueSensor())
    {
      throw std::runtime_error("Actuator does not support torque sensors");
    }
    return *torque_sensor_;
  }
  const double* getPositionPtr() const {return pos_;}
  const double* getVelocityPtr() const {return vel_;}
  const double* getEffortPtr() const {return eff_;}
  const double* getAbsolutePositionPtr() const
  {
    if(!hasAbsolutePosition())
    {
      throw std::runtime_error("Actuator does not support absolute encoders");
    }
    return absolute_pos_;
  }
  const double* getTorqueSensorPtr() const
  {
    if(!hasTorqueSensor())
    {
      throw std::runtime_error("Actuator does not support torque sensors");
    }
    return torque_sensor_;
  }
  bool hasAbsolutePosition() const {return absolute_pos_;}
  bool hasTorqueSensor() const {return torque_sensor_;}
private:
  std::string name_;
  const double* pos_ = {nullptr};
  const double* vel_ = {nullptr};
  const double* eff_ = {nullptr};
  const double* absolute_pos_ = {nullptr};
  const double* torque_sensor_ = {nullptr};
};
class ActuatorStateInterface : public HardwareResourceManager<ActuatorStateHandle> {};
}
