#pragma once
#include <cstddef>
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
namespace transmission_interface
{
struct ActuatorData
{
  std::vector<double*> position;
  std::vector<double*> velocity;
  std::vector<double*> effort;
  std::vector<double*> absolute_position;
  std::vector<double*> torque_sensor;
};
struct JointData
{
  std::vector<double*> position;
  std::vector<double*> velocity;
  std::vector<double*> effort;
  std::vector<double*> absolute_position;
  std::vector<double*> torque_sensor;
};
class Transmission
{
public:
  virtual ~Transmission() = default;
  virtual void actuatorToJointEffort(const ActuatorData& act_data,
                                           JointData& jnt_data) = 0;
  virtual void actuatorToJointVelocity(const ActuatorData& act_data,
                                             JointData& jnt_data) = 0;
  virtual void actuatorToJointPosition(const ActuatorData& act_data,
                                             JointData& jnt_data) = 0;
  virtual void actuatorToJointAbsolutePosition(const ActuatorData&,
                                                     JointData&)
  {
    throw std::runtime_error("transmission does not support actuator to joint absolute position");
  }
  virtual void actuatorToJointTorqueSensor(const ActuatorData&,
                                                 JointData&)
  {
    throw std::runtime_error("transmission does not support actuator to joint torque sensor");
  }
  virtual bool hasActuatorToJointAbsolutePosition() const {return false;}
  virtual bool hasActuatorToJointTorqueSensor() const {return false;}
  virtual void jointToActuatorEffort(const JointData& jnt_data,
                                           ActuatorData& act_data) = 0;
  virtual void jointToActuatorVelocity(const JointData& jnt_data,
                                             ActuatorData& act_data) = 0;
  virtual void jointToActuatorPosition(const JointData& jnt_data,
                                             ActuatorData& act_data) = 0;
  virtual std::size_t numActuators() const = 0;
  virtual std::size_t numJoints() const = 0;
};
typedef std::shared_ptr<Transmission> TransmissionSharedPtr;
}
