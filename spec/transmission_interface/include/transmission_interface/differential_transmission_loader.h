#pragma once
#include <tinyxml.h>
#include <transmission_interface/transmission_loader.h>
namespace transmission_interface
{
class DifferentialTransmissionLoader : public TransmissionLoader
{
public:
  TransmissionSharedPtr load(const TransmissionInfo& transmission_info) override;
private:
  static bool getActuatorConfig(const TransmissionInfo& transmission_info,
                                std::vector<double>& actuator_reduction);
  static bool getJointConfig(const TransmissionInfo& transmission_info,
                             std::vector<double>& joint_reduction,
                             std::vector<double>& joint_offset,
                             bool& ignore_transmission_for_absolute_encoders);
};
}
