#pragma once
#include <transmission_interface/transmission_info.h>
#include <ros/ros.h>
#include <tinyxml.h>
namespace transmission_interface
{
class TransmissionParser
{
public:
  static bool parse(const std::string& urdf_string, std::vector<TransmissionInfo>& transmissions);
protected:
  static bool parseJoints(TiXmlElement *trans_it, std::vector<JointInfo>& joints);
  static bool parseActuators(TiXmlElement *trans_it, std::vector<ActuatorInfo>& actuators);
};
}
