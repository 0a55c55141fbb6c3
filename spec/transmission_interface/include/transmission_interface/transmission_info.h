#pragma once
#include <vector>
#include <string>
#include <tinyxml.h>
namespace transmission_interface
{
struct JointInfo
{
  std::string name_;
  std::vector<std::string> hardware_interfaces_;
  std::string role_;
  std::string xml_element_;
};
struct ActuatorInfo
{
  std::string name_;
  std::vector<std::string> hardware_interfaces_;
  std::string xml_element_;
};
struct TransmissionInfo
{
  std::string name_;
  std::string type_;
  std::vector<JointInfo> joints_;
  std::vector<ActuatorInfo> actuators_;
};
}
