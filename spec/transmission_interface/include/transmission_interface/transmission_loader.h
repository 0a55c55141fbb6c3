#pragma once
#include <algorithm>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <memory>
#include <tinyxml.h>
#include <hardware_interface/actuator_command_interface.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/robot_hw.h>
#include <transmission_interface/robot_transmissions.h>
#include <transmission_interface/transmission_info.h>
#include <transmission_interface/transmission.h>
namespace transmission_interface
{
class TransmissionLoader
{
public:
  virtual ~TransmissionLoader() = default;
  virtual TransmissionSharedPtr load(const TransmissionInfo& transmission_info) = 0;
protected:
  static bool checkActuatorDimension(const TransmissionInfo& transmission_info, const unsigned int expected_dim)
  {
    const unsigned int dim = transmission_info.actuators_.size();
    if (expected_dim != dim)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Invalid description for transmission '" << transmission_info.name_ <<
                             "' of type '" << transmission_info.type_ <<
                             "'. Expected " << expected_dim << " actuators, got " << dim << ".");
      return false;
    }
    return true;
  }
  static bool checkJointDimension(const TransmissionInfo& transmission_info, const unsigned int expected_dim)
  {
    const unsigned int dim = transmission_info.joints_.size();
    if (expected_dim != dim)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Invalid description for transmission '" << transmission_info.name_ <<
                             "' of type '" << transmission_info.type_ <<
                             "'. Expected " << expected_dim << " joints, got " << dim << ".");
      return false;
    }
    return true;
  }
  static TiXmlElement loadXmlElement(const std::string& element_str)
  {
    TiXmlElement element("");
    std::stringstream element_stream;
    element_stream << element_str;
    element_stream >> element;
    return element;
  }
  static bool getActuatorReduction(const TiXmlElement& parent_el,
                                          const std::string& actuator_name,
                                          const std::string& transmission_name,
                                          bool required,
                                          double& reduction);
  static bool getJointReduction(const TiXmlElement& parent_el,
                                       const std::string& joint_name,
                                       const std::string& transmission_name,
                                       bool required,
                                       double& reduction);
  static bool getJointOffset(const TiXmlElement& parent_el,
                                    const std::string& joint_name,
                                    const std::string& transmission_name,
                                    bool required,
                                    double& offset);
  static bool getActuatorRole(const TiXmlElement& parent_el,
                                     const std::string& actuator_name,
                                     const std::string& transmission_name,
                                     bool required,
                                     std::string& role);
  static bool getJointRole(const TiXmlElement& parent_el,
                                  const std::string& joint_name,
                                  const std::string& transmission_name,
                                  bool required,
                                  std::string& role);
};
typedef std::shared_ptr<TransmissionLoader> TransmissionLoaderSharedPtr;
}
