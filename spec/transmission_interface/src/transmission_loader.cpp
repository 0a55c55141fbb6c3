#include <transmission_interface/transmission_loader.h>
namespace transmission_interface
{
bool
TransmissionLoader::getActuatorReduction(const TiXmlElement& parent_el,
                                         const std::string& actuator_name,
                                         const std::string& transmission_name,
                                         bool required,
                                         double& reduction)
{
  const TiXmlElement* reduction_el = parent_el.FirstChildElement("mechanicalReduction");
  if(!reduction_el)
  {
    if (required)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Actuator '" << actuator_name << "' of transmission '" << transmission_name <<
                             "' does not specify the required <mechanicalReduction> element.");
      return false;
    }
    else
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Actuator '" << actuator_name << "' of transmission '" << transmission_name <<
                             "' does not specify the optional <mechanicalReduction> element.");
      return true;
    }
  }
  try {reduction = std::stod(reduction_el->GetText());}
  catch (const std::logic_error&)
  {
    ROS_ERROR_STREAM_NAMED("parser", "Actuator '" << actuator_name << "' of transmission '" << transmission_name <<
                           "' specifies the <mechanicalReduction> element, but is not a number.");
    return false;
  }
  return true;
}
bool
TransmissionLoader::getJointReduction(const TiXmlElement& parent_el,
                                      const std::string& joint_name,
                                      const std::string& transmission_name,
                                      bool required,
                                      double& reduction)
{
  const TiXmlElement* reduction_el = parent_el.FirstChildElement("mechanicalReduction");
  if(!reduction_el)
  {
    if (required)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' does not specify the required <mechanicalReduction> element.");
      return false;
    }
    else
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' does not specify the optional <mechanicalReduction> element.");
      return true;
    }
  }
  try {reduction = std::stod(reduction_el->GetText());}
  catch (const std::logic_error&)
  {
    ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                           "' specifies the <mechanicalReduction> element, but is not a number.");
    return false;
  }
  return true;
}
bool
TransmissionLoader::getJointOffset(const TiXmlElement& parent_el,
                                   const std::string& joint_name,
                                   const std::string& transmission_name,
                                   bool required,
                                   double& offset)
{
  const TiXmlElement* offset_el = parent_el.FirstChildElement("offset");
  if(!offset_el)
  {
    if (required)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' does not specify the required <offset> element.");
      return false;
    }
    else
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' does not specify the optional <offset> element.");
      return true;
    }
  }
  try {offset = std::stod(offset_el->GetText());}
  catch (const std::logic_error&)
  {
    ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                           "' specifies the <offset> element, but is not a number.");
    return false;
  }
  return true;
}
bool
TransmissionLoader::getActuatorRole(const TiXmlElement& parent_el,
                                    const std::string& actuator_name,
                                    const std::string& transmission_name,
                                    bool required,
                                    std::string& role)
{
  const TiXmlElement* role_el = parent_el.FirstChildElement("role");
  if(!role_el)
  {
    if (required)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Actuator '" << actuator_name << "' of transmission '" << transmission_name <<
                             "' does not specify the required <role> element.");
      return false;
    }
    else
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Actuator '" << actuator_name << "' of transmission '" << transmission_name <<
                             "' does not specify the optional <offset> element.");
      return true;
    }
  }
  if (!role_el->GetText())
  {
    if (required)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Actuator '" << actuator_name << "' of transmission '" << transmission_name <<
                             "' specifies an empty <role> element.");
      return false;
    }
    else
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Actuator '" << actuator_name << "' of transmission '" << transmission_name <<
                             "' specifies an empty <role> element.");
      return true;
    }
  }
  role = role_el->GetText();
  return true;
}
bool
TransmissionLoader::getJointRole(const TiXmlElement& parent_el,
                                 const std::string& joint_name,
                                 const std::string& transmission_name,
                                 bool required,
                                 std::string& role)
{
  const TiXmlElement* role_el = parent_el.FirstChildElement("role");
  if(!role_el)
  {
    if (required)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' does not specify the required <role> element.");
      return false;
    }
    else
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' does not specify the optional <offset> element.");
      return true;
    }
  }
  if (!role_el->GetText())
  {
    if (required)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' specifies an empty <role> element.");
      return false;
    }
    else
    {
      ROS_DEBUG_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
                             "' specifies an empty <role> element.");
      return true;
    }
  }
  role = role_el->GetText();
  return true;
}
}
