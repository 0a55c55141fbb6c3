#include <sstream>
#include <transmission_interface/transmission_parser.h>
namespace transmission_interface
{
bool TransmissionParser::parse(const std::string& urdf, std::vector<TransmissionInfo>& transmissions)
{
  TiXmlDocument doc;
  if (!doc.Parse(urdf.c_str()) && doc.Error())
  {
    ROS_ERROR("Can't parse transmissions. Invalid robot description.");
    return false;
  }
  TiXmlElement *root = doc.RootElement();
  if (!root)
  {
    ROS_ERROR("Can't parse transmissions. Robot description has no root element.");
    return false;
  }
  TiXmlElement *trans_it = nullptr;
  for (trans_it = root->FirstChildElement("transmission"); trans_it;
       trans_it = trans_it->NextSiblingElement("transmission"))
  {
    transmission_interface::TransmissionInfo transmission;
    if(trans_it->Attribute("name"))
    {
      transmission.name_ = trans_it->Attribute("name");
      if (transmission.name_.empty())
      {
        ROS_ERROR_STREAM_NAMED("parser","Empty name attribute specified for transmission.");
        continue;
      }
    }
    else
    {
      ROS_ERROR_STREAM_NAMED("parser","No name attribute specified for transmission.");
      continue;
    }
    TiXmlElement *type_child = trans_it->FirstChildElement("type");
    if(!type_child)
    {
      ROS_ERROR_STREAM_NAMED("parser","No type element found in transmission '"
        << transmission.name_ << "'.");
      continue;
    }
    if (!type_child->GetText())
    {
      ROS_ERROR_STREAM_NAMED("parser","Skipping empty type element in transmission '"
                             << transmission.name_ << "'.");
      continue;
    }
    transmission.type_ = type_child->GetText();
    if(!parseJoints(trans_it, transmission.joints_))
    {
      ROS_ERROR_STREAM_NAMED("parser","Failed to load joints for transmission '"
        << transmission.name_ << "'.");
      continue;
    }
    if(!parseActuators(trans_it, transmission.actuators_))
    {
      ROS_ERROR_STREAM_NAMED("parser","Failed to load actuators for transmission '"
        << transmission.name_ << "'.");
      continue;
    }
    transmissions.push_back(transmission);
  }
  if( transmissions.empty() )
  {
    ROS_DEBUG_STREAM_NAMED("parser", "No valid transmissions found.");
  }
  return true;
}
bool TransmissionParser::parseJoints(TiXmlElement *trans_it, std::vector<JointInfo>& joints)
{
  TiXmlElement *joint_it = nullptr;
  for (joint_it = trans_it->FirstChildElement("joint"); joint_it;
       joint_it = joint_it->NextSiblingElement("joint"))
  {
    transmission_interface::JointInfo joint;
    if(joint_it->Attribute("name"))
    {
      joint.name_ = joint_it->Attribute("name");
      if (joint.name_.empty())
      {
        ROS_ERROR_STREAM_NAMED("parser","Empty name attribute specified for joint.");
        continue;
      }
    }
    else
    {
      ROS_ERROR_STREAM_NAMED("parser","No name attribute specified for joint.");
      return false;
    }
    TiXmlElement *role_it = joint_it->FirstChildElement("role");
    if(role_it)
    {
      joint.role_ = role_it->GetText() ? role_it->GetText() : std::string();
    }
    TiXmlElement *hw_iface_it = nullptr;
    for (hw_iface_it = joint_it->FirstChildElement("hardwareInterface"); hw_iface_it;
         hw_iface_it = hw_iface_it->NextSiblingElement("hardwareInterface"))
    {
      if(!hw_iface_it) {continue;}
      if (!hw_iface_it->GetText())
      {
        ROS_DEBUG_STREAM_NAMED("parser","Skipping empty hardware interface element in joint '"
                               << joint.name_ << "'.");
        continue;
      }
      const std::string hw_iface_name = hw_iface_it->GetText();
      joint.hardware_interfaces_.push_back(hw_iface_name);
    }
    if (joint.hardware_interfaces_.empty())
    {
      ROS_ERROR_STREAM_NAMED("parser","No valid hardware interface element found in joint '"
        << joint.name_ << "'.");
      continue;
    }
    std::stringstream ss;
    ss << *joint_it;
    joint.xml_element_ = ss.str();
    joints.push_back(joint);
  }
  if(joints.empty())
  {
    ROS_DEBUG_NAMED("parser","No valid joint element found.");
    return false;
  }
  return true;
}
bool TransmissionParser::parseActuators(TiXmlElement *trans_it, std::vector<ActuatorInfo>& actuators)
{
  TiXmlElement *actuator_it = nullptr;
  for (actuator_it = trans_it->FirstChildElement("actuator"); actuator_it;
       actuator_it = actuator_it->NextSiblingElement("actuator"))
  {
    transmission_interface::ActuatorInfo actuator;
    if(actuator_it->Attribute("name"))
    {
      actuator.name_ = actuator_it->Attribute("name");
      if (actuator.name_.empty())
      {
        ROS_ERROR_STREAM_NAMED("parser","Empty name attribute specified for actuator.");
        continue;
      }
    }
    else
    {
      ROS_ERROR_STREAM_NAMED("parser","No name attribute specified for actuator.");
      return false;
    }
    TiXmlElement *hw_iface_it = nullptr;
    for (hw_iface_it = actuator_it->FirstChildElement("hardwareInterface"); hw_iface_it;
         hw_iface_it = hw_iface_it->NextSiblingElement("hardwareInterface"))
    {
      if(!hw_iface_it) {continue;}
      if (!hw_iface_it->GetText())
      {
        ROS_DEBUG_STREAM_NAMED("parser","Skipping empty hardware interface element in actuator '"
                               << actuator.name_ << "'.");
        continue;
      }
      const std::string hw_iface_name = hw_iface_it->GetText();
      actuator.hardware_interfaces_.push_back(hw_iface_name);
    }
    if (actuator.hardware_interfaces_.empty())
    {
      ROS_DEBUG_STREAM_NAMED("parser","No valid hardware interface element found in actuator '"
        << actuator.name_ << "'.");
    }
    std::stringstream ss;
    ss << *actuator_it;
    actuator.xml_element_ = ss.str();
    actuators.push_back(actuator);
  }
  if(actuators.empty())
  {
    ROS_DEBUG_NAMED("parser","No valid actuator element found.");
    return false;
  }
  return true;
}
}
