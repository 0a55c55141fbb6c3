#include <ros/console.h>
#include <pluginlib/class_list_macros.hpp>
#include <hardware_interface/internal/demangle_symbol.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission_loader.h>
namespace transmission_interface
{
TransmissionSharedPtr
FourBarLinkageTransmissionLoader::load(const TransmissionInfo& transmission_info)
{
  if (!checkActuatorDimension(transmission_info, 2)) {return TransmissionSharedPtr();}
  if (!checkJointDimension(transmission_info, 2)) {return TransmissionSharedPtr();}
  std::vector<double> act_reduction;
  const bool act_config_ok = getActuatorConfig(transmission_info, act_reduction);
  if (!act_config_ok) {return TransmissionSharedPtr();}
  std::vector<double> jnt_reduction;
  std::vector<double> jnt_offset;
  const bool jnt_config_ok = getJointConfig(transmission_info,
                                            jnt_reduction,
                                            jnt_offset);
  if (!jnt_config_ok) {return TransmissionSharedPtr();}
  try
  {
    TransmissionSharedPtr transmission(new FourBarLinkageTransmission(act_reduction,
                                                                jnt_reduction,
                                                                jnt_offset));
    return transmission;
  }
  catch(const TransmissionInterfaceException& ex)
  {
    using hardware_interface::internal::demangledTypeName;
    ROS_ERROR_STREAM_NAMED("parser", "Failed to construct transmission '" << transmission_info.name_ << "' of type '" <<
                           demangledTypeName<FourBarLinkageTransmission>()<< "'. " << ex.what());
    return TransmissionSharedPtr();
  }
}
bool FourBarLinkageTransmissionLoader::getActuatorConfig(const TransmissionInfo& transmission_info,
                                                         std::vector<double>& actuator_reduction)
{
  const std::string ACTUATOR1_ROLE = "actuator1";
  const std::string ACTUATOR2_ROLE = "actuator2";
  std::vector<TiXmlElement> act_elements(2,"");
  std::vector<std::string> act_names(2);
  std::vector<std::string> act_roles(2);
  for (unsigned int i = 0; i < 2; ++i)
  {
    act_names[i] = transmission_info.actuators_[i].name_;
    act_elements[i] = loadXmlElement(transmission_info.actuators_[i].xml_element_);
    std::string& act_role = act_roles[i];
    if(!getActuatorRole(act_elements[i],
                        act_names[i],
                        transmission_info.name_,
                        true,
                        act_role))
    {return false;}
    if (ACTUATOR1_ROLE != act_role && ACTUATOR2_ROLE != act_role)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Actuator '" << act_names[i] << "' of transmission '" << transmission_info.name_ <<
                             "' does not specify a valid <role> element. Got '" << act_role << "', expected '" <<
                             ACTUATOR1_ROLE << "' or '" << ACTUATOR2_ROLE << "'.");
      return false;
    }
  }
  if (act_roles[0] == act_roles[1])
  {
    ROS_ERROR_STREAM_NAMED("parser", "Actuators '" << act_names[0] << "' and '" << act_names[1] <<
                           "' of transmission '" << transmission_info.name_ <<
                           "' must have different roles. Both specify '" << act_roles[0] << "'.");
    return false;
  }
  std::vector<unsigned int> id_map(2);
  if (ACTUATOR1_ROLE == act_roles[0])
  {
    id_map[0] = 0;
    id_map[1] = 1;
  }
  else
  {
    id_map[0] = 1;
    id_map[1] = 0;
  }
  actuator_reduction.resize(2);
  for (unsigned int i = 0; i < 2; ++i)
  {
    const unsigned int id = id_map[i];
    if(!getActuatorReduction(act_elements[id],
                             act_names[id],
                             transmission_info.name_,
                             true,
                             actuator_reduction[i]))
    {return false;}
  }
  return true;
}
bool FourBarLinkageTransmissionLoader::getJointConfig(const TransmissionInfo& transmission_info,
                                                      std::vector<double>& joint_reduction,
                                                      std::vector<double>& joint_offset)
{
  const std::string JOINT1_ROLE = "joint1";
  const std::string JOINT2_ROLE = "joint2";
  std::vector<TiXmlElement> jnt_elements(2,"");
  std::vector<std::string> jnt_names(2);
  std::vector<std::string> jnt_roles(2);
  for (unsigned int i = 0; i < 2; ++i)
  {
    jnt_names[i] = transmission_info.joints_[i].name_;
    jnt_elements[i] = loadXmlElement(transmission_info.joints_[i].xml_element_);
    std::string& jnt_role = jnt_roles[i];
    if(!getJointRole(jnt_elements[i],
                     jnt_names[i],
                     transmission_info.name_,
                     true,
                     jnt_role))
    {return false;}
    if (JOINT1_ROLE != jnt_role && JOINT2_ROLE != jnt_role)
    {
      ROS_ERROR_STREAM_NAMED("parser", "Joint '" << jnt_names[i] << "' of transmission '" << transmission_info.name_ <<
                             "' does not specify a valid <role> element. Got '" << jnt_role << "', expected '" <<
                             JOINT1_ROLE << "' or '" << JOINT2_ROLE << "'.");
      return false;
    }
  }
  if (jnt_roles[0] == jnt_roles[1])
  {
    ROS_ERROR_STREAM_NAMED("parser", "Joints '" << jnt_names[0] << "' and '" << jnt_names[1] <<
                           "' of transmission '" << transmission_info.name_ <<
                           "' must have different roles. Both specify '" << jnt_roles[0] << "'.");
    return false;
  }
  std::vector<unsigned int> id_map(2);
  if (JOINT1_ROLE == jnt_roles[0])
  {
    id_map[0] = 0;
    id_map[1] = 1;
  }
  else
  {
    id_map[0] = 1;
    id_map[1] = 0;
  }
  joint_reduction.resize(2, 1.0);
  joint_offset.resize(2, 0.0);
  for (unsigned int i = 0; i < 2; ++i)
  {
    const unsigned int id = id_map[i];
    if(!getJointReduction(jnt_elements[id],
                          jnt_names[id],
                          transmission_info.name_,
                          false,
                          joint_reduction[i]))
      {return false;}
    if(!getJointOffset(jnt_elements[id],
                       jnt_names[id],
                       transmission_info.name_,
                       false,
                       joint_offset[i]))
      {return false;}
  }
  return true;
}
}
PLUGINLIB_EXPORT_CLASS(transmission_interface::FourBarLinkageTransmissionLoader,
                       transmission_interface::TransmissionLoader)
