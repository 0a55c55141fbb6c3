#include <ros/console.h>
#include <pluginlib/class_list_macros.hpp>
#include <hardware_interface/internal/demangle_symbol.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/simple_transmission_loader.h>
namespace transmission_interface
{
TransmissionSharedPtr SimpleTransmissionLoader::load(const TransmissionInfo& transmission_info)
{
  if (!checkActuatorDimension(transmission_info, 1)) {return TransmissionSharedPtr();}
  if (!checkJointDimension(transmission_info, 1)) {return TransmissionSharedPtr();}
  TiXmlElement actuator_el = loadXmlElement(transmission_info.actuators_.front().xml_element_);
  TiXmlElement joint_el = loadXmlElement(transmission_info.joints_.front().xml_element_);
  double reduction = 0.0;
  if(!getActuatorReduction(actuator_el,
                           transmission_info.actuators_.front().name_,
                           transmission_info.name_,
                           true,
                           reduction))
    {return TransmissionSharedPtr();}
  double joint_offset = 0.0;
  if(!getJointOffset(joint_el,
                 transmission_info.joints_.front().name_,
                 transmission_info.name_,
                 false,
                 joint_offset))
    {return TransmissionSharedPtr();}
  try
  {
    TransmissionSharedPtr transmission(new SimpleTransmission(reduction, joint_offset));
    return transmission;
  }
  catch(const TransmissionInterfaceException& ex)
  {
    using hardware_interface::internal::demangledTypeName;
    ROS_ERROR_STREAM_NAMED("parser", "Failed to construct transmission '" << transmission_info.name_ << "' of type '" <<
                           demangledTypeName<SimpleTransmission>()<< "'. " << ex.what());
    return TransmissionSharedPtr();
  }
}
}
PLUGINLIB_EXPORT_CLASS(transmission_interface::SimpleTransmissionLoader,
                       transmission_interface::TransmissionLoader)
