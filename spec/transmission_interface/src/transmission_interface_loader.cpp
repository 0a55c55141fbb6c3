#include <algorithm>
#include <cassert>
#include <stdexcept>
#include <transmission_interface/transmission_interface_loader.h>
namespace transmission_interface
{
bool RequisiteProvider::loadTransmissionMaps(const TransmissionInfo& transmission_info,
                                             TransmissionLoaderData& loader_data,
                                             TransmissionSharedPtr transmission)
{
  TransmissionHandleData handle_data;
  handle_data.name = transmission_info.name_;
  handle_data.transmission = transmission;
  const bool act_state_data_ok = getActuatorStateData(transmission_info,
                                                      loader_data.robot_hw,
                                                      handle_data.act_state_data);
  if (!act_state_data_ok) {return false;}
  const bool act_cmd_data_ok = getActuatorCommandData(transmission_info,
                                                      loader_data.robot_hw,
                                                      handle_data.act_cmd_data);
  if (!act_cmd_data_ok) {return false;}
  const bool jnt_data_ok = updateJointInterfaces(transmission_info,
                                                 loader_data.robot_hw,
                                                 loader_data.joint_interfaces,
                                                 loader_data.raw_joint_data_map);
  if (!jnt_data_ok) {return false;}
  const bool jnt_state_data_ok = getJointStateData(transmission_info,
                                                   loader_data.raw_joint_data_map,
                                                   handle_data.jnt_state_data);
  if (!jnt_state_data_ok) {return false;}
  const bool jnt_cmd_data_ok = getJointCommandData(transmission_info,
                                                   loader_data.raw_joint_data_map,
                                                   handle_data.jnt_cmd_data);
  if (!jnt_cmd_data_ok) {return false;}
  loader_data.transmission_data.push_back(transmission);
  return registerTransmission(loader_data, handle_data);
}
TransmissionInterfaceLoader::TransmissionInterfaceLoader(hardware_interface::RobotHW* robot_hw,
                                                         RobotTransmissions* robot_transmissions)
  : robot_hw_ptr_(robot_hw),
    robot_transmissions_ptr_(robot_transmissions)
{
  transmission_class_loader_.reset(new TransmissionClassLoader("transmission_interface",
                                                               "transmission_interface::TransmissionLoader"));
  req_provider_loader_.reset(new RequisiteProviderClassLoader("transmission_interface",
                                                              "transmission_interface::RequisiteProvider"));
  if (!robot_hw) {throw std::invalid_argument("Invalid robot hardware pointer.");}
  if (!robot_transmissions) {throw std::invalid_argument("Invalid robot transmissions pointer.");}
  loader_data_.robot_hw = robot_hw_ptr_;
  loader_data_.robot_transmissions = robot_transmissions_ptr_;
}
bool TransmissionInterfaceLoader::load(const std::string& urdf)
{
  TransmissionParser parser;
  std::vector<TransmissionInfo> infos;
  if (!parser.parse(urdf, infos)) {return false;}
  if (infos.empty())
  {
    ROS_ERROR_STREAM_NAMED("parser", "No transmissions were found in the robot description.");
    return false;
  }
  return load(infos);
}
bool TransmissionInterfaceLoader::load(const std::vector<TransmissionInfo>& transmission_info_vec)
{
  for (const auto& info : transmission_info_vec)
  {
    if (!load(info)) {return false;}
  }
  return true;
}
bool TransmissionInterfaceLoader::load(const TransmissionInfo& transmission_info)
{
  TransmissionSharedPtr transmission;
  try
  {
    TransmissionLoaderSharedPtr transmission_loader = transmission_class_loader_->createUniqueInstance(transmission_info.type_);
    transmission = transmission_loader->load(transmission_info);
    if (!transmission) {return false;}
  }
  catch(pluginlib::LibraryLoadException &ex)
  {
    ROS_ERROR_STREAM_NAMED("parser", "Failed to load transmission '" << transmission_info.name_ <<
                           "'. Unsupported type '" << transmission_info.type_ << "'.\n" << ex.what());
    return false;
  }
  assert(!transmission_info.joints_.empty() && !transmission_info.joints_.front().hardware_interfaces_.empty());
  const std::vector<std::string>& hw_ifaces_ref = transmission_info.joints_.front().hardware_interfaces_;
  for (const auto& jnt_info : transmission_info.joints_)
  {
    if (hw_ifaces_ref.size() != jnt_info.hardware_interfaces_.size() ||
        !std::is_permutation(hw_ifaces_ref.begin(), hw_ifaces_ref.end(),
                                  jnt_info.hardware_interfaces_.begin()))
    {
      ROS_ERROR_STREAM_NAMED("parser",
                             "Failed to load transmission '" << transmission_info.name_ <<
                             "'. It has joints with different hardware interfaces. This is currently unsupported.");
      return false;
    }
  }
  bool has_at_least_one_hw_iface = false;
  for (const auto& hw_iface : hw_ifaces_ref)
  {
    RequisiteProviderPtr req_provider;
    try
    {
      req_provider = req_provider_loader_->createUniqueInstance(hw_iface);
      if (!req_provider) {continue;}
    }
    catch(pluginlib::LibraryLoadException &ex)
    {
      ROS_WARN_STREAM_NAMED("parser", "Failed to process the '" << hw_iface <<
                             "' hardware interface for transmission '" << transmission_info.name_ <<
                             "'.\n" << ex.what());
      continue;
    }
    const bool load_ok = req_provider->loadTransmissionMaps(transmission_info, loader_data_, transmission);
    if (load_ok) {has_at_least_one_hw_iface = true;}
    else {continue;}
  }
  if (!has_at_least_one_hw_iface)
  {
    ROS_ERROR_STREAM_NAMED("parser", "Failed to load transmission '" << transmission_info.name_ <<
                           "'. It contains no valid hardware interfaces.");
    return false;
  }
  return true;
}
}
