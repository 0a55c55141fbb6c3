#pragma once
#include <transmission_interface/transmission_info.h>
#include <transmission_interface/transmission_interface_loader.h>
#include <transmission_interface/joint_state_interface_provider.h>
namespace transmission_interface
{
class PositionJointInterfaceProvider : public JointStateInterfaceProvider
{
public:
  bool updateJointInterfaces(const TransmissionInfo& transmission_info,
                             hardware_interface::RobotHW* robot_hw,
                             JointInterfaces& joint_interfaces,
                             RawJointDataMap& raw_joint_data_map) override;
protected:
  bool getJointCommandData(const TransmissionInfo& transmission_info,
                           const RawJointDataMap& raw_joint_data_map,
                           JointData& jnt_cmd_data) override;
  bool getActuatorCommandData(const TransmissionInfo& transmission_info,
                              hardware_interface::RobotHW* robot_hw,
                              ActuatorData& act_cmd_data) override;
  bool registerTransmission(TransmissionLoaderData& loader_data,
                            TransmissionHandleData& handle_data) override;
};
}
