#pragma once
#include <transmission_interface/transmission_info.h>
#include <transmission_interface/transmission_interface_loader.h>
namespace transmission_interface
{
class JointStateInterfaceProvider : public RequisiteProvider
{
public:
  bool updateJointInterfaces(const TransmissionInfo& transmission_info,
                             hardware_interface::RobotHW* robot_hw,
                             JointInterfaces& joint_interfaces,
                             RawJointDataMap& raw_joint_data_map) override;
protected:
  bool getJointStateData(const TransmissionInfo& transmission_info,
                         const RawJointDataMap& raw_joint_data_map,
                         JointData& jnt_state_data) override;
  bool getJointCommandData(const TransmissionInfo& ,
                           const RawJointDataMap& ,
                           JointData& ) override {return true;}
  bool getActuatorStateData(const TransmissionInfo& transmission_info,
                            hardware_interface::RobotHW* robot_hw,
                            ActuatorData& act_state_data) override;
  bool getActuatorCommandData(const TransmissionInfo& ,
                              hardware_interface::RobotHW* ,
                              ActuatorData& ) override {return true;}
  bool registerTransmission(TransmissionLoaderData& loader_data,
                            TransmissionHandleData& handle_data) override;
};
}
