#pragma once
#include <transmission_interface/transmission_info.h>
#include <transmission_interface/transmission_interface_loader.h>
#include <transmission_interface/velocity_joint_interface_provider.h>
namespace transmission_interface
{
class BiDirectionalVelocityJointInterfaceProvider : public VelocityJointInterfaceProvider
{
protected:
  bool registerTransmission(TransmissionLoaderData& loader_data,
                            TransmissionHandleData& handle_data) override;
};
}
