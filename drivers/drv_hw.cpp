// Instantiates every template of hardware_interface so that the exporter sees resolved bodies.
#include <hardware_interface/actuator_command_interface.h>
#include <hardware_interface/actuator_state_interface.h>
#include <hardware_interface/controller_info.h>
#include <hardware_interface/force_torque_sensor_interface.h>
#include <hardware_interface/hardware_interface.h>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/interface_resources.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_mode_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/position_velocity_torque_gains_command_interface.h>
#include <hardware_interface/posvel_command_interface.h>
#include <hardware_interface/posvelacc_command_interface.h>
#include <hardware_interface/robot_hw.h>
#include <hardware_interface/internal/demangle_symbol.h>
#include <hardware_interface/internal/interface_manager.h>
using namespace hardware_interface;
template class hardware_interface::ResourceManager<JointHandle>;
template class hardware_interface::ResourceManager<JointStateHandle>;
template class hardware_interface::HardwareResourceManager<JointHandle, ClaimResources>;
template class hardware_interface::HardwareResourceManager<JointStateHandle, DontClaimResources>;
struct DrvPlain { };
static void use(InterfaceManager* m, RobotHW* r, std::vector<EffortJointInterface*>& v, ResourceManager<JointHandle>* res,
                EffortJointInterface* e, JointStateInterface* s, DrvPlain* p)
{
  m->get<EffortJointInterface>(); m->get<JointStateInterface>(); m->get<DrvPlain>();
  m->registerInterface(e); m->registerInterface(s); m->registerInterface(p);
  r->get<EffortJointInterface>();
  ResourceManager<JointHandle>::concatManagers(*(std::vector<ResourceManager<JointHandle>*>*)nullptr, res);
}
void* drv_hw_anchor = (void*)&use;
