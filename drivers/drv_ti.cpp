#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/transmission_interface.h>
#include <transmission_interface/robot_transmissions.h>
using namespace transmission_interface;
#define TI(H) template class transmission_interface::TransmissionInterface<H>;
TI(ActuatorToJointStateHandle) TI(ActuatorToJointPositionHandle) TI(ActuatorToJointVelocityHandle) TI(ActuatorToJointEffortHandle)
TI(JointToActuatorStateHandle) TI(JointToActuatorPositionHandle) TI(JointToActuatorVelocityHandle) TI(JointToActuatorEffortHandle)
