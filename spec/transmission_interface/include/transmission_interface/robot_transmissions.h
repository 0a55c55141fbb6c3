#pragma once
#include <hardware_interface/internal/interface_manager.h>
#include <hardware_interface/robot_hw.h>
namespace transmission_interface
{
class RobotTransmissions : public hardware_interface::InterfaceManager {};
}
