#pragma once
#include <string>
#include <vector>
#include <hardware_interface/interface_resources.h>
namespace hardware_interface
{
struct ControllerInfo
{
  std::string name;
  std::string type;
  std::vector<InterfaceResources> claimed_resources;
};
}
