#pragma once
#include <set>
#include <string>
#include <vector>
namespace hardware_interface
{
struct InterfaceResources
{
  InterfaceResources() = default;
  InterfaceResources(const std::string& hw_iface, const std::set<std::string>& res)
    : hardware_interface(hw_iface),
      resources(res)
  {}
  std::string hardware_interface;
  std::set<std::string> resources;
};
}
