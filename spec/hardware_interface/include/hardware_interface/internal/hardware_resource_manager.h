#pragma once
#include <string>
#include <hardware_interface/hardware_interface.h>
#include <hardware_interface/internal/resource_manager.h>
namespace hardware_interface
{
struct ClaimResources;
struct DontClaimResources;
template <class ResourceHandle, class ClaimPolicy = DontClaimResources>
class HardwareResourceManager : public HardwareInterface, public ResourceManager<ResourceHandle>
{
public:
  typedef ResourceHandle ResourceHandleType;
  ResourceHandle getHandle(const std::string& name)
  {
    try
    {
      ResourceHandle out = this->ResourceManager<ResourceHandle>::getHandle(name);
      ClaimPolicy::claim(this, name);
      return out;
    }
    catch(const std::logic_error& e)
    {
      throw HardwareInterfaceException(e.what());
    }
  }
};
struct ClaimResources
{
  static void claim(HardwareInterface* hw, const std::string& name) {hw->claim(name);}
};
struct DontClaimResources
{
  static void claim(HardwareInterface* , const std::string& ) {}
};
}
