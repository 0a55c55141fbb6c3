#pragma once
#include <stdexcept>
#include <string>
#include <map>
#include <vector>
#include <utility>
#include <ros/console.h>
#include <hardware_interface/internal/demangle_symbol.h>
namespace hardware_interface
{
class ResourceManagerBase
{
public:
  virtual ~ResourceManagerBase() = default;
};
template <class ResourceHandle>
class ResourceManager : public ResourceManagerBase
{
public:
  typedef ResourceManager<ResourceHandle> ResourceManagerType;
  std::vector<std::string> getNames() const
  {
    std::vector<std::string> out;
    out.reserve(resource_map_.size());
    for (const auto& resource_name_and_handle : resource_map_)
    {
      out.push_back(resource_name_and_handle.first);
    }
    return out;
  }
  void registerHandle(const ResourceHandle& handle)
  {
    typename ResourceMap::iterator it = resource_map_.find(handle.getName());
    if (it == resource_map_.end())
    {
      resource_map_.insert(std::make_pair(handle.getName(), handle));
    }
    else
    {
      ROS_WARN_STREAM("Replacing previously registered handle '" << handle.getName() << "' in '" +
                      internal::demangledTypeName(*this) + "'.");
      it->second = handle;
    }
  }
  ResourceHandle getHandle(const std::string& name)
  {
    typename ResourceMap::const_iterator it = resource_map_.find(name);
    if (it == resource_map_.end())
    {
      throw std::logic_error("Could not find resource '" + name + "' in '" +
                             internal::demangledTypeName(*this) + "'.");
    }
    return it->second;
  }
  static void concatManagers(std::vector<ResourceManagerType*>& managers,
                             ResourceManagerType* result)
  {
    for (const auto& manager : managers) {
      for (const auto& handle_name : manager->getNames()) {
        result->registerHandle(manager->getHandle(handle_name));
      }
    }
  }
protected:
  typedef std::map<std::string, ResourceHandle> ResourceMap;
  ResourceMap resource_map_;
};
}
