#pragma once
#include <pluginlib/class_loader.hpp>
#include <controller_manager/controller_loader_interface.h>
#include <memory>
namespace controller_manager
{
template <class T>
class ControllerLoader : public ControllerLoaderInterface
{
public:
  ControllerLoader(const std::string& package, const std::string& base_class) :
    ControllerLoaderInterface(base_class),
    package_(package),
    base_class_(base_class)
  {
    reload();
  }
  controller_interface::ControllerBaseSharedPtr createInstance(const std::string& lookup_name) override
  {
    return controller_loader_->createUniqueInstance(lookup_name);
  }
  std::vector<std::string> getDeclaredClasses() override
  {
    return controller_loader_->getDeclaredClasses();
  }
  void reload() override
  {
    controller_loader_.reset(new pluginlib::ClassLoader<T>(package_, base_class_) );
  }
private:
  std::string package_;
  std::string base_class_;
  std::unique_ptr<pluginlib::ClassLoader<T> > controller_loader_;
};
}
