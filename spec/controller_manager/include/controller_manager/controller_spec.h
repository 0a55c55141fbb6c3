#pragma once
#pragma GCC diagnostic ignored "-Wextra"
#include <map>
#include <string>
#include <vector>
#include <controller_interface/controller_base.h>
#include <hardware_interface/controller_info.h>
namespace controller_manager
{
struct ControllerSpec
{
  hardware_interface::ControllerInfo info;
  controller_interface::ControllerBaseSharedPtr c;
};
}
