#pragma once
#include <cassert>
#include <hardware_interface/internal/hardware_resource_manager.h>
namespace hardware_interface
{
  enum class JointCommandModes
  {
    BEGIN = -1,
    MODE_POSITION = 0,
    MODE_VELOCITY = 1,
    MODE_EFFORT = 2,
    NOMODE = 3,
    EMERGENCY_STOP = 4,
    SWITCHING = 5,
    ERROR = 6
  };
  class JointModeHandle
  {
  public:
    JointModeHandle() = default;
    JointModeHandle(std::string name, JointCommandModes* mode)
      : mode_(mode)
      , name_(name)
    {
      if (!mode_)
      {
        throw HardwareInterfaceException("Cannot create mode interface. Mode data pointer is null.");
      }
    }
    std::string getName() const {return name_;}
    void setMode(JointCommandModes mode) {assert(mode_); *mode_ = mode;}
    JointCommandModes getMode() const {assert(mode_); return *mode_;}
    const JointCommandModes* getModePtr() const {assert(mode_); return mode_;}
    std::string getModeName(JointCommandModes mode) const
    {
      switch(mode)
      {
        case JointCommandModes::BEGIN:
          return "not_operational";
        case JointCommandModes::MODE_POSITION:
          return "position";
        case JointCommandModes::MODE_VELOCITY:
          return "velocity";
        case JointCommandModes::MODE_EFFORT:
          return "effort";
        case JointCommandModes::NOMODE:
          return "other";
        case JointCommandModes::EMERGENCY_STOP:
          return "emergency_stop";
        case JointCommandModes::SWITCHING:
          return "switching";
        case JointCommandModes::ERROR:
          return "error";
      }
      return "unknown";
    }
  private:
    JointCommandModes* mode_ = {nullptr};
    std::string name_;
  };
  class JointModeInterface : public HardwareResourceManager<JointModeHandle, DontClaimResources> {};
}
