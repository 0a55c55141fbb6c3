#pragma once
#include <ros/node_handle.h>
#include <hardware_interface/robot_hw.h>
#include <memory>
namespace controller_interface
{
class ControllerBase
{
public:
  ControllerBase() = default;
  virtual ~ControllerBase() = default;
  ControllerBase(const ControllerBase&) = delete;
  ControllerBase& operator=(const ControllerBase&) = delete;
  ControllerBase(ControllerBase&&) = delete;
  ControllerBase& operator=(ControllerBase&&) = delete;
  virtual void starting(const ros::Time& ) {}
  virtual void update(const ros::Time& time, const ros::Duration& period) = 0;
  virtual void stopping(const ros::Time& ) {}
  virtual void waiting(const ros::Time& ) {}
  virtual void aborting(const ros::Time& ) {}
  bool isInitialized() const
  {
    return state_ == ControllerState::INITIALIZED;
  }
  bool isRunning() const
  {
    return state_ == ControllerState::RUNNING;
  }
  bool isStopped() const
  {
    return state_ == ControllerState::STOPPED;
  }
  bool isWaiting() const
  {
    return state_ == ControllerState::WAITING;
  }
  bool isAborted() const
  {
    return state_ == ControllerState::ABORTED;
  }
  void updateRequest(const ros::Time& time, const ros::Duration& period)
  {
    if (state_ == ControllerState::RUNNING)
    {
      update(time, period);
    }
  }
  bool startRequest(const ros::Time& time)
  {
    if (state_ != ControllerState::CONSTRUCTED)
    {
      starting(time);
      state_ = ControllerState::RUNNING;
      return true;
    }
    else
    {
      ROS_FATAL("Failed to start controller. It is not initialized.");
      return false;
    }
  }
  bool stopRequest(const ros::Time& time)
  {
    if (state_ != ControllerState::CONSTRUCTED)
    {
      stopping(time);
      state_ = ControllerState::STOPPED;
      return true;
    }
    else
    {
      ROS_FATAL("Failed to stop controller. It is not initialized.");
      return false;
    }
  }
  bool waitRequest(const ros::Time& time)
  {
    if (state_ != ControllerState::CONSTRUCTED)
    {
      waiting(time);
      state_ = ControllerState::WAITING;
      return true;
    }
    else
    {
      ROS_FATAL("Failed to wait controller. It is not initialized.");
      return false;
    }
  }
  bool abortRequest(const ros::Time& time)
  {
    if (state_ != ControllerState::CONSTRUCTED)
    {
      aborting(time);
      state_ = ControllerState::ABORTED;
      return true;
    }
    else
    {
      ROS_FATAL("Failed to abort controller. It is not initialized.");
      return false;
    }
  }
  typedef std::vector<hardware_interface::InterfaceResources> ClaimedResources;
  virtual bool initRequest(hardware_interface::RobotHW* robot_hw,
                           ros::NodeHandle& root_nh,
                           ros::NodeHandle& controller_nh,
                           ClaimedResources& claimed_resources) = 0;
  enum class ControllerState
  {
    CONSTRUCTED,
    INITIALIZED,
    RUNNING,
    STOPPED,
    WAITING,
    ABORTED
  };
  ControllerState state_ = ControllerState::CONSTRUCTED;
};
typedef std::shared_ptr<ControllerBase> ControllerBaseSharedPtr;
}
