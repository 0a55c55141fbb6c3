#pragma once
#include "controller_manager/controller_spec.h"
#include <cstdio>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <ros/ros.h>
#include <hardware_interface/robot_hw.h>
#include <ros/node_handle.h>
#include <pluginlib/class_loader.hpp>
#include <controller_manager_msgs/ListControllerTypes.h>
#include <controller_manager_msgs/ListControllers.h>
#include <controller_manager_msgs/ReloadControllerLibraries.h>
#include <controller_manager_msgs/LoadController.h>
#include <controller_manager_msgs/UnloadController.h>
#include <controller_manager_msgs/SwitchController.h>
#include <controller_manager/controller_loader_interface.h>
namespace controller_manager{
class ControllerManager{
public:
  static constexpr bool WAIT_FOR_ALL_RESOURCES = false;
  static constexpr double INFINITE_TIMEOUT = 0.0;
  ControllerManager(hardware_interface::RobotHW *robot_hw,
                   const ros::NodeHandle& nh=ros::NodeHandle());
  virtual ~ControllerManager() = default;
  void update(const ros::Time& time, const ros::Duration& period, bool reset_controllers=false);
  bool loadController(const std::string& name);
  bool unloadController(const std::string &name);
  bool switchController(const std::vector<std::string>& start_controllers,
                        const std::vector<std::string>& stop_controllers,
                        const int strictness, bool start_asap = WAIT_FOR_ALL_RESOURCES,
                        double timeout = INFINITE_TIMEOUT);
  virtual controller_interface::ControllerBase* getControllerByName(const std::string& name);
  void registerControllerLoader(ControllerLoaderInterfaceSharedPtr controller_loader);
private:
  void getControllerNames(std::vector<std::string> &v);
  void manageSwitch(const ros::Time& time);
  void stopControllers(const ros::Time& time);
  void startControllers(const ros::Time& time);
  void startControllersAsap(const ros::Time& time);
  hardware_interface::RobotHW* robot_hw_;
  ros::NodeHandle root_nh_, cm_node_;
  std::list<ControllerLoaderInterfaceSharedPtr> controller_loaders_;
  std::vector<controller_interface::ControllerBase*> start_request_, stop_request_;
  std::list<hardware_interface::ControllerInfo> switch_start_list_, switch_stop_list_;
  struct SwitchParams
  {
    bool do_switch = {false};
    bool started = {false};
    ros::Time init_time = {ros::TIME_MAX};
    int strictness = {0};
    bool start_asap = {false};
    double timeout = {0.0};
  };
  SwitchParams switch_params_;
  std::recursive_mutex controllers_lock_;
  std::vector<ControllerSpec> controllers_lists_[2];
  int current_controllers_list_ = {0};
  int used_by_realtime_ = {-1};
  bool listControllerTypesSrv(controller_manager_msgs::ListControllerTypes::Request &req,
                              controller_manager_msgs::ListControllerTypes::Response &resp);
  bool listControllersSrv(controller_manager_msgs::ListControllers::Request &req,
                          controller_manager_msgs::ListControllers::Response &resp);
  bool switchControllerSrv(controller_manager_msgs::SwitchController::Request &req,
                           controller_manager_msgs::SwitchController::Response &resp);
  bool loadControllerSrv(controller_manager_msgs::LoadController::Request &req,
                          controller_manager_msgs::LoadController::Response &resp);
  bool unloadControllerSrv(controller_manager_msgs::UnloadController::Request &req,
                         controller_manager_msgs::UnloadController::Response &resp);
  bool reloadControllerLibrariesSrv(controller_manager_msgs::ReloadControllerLibraries::Request &req,
                                    controller_manager_msgs::ReloadControllerLibraries::Response &resp);
  std::mutex services_lock_;
  ros::ServiceServer srv_list_controllers_, srv_list_controller_types_, srv_load_controller_;
  ros::ServiceServer srv_unload_controller_, srv_switch_controller_, srv_reload_libraries_;
};
}
