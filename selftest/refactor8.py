CM = 'controller_manager/src/controller_manager.cpp'; CMH = 'controller_manager/include/controller_manager/controller_manager.h'
JL = 'joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h'
EDITS = {}
def E(i, *edits): EDITS[i] = (None, list(edits))
E('n_update_members', (CMH, '  void manageSwitch(const ros::Time& time);', '  void restartRunning(const std::vector<ControllerSpec>& controllers, const ros::Time& time);\n  void manageSwitch(const ros::Time& time);'),
  (CM, '''    for (const auto& controller : controllers_lists_[used_by_realtime_]){
      if (controller.c->isRunning()){
        controller.c->stopRequest(time);
        controller.c->startRequest(time);
      }
    }
  }
''', '''    restartRunning(controllers_lists_[used_by_realtime_], time);
  }
'''), (CM, '''// Must be realtime safe.
''', '''void ControllerManager::restartRunning(const std::vector<ControllerSpec>& controllers, const ros::Time& time)
{
  for (size_t i = 0; i < controllers.size(); ++i)
  {
    controller_interface::ControllerBase* c = controllers[i].c.get();
    if (!c->isRunning())
      continue;
    c->stopRequest(time);
    c->startRequest(time);
  }
}

// Must be realtime safe.
'''))
E('n_manage_early', (CM, '''  // start controllers once the switch is fully complete
  if (!switch_params_.start_asap)
  {
    startControllers(time);
  }
  // start controllers as soon as their required joints are done switching
  else
  {
    startControllersAsap(time);
  }
''', '''  if (switch_params_.start_asap)
  {
    startControllersAsap(time);
    return;
  }
  startControllers(time);
'''))
E('n_lock_unique', (CM, '''  // Lock recursive mutex in this context
  std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
''', '''  std::unique_lock<std::recursive_mutex> guard(controllers_lock_);
'''))
E('n_strict_flag', (CM, '''  ROS_DEBUG("switching controllers:");
''', '''  const bool strict = strictness == controller_manager_msgs::SwitchController::Request::STRICT;

  ROS_DEBUG("switching controllers:");
'''), (CM, '''      if(strictness ==  controller_manager_msgs::SwitchController::Request::STRICT){
        ROS_ERROR_STREAM("Could not stop''', '''      if(strict){
        ROS_ERROR_STREAM("Could not stop'''), (CM, '''      if(strictness ==  controller_manager_msgs::SwitchController::Request::STRICT){
        ROS_ERROR_STREAM("Controller ''', '''      if(strict){
        ROS_ERROR_STREAM("Controller '''), (CM, '''      if (strictness ==  controller_manager_msgs::SwitchController::Request::STRICT){
        ROS_ERROR("Could not start''', '''      if (strict){
        ROS_ERROR("Could not start'''))
E('n_result_once', (CM, '''  if (robot_hw_->switchResult() == hardware_interface::RobotHW::SwitchState::DONE)
  {
    for''', '''  const bool late = switch_params_.timeout > 0.0 && (time - switch_params_.init_time).toSec() > switch_params_.timeout;
  if (robot_hw_->switchResult() == hardware_interface::RobotHW::SwitchState::DONE)
  {
    for'''), (CM, '''  else if ((robot_hw_->switchResult() == hardware_interface::RobotHW::SwitchState::ERROR) ||
           (switch_params_.timeout > 0.0 &&
            (time - switch_params_.init_time).toSec() > switch_params_.timeout))
  {
    for''', '''  else if (late || robot_hw_->switchResult() == hardware_interface::RobotHW::SwitchState::ERROR)
  {
    for'''))
E('n_wait_forever', (CM, '''  while (switch_params_.do_switch)
  {
    if (!ros::ok())''', '''  for (;;)
  {
    if (!switch_params_.do_switch)
      break;
    if (!ros::ok())'''))
E('n_add_first', (CM, '''    bool add_to_list = is_running;
    if (in_stop_list)
      add_to_list = false;
    if (in_start_list)
      add_to_list = true;

    if (add_to_list)
      info_list.push_back(info);
''', '''    if (in_start_list || (is_running && !in_stop_list))
    {
      info_list.push_back(info);
    }
'''))
E('n_lists_nested', (CM, '''    if(is_running && in_stop_list && !in_start_list){ // running and real stop
      switch_stop_list_.push_back(info);
    }
    else if(!is_running && !in_stop_list && in_start_list){ // start, but no restart
      switch_start_list_.push_back(info);
     }
''', '''    if (is_running)
    {
      if (in_stop_list && !in_start_list)
        switch_stop_list_.push_back(info);
    }
    else
    {
      if (in_start_list && !in_stop_list)
        switch_start_list_.push_back(info);
    }
'''))
E('n_conflict_both', (CM, '''  bool in_conflict = robot_hw_->checkForConflict(info_list);
  if (in_conflict)
  {
    ROS_ERROR("Could not switch controllers, due to resource conflict");
    stop_request_.clear();
    start_request_.clear();
    return false;
  }

  if (!robot_hw_->prepareSwitch(switch_start_list_, switch_stop_list_))
  {
    ROS_ERROR("Could not switch controllers. The hardware interface combination for the requested controllers is unfeasible.");
    stop_request_.clear();''', '''  if (robot_hw_->checkForConflict(info_list) || !robot_hw_->prepareSwitch(switch_start_list_, switch_stop_list_))
  {
    ROS_ERROR("Could not switch controllers.");
    stop_request_.clear();'''))
E('n_size_empty', (CM, '''  if (!stop_request_.empty() || !start_request_.empty())
    ROS_FATAL(''', '''  if (stop_request_.size() + start_request_.size() > 0)
    ROS_FATAL('''))
E('n_timeout_helper', (CMH, '  void manageSwitch(const ros::Time& time);', '  bool switchTimedOut(const ros::Time& time) const;\n  void manageSwitch(const ros::Time& time);'),
  (CM, '''           (switch_params_.timeout > 0.0 &&
            (time - switch_params_.init_time).toSec() > switch_params_.timeout))
  {''', '''           switchTimedOut(time))
  {'''), (CM, '''                   (switch_params_.timeout > 0.0 &&
                    (time - switch_params_.init_time).toSec() > switch_params_.timeout))
          {''', '''                   switchTimedOut(time))
          {'''), (CM, '''void ControllerManager::stopControllers(const ros::Time& time)
''', '''bool ControllerManager::switchTimedOut(const ros::Time& time) const
{
  if (switch_params_.timeout <= 0.0)
    return false;
  const ros::Duration elapsed = time - switch_params_.init_time;
  return elapsed.toSec() > switch_params_.timeout;
}

void ControllerManager::stopControllers(const ros::Time& time)
'''))
E('n_list_alias', (CM, '''  for (const auto& controller : controllers_lists_[used_by_realtime_])
    controller.c->updateRequest(time, period);
''', '''  std::vector<ControllerSpec>& active = controllers_lists_[used_by_realtime_];
  for (auto it = active.begin(); it != active.end(); ++it)
    it->c->updateRequest(time, period);
'''))
E('n_jl_eff_if', (JL, '''      const double pos = jh_.getPosition();
      if (pos < limits_.min_position)
        min_eff = 0.0;
      else if (pos > limits_.max_position)
        max_eff = 0.0;
    }

    const double vel = jh_.getVelocity();
    if (vel < -limits_.max_velocity)
      min_eff = 0.0;
    else if (vel > limits_.max_velocity)
      max_eff = 0.0;

    jh_.setCommand(internal::saturate(jh_.getCommand(), min_eff, max_eff));
  }

private:
  hardware_interface::JointHandle jh_;
  JointLimits limits_;
};

/** \\brief A handle used to enforce position, velocity and effort limits of an effort-controlled joint. */
''', '''      const double pos = jh_.getPosition();
      min_eff = pos < limits_.min_position ? 0.0 : min_eff;
      max_eff = pos >= limits_.min_position && pos > limits_.max_position ? 0.0 : max_eff;
    }

    const double vel = jh_.getVelocity();
    const bool too_slow = vel < -limits_.max_velocity;
    const bool too_fast = !too_slow && vel > limits_.max_velocity;
    if (too_slow) {min_eff = 0.0;}
    if (too_fast) {max_eff = 0.0;}

    const double cmd = jh_.getCommand();
    jh_.setCommand(internal::saturate(cmd, min_eff, max_eff));
  }

private:
  hardware_interface::JointHandle jh_;
  JointLimits limits_;
};

/** \\brief A handle used to enforce position, velocity and effort limits of an effort-controlled joint. */
'''))
E('n_jl_soft_range', (JL, '''    double soft_min_vel;
    double soft_max_vel;

    if (limits_.has_position_limits)
    {
      // Velocity bounds depend on the velocity limit and the proximity to the position limit
      soft_min_vel = saturate(-soft_limits_.k_position * (pos - soft_limits_.min_position),
                              -limits_.max_velocity,
                               limits_.max_velocity);

      soft_max_vel = saturate(-soft_limits_.k_position * (pos - soft_limits_.max_position),
                              -limits_.max_velocity,
                               limits_.max_velocity);
    }
    else
    {
      // No position limits, eg. continuous joints
      soft_min_vel = -limits_.max_velocity;
      soft_max_vel =  limits_.max_velocity;
    }

    // Position bounds
    const double dt = period.toSec();
    double pos_low  = pos + soft_min_vel * dt;
    double pos_high = pos + soft_max_vel * dt;

    if (limits_.has_position_limits)
    {
      // This''', '''    double soft_min_vel = -limits_.max_velocity;
    double soft_max_vel =  limits_.max_velocity;

    const double dt = period.toSec();
    double pos_low  = pos + soft_min_vel * dt;
    double pos_high = pos + soft_max_vel * dt;

    if (limits_.has_position_limits)
    {
      soft_min_vel = saturate(soft_limits_.k_position * (soft_limits_.min_position - pos), -limits_.max_velocity, limits_.max_velocity);
      soft_max_vel = saturate(soft_limits_.k_position * (soft_limits_.max_position - pos), -limits_.max_velocity, limits_.max_velocity);
      pos_low  = pos + dt * soft_min_vel;
      pos_high = pos + dt * soft_max_vel;
      // This'''))
