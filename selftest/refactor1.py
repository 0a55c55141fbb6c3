"""Behaviour-preserving edits: every check has to stay quiet."""
CM = 'controller_manager/src/controller_manager.cpp'
CMH = 'controller_manager/include/controller_manager/controller_manager.h'
EDITS = {
'r_load_index': (None, [(CM, '''  // Copy all controllers from the 'from' list to the 'to' list
  for (const auto& controller : from)
    to.push_back(controller);
''', '''  for (std::size_t i = 0; i < from.size(); ++i)
  {
    to.push_back(from[i]);
  }
''')]),
'r_load_assign': (None, [(CM, '''  // Copy all controllers from the 'from' list to the 'to' list
  for (const auto& controller : from)
    to.push_back(controller);
''', '''  to = from;
''')]),
'r_load_anyof': (None, [(CM, '''  for (const auto& controller : to)
  {
    if (controller.info.name == name)
    {
      to.clear();
      ROS_ERROR("A controller named '%s' was already loaded inside the controller manager", name.c_str());
      return false;
    }
  }
''', '''  const bool duplicate = std::any_of(to.begin(), to.end(), [&name](const ControllerSpec& spec) { return spec.info.name == name; });
  if (duplicate)
  {
    ROS_ERROR("A controller named '%s' was already loaded inside the controller manager", name.c_str());
    to.clear();
    return false;
  }
''')]),
'r_load_dup_first': (None, [(CM, '''  // Copy all controllers from the 'from' list to the 'to' list
  for (const auto& controller : from)
    to.push_back(controller);

  // Checks that we're not duplicating controllers
  for (const auto& controller : to)
''', '''  for (const auto& controller : from)
    to.push_back(controller);

  for (const auto& controller : from)
''')]),
'r_load_getby': (None, [(CM, '''  for (const auto& controller : to)
  {
    if (controller.info.name == name)
    {
      to.clear();
      ROS_ERROR("A controller named '%s' was already loaded inside the controller manager", name.c_str());
      return false;
    }
  }
''', '''  for (auto it = to.cbegin(); it != to.cend(); ++it)
  {
    if (it->info.name != name)
      continue;
    to.clear();
    ROS_ERROR("A controller named '%s' was already loaded inside the controller manager", name.c_str());
    return false;
  }
''')]),
'r_load_emplace': (None, [(CM, '''  to.resize(to.size() + 1);
  to.back().info.type = type;
  to.back().info.name = name;
  to.back().info.claimed_resources = claimed_resources;
  to.back().c = c;
''', '''  ControllerSpec spec;
  spec.info.name = name;
  spec.info.type = type;
  spec.info.claimed_resources = claimed_resources;
  spec.c = c;
  to.push_back(spec);
''')]),
'r_load_emplace2': (None, [(CM, '''  to.resize(to.size() + 1);
  to.back().info.type = type;
  to.back().info.name = name;
  to.back().info.claimed_resources = claimed_resources;
  to.back().c = c;
''', '''  to.emplace_back();
  ControllerSpec& added = to.back();
  added.c = std::move(c);
  added.info.type = type;
  added.info.name = name;
  added.info.claimed_resources = std::move(claimed_resources);
''')]),
'r_load_xor': (None, [(CM, '''bool ControllerManager::loadController(const std::string& name)
{
  ROS_DEBUG("Will load controller '%s'", name.c_str());

  // lock controllers
  std::lock_guard<std::recursive_mutex> guard(controllers_lock_);

  // get reference to controller list
  int free_controllers_list = (current_controllers_list_ + 1) % 2;
''', '''bool ControllerManager::loadController(const std::string& name)
{
  ROS_DEBUG("Will load controller '%s'", name.c_str());

  // lock controllers
  std::lock_guard<std::recursive_mutex> guard(controllers_lock_);

  // get reference to controller list
  const int free_controllers_list = 1 - current_controllers_list_;
''')]),
'r_load_helper': (None, [(CM, '''bool ControllerManager::loadController(const std::string& name)
{''', '''static bool hasName(const std::vector<ControllerSpec>& list, const std::string& name)
{
  for (const auto& controller : list)
    if (controller.info.name == name)
      return true;
  return false;
}

bool ControllerManager::loadController(const std::string& name)
{'''), (CM, '''  for (const auto& controller : to)
  {
    if (controller.info.name == name)
    {
      to.clear();
      ROS_ERROR("A controller named '%s' was already loaded inside the controller manager", name.c_str());
      return false;
    }
  }
''', '''  if (hasName(to, name))
  {
    to.clear();
    ROS_ERROR("A controller named '%s' was already loaded inside the controller manager", name.c_str());
    return false;
  }
''')]),
'r_wait_helper': (None, [(CMH, '''  void stopControllers(const ros::Time& time);''', '''  void stopControllers(const ros::Time& time);
  bool waitUntilReleased(int list_index) const;'''), (CM, '''bool ControllerManager::loadController(const std::string& name)
{''', '''bool ControllerManager::waitUntilReleased(int list_index) const
{
  while (list_index == used_by_realtime_)
  {
    if (!ros::ok())
      return false;
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  return true;
}

bool ControllerManager::loadController(const std::string& name)
{'''), (CM, '''  while (free_controllers_list == used_by_realtime_)
  {
    if (!ros::ok())
    {
      return false;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  std::vector<ControllerSpec>
    &from = controllers_lists_[current_controllers_list_],
    &to = controllers_lists_[free_controllers_list];
  to.clear();

  // Copy all''', '''  if (!waitUntilReleased(free_controllers_list))
    return false;
  std::vector<ControllerSpec>
    &from = controllers_lists_[current_controllers_list_],
    &to = controllers_lists_[free_controllers_list];
  to.clear();

  // Copy all''')]),
'r_wait_do': (None, [(CM, '''  ROS_DEBUG("Realtime switches over to new controller list");
  int former_current_controllers_list_ = current_controllers_list_;
  current_controllers_list_ = free_controllers_list;
  while (used_by_realtime_ == former_current_controllers_list_)
  {
    if (!ros::ok())
    {
      return false;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
''', '''  ROS_DEBUG("Realtime switches over to new controller list");
  const int old_list = current_controllers_list_;
  current_controllers_list_ = free_controllers_list;
  for (;;)
  {
    if (used_by_realtime_ != old_list)
      break;
    if (!ros::ok())
      return false;
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
''')]),
'r_unload_find': (None, [(CM, '''  bool removed = false;
  for (const auto& controller : from)
  {
    if (controller.info.name == name){
      if (controller.c->isRunning()){
        to.clear();
        ROS_ERROR("Could not unload controller with name '%s' because it is still running",
                  name.c_str());
        return false;
      }
      removed = true;
    }
    else
      to.push_back(controller);
  }
''', '''  bool removed = false;
  for (std::size_t i = 0; i != from.size(); ++i)
  {
    const ControllerSpec& controller = from[i];
    if (controller.info.name != name)
    {
      to.push_back(controller);
      continue;
    }
    if (controller.c->isRunning())
    {
      ROS_ERROR("Could not unload controller with name '%s' because it is still running",
                name.c_str());
      to.clear();
      return false;
    }
    removed = true;
  }
''')]),
'r_names_reserve': (None, [(CM, '''  names.clear();
  for (const auto& controller : controllers_lists_[current_controllers_list_])
  {
    names.push_back(controller.info.name);
  }
''', '''  const std::vector<ControllerSpec>& list = controllers_lists_[current_controllers_list_];
  names.clear();
  names.reserve(list.size());
  std::transform(list.begin(), list.end(), std::back_inserter(names), [](const ControllerSpec& spec) { return spec.info.name; });
''')]),
'r_byname_findif': (None, [(CM, '''  for (const auto& controller : controllers_lists_[current_controllers_list_])
  {
    if (controller.info.name == name)
      return controller.c.get();
  }
  return nullptr;
''', '''  const auto& list = controllers_lists_[current_controllers_list_];
  const auto it = std::find_if(list.begin(), list.end(), [&](const ControllerSpec& s) { return s.info.name == name; });
  return it != list.end() ? it->c.get() : nullptr;
''')]),
'r_switch_ref': (None, [(CM, '''  bool in_conflict = robot_hw_->checkForConflict(info_list);
  if (in_conflict)
''', '''  if (robot_hw_->checkForConflict(info_list))
''')]),
'r_switch_abort_lambda': (None, [(CM, '''  bool in_conflict = robot_hw_->checkForConflict(info_list);
  if (in_conflict)
  {
    ROS_ERROR("Could not switch controllers, due to resource conflict");
    stop_request_.clear();
    start_request_.clear();
    return false;
  }

  if (!robot_hw_->prepareSwitch(switch_start_list_, switch_stop_list_))
  {
    ROS_ERROR("Could not switch controllers. The hardware interface combination for the requested controllers is unfeasible.");
    stop_request_.clear();
    start_request_.clear();
    return false;
  }
''', '''  auto refuse = [this]() { start_request_.clear(); stop_request_.clear(); return false; };
  if (robot_hw_->checkForConflict(info_list))
  {
    ROS_ERROR("Could not switch controllers, due to resource conflict");
    return refuse();
  }

  const bool feasible = robot_hw_->prepareSwitch(switch_start_list_, switch_stop_list_);
  if (!feasible)
  {
    ROS_ERROR("Could not switch controllers. The hardware interface combination for the requested controllers is unfeasible.");
    return refuse();
  }
''')]),
'r_switch_strict': (None, [(CM, '''  controller_interface::ControllerBase* ct;
  // list all controllers to stop
''', '''  const bool strict = (strictness == controller_manager_msgs::SwitchController::Request::STRICT);
  controller_interface::ControllerBase* ct;
  // list all controllers to stop
'''), (CM, '''    if(!is_running && in_stop_list){ // check for double stop
      if(strictness ==  controller_manager_msgs::SwitchController::Request::STRICT){
''', '''    if(!is_running && in_stop_list){ // check for double stop
      if(strict){
''')]),
'r_switch_find': (None, [(CM, '''    bool in_stop_list  = false;
    for (const auto& request : stop_request_)
    {
      if (request == controller.c.get())
      {
        in_stop_list = true;
        break;
      }
    }

    bool in_start_list = false;
    for (const auto& request : start_request_)
    {
      if (request == controller.c.get())
      {
        in_start_list = true;
        break;
      }
    }
''', '''    bool in_stop_list  = std::find(stop_request_.begin(), stop_request_.end(), controller.c.get()) != stop_request_.end();
    bool in_start_list = std::find(start_request_.begin(), start_request_.end(), controller.c.get()) != start_request_.end();
''')]),
'r_switch_count': (None, [(CM, '''    bool in_stop_list  = false;
    for (const auto& request : stop_request_)
    {
      if (request == controller.c.get())
      {
        in_stop_list = true;
        break;
      }
    }
''', '''    bool in_stop_list = std::count(stop_request_.begin(), stop_request_.end(), controller.c.get()) > 0;
''')]),
'r_switch_addto': (None, [(CM, '''    bool add_to_list = is_running;
    if (in_stop_list)
      add_to_list = false;
    if (in_start_list)
      add_to_list = true;

    if (add_to_list)
      info_list.push_back(info);
''', '''    if (in_start_list || (is_running && !in_stop_list))
      info_list.push_back(info);
''')]),
'r_switch_ifelse': (None, [(CM, '''    if(is_running && in_stop_list && !in_start_list){ // running and real stop
      switch_stop_list_.push_back(info);
    }
    else if(!is_running && !in_stop_list && in_start_list){ // start, but no restart
      switch_start_list_.push_back(info);
     }
''', '''    if (in_stop_list && !in_start_list)
    {
      if (is_running)
        switch_stop_list_.push_back(info);
    }
    else if (in_start_list && !is_running)
    {
      if (!in_stop_list)
        switch_start_list_.push_back(info);
    }
''')]),
'r_switch_wait': (None, [(CM, '''    std::chrono::duration<double> diff = std::chrono::system_clock::now() - start_time;
    if (diff.count() < timeout+1.0 || timeout == 0){
        std::this_thread::sleep_for(std::chrono::microseconds(100));
    } else {
        ROS_DEBUG("Timed out while switching controllers. Exiting...");
        switch_params_.do_switch = false;
        timed_out = true;
        break;
    }
''', '''    const std::chrono::duration<double> waited = std::chrono::system_clock::now() - start_time;
    if (timeout != 0 && waited.count() >= timeout + 1.0)
    {
      ROS_DEBUG("Timed out while switching controllers. Exiting...");
      timed_out = true;
      switch_params_.do_switch = false;
      break;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(100));
''')]),
'r_switch_params': (None, [(CM, '''  switch_params_.strictness = strictness;
  switch_params_.start_asap = start_asap;
  switch_params_.init_time = ros::Time::now();
  switch_params_.timeout = timeout;
  switch_params_.do_switch = true;
''', '''  switch_params_.timeout = timeout;
  switch_params_.init_time = ros::Time::now();
  switch_params_.start_asap = start_asap;
  switch_params_.strictness = strictness;
  switch_params_.do_switch = true;
''')]),
'r_update_idx': (None, [(CM, '''void ControllerManager::manageSwitch(const ros::Time& time)
{
  // switch hardware interfaces (if any)
  if (!switch_params_.started)
  {
    robot_hw_->doSwitch(switch_start_list_, switch_stop_list_);
    switch_params_.started = true;
  }

  stopControllers(time);

  // start controllers once the switch is fully complete
  if (!switch_params_.start_asap)
  {
    startControllers(time);
  }
  // start controllers as soon as their required joints are done switching
  else
  {
    startControllersAsap(time);
  }
}
''', '''void ControllerManager::manageSwitch(const ros::Time& time)
{
  if (!switch_params_.started)
  {
    switch_params_.started = true;
    robot_hw_->doSwitch(switch_start_list_, switch_stop_list_);
  }
  stopControllers(time);
  if (switch_params_.start_asap)
    startControllersAsap(time);
  else
    startControllers(time);
}
''')]),
'r_start_switch': (None, [(CM, '''  // start controllers
  if (robot_hw_->switchResult() == hardware_interface::RobotHW::SwitchState::DONE)
  {
    for (const auto& request : start_request_)
    {
      request->startRequest(time);
    }

    switch_params_.do_switch = false;
  }
''', '''  // start controllers
  if (robot_hw_->switchResult() == hardware_interface::RobotHW::SwitchState::DONE)
  {
    for (std::size_t i = 0; i < start_request_.size(); ++i)
      start_request_[i]->startRequest(time);

    switch_params_.do_switch = false;
  }
''')]),
'r_asap_flag': (None, [(CM, '''  if (std::all_of(start_request_.begin(), start_request_.end(),
                  [](controller_interface::ControllerBase *request) {
                    return request->isRunning() || request->isAborted();
                  }))
  {
    switch_params_.do_switch = false;
  }
''', '''  bool pending = false;
  for (const auto& request : start_request_)
  {
    if (!request->isRunning() && !request->isAborted())
    {
      pending = true;
      break;
    }
  }
  if (!pending)
    switch_params_.do_switch = false;
''')]),
'r_list_state': (None, [(CM, '''    cs.name = controllers[i].info.name;
    cs.type = controllers[i].info.type;
''', '''    const ControllerSpec& spec = controllers[i];
    cs.type = spec.info.type;
    cs.name = spec.info.name;
''')]),
'r_list_pushback': (None, [(CM, '''    for (const auto& c_resource : c_resources)
    {
      controller_manager_msgs::HardwareInterfaceResources iface_res;
      iface_res.hardware_interface = c_resource.hardware_interface;
      std::copy(c_resource.resources.begin(), c_resource.resources.end(), std::back_inserter(iface_res.resources));
      cs.claimed_resources.push_back(iface_res);
    }
''', '''    for (ClaimedResIt it = c_resources.begin(); it != c_resources.end(); ++it)
    {
      cs.claimed_resources.emplace_back();
      controller_manager_msgs::HardwareInterfaceResources& iface_res = cs.claimed_resources.back();
      iface_res.hardware_interface = it->hardware_interface;
      iface_res.resources.assign(it->resources.begin(), it->resources.end());
    }
''')]),
'r_list_statefn': (None, [(CM, '''bool ControllerManager::listControllersSrv(
  controller_manager_msgs::ListControllers::Request &req,''', '''namespace
{
std::string stateName(const controller_interface::ControllerBase& c)
{
  if (c.isInitialized()) return "initialized";
  if (c.isRunning()) return "running";
  if (c.isStopped()) return "stopped";
  if (c.isWaiting()) return "waiting";
  if (c.isAborted()) return "aborted";
  return "unknown";
}
}

bool ControllerManager::listControllersSrv(
  controller_manager_msgs::ListControllers::Request &req,'''), (CM, '''    if (controllers[i].c->isInitialized())
    {
      cs.state = "initialized";
    }
    else if (controllers[i].c->isRunning())
    {
      cs.state = "running";
    }
    else if (controllers[i].c->isStopped())
    {
      cs.state = "stopped";
    }
    else if (controllers[i].c->isWaiting())
    {
      cs.state = "waiting";
    }
    else if (controllers[i].c->isAborted())
    {
      cs.state = "aborted";
    }
    else
    {
      // should never happen
      cs.state = "unknown";
    }
''', '''    cs.state = stateName(*controllers[i].c);
''')]),
'r_types_insert': (None, [(CM, '''    std::vector<std::string> cur_types = controller_loader->getDeclaredClasses();
    for (const auto& cur_type : cur_types)
    {
      resp.types.push_back(cur_type);
      resp.base_classes.push_back(controller_loader->getName());
    }
''', '''    for (const auto& cur_type : controller_loader->getDeclaredClasses())
    {
      resp.base_classes.push_back(controller_loader->getName());
      resp.types.push_back(cur_type);
    }
''')]),
'r_reload_early': (None, [(CM, '''  // kill running controllers if requested
  if (!controllers.empty()){
    ROS_INFO("Controller manager: Killing all running controllers");
    std::vector<std::string> empty;
    if (!switchController(empty,controllers, controller_manager_msgs::SwitchController::Request::BEST_EFFORT)){
''', '''  // kill running controllers if requested
  if (controllers.size() > 0){
    ROS_INFO("Controller manager: Killing all running controllers");
    if (!switchController(std::vector<std::string>(), controllers, controller_manager_msgs::SwitchController::Request::BEST_EFFORT)){
''')]),
'r_update_auto': (None, [(CMH, '''  void stopControllers(const ros::Time& time);''', '''  void stopControllers(const ros::Time& time);
  void startEntry(controller_interface::ControllerBase* request, const ros::Time& time) { request->startRequest(time); }'''), (CM, '''    for (const auto& request : start_request_)
    {
      request->startRequest(time);
    }

    switch_params_.do_switch = false;
''', '''    for (const auto& request : start_request_)
      startEntry(request, time);

    switch_params_.do_switch = false;
''')]),
'r_stop_negate': (None, [(CM, '''    if (request->isRunning())
    {
      request->stopRequest(time);
    }
''', '''    if (!request->isRunning())
      continue;
    request->stopRequest(time);
''')]),
'r_spec_move': (None, [(CM, '''  // Destroys the old controllers list when the realtime thread is finished with it.
  int former_current_controllers_list_ = current_controllers_list_;
  current_controllers_list_ = free_controllers_list;
  while (used_by_realtime_ == former_current_controllers_list_)''', '''  // Destroys the old controllers list when the realtime thread is finished with it.
  int former = current_controllers_list_;
  current_controllers_list_ = free_controllers_list;
  while (former == used_by_realtime_)''')]),
'r_c_init': (None, [(CM, '''  bool initialized;
  controller_interface::ControllerBase::ClaimedResources claimed_resources; // Gets populated during initRequest call
  try{
    initialized = c->initRequest(robot_hw_, root_nh_, c_nh, claimed_resources);
  }
  catch(std::exception &e){
    ROS_ERROR("Exception thrown while initializing controller '%s'.\\n%s", name.c_str(), e.what());
    initialized = false;
  }
  catch(...){
    ROS_ERROR("Exception thrown while initializing controller '%s'", name.c_str());
    initialized = false;
  }
''', '''  bool initialized = false;
  controller_interface::ControllerBase::ClaimedResources claimed_resources; // Gets populated during initRequest call
  try{
    initialized = c->initRequest(robot_hw_, root_nh_, c_nh, claimed_resources);
  }
  catch(const std::exception &e){
    ROS_ERROR("Exception thrown while initializing controller '%s'.\\n%s", name.c_str(), e.what());
  }
  catch(...){
    ROS_ERROR("Exception thrown while initializing controller '%s'", name.c_str());
  }
''')]),
'r_create_for': (None, [(CM, '''      auto it = controller_loaders_.begin();
      while (!c && it != controller_loaders_.end())
      {
        for (const auto& cur_type : (*it)->getDeclaredClasses()){
          if (type == cur_type){
            c = (*it)->createInstance(type);
          }
        }
        ++it;
      }
''', '''      for (const auto& loader : controller_loaders_)
      {
        if (c)
          break;
        for (const auto& cur_type : loader->getDeclaredClasses())
          if (cur_type == type)
            c = loader->createInstance(type);
      }
''')]),
}
