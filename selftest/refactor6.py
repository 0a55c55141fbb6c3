# Behaviour-preserving rewrites (C++, third round): every check has to stay quiet.
CM = "controller_manager/src/controller_manager.cpp"
CB = "controller_interface/include/controller_interface/controller_base.h"
RM = "hardware_interface/include/hardware_interface/internal/resource_manager.h"
HRM = "hardware_interface/include/hardware_interface/internal/hardware_resource_manager.h"
IM = "hardware_interface/include/hardware_interface/internal/interface_manager.h"
CR = "combined_robot_hw/src/combined_robot_hw.cpp"
SPINL = """  while (free_controllers_list == used_by_realtime_)
  {
    if (!ros::ok())
    {
      return false;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
"""
SPINU = """  while (used_by_realtime_ == former_current_controllers_list_)
  {
    if (!ros::ok())
    {
      return false;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
"""
EDITS = {
# ---- controller manager
'k_wait_lambda': (None, [(CM, "  int free_controllers_list = (current_controllers_list_ + 1) % 2;\n" + SPINL, """  const auto unused_by_rt = [this](int list)
  {
    while (list == used_by_realtime_)
    {
      if (!ros::ok())
        return false;
      std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    return true;
  };
  int free_controllers_list = (current_controllers_list_ + 1) % 2;
  if (!unused_by_rt(free_controllers_list))
    return false;
""", 1)]),
'k_wait_static': (None, [(CM, "// Must be realtime safe.\nvoid ControllerManager::update(", """namespace
{
bool waitUntilReleased(const int& used_by_realtime, int list)
{
  for (; used_by_realtime == list; std::this_thread::sleep_for(std::chrono::microseconds(200)))
  {
    if (!ros::ok())
      return false;
  }
  return true;
}
}

// Must be realtime safe.
void ControllerManager::update("""), (CM, SPINU, "  if (!waitUntilReleased(used_by_realtime_, former_current_controllers_list_))\n    return false;\n", 1)]),
'k_wait_for': (None, [(CM, SPINU, """  for (;;)
  {
    if (used_by_realtime_ != former_current_controllers_list_)
      break;
    if (!ros::ok())
      return false;
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
""", 1)]),
'k_copy_assign': (None, [(CM, "  to.clear();\n\n  // Copy all controllers from the 'from' list to the 'to' list\n  for (const auto& controller : from)\n    to.push_back(controller);\n", "  // Copy all controllers from the 'from' list to the 'to' list\n  to = from;\n")]),
'k_copy_range': (None, [(CM, "  for (const auto& controller : from)\n    to.push_back(controller);\n", "  to.assign(from.begin(), from.end());\n")]),
'k_copy_insert': (None, [(CM, "  for (const auto& controller : from)\n    to.push_back(controller);\n", "  to.reserve(from.size() + 1);\n  std::copy(from.begin(), from.end(), std::back_inserter(to));\n")]),
'k_spec_push': (None, [(CM, "  to.resize(to.size() + 1);\n  to.back().info.type = type;\n  to.back().info.name = name;\n  to.back().info.claimed_resources = claimed_resources;\n  to.back().c = c;\n", "  ControllerSpec spec;\n  spec.info.name = name;\n  spec.info.type = type;\n  spec.info.claimed_resources = claimed_resources;\n  spec.c = c;\n  to.push_back(spec);\n")]),
'k_dup_early': (None, [(CM, """  // Copy all controllers from the 'from' list to the 'to' list
  for (const auto& controller : from)
    to.push_back(controller);

  // Checks that we're not duplicating controllers
  for (const auto& controller : to)
  {
    if (controller.info.name == name)
    {
      to.clear();
      ROS_ERROR("A controller named '%s' was already loaded inside the controller manager", name.c_str());
      return false;
    }
  }
""", """  // Checks that we're not duplicating controllers
  const bool duplicate = std::any_of(from.begin(), from.end(),
                                     [&name](const ControllerSpec& spec) { return spec.info.name == name; });
  if (duplicate)
  {
    ROS_ERROR("A controller named '%s' was already loaded inside the controller manager", name.c_str());
    return false;
  }

  // Copy all controllers from the 'from' list to the 'to' list
  for (const auto& controller : from)
    to.push_back(controller);
""")]),
'k_loader_for': (None, [(CM, """      auto it = controller_loaders_.begin();
      while (!c && it != controller_loaders_.end())
      {
        for (const auto& cur_type : (*it)->getDeclaredClasses()){
          if (type == cur_type){
            c = (*it)->createInstance(type);
          }
        }
        ++it;
      }
""", """      for (auto it = controller_loaders_.begin(); it != controller_loaders_.end() && !c; ++it)
      {
        const std::vector<std::string> declared = (*it)->getDeclaredClasses();
        for (size_t i = 0; i < declared.size(); ++i)
        {
          if (declared[i] == type)
            c = (*it)->createInstance(type);
        }
      }
""")]),
'k_loader_break': (None, [(CM, """      auto it = controller_loaders_.begin();
      while (!c && it != controller_loaders_.end())
      {
        for (const auto& cur_type : (*it)->getDeclaredClasses()){
          if (type == cur_type){
            c = (*it)->createInstance(type);
          }
        }
        ++it;
      }
""", """      for (const auto& loader : controller_loaders_)
      {
        if (c)
          break;
        for (const auto& cur_type : loader->getDeclaredClasses())
        {
          if (type == cur_type)
            c = loader->createInstance(type);
        }
      }
""")]),
'k_loader_break2': (None, [(CM, """      auto it = controller_loaders_.begin();
      while (!c && it != controller_loaders_.end())
      {
        for (const auto& cur_type : (*it)->getDeclaredClasses()){
          if (type == cur_type){
            c = (*it)->createInstance(type);
          }
        }
        ++it;
      }
""", """      for (const auto& loader : controller_loaders_)
      {
        for (const auto& cur_type : loader->getDeclaredClasses())
        {
          if (type == cur_type)
            c = loader->createInstance(type);
        }
        if (c)
          break;
      }
""")]),
'k_type_early': (None, [(CM, """  if (c_nh.getParam("type", type))
  {
    ROS_DEBUG("Constructing controller '%s' of type '%s'", name.c_str(), type.c_str());
""", """  if (!c_nh.getParam("type", type))
  {
    to.clear();
    ROS_ERROR("Could not load controller '%s' because the type was not specified. Did you load the controller configuration on the parameter server (namespace: '%s')?", name.c_str(), c_nh.getNamespace().c_str());
    return false;
  }
  else
  {
    ROS_DEBUG("Constructing controller '%s' of type '%s'", name.c_str(), type.c_str());
"""), (CM, """  else
  {
    ROS_ERROR("Could not load controller '%s' because the type was not specified. Did you load the controller configuration on the parameter server (namespace: '%s')?", name.c_str(), c_nh.getNamespace().c_str());
    to.clear();
    return false;
  }

""", "\n")]),
'k_init_direct': (None, [(CM, "  bool initialized;\n  controller_interface::ControllerBase::ClaimedResources", "  bool initialized = false;\n  controller_interface::ControllerBase::ClaimedResources"), (CM, """name.c_str(), e.what());
    initialized = false;
  }
  catch(...){
    ROS_ERROR("Exception thrown while initializing controller '%s'", name.c_str());
    initialized = false;
  }
""", """name.c_str(), e.what());
  }
  catch(...){
    ROS_ERROR("Exception thrown while initializing controller '%s'", name.c_str());
  }
""")]),
'k_unload_two': (None, [(CM, """  bool removed = false;
  for (const auto& controller : from)
  {
    if (controller.info.name == name){
      if (controller.c->isRunning()){
        to.clear();
        ROS_ERROR("Could not unload controller with name '%s' because it is still running",
                  name.c_str());
        return false;
      }
      removed = true;
    }
    else
      to.push_back(controller);
  }
""", """  bool removed = false;
  for (const auto& controller : from)
  {
    if (controller.info.name != name)
    {
      to.push_back(controller);
      continue;
    }
    if (controller.c->isRunning())
    {
      ROS_ERROR("Could not unload controller with name '%s' because it is still running",
                name.c_str());
      to.clear();
      return false;
    }
    removed = true;
  }
""")]),
'k_resolve_helper': (None, [(CM, """  controller_interface::ControllerBase* ct;
  // list all controllers to stop
  for (const auto& controller : stop_controllers)
  {
    ct = getControllerByName(controller);
    if (ct == nullptr){
      if (strictness ==  controller_manager_msgs::SwitchController::Request::STRICT){
        ROS_ERROR("Could not stop controller with name '%s' because no controller with this name exists",
                  controller.c_str());
        stop_request_.clear();
        return false;
      }
      else{
        ROS_DEBUG("Could not stop controller with name '%s' because no controller with this name exists",
                  controller.c_str());
      }
    }
    else{
      ROS_DEBUG("Found controller '%s' that needs to be stopped in list of controllers",
                controller.c_str());
      stop_request_.push_back(ct);
    }
  }
""", """  controller_interface::ControllerBase* ct;
  const bool strict = strictness == controller_manager_msgs::SwitchController::Request::STRICT;
  const auto resolve = [this, strict](const std::vector<std::string>& names, std::vector<controller_interface::ControllerBase*>& request) -> bool
  {
    for (const std::string& name : names)
    {
      controller_interface::ControllerBase* const found = getControllerByName(name);
      if (found != nullptr)
      {
        request.push_back(found);
      }
      else if (strict)
      {
        ROS_ERROR("No controller named '%s'", name.c_str());
        return false;
      }
    }
    return true;
  };
  // list all controllers to stop
  if (!resolve(stop_controllers, stop_request_))
  {
    stop_request_.clear();
    return false;
  }
""")]),
'k_stop_direct': (None, [(CM, "    ct = getControllerByName(controller);\n    if (ct == nullptr){\n      if (strictness ==  controller_manager_msgs::SwitchController::Request::STRICT){\n        ROS_ERROR(\"Could not stop", "    ct = getControllerByName(controller);\n    if (!ct){\n      if (controller_manager_msgs::SwitchController::Request::STRICT == strictness){\n        ROS_ERROR(\"Could not stop")]),
'k_conflict_inline': (None, [(CM, "  bool in_conflict = robot_hw_->checkForConflict(info_list);\n  if (in_conflict)\n", "  if (robot_hw_->checkForConflict(info_list))\n")]),
'k_addlist_expr': (None, [(CM, "    bool add_to_list = is_running;\n    if (in_stop_list)\n      add_to_list = false;\n    if (in_start_list)\n      add_to_list = true;\n\n    if (add_to_list)\n", "    if (in_start_list || (is_running && !in_stop_list))\n")]),
'k_switch_nested': (None, [(CM, "    if(is_running && in_stop_list && !in_start_list){ // running and real stop\n      switch_stop_list_.push_back(info);\n    }\n    else if(!is_running && !in_stop_list && in_start_list){ // start, but no restart\n      switch_start_list_.push_back(info);\n     }\n", "    if (in_stop_list != in_start_list)\n    {\n      if (is_running && in_stop_list)\n        switch_stop_list_.push_back(info);\n      if (!is_running && in_start_list)\n        switch_start_list_.push_back(info);\n    }\n")]),
'k_request_init': (None, [(CM, "  switch_params_.strictness = strictness;\n  switch_params_.start_asap = start_asap;\n  switch_params_.init_time = ros::Time::now();\n  switch_params_.timeout = timeout;\n  switch_params_.do_switch = true;\n", "  switch_params_.timeout = timeout;\n  switch_params_.init_time = ros::Time::now();\n  switch_params_.start_asap = start_asap;\n  switch_params_.strictness = strictness;\n  switch_params_.do_switch = true;\n")]),
'k_timeout_flip': (None, [(CM, "    if (diff.count() < timeout+1.0 || timeout == 0){\n        std::this_thread::sleep_for(std::chrono::microseconds(100));\n    } else {\n        ROS_DEBUG(\"Timed out while switching controllers. Exiting...\");\n        switch_params_.do_switch = false;\n        timed_out = true;\n        break;\n    }\n", "    const bool expired = timeout != 0 && diff.count() >= 1.0 + timeout;\n    if (expired)\n    {\n        ROS_DEBUG(\"Timed out while switching controllers. Exiting...\");\n        timed_out = true;\n        switch_params_.do_switch = false;\n        break;\n    }\n    std::this_thread::sleep_for(std::chrono::microseconds(100));\n")]),
'k_timeout_ret': (None, [(CM, "  if(timed_out){\n      ROS_DEBUG(\"Exited wait until switch is finished loop using non-ROS-time timeout\");\n      return false;\n  }\n  ROS_DEBUG(\"Successfully switched controllers\");\n  return true;\n", "  if (!timed_out)\n    ROS_DEBUG(\"Successfully switched controllers\");\n  return !timed_out;\n")]),
'k_asap_break': (None, [(CM, "            request->waitRequest(time);\n          }\n        }\n        continue;\n", "            request->waitRequest(time);\n          }\n          break;\n        }\n")]),
'k_asap_local': (None, [(CM, "          // ready to start\n          if (robot_hw_->switchResult(controller.info) == hardware_interface::RobotHW::SwitchState::DONE)\n", "          // ready to start\n          const auto& info = controller.info;\n          if (hardware_interface::RobotHW::SwitchState::DONE == robot_hw_->switchResult(info))\n")]),
'k_asap_noneof': (None, [(CM, "  if (std::all_of(start_request_.begin(), start_request_.end(),\n                  [](controller_interface::ControllerBase *request) {\n                    return request->isRunning() || request->isAborted();\n                  }))\n", "  if (std::none_of(start_request_.begin(), start_request_.end(),\n                   [](controller_interface::ControllerBase *request) {\n                     return !request->isRunning() && !request->isAborted();\n                   }))\n")]),
'k_start_switch': (None, [(CM, "  if (robot_hw_->switchResult() == hardware_interface::RobotHW::SwitchState::DONE)\n  {\n    for (const auto& request : start_request_)\n    {\n      request->startRequest(time);\n    }\n\n    switch_params_.do_switch = false;\n  }\n  // abort", "  const bool timed_out = switch_params_.timeout > 0.0 &&\n                         (time - switch_params_.init_time).toSec() > switch_params_.timeout;\n  if (robot_hw_->switchResult() == hardware_interface::RobotHW::SwitchState::DONE)\n  {\n    for (auto it = start_request_.begin(); it != start_request_.end(); ++it)\n      (*it)->startRequest(time);\n    switch_params_.do_switch = false;\n  }\n  // abort"), (CM, "           (switch_params_.timeout > 0.0 &&\n            (time - switch_params_.init_time).toSec() > switch_params_.timeout))\n  {\n    for (const auto& request : start_request_)\n", "           timed_out)\n  {\n    for (const auto& request : start_request_)\n")]),
'k_update_merge': (None, [(CM, "  if (reset_controllers){\n    for (const auto& controller : controllers_lists_[used_by_realtime_]){\n      if (controller.c->isRunning()){\n        controller.c->stopRequest(time);\n        controller.c->startRequest(time);\n      }\n    }\n  }\n", "  auto& active = controllers_lists_[used_by_realtime_];\n  for (size_t i = 0; reset_controllers && i < active.size(); ++i)\n  {\n    if (!active[i].c->isRunning())\n      continue;\n    active[i].c->stopRequest(time);\n    active[i].c->startRequest(time);\n  }\n")]),
'k_names_temp': (None, [(CM, "  names.clear();\n  for (const auto& controller : controllers_lists_[current_controllers_list_])\n  {\n    names.push_back(controller.info.name);\n  }\n", "  std::vector<std::string> result;\n  for (const auto& controller : controllers_lists_[current_controllers_list_])\n    result.emplace_back(controller.info.name);\n  names = result;\n")]),
'k_names_swap': (None, [(CM, "  names.clear();\n  for (const auto& controller : controllers_lists_[current_controllers_list_])\n  {\n    names.push_back(controller.info.name);\n  }\n", "  std::vector<std::string> result;\n  for (const auto& controller : controllers_lists_[current_controllers_list_])\n    result.push_back(controller.info.name);\n  names.swap(result);\n")]),
'k_list_local': (None, [(CM, "      controller_manager_msgs::HardwareInterfaceResources iface_res;\n      iface_res.hardware_interface = c_resource.hardware_interface;\n      std::copy(c_resource.resources.begin(), c_resource.resources.end(), std::back_inserter(iface_res.resources));\n      cs.claimed_resources.push_back(iface_res);\n", "      cs.claimed_resources.push_back(controller_manager_msgs::HardwareInterfaceResources());\n      cs.claimed_resources.back().hardware_interface = c_resource.hardware_interface;\n      for (const auto& resource : c_resource.resources)\n        cs.claimed_resources.back().resources.push_back(resource);\n")]),
'k_list_assign': (None, [(CM, "      std::copy(c_resource.resources.begin(), c_resource.resources.end(), std::back_inserter(iface_res.resources));\n", "      iface_res.resources.assign(c_resource.resources.begin(), c_resource.resources.end());\n")]),
'k_list_resized': (None, [(CM, "    for (const auto& c_resource : c_resources)\n    {\n      controller_manager_msgs::HardwareInterfaceResources iface_res;\n      iface_res.hardware_interface = c_resource.hardware_interface;\n      std::copy(c_resource.resources.begin(), c_resource.resources.end(), std::back_inserter(iface_res.resources));\n      cs.claimed_resources.push_back(iface_res);\n    }\n", "    cs.claimed_resources.resize(c_resources.size());\n    for (size_t k = 0; k < c_resources.size(); ++k)\n    {\n      cs.claimed_resources[k].hardware_interface = c_resources[k].hardware_interface;\n      cs.claimed_resources[k].resources.assign(c_resources[k].resources.begin(), c_resources[k].resources.end());\n    }\n")]),
'k_list_const': (None, [(CM, "    controller_manager_msgs::ControllerState& cs = resp.controller[i];\n    cs.name = controllers[i].info.name;\n    cs.type = controllers[i].info.type;\n", "    const auto& spec = controllers[i];\n    auto& cs = resp.controller.at(i);\n    cs.type = spec.info.type;\n    cs.name = spec.info.name;\n")]),
'k_types_direct': (None, [(CM, "    std::vector<std::string> cur_types = controller_loader->getDeclaredClasses();\n    for (const auto& cur_type : cur_types)\n    {\n      resp.types.push_back(cur_type);\n      resp.base_classes.push_back(controller_loader->getName());\n    }\n", "    const std::string base = controller_loader->getName();\n    for (const auto& cur_type : controller_loader->getDeclaredClasses())\n    {\n      resp.base_classes.push_back(base);\n      resp.types.push_back(cur_type);\n    }\n")]),
'k_reload_fail': (None, [(CM, "      if (!unloadController(controller)){\n        ROS_ERROR(\"Controller manager: Cannot reload controller libraries because failed to unload controller '%s'\",\n                  controller.c_str());\n        resp.ok = false;\n        return true;\n      }\n", "      resp.ok = unloadController(controller);\n      if (!resp.ok)\n      {\n        ROS_ERROR(\"Controller manager: Cannot reload controller libraries because failed to unload controller '%s'\",\n                  controller.c_str());\n        return true;\n      }\n")]),
'k_reload_nest': (None, [(CM, "  if (!controllers.empty() && !req.force_kill){\n    ROS_ERROR(\"Controller manager: Cannot reload controller libraries because there are still %i controllers running\", (int)controllers.size());\n    resp.ok = false;\n    return true;\n  }\n\n  // kill running controllers if requested\n  if (!controllers.empty()){\n", "  if (controllers.size() > 0){\n    // kill running controllers if requested\n    if (!req.force_kill)\n    {\n      resp.ok = false;\n      ROS_ERROR(\"Controller manager: Cannot reload controller libraries because there are still %i controllers running\", (int)controllers.size());\n      return true;\n    }\n")]),
'k_srv_local': (None, [(CM, "  resp.ok = switchController(req.start_controllers, req.stop_controllers, req.strictness,\n                             req.start_asap, req.timeout);\n", "  const bool switched = switchController(req.start_controllers, req.stop_controllers, req.strictness,\n                                         req.start_asap, req.timeout);\n  resp.ok = switched;\n")]),
'k_base_early': (None, [(CB, "    if (state_ != ControllerState::CONSTRUCTED)\n    {\n      starting(time);\n      state_ = ControllerState::RUNNING;\n      return true;\n    }\n    else\n    {\n      ROS_FATAL(\"Failed to start controller. It is not initialized.\");\n      return false;\n    }\n", "    if (ControllerState::CONSTRUCTED == state_)\n    {\n      ROS_FATAL(\"Failed to start controller. It is not initialized.\");\n      return false;\n    }\n    starting(time);\n    state_ = ControllerState::RUNNING;\n    return true;\n")]),
'k_base_helper': (None, [(CB, "    if (state_ != ControllerState::CONSTRUCTED)\n    {\n      stopping(time);\n      state_ = ControllerState::STOPPED;\n      return true;\n    }\n    else\n    {\n      ROS_FATAL(\"Failed to stop controller. It is not initialized.\");\n      return false;\n    }\n", "    const bool ready = ready_("'"stop"'");\n    if (ready)\n    {\n      stopping(time);\n      state_ = ControllerState::STOPPED;\n    }\n    return ready;\n"), (CB, "  ControllerState state_ = ControllerState::CONSTRUCTED;\n", "  ControllerState state_ = ControllerState::CONSTRUCTED;\n\nprivate:\n  bool ready_(const char* what) const\n  {\n    if (state_ != ControllerState::CONSTRUCTED)\n      return true;\n    ROS_FATAL(\"Failed to %s controller. It is not initialized.\", what);\n    return false;\n  }\n")]),
'k_base_switch': (None, [(CB, "    if (state_ == ControllerState::RUNNING)\n    {\n      update(time, period);\n    }\n", "    if (!isRunning())\n      return;\n    update(time, period);\n")]),
# ---- hardware interface
'k_rm_insert': (None, [(RM, "    typename ResourceMap::iterator it = resource_map_.find(handle.getName());\n    if (it == resource_map_.end())\n    {\n      resource_map_.insert(std::make_pair(handle.getName(), handle));\n    }\n    else\n    {\n      ROS_WARN_STREAM(\"Replacing previously registered handle '\" << handle.getName() << \"' in '\" +\n                      internal::demangledTypeName(*this) + \"'.\");\n      it->second = handle;\n    }\n", "    const std::string name = handle.getName();\n    auto result = resource_map_.insert(std::make_pair(name, handle));\n    if (!result.second)\n    {\n      ROS_WARN_STREAM(\"Replacing previously registered handle '\" << name << \"' in '\" +\n                      internal::demangledTypeName(*this) + \"'.\");\n      result.first->second = handle;\n    }\n")]),
'k_rm_erase': (None, [(RM, "    if (it == resource_map_.end())\n    {\n      resource_map_.insert(std::make_pair(handle.getName(), handle));\n    }\n    else\n    {\n", "    const bool known = it != resource_map_.end();\n    if (!known)\n    {\n      resource_map_.emplace(handle.getName(), handle);\n    }\n    if (known)\n    {\n")]),
'k_rm_at': (None, [(RM, "    typename ResourceMap::const_iterator it = resource_map_.find(name);\n\n    if (it == resource_map_.end())\n    {\n", "    const auto it = resource_map_.find(name);\n    const bool found = it != resource_map_.end();\n    if (!found)\n    {\n")]),
'k_rm_names': (None, [(RM, "    for (const auto& resource_name_and_handle : resource_map_)\n    {\n      out.push_back(resource_name_and_handle.first);\n    }\n    return out;\n", "    for (auto it = resource_map_.cbegin(); it != resource_map_.cend(); ++it)\n      out.emplace_back(it->first);\n    return out;\n")]),
'k_rm_transform': (None, [(RM, "    for (const auto& resource_name_and_handle : resource_map_)\n    {\n      out.push_back(resource_name_and_handle.first);\n    }\n    return out;\n", "    std::transform(resource_map_.begin(), resource_map_.end(), std::back_inserter(out),\n                   [](const typename ResourceMap::value_type& entry) { return entry.first; });\n    return out;\n")]),
'k_rm_concat': (None, [(RM, "    for (const auto& manager : managers) {\n      for (const auto& handle_name : manager->getNames()) {\n        result->registerHandle(manager->getHandle(handle_name));\n      }\n    }\n", "    for (size_t i = 0; i < managers.size(); ++i)\n    {\n      const std::vector<std::string> names = managers[i]->getNames();\n      for (size_t j = 0; j != names.size(); ++j)\n        result->registerHandle(managers[i]->getHandle(names[j]));\n    }\n")]),
'k_hrm_scope': (None, [(HRM, "    try\n    {\n      ResourceHandle out = this->ResourceManager<ResourceHandle>::getHandle(name);\n\n", "    try\n    {\n      const ResourceHandle out(ResourceManager<ResourceHandle>::getHandle(name));\n")]),
'k_im_insert': (None, [(IM, "    if (interfaces_.find(iface_name) != interfaces_.end())\n", "    if (interfaces_.count(iface_name) > 0)\n")]),
'k_im_empty': (None, [(IM, "    if(iface_list.size() == 0)\n      return nullptr;\n\n    if(iface_list.size() == 1)\n      return iface_list.front();\n", "    if (iface_list.empty())\n      return nullptr;\n    if (iface_list.size() < 2)\n      return iface_list[0];\n")]),
'k_im_combo': (None, [(IM, "    T* iface_combo;\n    InterfaceMap::iterator it_combo", "    T* iface_combo = nullptr;\n    InterfaceMap::iterator it_combo"), (IM, "      } else {\n        // Multiple interfaces of the same type which are not ResourceManager cannot be combined, so return\n        // nullptr\n        iface_combo = nullptr;\n      }\n", "      }\n")]),
'k_im_combo_ret': (None, [(IM, """        num_ifaces_registered_[type_name] == iface_list.size()) {
      // there exists""", """        num_ifaces_registered_[type_name] == iface_list.size()) {
      return static_cast<T*>(it_combo->second);
      // there exists"""), (IM, "      iface_combo = static_cast<T*>(it_combo->second);\n    } else {\n", "    } else {\n")]),
'k_im_names': (None, [(IM, "      for (const auto& interface_name : interface_manager->getNames())\n      {\n        if (std::find(out.begin(), out.end(), interface_name) == out.end())\n        {\n          out.push_back(interface_name);\n        }\n      }\n", "      const std::vector<std::string> names = interface_manager->getNames();\n      for (const auto& interface_name : names)\n      {\n        const bool listed = std::count(out.begin(), out.end(), interface_name) > 0;\n        if (!listed)\n          out.push_back(interface_name);\n      }\n")]),
'k_im_res': (None, [(IM, "      std::vector<std::string> resources = interface_manager->getInterfaceResources(iface_type);\n      out.insert(out.end(), resources.begin(), resources.end());\n", "      for (const auto& resource : interface_manager->getInterfaceResources(iface_type))\n        out.push_back(resource);\n")]),
'k_im_res_it': (None, [(IM, "    std::vector<std::string> out;\n    ResourceMap::const_iterator it = resources_.find(iface_type);\n    if(it != resources_.end())\n    {\n      out = it->second;\n    }\n", "    const auto it = resources_.find(iface_type);\n    std::vector<std::string> out = it != resources_.end() ? it->second : std::vector<std::string>();\n")]),
# ---- combined robot
'k_cr_load_allof': (None, [(CR, "    for (const auto& robot : robots)\n    {\n      if (!loadRobotHW(robot))\n      {\n        return false;\n      }\n    }\n    return true;\n  }\n\n  bool CombinedRobotHW::prepareSwitch", "    bool ok = true;\n    for (size_t i = 0; i < robots.size(); ++i)\n    {\n      ok = loadRobotHW(robots[i]);\n      if (!ok)\n        break;\n    }\n    return ok;\n  }\n\n  bool CombinedRobotHW::prepareSwitch")]),
'k_cr_prepare_and': (None, [(CR, "      if (!robot_hw->prepareSwitch(filtered_start_list, filtered_stop_list))\n        return false;\n    }\n    return true;\n", "      const bool accepted = robot_hw->prepareSwitch(filtered_start_list, filtered_stop_list);\n      if (accepted)\n        continue;\n      return false;\n    }\n    return true;\n")]),
'k_cr_result_switch': (None, [(CR, "      const SwitchState state = robot_hw->switchResult();\n      if (state == SwitchState::ERROR)\n        return SwitchState::ERROR;\n      if (state == SwitchState::ONGOING)\n        result = SwitchState::ONGOING;\n", "      switch (robot_hw->switchResult())\n      {\n        case SwitchState::ERROR:\n          return SwitchState::ERROR;\n        case SwitchState::ONGOING:\n          result = SwitchState::ONGOING;\n          break;\n        default:\n          break;\n      }\n")]),
'k_cr_result_flag': (None, [(CR, "    SwitchState result = SwitchState::DONE;\n    for (const auto& robot_hw : robot_hw_list_)\n    {\n      const SwitchState state = robot_hw->switchResult();\n      if (state == SwitchState::ERROR)\n        return SwitchState::ERROR;\n      if (state == SwitchState::ONGOING)\n        result = SwitchState::ONGOING;\n    }\n    return result;\n", "    bool ongoing = false;\n    for (const auto& robot_hw : robot_hw_list_)\n    {\n      const SwitchState state = robot_hw->switchResult();\n      if (state == SwitchState::ERROR)\n        return state;\n      ongoing = ongoing || state == SwitchState::ONGOING;\n    }\n    return ongoing ? SwitchState::ONGOING : SwitchState::DONE;\n")]),
'k_cr_filter_hoist': (None, [(CR, "    filtered_list.clear();\n    for (const auto& controller : list)\n", "    filtered_list.clear();\n    const std::vector<std::string> known_ifaces = robot_hw->getNames();\n    for (const auto& controller : list)\n"), (CR, "        std::vector<std::string> r_hw_ifaces = robot_hw->getNames();\n\n        auto const if_name = std::find(r_hw_ifaces.begin(), r_hw_ifaces.end(), filtered_iface_resources.hardware_interface);\n        if (if_name == r_hw_ifaces.end())", "        if (std::find(known_ifaces.begin(), known_ifaces.end(), claimed_resource.hardware_interface) == known_ifaces.end())")]),
'k_cr_filter_count': (None, [(CR, "          std::vector<std::string>::iterator res_name = std::find(r_hw_iface_resources.begin(), r_hw_iface_resources.end(), resource);\n          if (res_name != r_hw_iface_resources.end())\n          {\n            filtered_resources.insert(resource);\n          }\n", "          if (std::count(r_hw_iface_resources.begin(), r_hw_iface_resources.end(), resource) != 0)\n            filtered_resources.insert(filtered_resources.end(), resource);\n")]),
'k_cr_filter_nested': (None, [(CR, "        if (if_name == r_hw_ifaces.end()) // this hardware_interface is not registered in r_hw, so we filter it out\n        {\n          continue;\n        }\n\n        std::vector<std::string> r_hw_iface_resources = robot_hw->getInterfaceResources(filtered_iface_resources.hardware_interface);\n", "        std::vector<std::string> r_hw_iface_resources;\n        if (if_name != r_hw_ifaces.end())\n          r_hw_iface_resources = robot_hw->getInterfaceResources(filtered_iface_resources.hardware_interface);\n")]),
'k_cr_filter_back': (None, [(CR, "        if (!filtered_resources.empty())\n        {\n          filtered_iface_resources.resources = filtered_resources;\n          filtered_controller.claimed_resources.push_back(filtered_iface_resources);\n        }\n", "        if (filtered_resources.empty())\n          continue;\n        filtered_controller.claimed_resources.push_back(filtered_iface_resources);\n        filtered_controller.claimed_resources.back().resources = filtered_resources;\n")]),
'k_cr_load_break': (None, [(CR, "    hardware_interface::RobotHWSharedPtr robot_hw;\n    std::string type;\n    if (c_nh.getParam(\"type\", type))\n    {\n", "    std::string type;\n    hardware_interface::RobotHWSharedPtr robot_hw;\n    const bool has_type = c_nh.getParam(\"type\", type);\n    if (has_type)\n    {\n")]),
'k_cr_read_it': (None, [(CR, "    for (const auto& robot_hw : robot_hw_list_)\n    {\n      robot_hw->read(time, period);\n    }\n", "    std::for_each(robot_hw_list_.begin(), robot_hw_list_.end(),\n                  [&](const hardware_interface::RobotHWSharedPtr& robot_hw) { robot_hw->read(time, period); });\n")]),
'k_cr_write_idx': (None, [(CR, "    for (const auto& robot_hw : robot_hw_list_)\n    {\n      robot_hw->write(time, period);\n    }\n", "    const size_t n = robot_hw_list_.size();\n    for (size_t i = 0; i < n; ++i)\n      robot_hw_list_[i]->write(time, period);\n")]),
}
