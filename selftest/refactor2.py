COMB = 'combined_robot_hw/src/combined_robot_hw.cpp'
COMBH = 'combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h'
HI = 'hardware_interface/include/hardware_interface/'
IMF = HI + 'internal/interface_manager.h'
RMF = HI + 'internal/resource_manager.h'
HRM = HI + 'internal/hardware_resource_manager.h'
RHW = HI + 'robot_hw.h'
CI = 'controller_interface/include/controller_interface/'
EDITS = {
'f_init_allof': (None, [(COMB, '''    for (const auto& robot : robots)
    {
      if (!loadRobotHW(robot))
      {
        return false;
      }
    }
    return true;''', '''    return std::all_of(robots.begin(), robots.end(), [this](const std::string& robot) { return loadRobotHW(robot); });''')]),
'f_init_index': (None, [(COMB, '''    for (const auto& robot : robots)
    {
      if (!loadRobotHW(robot))
      {
        return false;
      }
    }
    return true;''', '''    bool ok = true;
    for (std::size_t i = 0; ok && i < robots.size(); ++i)
      ok = loadRobotHW(robots[i]);
    return ok;''')]),
'f_prepare_iter': (None, [(COMB, '''      if (!robot_hw->prepareSwitch(filtered_start_list, filtered_stop_list))
        return false;
    }
    return true;
  }
  void CombinedRobotHW::doSwitch''', '''      const bool feasible = robot_hw->prepareSwitch(filtered_start_list, filtered_stop_list);
      if (feasible)
        continue;
      return false;
    }
    return true;
  }
  void CombinedRobotHW::doSwitch''')]),
'f_prepare_order': (None, [(COMB, '''      filterControllerList(start_list, filtered_start_list, robot_hw);
      filterControllerList(stop_list, filtered_stop_list, robot_hw);
      if (!robot_hw''', '''      filterControllerList(stop_list, filtered_stop_list, robot_hw);
      filterControllerList(start_list, filtered_start_list, robot_hw);
      if (!robot_hw''')]),
'f_filter_byvalue': (None, [(COMB, '''      filterControllerList(start_list, filtered_start_list, robot_hw);
      filterControllerList(stop_list, filtered_stop_list, robot_hw);
      robot_hw->doSwitch(filtered_start_list, filtered_stop_list);''', '''      filterControllerList(start_list, filtered_start_list, robot_hw);
      filterControllerList(stop_list, filtered_stop_list, robot_hw);
      hardware_interface::RobotHW& hw = *robot_hw;
      hw.doSwitch(filtered_start_list, filtered_stop_list);''')]),
'f_filter_returns': (None, [
 (COMBH, '''    void filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                              std::list<hardware_interface::ControllerInfo>& filtered_list,
                              hardware_interface::RobotHWSharedPtr robot_hw);''', '''    std::list<hardware_interface::ControllerInfo> filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                              const hardware_interface::RobotHWSharedPtr& robot_hw) const;'''),
 (COMB, '''      std::list<hardware_interface::ControllerInfo> filtered_start_list;
      std::list<hardware_interface::ControllerInfo> filtered_stop_list;
      filterControllerList(start_list, filtered_start_list, robot_hw);
      filterControllerList(stop_list, filtered_stop_list, robot_hw);
      if (!robot_hw''', '''      const auto filtered_start_list = filterControllerList(start_list, robot_hw);
      const auto filtered_stop_list = filterControllerList(stop_list, robot_hw);
      if (!robot_hw'''),
 (COMB, '''      std::list<hardware_interface::ControllerInfo> filtered_start_list;
      std::list<hardware_interface::ControllerInfo> filtered_stop_list;
      filterControllerList(start_list, filtered_start_list, robot_hw);
      filterControllerList(stop_list, filtered_stop_list, robot_hw);
      robot_hw->doSwitch''', '''      const auto filtered_start_list = filterControllerList(start_list, robot_hw);
      const auto filtered_stop_list = filterControllerList(stop_list, robot_hw);
      robot_hw->doSwitch'''),
 (COMB, '''  void CombinedRobotHW::filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                                             std::list<hardware_interface::ControllerInfo>& filtered_list,
                                             hardware_interface::RobotHWSharedPtr robot_hw)
  {
    filtered_list.clear();''', '''  std::list<hardware_interface::ControllerInfo> CombinedRobotHW::filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                                             const hardware_interface::RobotHWSharedPtr& robot_hw) const
  {
    std::list<hardware_interface::ControllerInfo> filtered_list;'''),
 (COMB, '''      if (!filtered_controller.claimed_resources.empty())
      {
        filtered_list.push_back(filtered_controller);
      }
    }
  }''', '''      if (!filtered_controller.claimed_resources.empty())
      {
        filtered_list.push_back(filtered_controller);
      }
    }
    return filtered_list;
  }''')]),
'f_filter_helper': (None, [(COMB, '''        std::set<std::string> filtered_resources;
        for (const auto& resource : claimed_resource.resources)
        {
          std::vector<std::string>::iterator res_name = std::find(r_hw_iface_resources.begin(), r_hw_iface_resources.end(), resource);
          if (res_name != r_hw_iface_resources.end())
          {
            filtered_resources.insert(resource);
          }
        }''', '''        const std::set<std::string> filtered_resources = intersection(claimed_resource.resources, r_hw_iface_resources);'''),
 (COMB, '''  bool CombinedRobotHW::init(''', '''  static std::set<std::string> intersection(const std::set<std::string>& wanted, const std::vector<std::string>& available)
  {
    std::set<std::string> out;
    for (const std::string& w : wanted)
    {
      if (std::count(available.begin(), available.end(), w) > 0)
        out.insert(w);
    }
    return out;
  }
  bool CombinedRobotHW::init(''')]),
'f_filter_hoist': (None, [(COMB, '''        std::vector<std::string> r_hw_ifaces = robot_hw->getNames();
        auto const''', '''        auto const'''), (COMB, '''    filtered_list.clear();
    for (const auto& controller : list)
    {''', '''    filtered_list.clear();
    const std::vector<std::string> r_hw_ifaces = robot_hw->getNames();
    for (const auto& controller : list)
    {''')]),
'f_filter_direct': (None, [(COMB, '''        std::set<std::string> filtered_resources;
''', '''        std::set<std::string>& filtered_resources = filtered_iface_resources.resources;
'''), (COMB, '''          filtered_iface_resources.resources = filtered_resources;
''', '')]),
'f_filter_elseif': (None, [(COMB, '''      if (controller.claimed_resources.empty())
      {
        filtered_list.push_back(filtered_controller);
        continue;
      }
''', ''), (COMB, '''      if (!filtered_controller.claimed_resources.empty())
      {
        filtered_list.push_back(filtered_controller);
      }
    }
  }''', '''      if (controller.claimed_resources.empty() || !filtered_controller.claimed_resources.empty())
      {
        filtered_list.push_back(filtered_controller);
      }
    }
  }''')]),
'f_switchresult_merge': (None, [(COMB, '''    SwitchState result = SwitchState::DONE;
    for (const auto& robot_hw : robot_hw_list_)
    {
      const SwitchState state = robot_hw->switchResult();
      if (state == SwitchState::ERROR)
        return SwitchState::ERROR;
      if (state == SwitchState::ONGOING)
        result = SwitchState::ONGOING;
    }
    return result;''', '''    bool ongoing = false;
    for (const auto& robot_hw : robot_hw_list_)
    {
      switch (robot_hw->switchResult())
      {
        case SwitchState::ERROR:
          return SwitchState::ERROR;
        case SwitchState::ONGOING:
          ongoing = true;
          break;
        case SwitchState::DONE:
          break;
      }
    }
    return ongoing ? SwitchState::ONGOING : SwitchState::DONE;''')]),
'f_load_helper': (None, [(COMB, '''      try
      {
        for (const auto& cur_type : robot_hw_loader_.getDeclaredClasses())
        {
          if (type == cur_type)
          {
            robot_hw = robot_hw_loader_.createUniqueInstance(type);
          }
        }
      }''', '''      try
      {
        const std::vector<std::string> declared = robot_hw_loader_.getDeclaredClasses();
        for (std::size_t k = 0; k < declared.size(); ++k)
        {
          if (declared[k] != type)
            continue;
          robot_hw = robot_hw_loader_.createUniqueInstance(type);
        }
      }''')]),
'f_load_initflag': (None, [(COMB, '''    bool initialized;
    try
    {
      initialized = robot_hw->init(root_nh_, c_nh);
    }''', '''    bool initialized = false;
    try
    {
      initialized = robot_hw->init(root_nh_, c_nh);
    }'''), (COMB, '''      ROS_ERROR("Exception thrown while initializing robot HW %s.\\n%s", name.c_str(), e.what());
      initialized = false;
''', '''      ROS_ERROR("Exception thrown while initializing robot HW %s.\\n%s", name.c_str(), e.what());
'''), (COMB, '''      ROS_ERROR("Exception thrown while initializing robot HW %s", name.c_str());
      initialized = false;
''', '''      ROS_ERROR("Exception thrown while initializing robot HW %s", name.c_str());
''')]),
'f_read_iter': (None, [(COMB, '''    for (const auto& robot_hw : robot_hw_list_)
    {
      robot_hw->read(time, period);
    }''', '''    std::for_each(robot_hw_list_.begin(), robot_hw_list_.end(), [&](const hardware_interface::RobotHWSharedPtr& hw) { hw->read(time, period); });''')]),
'g_registerIface_count': (None, [(IMF, '''    if (interfaces_.find(iface_name) != interfaces_.end())
    {
      ROS_WARN''', '''    if (interfaces_.count(iface_name) > 0)
    {
      ROS_WARN''')]),
'g_registerIface_emplace': (None, [(IMF, '''    const std::string iface_name = internal::demangledTypeName<T>();
    if (interfaces_.find(iface_name) != interfaces_.end())
    {
      ROS_WARN_STREAM("Replacing previously registered interface '" << iface_name << "'.");
    }
    interfaces_[iface_name] = iface;''', '''    const std::string iface_name = internal::demangledTypeName<T>();
    auto found = interfaces_.find(iface_name);
    if (found == interfaces_.end())
    {
      interfaces_.insert(std::make_pair(iface_name, static_cast<void*>(iface)));
    }
    else
    {
      ROS_WARN_STREAM("Replacing previously registered interface '" << iface_name << "'.");
      found->second = iface;
    }''')]),
'g_get_switch': (None, [(IMF, '''    if(iface_list.size() == 0)
      return nullptr;
    if(iface_list.size() == 1)
      return iface_list.front();''', '''    if (iface_list.empty())
      return nullptr;
    if (iface_list.size() < 2)
      return iface_list[0];''')]),
'g_get_early': (None, [(IMF, '''    T* iface_combo;
    InterfaceMap::iterator it_combo = interfaces_combo_.find(type_name);
    if(it_combo != interfaces_combo_.end() &&
        num_ifaces_registered_[type_name] == iface_list.size()) {
      iface_combo = static_cast<T*>(it_combo->second);
    } else {
      iface_combo = internal::CheckIsResourceManager<T>::newCombinedInterface(interface_destruction_list_);
      if(iface_combo) {
        internal::CheckIsResourceManager<T>::callConcatManagers(iface_list, iface_combo);
        interfaces_combo_[type_name] = iface_combo;
        num_ifaces_registered_[type_name] = iface_list.size();
      } else {
        iface_combo = nullptr;
      }
    }
    return iface_combo;''', '''    InterfaceMap::iterator it_combo = interfaces_combo_.find(type_name);
    if(it_combo != interfaces_combo_.end() &&
        num_ifaces_registered_[type_name] == iface_list.size())
      return static_cast<T*>(it_combo->second);
    T* iface_combo = internal::CheckIsResourceManager<T>::newCombinedInterface(interface_destruction_list_);
    if (!iface_combo)
      return nullptr;
    internal::CheckIsResourceManager<T>::callConcatManagers(iface_list, iface_combo);
    num_ifaces_registered_[type_name] = iface_list.size();
    interfaces_combo_[type_name] = iface_combo;
    return iface_combo;''')]),
'g_getNames_nested': (None, [(IMF, '''      for (const auto& interface_name : interface_manager->getNames())
      {
        if (std::find(out.begin(), out.end(), interface_name) == out.end())
        {
          out.push_back(interface_name);
        }
      }''', '''      const std::vector<std::string> names = interface_manager->getNames();
      for (std::vector<std::string>::const_iterator n = names.begin(); n != names.end(); ++n)
      {
        const bool known = std::find(out.begin(), out.end(), *n) != out.end();
        if (!known)
          out.push_back(*n);
      }''')]),
'g_ifres_loop': (None, [(IMF, '''      std::vector<std::string> resources = interface_manager->getInterfaceResources(iface_type);
      out.insert(out.end(), resources.begin(), resources.end());''', '''      for (const std::string& resource : interface_manager->getInterfaceResources(iface_type))
        out.push_back(resource);''')]),
'g_regHandle': (None, [(RMF, '''    typename ResourceMap::iterator it = resource_map_.find(handle.getName());
    if (it == resource_map_.end())
    {
      resource_map_.insert(std::make_pair(handle.getName(), handle));
    }
    else
    {''', '''    typename ResourceMap::iterator it = resource_map_.find(handle.getName());
    if (it == resource_map_.end())
    {
      resource_map_.emplace(handle.getName(), handle);
    }
    else
    {''')]),
'g_getHandle': (None, [(RMF, '''    typename ResourceMap::const_iterator it = resource_map_.find(name);
    if (it == resource_map_.end())
    {
      throw std::logic_error("Could not find resource '" + name + "' in '" +
                             internal::demangledTypeName(*this) + "'.");
    }
    return it->second;''', '''    typename ResourceMap::const_iterator it = resource_map_.find(name);
    if (it != resource_map_.end())
      return it->second;
    throw std::logic_error("Could not find resource '" + name + "' in '" +
                             internal::demangledTypeName(*this) + "'.");''')]),
'g_concat': (None, [(RMF, '''    for (const auto& manager : managers) {
      for (const auto& handle_name : manager->getNames()) {
        result->registerHandle(manager->getHandle(handle_name));
      }
    }''', '''    for (ResourceManagerType* manager : managers) {
      const std::vector<std::string> names = manager->getNames();
      for (std::size_t k = 0; k != names.size(); ++k) {
        const ResourceHandle handle = manager->getHandle(names[k]);
        result->registerHandle(handle);
      }
    }''')]),
'g_names_transform': (None, [(RMF, '''    out.reserve(resource_map_.size());
    for (const auto& resource_name_and_handle : resource_map_)
    {
      out.push_back(resource_name_and_handle.first);
    }
    return out;''', '''    for (typename ResourceMap::const_iterator it = resource_map_.begin(); it != resource_map_.end(); ++it)
    {
      out.push_back(it->first);
    }
    return out;''')]),
'g_hrm_trysmall': (None, [(HRM, '''    try
    {
      ResourceHandle out = this->ResourceManager<ResourceHandle>::getHandle(name);
      ClaimPolicy::claim(this, name);
      return out;
    }
    catch(const std::logic_error& e)
    {
      throw HardwareInterfaceException(e.what());
    }''', '''    ResourceHandle out = lookup(name);
    ClaimPolicy::claim(this, name);
    return out;'''), (HRM, '''  ResourceHandle getHandle(const std::string& name)
  {''', '''  ResourceHandle lookup(const std::string& name)
  {
    try
    {
      return this->ResourceManager<ResourceHandle>::getHandle(name);
    }
    catch(const std::logic_error& e)
    {
      throw HardwareInterfaceException(e.what());
    }
  }
  ResourceHandle getHandle(const std::string& name)
  {''')]),
'g_conflict_count': (None, [(RHW, '''    std::map<std::string, std::list<ControllerInfo>> resource_map;
    for (const auto& controller_info : info)
    {
      for (const auto& claimed_resource : controller_info.claimed_resources)
      {
        for (const auto& iface_resource : claimed_resource.resources)
        {
          resource_map[iface_resource].push_back(controller_info);
        }
      }
    }
    bool in_conflict = false;
    for (const auto& resource_name_and_claiming_controllers : resource_map)
    {
      if (resource_name_and_claiming_controllers.second.size() > 1)
      {
        std::string controller_list;
        for (const auto& controller : resource_name_and_claiming_controllers.second)
          controller_list += controller.name + ", ";
        ROS_WARN("Resource conflict on [%s].  Controllers = [%s]", resource_name_and_claiming_controllers.first.c_str(), controller_list.c_str());
        in_conflict = true;
      }
    }
    return in_conflict;''', '''    std::map<std::string, std::vector<std::string>> claimants;
    for (const auto& controller_info : info)
    {
      for (const auto& claimed_resource : controller_info.claimed_resources)
      {
        for (const auto& iface_resource : claimed_resource.resources)
        {
          claimants[iface_resource].push_back(controller_info.name);
        }
      }
    }
    bool in_conflict = false;
    for (const auto& claimed : claimants)
    {
      if (claimed.second.size() <= 1)
        continue;
      in_conflict = true;
      std::string controller_list;
      for (const auto& name : claimed.second)
        controller_list += name + ", ";
      ROS_WARN("Resource conflict on [%s].  Controllers = [%s]", claimed.first.c_str(), controller_list.c_str());
    }
    return in_conflict;''')]),
'g_conflict_counter': (None, [(RHW, '''    bool in_conflict = false;
    for (const auto& resource_name''', '''    int conflicts = 0;
    for (const auto& resource_name'''), (RHW, '''        in_conflict = true;
      }
    }
    return in_conflict;''', '''        ++conflicts;
      }
    }
    return conflicts > 0;''')]),
'h_ctrl_split': (None, [(CI + 'controller.h', '''    if (!init(hw, controller_nh) || !init(hw, root_nh, controller_nh))
    {
      ROS_ERROR("Failed to initialize the controller");
      return false;
    }''', '''    bool ok = init(hw, controller_nh);
    if (ok)
      ok = init(hw, root_nh, controller_nh);
    if (!ok)
    {
      ROS_ERROR("Failed to initialize the controller");
      return false;
    }''')]),
'h_ctrl_claims': (None, [(CI + 'controller.h', '''    hardware_interface::InterfaceResources iface_res(getHardwareInterfaceType(), hw->getClaims());
    claimed_resources.assign(1, iface_res);
    hw->clearClaims();''', '''    claimed_resources.clear();
    claimed_resources.push_back(hardware_interface::InterfaceResources(getHardwareInterfaceType(), hw->getClaims()));
    hw->clearClaims();''')]),
'h_ctrl_claims2': (None, [(CI + 'controller.h', '''    hardware_interface::InterfaceResources iface_res(getHardwareInterfaceType(), hw->getClaims());
    claimed_resources.assign(1, iface_res);''', '''    hardware_interface::InterfaceResources iface_res;
    iface_res.hardware_interface = getHardwareInterfaceType();
    iface_res.resources = hw->getClaims();
    claimed_resources = ClaimedResources(1, iface_res);''')]),
'h_multi_required': (None, [(CI + 'multi_interface_controller.h', '''    if (!allow_optional_interfaces_ && !hasRequiredInterfaces(robot_hw)) {return false;}''', '''    if (!allow_optional_interfaces_)
    {
      const bool available = hasRequiredInterfaces(robot_hw);
      if (!available)
        return false;
    }''')]),
'h_multi_inlined': (None, [(CI + 'multi_interface_controller.h', '''    claimed_resources.clear();
    populateClaimedResources(robot_hw_ctrl_p, claimed_resources);
    clearClaims(robot_hw_ctrl_p);''', '''    ClaimedResources claims;
    internal::populateClaimedResources<T...>(robot_hw_ctrl_p, claims);
    internal::clearClaims<T...>(robot_hw_ctrl_p);
    claimed_resources = claims;''')]),
'h_multi_swap': (None, [(CI + 'internal/robothw_interfaces.h', '''  T* hw = robot_hw->get<T>();
  if (hw)
  {
    hardware_interface::InterfaceResources iface_res;
    iface_res.hardware_interface = hardware_interface::internal::demangledTypeName<T>();
    iface_res.resources = hw->getClaims();
    claimed_resources.push_back(iface_res);
  }''', '''  T* hw = robot_hw->get<T>();
  if (!hw)
    return;
  claimed_resources.push_back(hardware_interface::InterfaceResources(hardware_interface::internal::demangledTypeName<T>(), hw->getClaims()));''')]),
'h_base_common': (None, [(CI + 'controller_base.h', '''    if (state_ != ControllerState::CONSTRUCTED)
    {
      starting(time);
      state_ = ControllerState::RUNNING;
      return true;
    }
    else
    {
      ROS_FATAL("Failed to start controller. It is not initialized.");
      return false;
    }''', '''    if (state_ == ControllerState::CONSTRUCTED)
    {
      ROS_FATAL("Failed to start controller. It is not initialized.");
      return false;
    }
    starting(time);
    state_ = ControllerState::RUNNING;
    return true;''')]),
'h_base_isrunning': (None, [(CI + 'controller_base.h', '''    if (state_ == ControllerState::RUNNING)
    {
      update(time, period);
    }''', '''    if (!isRunning())
      return;
    update(time, period);''')]),
}
