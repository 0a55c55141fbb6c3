CM = 'controller_manager/src/controller_manager.cpp'
SEEDS = {}
def S(id, property, needs, breaks, edits, demo, kind='cm', **k): SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, kind=kind, **k)
H = '#include "cm_demo.h"\n'
S('c01_init_throw', 'C01', 'a controller whose initialisation throws something that is not derived from std::exception',
  'loadController keeps a controller whose initialisation threw and reports success',
  [(CM, '  bool initialized;\n', '  bool initialized = true;\n'),
   (CM, '''    ROS_ERROR("Exception thrown while initializing controller '%s'", name.c_str());
    initialized = false;
''', '''    ROS_ERROR("Exception thrown while initializing controller '%s'", name.c_str());
''')],
  H + '''int main() { World w;
  CHECK(w.load("a"));
  Ctrl::init_fails()["x"] = 1; CHECK(!w.load("x"));
  Ctrl::init_fails()["y"] = 2; CHECK(!w.load("y"));
  Ctrl::init_fails()["z"] = 3; CHECK(!w.load("z"));
  CHECK(w.get("z") == nullptr); CHECK(w.get("a") != nullptr);
  return finish(); }
''')
S('c01_dup_last', 'C01', 'loading a name that is in use, where the name belongs to the last of several loaded controllers',
  'the duplicate check skips the most recently loaded controller, so a second controller of the same name can be loaded',
  [(CM, '''  // Checks that we're not duplicating controllers
  for (const auto& controller : to)
  {
    if (controller.info.name == name)''', '''  // Checks that we're not duplicating controllers
  for (size_t i = 0; i + 1 < std::max<size_t>(to.size(), 2) && i < to.size(); ++i)
  {
    const auto& controller = to[i];
    if (controller.info.name == name)''')],
  H + '''int main() { World w;
  CHECK(w.load("a")); CHECK(!w.load("a")); CHECK(w.load("b")); CHECK(!w.load("a"));
  CHECK(!w.load("b"));
  controller_manager_msgs::ListControllers m; ros::stub_services()["/controller_manager/list_controllers"](&m.request, &m.response);
  CHECK(m.response.controller.size() == 2);
  return finish(); }
''')
S('c02_unload_prefix', 'C02', 'two controllers, the first one running, and the second one unloaded while the first comes earlier in the list',
  'unloading a stopped controller fails when an earlier loaded controller is running and has a name that starts with the unloaded name',
  [(CM, '''    if (controller.info.name == name){
      if (controller.c->isRunning()){''', '''    if (controller.info.name.compare(0, name.size(), name) == 0){
      if (controller.c->isRunning()){''')],
  H + '''int main() { World w;
  CHECK(w.load("arm_left")); CHECK(w.load("arm")); CHECK(w.load("leg"));
  CHECK(w.sw({"arm_left"}, {}));
  CHECK(w.cm.unloadController("arm")); CHECK(w.get("arm_left") != nullptr); CHECK(w.get("leg") != nullptr);
  CHECK(w.sw({}, {"arm_left"})); CHECK(w.load("arm")); CHECK(w.cm.unloadController("arm"));
  CHECK(w.get("arm_left") != nullptr);
  return finish(); }
''')
S('c03_unload_nowait', 'C03', 'the realtime loop being inside an update of the old list while a controller is unloaded',
  'unloadController compares the realtime marker with the new list instead of the old one and clears the list the realtime loop is iterating',
  [(CM, '''  ROS_DEBUG("Realtime switches over to new controller list");
  int former_current_controllers_list_ = current_controllers_list_;
  current_controllers_list_ = free_controllers_list;''', '''  ROS_DEBUG("Realtime switches over to new controller list");
  current_controllers_list_ = free_controllers_list;
  int former_current_controllers_list_ = current_controllers_list_;''')],
  H + '''int main() { World w(false);
  std::atomic<bool> stepping{true}; std::atomic<bool> gate{false}, inside{false};
  std::thread rt([&] { while (stepping) { w.cycle(); std::this_thread::sleep_for(std::chrono::microseconds(200)); } });
  CHECK(w.load("a")); CHECK(w.load("b")); CHECK(w.sw({"a"}, {}));
  Ctrl* a = w.get("a");
  gate = true;
  a->on_update = [&] { if (gate) { inside = true; while (gate) std::this_thread::yield(); } };
  while (!inside) std::this_thread::yield();
  auto f = std::async(std::launch::async, [&] { return w.cm.unloadController("b"); });
  // the realtime loop is in the middle of the old list: b may not be destroyed yet
  std::this_thread::sleep_for(std::chrono::milliseconds(200));
  CHECK(f.wait_for(std::chrono::seconds(0)) != std::future_status::ready);
  CHECK(Ctrl::all().count("b") == 1);
  gate = false;
  CHECK(f.wait_for(std::chrono::seconds(10)) == std::future_status::ready); CHECK(f.get());
  stepping = false; rt.join();
  return finish(); }
''')
S('c04_double_start', 'C04', 'a best-effort switch whose start list names a running controller twice',
  'only one of the two entries is taken off the start list, so a running controller is started again',
  [(CM, '''        start_request_.erase(std::remove(start_request_.begin(), start_request_.end(), controller.c.get()), start_request_.end());''',
    '''        start_request_.erase(std::find(start_request_.begin(), start_request_.end(), controller.c.get()));''')],
  H + '''int main() { World w;
  CHECK(w.load("a")); CHECK(w.load("b")); CHECK(w.sw({"a"}, {})); traced();
  CHECK(w.sw({"a", "b"}, {}, 1)); CHECK(traced() == "doSwitch start:b ");
  CHECK(w.sw({}, {"b"})); traced();
  CHECK(w.sw({"a", "b", "a"}, {}, 1)); CHECK(traced() == "doSwitch start:b ");
  return finish(); }
''')
S('c05_stop_only', 'C05', 'a switch that only stops controllers, on hardware whose own conflict check refuses the remaining set',
  'the conflict check is skipped when nothing is started',
  [(CM, 'bool in_conflict = robot_hw_->checkForConflict(info_list);', 'bool in_conflict = !start_request_.empty() && robot_hw_->checkForConflict(info_list);')],
  H + '''int main() { World w;
  CHECK(w.load("a")); CHECK(w.load("b")); CHECK(w.sw({"a", "b"}, {})); traced();
  w.hw.own_conflict = true; w.hw.conflict = true;
  CHECK(!w.sw({}, {"a"})); CHECK(w.get("a")->isRunning());
  w.hw.conflict = false; CHECK(w.sw({}, {"a"})); CHECK(!w.get("a")->isRunning());
  return finish(); }
''')
S('c06_timeout_residue', 'C06', 'a switch that times out because the realtime loop stands still, followed by another switch',
  'after the timeout the pending requests stay in the lists and are carried out by the next switch',
  [(CM, '''  start_request_.clear();
  stop_request_.clear();
  if(timed_out){''', '''  if(timed_out){'''),
   (CM, '''  ROS_DEBUG("Successfully switched controllers");
''', '''  start_request_.clear();
  stop_request_.clear();
  ROS_DEBUG("Successfully switched controllers");
''')],
  H + '''int main() { World w;
  CHECK(w.load("a")); CHECK(w.load("b"));
  w.pause = true; std::this_thread::sleep_for(std::chrono::milliseconds(50));
  CHECK(!w.sw({"a"}, {}, 2, false, 0.01));
  w.pause = false; std::this_thread::sleep_for(std::chrono::milliseconds(50)); traced();
  CHECK(w.sw({"b"}, {}, 2)); CHECK(w.get("b")->isRunning()); CHECK(!w.get("a")->isRunning());
  return finish(); }
''')
S('c07_switch_first', 'C07', 'looking at the cycle in which a switch is carried out',
  'the switch is handled before the controllers are updated, so a stopped controller misses its last update and a started one is updated in the same cycle',
  [(CM, '''  // Update all controllers
  for (const auto& controller : controllers_lists_[used_by_realtime_])
    controller.c->updateRequest(time, period);

  // there are controllers to start/stop
  if (switch_params_.do_switch)
  {
    manageSwitch(time);
  }
''', '''  // there are controllers to start/stop
  if (switch_params_.do_switch)
  {
    manageSwitch(time);
  }

  // Update all controllers
  for (const auto& controller : controllers_lists_[used_by_realtime_])
    controller.c->updateRequest(time, period);
''')],
  H + '''int main() { World w(false);
  std::atomic<bool> go{true}; std::thread rt([&] { while (go) { w.cycle(); std::this_thread::yield(); } });
  CHECK(w.load("a")); CHECK(w.load("b")); go = false; rt.join();
  Ctrl* a = w.get("a"); bool started = false; a->on_start = [&] { started = true; };
  auto f = std::async(std::launch::async, [&] { return w.sw({"a"}, {}); });
  while (!started) { CHECK(a->updates == 0); w.cycle(); }
  CHECK(a->updates == 0); w.cycle(); CHECK(a->updates == 1);
  CHECK(f.get());
  return finish(); }
''')
S('c08_doswitch_again', 'C08', 'a start-asap switch that takes more than one realtime cycle',
  'the hardware switch is requested again in every cycle of a start-asap switch',
  [(CM, '    switch_params_.started = true;\n', '    switch_params_.started = !switch_params_.start_asap;\n')],
  H + '''int main() { World w(false);
  std::atomic<bool> go{true}; std::thread rt([&] { while (go) { w.cycle(); std::this_thread::yield(); } });
  CHECK(w.load("a")); CHECK(w.load("b"));
  CHECK(w.sw({"a"}, {}, 2, false)); CHECK(w.sw({"b"}, {}, 2, true)); CHECK(w.hw.done_start.size() == 2);
  CHECK(w.sw({}, {"a", "b"})); CHECK(w.hw.done_start.size() == 3);
  go = false; rt.join(); traced();
  w.hw.result_of = [](const ControllerInfo&) { return hardware_interface::RobotHW::SwitchState::ONGOING; };
  auto f = std::async(std::launch::async, [&] { return w.sw({"a"}, {}, 2, true); });
  while (!w.get("a")->isWaiting()) w.cycle();
  for (int i = 0; i < 5; ++i) w.cycle();
  CHECK(w.hw.done_start.size() == 4);
  w.hw.result_of = [](const ControllerInfo&) { return hardware_interface::RobotHW::SwitchState::DONE; };
  for (int i = 0; i < 3; ++i) w.cycle();
  CHECK(f.get()); CHECK(w.get("a")->isRunning());
  return finish(); }
'''.replace('while (!w.get("a")->isWaiting())', 'while (!Ctrl::all()["a"]->isWaiting())'))
S('c09_asap_global_error', 'C09', 'a start-asap switch where the hardware as a whole reports an error but the hardware of one controller is still switching',
  'a waiting controller is aborted because of somebody else\'s hardware error',
  [(CM, 'else if ((robot_hw_->switchResult(controller.info) == hardware_interface::RobotHW::SwitchState::ERROR) ||', 'else if ((robot_hw_->switchResult() == hardware_interface::RobotHW::SwitchState::ERROR) ||')],
  H + '''typedef hardware_interface::RobotHW::SwitchState St;
int main() { World w(false);
  std::atomic<bool> go{true}; std::thread rt([&] { while (go) { w.cycle(); std::this_thread::yield(); } });
  CHECK(w.load("a")); CHECK(w.load("b")); go = false; rt.join(); traced();
  w.hw.result = [] { return St::ERROR; };
  w.hw.result_of = [](const ControllerInfo& i) { return i.name == "a" ? St::ONGOING : St::ERROR; };
  auto f = std::async(std::launch::async, [&] { return w.sw({"a", "b"}, {}, 2, true); });
  while (!Ctrl::all()["b"]->isAborted()) w.cycle();
  CHECK(Ctrl::all()["a"]->isWaiting());
  w.hw.result_of = [](const ControllerInfo& i) { return i.name == "a" ? St::DONE : St::ERROR; };
  for (int i = 0; i < 3; ++i) w.cycle();
  CHECK(Ctrl::all()["a"]->isRunning()); CHECK(f.get());
  return finish(); }
''')
S('c11_list_unlocked', 'C11', 'listing controllers while another thread is in the middle of loading one through the C++ interface',
  'list_controllers reads the controller lists without the controllers lock',
  [(CM, '''  // lock controllers to get all names/types/states
  std::lock_guard<std::recursive_mutex> controller_guard(controllers_lock_);
''', '''  // get all names/types/states
''')],
  H + '''int main() { World w;
  CHECK(w.load("a"));
  std::atomic<bool> inside{false}, done{false};
  Ctrl::on_init() = [&](const std::string&) { inside = true; std::this_thread::sleep_for(std::chrono::milliseconds(400)); done = true; };
  auto f = std::async(std::launch::async, [&] { return w.load("b"); });
  while (!inside) std::this_thread::yield();
  controller_manager_msgs::ListControllers m; ros::stub_services()["/controller_manager/list_controllers"](&m.request, &m.response);
  CHECK(done); CHECK(f.get()); CHECK(m.response.controller.size() == 2);
  return finish(); }
''')
S('c12_aborted_as_stopped', 'C12', 'listing controllers after the hardware aborted a start',
  'an aborted controller is reported as stopped',
  [(CM, '    else if (controllers[i].c->isStopped())\n', '    else if (controllers[i].c->isStopped() || (controllers[i].c->isAborted() && !switch_params_.do_switch))\n')],
  H + '''typedef hardware_interface::RobotHW::SwitchState St;
std::string state(const char* n) { controller_manager_msgs::ListControllers m; ros::stub_services()["/controller_manager/list_controllers"](&m.request, &m.response); for (auto& c : m.response.controller) if (c.name == n) return c.state; return ""; }
int main() { World w;
  CHECK(w.load("a")); CHECK(state("a") == "initialized"); CHECK(w.sw({"a"}, {})); CHECK(state("a") == "running"); CHECK(w.sw({}, {"a"})); CHECK(state("a") == "stopped");
  w.hw.result = [] { return St::ERROR; }; w.sw({"a"}, {}); CHECK(state("a") == "aborted");
  return finish(); }
''')
S('c13_reload_stopped', 'C13', 'reloading libraries without force while only stopped controllers are loaded',
  'a reload without force_kill unloads stopped controllers instead of refusing',
  [(CM, '''  if (!controllers.empty() && !req.force_kill){''', '''  const bool any_running = std::any_of(controllers.begin(), controllers.end(), [this](const std::string& n) {
    const controller_interface::ControllerBase* c = getControllerByName(n);
    return c != nullptr && c->isRunning();
  });
  if (any_running && !req.force_kill){''')],
  H + '''#include <controller_manager_msgs/ReloadControllerLibraries.h>
bool reload(bool force) { controller_manager_msgs::ReloadControllerLibraries m; m.request.force_kill = force; ros::stub_services()["/controller_manager/reload_controller_libraries"](&m.request, &m.response); return m.response.ok; }
int main() { World w;
  CHECK(reload(false)); CHECK(w.load("a")); CHECK(w.sw({"a"}, {})); CHECK(!reload(false));
  CHECK(w.sw({}, {"a"})); CHECK(!reload(false)); CHECK(w.get("a") != nullptr);
  CHECK(reload(true)); CHECK(w.get("a") == nullptr);
  return finish(); }
''')
