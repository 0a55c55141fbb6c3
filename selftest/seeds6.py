CM = 'controller_manager/src/controller_manager.cpp'
SEEDS = {}
def S(id, property, needs, breaks, edits, demo, kind='cm', **k): SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, kind=kind, **k)
H = '#include "cm_demo.h"\n#include <controller_manager_msgs/LoadController.h>\n'
S('c04_first_only', 'C04', 'a strict switch whose second name to start is unknown while the first is known',
  'an unknown controller is only refused in strict mode when nothing was found before it',
  [(CM, '''    if (ct == nullptr){
      if (strictness ==  controller_manager_msgs::SwitchController::Request::STRICT){
        ROS_ERROR("Could not start''', '''    if (ct == nullptr){
      if (strictness ==  controller_manager_msgs::SwitchController::Request::STRICT && start_request_.empty()){
        ROS_ERROR("Could not start''')],
  H + '''int main() { World w;
  CHECK(w.load("a")); CHECK(w.load("b")); traced();
  CHECK(!w.sw({"zz", "a"}, {})); CHECK(traced() == "");
  CHECK(!w.sw({"a", "zz"}, {})); CHECK(traced() == "");
  return finish(); }
''')
S('c06_residue_stop', 'C06', 'a strict switch refused for an already running controller after a stop entry was resolved, followed by another switch',
  'a refused switch leaves its stop entries behind, and the next switch stops them too',
  [(CM, '''        ROS_ERROR_STREAM("Controller '" << info.name << "' is already running");
        stop_request_.clear();
''', '''        ROS_ERROR_STREAM("Controller '" << info.name << "' is already running");
''')],
  H + '''int main() { World w;
  CHECK(w.load("a")); CHECK(w.load("b")); CHECK(w.load("c")); CHECK(w.sw({"a", "b"}, {})); traced();
  CHECK(!w.sw({"b"}, {"a"})); traced();
  CHECK(w.sw({"c"}, {})); CHECK(traced() == "doSwitch start:c ");
  CHECK(w.get("a")->isRunning());
  return finish(); }
''')
S('c04_default_strict', 'C04', 'a request with no strictness level that names an unknown controller',
  'a negative (unknown) level is treated like the unspecified one, so that best effort applies to it, and an unspecified level is strict for stop entries',
  [(CM, '''    strictness = controller_manager_msgs::SwitchController::Request::BEST_EFFORT;
  }''', '''    strictness = stop_controllers.empty() ? controller_manager_msgs::SwitchController::Request::BEST_EFFORT : controller_manager_msgs::SwitchController::Request::STRICT;
  }''')],
  H + '''int main() { World w;
  CHECK(w.load("a")); CHECK(w.load("b")); CHECK(w.sw({"a"}, {})); traced();
  CHECK(w.sw({"b", "zz"}, {}, 0)); CHECK(traced() == "doSwitch start:b ");
  CHECK(w.sw({}, {"a", "zz"}, 0)); CHECK(traced() == "doSwitch stop:a ");
  return finish(); }
''')
S('c05_conflict_stopped', 'C05', 'a switch that replaces a running controller by another one while a third, unrelated controller keeps running',
  'the conflict check leaves out controllers that keep running whenever something is stopped',
  [(CM, '''    bool add_to_list = is_running;
''', '''    bool add_to_list = is_running && stop_request_.empty();
''')],
  H + '''int main() { World w;
  CHECK(w.load("a", {"r1"})); CHECK(w.load("b", {"r2"})); CHECK(w.load("c", {"r1"})); CHECK(w.load("d", {"r1"}));
  CHECK(w.sw({"a", "b"}, {})); CHECK(!w.sw({"c"}, {})); CHECK(w.sw({}, {"b"})); CHECK(w.sw({"b"}, {}));
  w.hw.own_conflict = true; w.hw.seen.clear(); CHECK(w.sw({"c"}, {"a"})); CHECK(w.hw.seen.size() == 1); CHECK((w.hw.seen[0] == Names{"b", "c"}));
  return finish(); }
''')
S('c14_handler_swap', 'C14', 'a client of the load service',
  'the load service is answered by the handler of unload, which has requests and responses of the same shape',
  [(CM, '''"load_controller", &ControllerManager::loadControllerSrv, this''', '''"load_controller", &ControllerManager::unloadControllerSrv, this''')],
  H + '''int main() { World w;
  ros::stub_set("/a/type", "T"); 
  controller_manager_msgs::LoadController m; m.request.name = "a"; CHECK(ros::stub_services()["/controller_manager/load_controller"](&m.request, &m.response)); CHECK(m.response.ok);
  CHECK(w.get("a") != nullptr);
  return finish(); }
''')
S('c14_loader_after', 'C14', 'a manager constructed under a namespace',
  'the services of a namespaced manager are advertised in the root namespace',
  [(CM, '''  cm_node_(nh, "controller_manager")
''', '''  cm_node_("controller_manager")
''')],
  H + '''int main() { HW hw; controller_manager::ControllerManager cm(&hw, ros::NodeHandle("/robot"));
  CHECK(ros::stub_services().count("/robot/controller_manager/load_controller"));
  return finish(); }
''')
S('c10_log_param', 'C10', 'a switch with asap start of a controller whose resources are not ready',
  'the realtime cycle sleeps while it waits for a controller',
  [(CM, '''          // controller is waiting
          else
          {
            request->waitRequest(time);''', '''          // controller is waiting
          else
          {
            if (request->isWaiting()) std::this_thread::sleep_for(std::chrono::milliseconds(20));
            request->waitRequest(time);''')],
  H + '''int main() { World w(false);
  CHECK(w.load("a"));
  bool ready = false; w.hw.result_of = [&](const ControllerInfo&) { return ready ? HW::SwitchState::DONE : HW::SwitchState::ONGOING; };
  auto f = std::async(std::launch::async, [&] { return w.sw({"a"}, {}, 2, true); });
  std::this_thread::sleep_for(std::chrono::milliseconds(50));
  auto t = std::chrono::steady_clock::now();
  for (int i = 0; i < 50; ++i) w.cycle();
  double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
  ready = true; w.cycle(); CHECK(f.get());
  CHECK(d < 0.5);
  return finish(); }
''')
S('c08_stop_skips', 'C08', 'a switch that stops two running controllers',
  'of two adjacent stop entries in a request the second is only stopped one cycle later, with the switch already reported finished',
  [(CM, '''    if (request->isRunning())
    {
      request->stopRequest(time);
    }
''', '''    if (request->isRunning())
    {
      request->stopRequest(time);
      if (!start_request_.empty()) break;
    }
''')],
  H + '''int main() { World w;
  CHECK(w.load("a")); CHECK(w.load("b")); CHECK(w.load("c")); CHECK(w.sw({"a", "b"}, {})); traced();
  CHECK(w.sw({"c"}, {"a", "b"})); CHECK(traced() == "doSwitch stop:a stop:b start:c ");
  return finish(); }
''')
S('c09_asap_other', 'C09', 'an asap switch with one controller whose hardware reports an error and one that is still waiting',
  'an asap switch ends as soon as one controller was aborted while others still wait',
  [(CM, '''                    return request->isRunning() || request->isAborted();
                  }))''', '''                    return request->isRunning() || request->isAborted();
                  }) || (!start_request_.empty() && start_request_.back()->isAborted()))''')],
  H + '''int main() { World w;
  CHECK(w.load("a")); CHECK(w.load("b"));
  std::atomic<bool> ready{false};
  w.hw.result_of = [&](const ControllerInfo& i) { return i.name == "b" ? HW::SwitchState::ERROR : ready ? HW::SwitchState::DONE : HW::SwitchState::ONGOING; };
  auto f = std::async(std::launch::async, [&] { return w.sw({"a", "b"}, {}, 2, true); });
  CHECK(f.wait_for(std::chrono::milliseconds(300)) == std::future_status::timeout);
  ready = true; f.get(); CHECK(w.get("a")->isRunning());
  return finish(); }
''')
