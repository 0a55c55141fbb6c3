// Demonstration harness: a controller manager on scripted hardware with scripted controllers.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <future>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <ros/ros.h>
#include <controller_manager/controller_manager.h>
#include <controller_manager/controller_loader.h>
#include <controller_manager_msgs/ControllerState.h>
#include <controller_manager_msgs/ListControllers.h>
#include <controller_manager_msgs/SwitchController.h>
using hardware_interface::ControllerInfo;
typedef std::vector<std::string> Names;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); std::fflush(stdout); std::_Exit(1); } } while (0)
inline std::vector<std::string>& trace() { static std::vector<std::string> t; return t; }
inline std::recursive_mutex& trace_lock() { static std::recursive_mutex m; return m; }
inline void say(const std::string& s) { std::lock_guard<std::recursive_mutex> g(trace_lock()); trace().push_back(s); }
inline std::string traced() { std::lock_guard<std::recursive_mutex> g(trace_lock()); std::string r; for (auto& s : trace()) r += s + " "; trace().clear(); return r; }
struct HW : hardware_interface::RobotHW {
  bool conflict = false, feasible = true; bool own_conflict = false;
  std::function<SwitchState()> result = [] { return SwitchState::DONE; };
  std::function<SwitchState(const ControllerInfo&)> result_of = [](const ControllerInfo&) { return SwitchState::DONE; };
  std::vector<Names> checked, prepared_start, prepared_stop, done_start, done_stop;
  static Names names(const std::list<ControllerInfo>& l) { Names r; for (auto& i : l) r.push_back(i.name); return r; }
  mutable std::vector<Names> seen;
  bool checkForConflict(const std::list<ControllerInfo>& l) const override { seen.push_back(names(l)); return own_conflict ? conflict : RobotHW::checkForConflict(l); }
  bool prepareSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { prepared_start.push_back(names(a)); prepared_stop.push_back(names(b)); return feasible; }
  void doSwitch(const std::list<ControllerInfo>& a, const std::list<ControllerInfo>& b) override { done_start.push_back(names(a)); done_stop.push_back(names(b)); say("doSwitch"); }
  SwitchState switchResult() const override { return result(); }
  SwitchState switchResult(const ControllerInfo& i) const override { return result_of(i); }
};
struct Ctrl : controller_interface::ControllerBase {
  std::string n; int updates = 0;
  std::function<void()> on_start, on_stop, on_update;
  static std::function<void(const std::string&)>& on_init() { static std::function<void(const std::string&)> f; return f; }
  static std::map<std::string, Ctrl*>& all() { static std::map<std::string, Ctrl*> m; return m; }
  static std::map<std::string, Names>& claims() { static std::map<std::string, Names> m; return m; }
  static std::map<std::string, int>& init_fails() { static std::map<std::string, int> m; return m; }
  static std::atomic<int>& alive() { static std::atomic<int> a{0}; return a; }
  Ctrl() { ++alive(); }
  ~Ctrl() { --alive(); if (all().count(n) && all()[n] == this) all().erase(n); }
  bool initRequest(hardware_interface::RobotHW*, ros::NodeHandle&, ros::NodeHandle& nh, ClaimedResources& c) override {
    n = nh.getNamespace().substr(1);
    if (on_init()) on_init()(n);
    int f = init_fails().count(n) ? init_fails()[n] : 0;
    if (f == 2) throw std::runtime_error("init"); if (f == 3) throw 7; if (f == 1) return false;
    all()[n] = this; c.clear();
    if (claims().count(n)) { hardware_interface::InterfaceResources r; r.hardware_interface = "I"; for (auto& x : claims()[n]) r.resources.insert(x); c.push_back(r); }
    state_ = ControllerState::INITIALIZED; return true;
  }
  void starting(const ros::Time&) override { say("start:" + n); if (on_start) on_start(); }
  void stopping(const ros::Time&) override { say("stop:" + n); if (on_stop) on_stop(); }
  void waiting(const ros::Time&) override { say("wait:" + n); }
  void aborting(const ros::Time&) override { say("abort:" + n); }
  void update(const ros::Time&, const ros::Duration&) override { ++updates; if (on_update) on_update(); }
};
struct World {
  HW hw; controller_manager::ControllerManager cm; std::atomic<bool> run{true}, pause{false}; std::atomic<long> cycles{0}; std::atomic<double> now{1.0};
  std::thread rt;
  World(bool realtime = true) : cm(&hw, ros::NodeHandle("")) {
    pluginlib::stub_factories<controller_interface::ControllerBase>()["T"] = [] { return new Ctrl; };
    if (realtime) rt = std::thread([this] { while (run) { if (!pause) cycle(); std::this_thread::sleep_for(std::chrono::microseconds(300)); } });
  }
  void cycle(bool reset = false) { cm.update(ros::Time(now.load()), ros::Duration(0.001), reset); ++cycles; }
  ~World() { run = false; if (rt.joinable()) rt.join(); }
  bool load(const std::string& n, const Names& claims = Names()) { if (!claims.empty()) Ctrl::claims()[n] = claims; ros::stub_set("/" + n + "/type", "T"); return cm.loadController(n); }
  Ctrl* get(const std::string& n) { return static_cast<Ctrl*>(cm.getControllerByName(n)); }
  bool sw(const Names& a, const Names& b, int strict = 2, bool asap = false, double timeout = 0.0) { return cm.switchController(a, b, strict, asap, timeout); }
  template <class F> bool within(double s, F f) { auto fut = std::async(std::launch::async, f); if (fut.wait_for(std::chrono::duration<double>(s)) != std::future_status::ready) { std::printf("FAILED: blocked\n"); std::fflush(stdout); std::_Exit(1); } return fut.get(); }
};
inline int finish() { std::printf("ok\n"); std::fflush(stdout); std::_Exit(0); }
