// Minimal stand-in for ros::NodeHandle: an in-process parameter server and service table.
#pragma once
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <ros/time.h>
#include <ros/duration.h>
namespace ros {
class InvalidNameException : public std::runtime_error { public: InvalidNameException(const std::string& m) : std::runtime_error(m) {} };
class ServiceServer { public: void shutdown() {} };
struct StubParam { int kind; bool b; int i; double d; std::string s; std::vector<std::string> v; };
inline std::map<std::string, StubParam>& stub_params() { static std::map<std::string, StubParam> m; return m; }
inline std::map<std::string, std::function<bool(void*, void*)>>& stub_services() { static std::map<std::string, std::function<bool(void*, void*)>> m; return m; }
inline bool& stub_ok() { static bool v = true; return v; }
bool ok();
class NodeHandle {
  std::string ns_;
public:
  NodeHandle(const std::string& ns = std::string()) : ns_(ns) {}
  NodeHandle(const NodeHandle& parent, const std::string& ns) : ns_() { init(parent, ns); }
  NodeHandle(const NodeHandle&) = default;
  NodeHandle& operator=(const NodeHandle&) = default;
  const std::string& getNamespace() const { return ns_; }
  std::string resolveName(const std::string& n) const { return resolve(n); }
  bool hasParam(const std::string& k) const;
  bool getParam(const std::string& k, std::string& v) const;
  bool getParam(const std::string& k, double& v) const;
  bool getParam(const std::string& k, float& v) const;
  bool getParam(const std::string& k, int& v) const;
  bool getParam(const std::string& k, bool& v) const;
  bool getParam(const std::string& k, std::vector<std::string>& v) const;
  template <class T> T param(const std::string& k, const T& def) const { T v; return getParam(k, v) ? v : def; }
  template <class T> bool param(const std::string& k, T& v, const T& def) const { if (getParam(k, v)) return true; v = def; return false; }
  template <class T, class Req, class Res> ServiceServer advertiseService(const std::string& name, bool (T::*f)(Req&, Res&), T* obj)
  { stub_services()[resolve(name)] = [=](void* a, void* b) { return (obj->*f)(*static_cast<Req*>(a), *static_cast<Res*>(b)); }; return ServiceServer(); }
private:
  void init(const NodeHandle& parent, const std::string& ns);
  std::string resolve(const std::string& n) const;
};
#ifdef STUB_ROS_IMPL
inline bool ok() { return stub_ok(); }
inline std::string NodeHandle::resolve(const std::string& n) const { if (!n.empty() && n[0] == '/') return n; return ns_ + "/" + n; }
inline void NodeHandle::init(const NodeHandle& parent, const std::string& ns) { if (!ns.empty() && ns[0] == '-') throw InvalidNameException("bad name " + ns); ns_ = parent.resolve(ns); }
inline bool NodeHandle::hasParam(const std::string& k) const { std::string r = resolve(k); for (auto& p : stub_params()) if (p.first == r || p.first.compare(0, r.size() + 1, r + "/") == 0) return true; return false; }
inline bool NodeHandle::getParam(const std::string& k, std::string& v) const { auto it = stub_params().find(resolve(k)); if (it == stub_params().end() || it->second.kind != 3) return false; v = it->second.s; return true; }
inline bool NodeHandle::getParam(const std::string& k, double& v) const { auto it = stub_params().find(resolve(k)); if (it == stub_params().end()) return false; if (it->second.kind == 2) v = it->second.d; else if (it->second.kind == 1) v = it->second.i; else return false; return true; }
inline bool NodeHandle::getParam(const std::string& k, float& v) const { double d; if (!getParam(k, d)) return false; v = (float)d; return true; }
inline bool NodeHandle::getParam(const std::string& k, int& v) const { auto it = stub_params().find(resolve(k)); if (it == stub_params().end() || it->second.kind != 1) return false; v = it->second.i; return true; }
inline bool NodeHandle::getParam(const std::string& k, bool& v) const { auto it = stub_params().find(resolve(k)); if (it == stub_params().end() || it->second.kind != 0) return false; v = it->second.b; return true; }
inline bool NodeHandle::getParam(const std::string& k, std::vector<std::string>& v) const { auto it = stub_params().find(resolve(k)); if (it == stub_params().end() || it->second.kind != 4) return false; v = it->second.v; return true; }
inline void stub_set(const std::string& k, bool v) { StubParam p{}; p.kind = 0; p.b = v; stub_params()[k] = p; }
inline void stub_set(const std::string& k, int v) { StubParam p{}; p.kind = 1; p.i = v; stub_params()[k] = p; }
inline void stub_set(const std::string& k, double v) { StubParam p{}; p.kind = 2; p.d = v; stub_params()[k] = p; }
inline void stub_set(const std::string& k, const char* v) { StubParam p{}; p.kind = 3; p.s = v; stub_params()[k] = p; }
inline void stub_set(const std::string& k, const std::vector<std::string>& v) { StubParam p{}; p.kind = 4; p.v = v; stub_params()[k] = p; }
#endif
}
