// Minimal stand-in for pluginlib::ClassLoader backed by an in-process factory table.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace pluginlib {
class PluginlibException : public std::runtime_error { public: PluginlibException(const std::string& m) : std::runtime_error(m) {} };
class LibraryLoadException : public PluginlibException { public: LibraryLoadException(const std::string& m) : PluginlibException(m) {} };
class ClassLoaderException : public PluginlibException { public: ClassLoaderException(const std::string& m) : PluginlibException(m) {} };
class LibraryUnloadException : public PluginlibException { public: LibraryUnloadException(const std::string& m) : PluginlibException(m) {} };
class CreateClassException : public PluginlibException { public: CreateClassException(const std::string& m) : PluginlibException(m) {} };
template <class T> inline std::map<std::string, std::function<T*()>>& stub_factories() { static std::map<std::string, std::function<T*()>> m; return m; }
template <class T> using UniquePtr = std::unique_ptr<T, std::function<void(T*)>>;
template <class T> class ClassLoader {
public:
  ClassLoader(std::string package, std::string base_class, std::string attrib_name = std::string("plugin"),
              std::vector<std::string> plugin_xml_paths = std::vector<std::string>());
  ~ClassLoader();
  UniquePtr<T> createUniqueInstance(const std::string& lookup_name);
  std::shared_ptr<T> createSharedInstance(const std::string& lookup_name);
  std::shared_ptr<T> createInstance(const std::string& lookup_name);
  std::vector<std::string> getDeclaredClasses();
  bool isClassAvailable(const std::string& lookup_name);
  bool isClassLoaded(const std::string& lookup_name);
  std::string base_;
};
#ifdef STUB_ROS_IMPL
template <class T> ClassLoader<T>::ClassLoader(std::string, std::string b, std::string, std::vector<std::string>) : base_(b) {}
template <class T> ClassLoader<T>::~ClassLoader() {}
template <class T> UniquePtr<T> ClassLoader<T>::createUniqueInstance(const std::string& n)
{ auto& m = stub_factories<T>(); auto it = m.find(n); if (it == m.end()) throw LibraryLoadException("no plugin " + n); return UniquePtr<T>(it->second(), [](T* p) { delete p; }); }
template <class T> std::shared_ptr<T> ClassLoader<T>::createSharedInstance(const std::string& n) { return std::shared_ptr<T>(createUniqueInstance(n)); }
template <class T> std::shared_ptr<T> ClassLoader<T>::createInstance(const std::string& n) { return std::shared_ptr<T>(createUniqueInstance(n)); }
template <class T> std::vector<std::string> ClassLoader<T>::getDeclaredClasses() { std::vector<std::string> r; for (auto& p : stub_factories<T>()) r.push_back(p.first); return r; }
template <class T> bool ClassLoader<T>::isClassAvailable(const std::string& n) { return stub_factories<T>().count(n) != 0; }
template <class T> bool ClassLoader<T>::isClassLoaded(const std::string& n) { return isClassAvailable(n); }
#endif
}
