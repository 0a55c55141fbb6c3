#pragma once
#include <cstdlib>
#include <string>
#if (__GNUC__ && __cplusplus && __GNUC__ >= 3)
#include <cxxabi.h>
#endif
namespace hardware_interface
{
namespace internal
{
inline std::string demangleSymbol(const char* name)
{
  #if (__GNUC__ && __cplusplus && __GNUC__ >= 3)
    int status;
    char* res = abi::__cxa_demangle(name, nullptr, nullptr, &status);
    if (res)
    {
      const std::string demangled_name(res);
      std::free(res);
      return demangled_name;
    }
    return std::string(name);
  #else
    return std::string(name);
  #endif
}
template <class T>
inline std::string demangledTypeName()
{
  return demangleSymbol(typeid(T).name());
}
template <class T>
inline std::string demangledTypeName(const T& val)
{
  return demangleSymbol(typeid(val).name());
}
}
}
