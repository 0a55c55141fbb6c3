#pragma once
#include <exception>
#include <string>
#include <set>
#include <typeinfo>
namespace hardware_interface{
class HardwareInterface
{
public:
  virtual ~HardwareInterface() = default;
  virtual void claim(std::string resource) { claims_.insert(resource); }
  void clearClaims() { claims_.clear(); }
  std::set<std::string> getClaims() const { return claims_; }
private:
  std::set<std::string> claims_;
};
class HardwareInterfaceException: public std::exception
{
public:
  HardwareInterfaceException(const std::string& message) : msg(message) {}
  const char* what() const noexcept override {return msg.c_str();}
private:
  std::string msg;
};
}
