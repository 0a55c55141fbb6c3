#pragma once
#include <exception>
#include <string>
namespace joint_limits_interface
{
class JointLimitsInterfaceException: public std::exception
{
public:
  JointLimitsInterfaceException(const std::string& message) : msg(message) {}
  const char* what() const noexcept override {return msg.c_str();}
private:
  std::string msg;
};
}
