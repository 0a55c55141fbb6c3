#pragma once
#include <exception>
#include <string>
namespace transmission_interface
{
class TransmissionInterfaceException: public std::exception
{
public:
  TransmissionInterfaceException(const std::string& message) : msg(message) {}
  const char* what() const noexcept override {return msg.c_str();}
private:
  std::string msg;
};
}
