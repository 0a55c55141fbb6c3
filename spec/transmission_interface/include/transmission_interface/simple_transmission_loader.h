#pragma once
#include <transmission_interface/transmission_loader.h>
namespace transmission_interface
{
class SimpleTransmissionLoader : public TransmissionLoader
{
public:
  TransmissionSharedPtr load(const TransmissionInfo& transmission_info) override;
};
}
