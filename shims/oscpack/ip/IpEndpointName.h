#pragma once
#include <string>
namespace oscpack
{
class IpEndpointName
{
public:
  static const unsigned long ANY_ADDRESS = 0xFFFFFFFF;
  static const int ANY_PORT = -1;
  IpEndpointName() = default;
  IpEndpointName(int p) : port(p) { }
  IpEndpointName(const char* a, int p = ANY_PORT) : addr(a), port(p) { }
  IpEndpointName(unsigned long, int p = ANY_PORT) : port(p) { }
  std::string addr;
  unsigned long address{};
  int port{ANY_PORT};
  void AddressAndPortAsString(char* s) const { }
};
}
