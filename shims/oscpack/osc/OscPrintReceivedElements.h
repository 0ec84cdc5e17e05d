#pragma once
#include <oscpack/osc/OscReceivedElements.h>
#include <ostream>
namespace oscpack
{
inline std::ostream& operator<<(std::ostream& s, const ReceivedMessage& m)
{
  return s << "[" << m.AddressPattern() << " " << m.TypeTags() << "]";
}
inline std::ostream& debug(std::ostream& s, const ReceivedMessage& m) { return s << m; }
}
