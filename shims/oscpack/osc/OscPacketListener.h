#pragma once
#include "OscReceivedElements.h"
#include "../ip/UdpSocket.h"
namespace oscpack
{
class OscPacketListener : public PacketListener
{
protected:
  virtual void ProcessBundle(
      const ReceivedBundle& b, const IpEndpointName& remoteEndpoint)
  {
    for (auto i = b.ElementsBegin(); i != b.ElementsEnd(); ++i)
    {
      if (i->IsBundle())
        ProcessBundle(ReceivedBundle(*i), remoteEndpoint);
      else
        ProcessMessage(ReceivedMessage(*i), remoteEndpoint);
    }
  }
  virtual void ProcessMessage(
      const ReceivedMessage& m, const IpEndpointName& remoteEndpoint)
      = 0;

public:
  void ProcessPacket(
      const char* data, int size, const IpEndpointName& remoteEndpoint) override
  {
    ReceivedPacket p(data, size);
    if (p.IsBundle())
      ProcessBundle(ReceivedBundle(p), remoteEndpoint);
    else
      ProcessMessage(ReceivedMessage(p), remoteEndpoint);
  }
};
}
