#pragma once
// Stand-in for oscpack's UDP sockets: an in-process, deterministic datagram
// network.  Sent packets are appended to vp_udp::sent(); a harness decides
// when and to whom they are delivered (vp_udp::deliver).
#include "IpEndpointName.h"

#include <condition_variable>
#include <cstdint>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

namespace oscpack
{
class PacketListener
{
public:
  virtual ~PacketListener() = default;
  virtual void ProcessPacket(
      const char* data, int size, const IpEndpointName& remoteEndpoint)
      = 0;
};
class TimerListener
{
public:
  virtual ~TimerListener() = default;
  virtual void TimerExpired() = 0;
};
}

namespace vp_udp
{
struct packet
{
  int from{}, to{};
  std::string data;
  std::thread::id by = std::this_thread::get_id();
};
inline std::mutex& mutex()
{
  static std::mutex m;
  return m;
}
inline std::vector<packet>& sent()
{
  static std::vector<packet> v;
  return v;
}
inline std::map<int, oscpack::PacketListener*>& bound()
{
  static std::map<int, oscpack::PacketListener*> m;
  return m;
}
inline int next_port()
{
  static int p = 40000;
  return p++;
}
inline std::vector<packet> take()
{
  std::lock_guard<std::mutex> l(mutex());
  auto v = std::move(sent());
  sent().clear();
  return v;
}
inline bool deliver(int to, const std::string& data, int from = 1)
{
  oscpack::PacketListener* l{};
  {
    std::lock_guard<std::mutex> _(mutex());
    auto it = bound().find(to);
    if (it == bound().end())
      return false;
    l = it->second;
  }
  l->ProcessPacket(
      data.data(), (int)data.size(),
      oscpack::IpEndpointName("127.0.0.1", from));
  return true;
}
}

namespace oscpack
{
namespace detail
{
struct Implementation
{
};

template <typename Impl_T>
class UdpSocket
{
public:
  Impl_T impl_;
  int local_ = vp_udp::next_port();
  int remote_ = 0;
  virtual ~UdpSocket() = default;
  void SetEnableBroadcast(bool) { }
  void SetAllowReuse(bool) { }
  void Connect(const IpEndpointName& e) { remote_ = e.port; }
  void Bind(const IpEndpointName& e) { local_ = e.port; }
  bool IsBound() const { return true; }
  int LocalPort() const { return local_; }
  void SendTo(const IpEndpointName& e, const char* data, std::size_t n)
  {
    std::lock_guard<std::mutex> _(vp_udp::mutex());
    if (n == 8 && std::string(data, 8) == "__stop_" + std::string(1, '\0'))
      return;
    vp_udp::sent().push_back({local_, e.port, std::string(data, n)});
  }
  void Send(const char* data, std::size_t n)
  {
    SendTo(IpEndpointName("127.0.0.1", remote_), data, n);
  }
  void AsynchronousBreak() { }
};

template <typename Impl_T>
class UdpTransmitSocket : public UdpSocket<Impl_T>
{
public:
  explicit UdpTransmitSocket(const IpEndpointName& e) { this->Connect(e); }
};

template <typename Impl_T>
class SocketReceiveMultiplexer
{
  std::mutex m;
  std::condition_variable cv;
  bool stop = false;

public:
  void AttachSocketListener(Impl_T*, PacketListener*) { }
  void DetachSocketListener(Impl_T*, PacketListener*) { }
  void AttachPeriodicTimerListener(int, TimerListener*) { }
  void DetachPeriodicTimerListener(TimerListener*) { }
  void Run()
  {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [this] { return stop; });
    stop = false;
  }
  void Break() { AsynchronousBreak(); }
  void AsynchronousBreak()
  {
    std::lock_guard<std::mutex> l(m);
    stop = true;
    cv.notify_all();
  }
};

template <typename Impl_T>
class UdpListeningReceiveSocket : public UdpSocket<Impl_T>
{
  SocketReceiveMultiplexer<Impl_T> mux_;
  PacketListener* listener_;

public:
  UdpListeningReceiveSocket(const IpEndpointName& e, PacketListener* l)
      : listener_(l)
  {
    std::lock_guard<std::mutex> _(vp_udp::mutex());
    if (e.port != 0 && !vp_udp::bound().emplace(e.port, l).second)
      throw std::runtime_error("unable to bind udp socket");
    if (e.port == 0)
      vp_udp::bound()[this->local_] = l;
    else
      this->Bind(e);
  }
  ~UdpListeningReceiveSocket()
  {
    std::lock_guard<std::mutex> _(vp_udp::mutex());
    vp_udp::bound().erase(this->local_);
  }
  void Run() { mux_.Run(); }
  void Break() { mux_.Break(); }
  void AsynchronousBreak() { mux_.AsynchronousBreak(); }
};
}
using UdpSocket = detail::UdpSocket<detail::Implementation>;
using UdpTransmitSocket = detail::UdpTransmitSocket<detail::Implementation>;
using SocketReceiveMultiplexer
    = detail::SocketReceiveMultiplexer<detail::Implementation>;
}
