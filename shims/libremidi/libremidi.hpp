#pragma once
// Stand-in: ports that only record what they are sent.
#include <libremidi/api.hpp>
#include <libremidi/message.hpp>
#include <functional>
#include <string>
#include <string_view>
namespace libremidi
{
class midi_in
{
public:
  std::function<void(const message&)> cb;
  static inline midi_in* listening{};
  midi_in(API, std::string_view) { }
  ~midi_in() { if (listening == this) listening = nullptr; }
  void open_port(unsigned, std::string_view = {}) { }
  void open_virtual_port(std::string_view = {}) { }
  void close_port() { }
  unsigned get_port_count() { return 0; }
  std::string get_port_name(unsigned = 0) { return {}; }
  void ignore_types(bool, bool, bool) { }
  template <typename F>
  void set_callback(F f)
  {
    cb = std::move(f);
    listening = this;
  }
  void cancel_callback() { cb = {}; }
};
class midi_out
{
public:
  static inline std::vector<message> sent;
  midi_out(API, std::string_view) { }
  void open_port(unsigned, std::string_view = {}) { }
  void open_virtual_port(std::string_view = {}) { }
  void close_port() { }
  unsigned get_port_count() { return 0; }
  std::string get_port_name(unsigned = 0) { return {}; }
  void send_message(const message& m) { sent.push_back(m); }
};
}
