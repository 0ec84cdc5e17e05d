#pragma once
// Stand-in for the libremidi submodule: only the message value type.
#include <algorithm>
#include <cstdint>
#include <vector>
namespace libremidi
{
using midi_bytes = std::vector<unsigned char>;
template <typename T, typename A, typename B>
constexpr T clamp(T v, A lo, B hi)
{
  return v < T(lo) ? T(lo) : (v > T(hi) ? T(hi) : v);
}
enum class message_type : uint8_t
{
  INVALID = 0x0,
  NOTE_OFF = 0x80,
  NOTE_ON = 0x90,
  POLY_PRESSURE = 0xA0,
  CONTROL_CHANGE = 0xB0,
  PROGRAM_CHANGE = 0xC0,
  AFTERTOUCH = 0xD0,
  PITCH_BEND = 0xE0,
  SYSTEM_EXCLUSIVE = 0xF0
};
struct message
{
  midi_bytes bytes;
  int64_t timestamp{};
  message() = default;
  message(midi_bytes b, int64_t ts = 0) : bytes(std::move(b)), timestamp(ts) { }
  static uint8_t make_command(message_type t, int channel)
  {
    return uint8_t(uint8_t(t) | clamp(channel, 0, channel - 1));
  }
  static message note_on(uint8_t c, uint8_t n, uint8_t v)
  {
    return message{{make_command(message_type::NOTE_ON, c), n, v}};
  }
  static message note_off(uint8_t c, uint8_t n, uint8_t v)
  {
    return message{{make_command(message_type::NOTE_OFF, c), n, v}};
  }
  static message control_change(uint8_t c, uint8_t n, uint8_t v)
  {
    return message{{make_command(message_type::CONTROL_CHANGE, c), n, v}};
  }
  static message program_change(uint8_t c, uint8_t v)
  {
    return message{{make_command(message_type::PROGRAM_CHANGE, c), v}};
  }
  static message pitch_bend(uint8_t c, int v)
  {
    return message{{make_command(message_type::PITCH_BEND, c), (unsigned char)(v & 0x7F), (unsigned char)((v >> 7) & 0x7F)}};
  }
  int get_channel() const { return (bytes[0] & 0xF) + 1; }
  message_type get_message_type() const
  {
    if (bytes.empty())
      return message_type::INVALID;
    if (bytes[0] >= uint8_t(message_type::SYSTEM_EXCLUSIVE))
      return (message_type)(bytes[0] & 0xFF);
    return (message_type)(bytes[0] & 0xF0);
  }
  auto size() const { return bytes.size(); }
  unsigned char& operator[](int i) { return bytes[i]; }
  const unsigned char& operator[](int i) const { return bytes[i]; }
  auto begin() const { return bytes.begin(); }
  auto end() const { return bytes.end(); }
};
}
