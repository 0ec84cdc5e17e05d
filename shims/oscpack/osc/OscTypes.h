#pragma once
// Stand-in for libossia's oscpack fork (empty submodule): OSC 1.0 wire format.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <ostream>
#include <stdexcept>
#include <string_view>
namespace oscpack
{
using int32 = int32_t;
using int64 = int64_t;
using uint32 = uint32_t;
using uint64 = uint64_t;
using osc_bundle_element_size_t = int32_t;

class Exception : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
enum TypeTagValues
{
  TRUE_TYPE_TAG = 'T',
  FALSE_TYPE_TAG = 'F',
  NIL_TYPE_TAG = 'N',
  INFINITUM_TYPE_TAG = 'I',
  INT32_TYPE_TAG = 'i',
  FLOAT_TYPE_TAG = 'f',
  CHAR_TYPE_TAG = 'c',
  RGBA_COLOR_TYPE_TAG = 'r',
  MIDI_MESSAGE_TYPE_TAG = 'm',
  INT64_TYPE_TAG = 'h',
  TIME_TAG_TYPE_TAG = 't',
  DOUBLE_TYPE_TAG = 'd',
  STRING_TYPE_TAG = 's',
  SYMBOL_TYPE_TAG = 'S',
  BLOB_TYPE_TAG = 'b',
  ARRAY_BEGIN_TYPE_TAG = '[',
  ARRAY_END_TYPE_TAG = ']'
};
struct BeginBundleImmediate { };
struct EndBundle { };
struct BeginMessageN
{
  explicit BeginMessageN(std::string_view a) : addressPattern(a) { }
  std::string_view addressPattern;
};
using BeginMessage = BeginMessageN;
struct EndMessage { };
struct NilType { };
struct Infinitum { };
struct BeginArray { };
struct EndArray { };
struct RgbaColor
{
  RgbaColor() = default;
  explicit RgbaColor(uint32 v) : value(v) { }
  uint32 value{};
};
struct TimeTag
{
  explicit TimeTag(uint64 v) : value(v) { }
  uint64 value{};
};
struct Symbol
{
  explicit Symbol(const char* v) : value(v) { }
  const char* value{};
};
struct Blob
{
  explicit Blob(const void* d, osc_bundle_element_size_t s) : data(d), size(s) { }
  const void* data{};
  osc_bundle_element_size_t size{};
};
static inline std::size_t RoundUp4(std::size_t x) { return (x + 3) & ~std::size_t(3); }
static inline std::size_t RoundUp(std::size_t x) { return RoundUp4(x); }
namespace detail_be
{
inline void put32(unsigned char* p, uint32 v)
{
  p[0] = v >> 24;
  p[1] = v >> 16;
  p[2] = v >> 8;
  p[3] = v;
}
inline void put64(unsigned char* p, uint64 v)
{
  put32(p, v >> 32);
  put32(p + 4, uint32(v));
}
inline uint32 get32(const char* c)
{
  auto p = (const unsigned char*)c;
  return (uint32(p[0]) << 24) | (uint32(p[1]) << 16) | (uint32(p[2]) << 8) | p[3];
}
inline uint64 get64(const char* c)
{
  return (uint64(get32(c)) << 32) | get32(c + 4);
}
}
}
