#pragma once
#include <oscpack/osc/OscTypes.h>
#include <string>
namespace oscpack
{
class MalformedPacketException : public Exception
{
public:
  MalformedPacketException(const char* w = "malformed packet") : Exception(w) { }
};
class MalformedMessageException : public Exception
{
public:
  MalformedMessageException(const char* w = "malformed message") : Exception(w) { }
};
class MalformedBundleException : public Exception
{
public:
  MalformedBundleException(const char* w = "malformed bundle") : Exception(w) { }
};
class WrongArgumentTypeException : public Exception
{
public:
  WrongArgumentTypeException() : Exception("wrong argument type") { }
};
class MissingArgumentException : public Exception
{
public:
  MissingArgumentException() : Exception("missing argument") { }
};

class ReceivedPacket
{
public:
  ReceivedPacket(const char* d, std::size_t s) : m_data(d), m_size(s)
  {
    if (s % 4 != 0 || s == 0)
      throw MalformedPacketException{};
  }
  bool IsMessage() const { return !IsBundle(); }
  bool IsBundle() const { return m_size > 0 && m_data[0] == '#'; }
  std::size_t Size() const { return m_size; }
  const char* Contents() const { return m_data; }
  const char* Data() const { return m_data; }

private:
  const char* m_data;
  std::size_t m_size;
};
class ReceivedBundleElement
{
public:
  ReceivedBundleElement(const char* p) : m_ptr(p) { }
  bool IsBundle() const { return Size() > 0 && Contents()[0] == '#'; }
  bool IsMessage() const { return !IsBundle(); }
  std::size_t Size() const { return detail_be::get32(m_ptr); }
  const char* Contents() const { return m_ptr + 4; }
  const char* m_ptr;
};
class ReceivedBundleElementIterator
{
public:
  ReceivedBundleElementIterator(const char* p) : m_e(p) { }
  ReceivedBundleElementIterator& operator++()
  {
    m_e.m_ptr += 4 + m_e.Size();
    return *this;
  }
  const ReceivedBundleElement& operator*() const { return m_e; }
  const ReceivedBundleElement* operator->() const { return &m_e; }
  friend bool operator==(const ReceivedBundleElementIterator& a, const ReceivedBundleElementIterator& b)
  {
    return a.m_e.m_ptr == b.m_e.m_ptr;
  }
  friend bool operator!=(const ReceivedBundleElementIterator& a, const ReceivedBundleElementIterator& b)
  {
    return !(a == b);
  }

private:
  ReceivedBundleElement m_e;
};

class ReceivedMessageArgument
{
  friend class ReceivedMessageArgumentIterator;
  const char* m_tag;
  const char* m_arg;

public:
  ReceivedMessageArgument(const char* t, const char* a) : m_tag(t), m_arg(a) { }
  char TypeTag() const { return *m_tag; }
  const char* Data() const { return m_arg; }
  bool IsString() const { return *m_tag == STRING_TYPE_TAG; }
  bool IsInt32() const { return *m_tag == INT32_TYPE_TAG; }
  bool IsFloat() const { return *m_tag == FLOAT_TYPE_TAG; }
  bool IsBool() const { return *m_tag == TRUE_TYPE_TAG || *m_tag == FALSE_TYPE_TAG; }
  bool AsBool() const
  {
    if (!IsBool())
      throw WrongArgumentTypeException{};
    return *m_tag == TRUE_TYPE_TAG;
  }
  bool AsBoolUnchecked() const { return *m_tag == TRUE_TYPE_TAG; }
  int32 AsInt32Unchecked() const { return int32(detail_be::get32(m_arg)); }
  int32 AsInt32() const
  {
    if (!IsInt32())
      throw WrongArgumentTypeException{};
    return AsInt32Unchecked();
  }
  float AsFloatUnchecked() const
  {
    uint32 u = detail_be::get32(m_arg);
    float f;
    std::memcpy(&f, &u, 4);
    return f;
  }
  float AsFloat() const
  {
    if (!IsFloat())
      throw WrongArgumentTypeException{};
    return AsFloatUnchecked();
  }
  char AsCharUnchecked() const { return char(int32(detail_be::get32(m_arg))); }
  uint32 AsRgbaColorUnchecked() const { return detail_be::get32(m_arg); }
  int64 AsInt64Unchecked() const { return int64(detail_be::get64(m_arg)); }
  uint64 AsTimeTagUnchecked() const { return detail_be::get64(m_arg); }
  double AsDoubleUnchecked() const
  {
    uint64 u = detail_be::get64(m_arg);
    double f;
    std::memcpy(&f, &u, 8);
    return f;
  }
  const char* AsStringUnchecked() const { return m_arg; }
  const char* AsString() const
  {
    if (!IsString())
      throw WrongArgumentTypeException{};
    return m_arg;
  }
  const char* AsSymbolUnchecked() const { return m_arg; }
  void AsBlobUnchecked(const void*& d, osc_bundle_element_size_t& s) const
  {
    s = int32(detail_be::get32(m_arg));
    d = m_arg + 4;
  }
};
class ReceivedMessageArgumentIterator
{
  ReceivedMessageArgument m_v;
  void advance()
  {
    if (!m_v.m_tag)
      return;
    switch (*m_v.m_tag++)
    {
      case '\0':
        --m_v.m_tag;
        break;
      case INT32_TYPE_TAG:
      case FLOAT_TYPE_TAG:
      case CHAR_TYPE_TAG:
      case RGBA_COLOR_TYPE_TAG:
      case MIDI_MESSAGE_TYPE_TAG:
        m_v.m_arg += 4;
        break;
      case INT64_TYPE_TAG:
      case TIME_TAG_TYPE_TAG:
      case DOUBLE_TYPE_TAG:
        m_v.m_arg += 8;
        break;
      case STRING_TYPE_TAG:
      case SYMBOL_TYPE_TAG:
        m_v.m_arg += RoundUp4(std::strlen(m_v.m_arg) + 1);
        break;
      case BLOB_TYPE_TAG:
        m_v.m_arg += 4 + RoundUp4(detail_be::get32(m_v.m_arg));
        break;
      default:
        break;
    }
  }

public:
  ReceivedMessageArgumentIterator(const char* t, const char* a) : m_v(t, a) { }
  ReceivedMessageArgumentIterator& operator++()
  {
    advance();
    return *this;
  }
  ReceivedMessageArgumentIterator operator++(int)
  {
    auto o = *this;
    advance();
    return o;
  }
  const ReceivedMessageArgument& operator*() const { return m_v; }
  const ReceivedMessageArgument* operator->() const { return &m_v; }
  friend bool operator==(const ReceivedMessageArgumentIterator& a, const ReceivedMessageArgumentIterator& b)
  {
    return a.m_v.m_tag == b.m_v.m_tag;
  }
  friend bool operator!=(const ReceivedMessageArgumentIterator& a, const ReceivedMessageArgumentIterator& b)
  {
    return !(a == b);
  }
};
class ReceivedMessage
{
  const char* m_addr{};
  const char* m_tagsBegin{};
  const char* m_tagsEnd{};
  const char* m_args{};

  void init(const char* d, std::size_t n)
  {
    if (n == 0 || n % 4 != 0)
      throw MalformedMessageException{};
    auto end = d + n;
    m_addr = d;
    auto z = (const char*)std::memchr(d, 0, n);
    if (!z)
      throw MalformedMessageException{"unterminated address pattern"};
    auto p = d + RoundUp4((z - d) + 1);
    if (p >= end)
    {
      m_args = end;
      return;
    }
    if (*p != ',')
      throw MalformedMessageException{"type tags not present"};
    auto tz = (const char*)std::memchr(p, 0, end - p);
    if (!tz)
      throw MalformedMessageException{"type tags not terminated"};
    m_tagsBegin = p + 1;
    m_tagsEnd = tz;
    m_args = p + RoundUp4((tz - p) + 1);
    // bounds of every argument
    auto a = m_args;
    int depth = 0;
    for (auto t = m_tagsBegin; t != m_tagsEnd; ++t)
    {
      std::size_t need = 0;
      switch (*t)
      {
        case TRUE_TYPE_TAG:
        case FALSE_TYPE_TAG:
        case NIL_TYPE_TAG:
        case INFINITUM_TYPE_TAG:
          break;
        case ARRAY_BEGIN_TYPE_TAG:
          depth++;
          break;
        case ARRAY_END_TYPE_TAG:
          depth--;
          break;
        case INT32_TYPE_TAG:
        case FLOAT_TYPE_TAG:
        case CHAR_TYPE_TAG:
        case RGBA_COLOR_TYPE_TAG:
        case MIDI_MESSAGE_TYPE_TAG:
          need = 4;
          break;
        case INT64_TYPE_TAG:
        case TIME_TAG_TYPE_TAG:
        case DOUBLE_TYPE_TAG:
          need = 8;
          break;
        case STRING_TYPE_TAG:
        case SYMBOL_TYPE_TAG: {
          auto sz = a < end ? (const char*)std::memchr(a, 0, end - a) : nullptr;
          if (!sz)
            throw MalformedMessageException{"unterminated string"};
          need = RoundUp4((sz - a) + 1);
          break;
        }
        case BLOB_TYPE_TAG:
          if (end - a < 4)
            throw MalformedMessageException{"arguments exceed message size"};
          need = 4 + RoundUp4(detail_be::get32(a));
          break;
        default:
          throw MalformedMessageException{"unknown type tag"};
      }
      if (std::size_t(end - a) < need)
        throw MalformedMessageException{"arguments exceed message size"};
      a += need;
    }
    if (depth != 0)
      throw MalformedMessageException{"array not terminated"};
  }

public:
  explicit ReceivedMessage(const ReceivedPacket& p) { init(p.Contents(), p.Size()); }
  explicit ReceivedMessage(const ReceivedBundleElement& e) { init(e.Contents(), e.Size()); }
  const char* AddressPattern() const { return m_addr; }
  bool AddressPatternIsUInt32() const { return m_addr[0] == '\0'; }
  uint32 ArgumentCount() const { return uint32(m_tagsEnd - m_tagsBegin); }
  const char* TypeTags() const { return m_tagsBegin ? m_tagsBegin : ""; }
  using const_iterator = ReceivedMessageArgumentIterator;
  const_iterator ArgumentsBegin() const { return {m_tagsBegin, m_args}; }
  const_iterator ArgumentsEnd() const { return {m_tagsEnd, nullptr}; }
};
class ReceivedBundle
{
  const char* m_data{};
  const char* m_end{};
  void init(const char* d, std::size_t n)
  {
    if (n < 16 || n % 4 != 0 || std::memcmp(d, "#bundle\0", 8) != 0)
      throw MalformedBundleException{};
    m_data = d;
    m_end = d + n;
    auto p = d + 16;
    while (p < m_end)
    {
      if (m_end - p < 4)
        throw MalformedBundleException{"packet too short for elementSize"};
      auto s = detail_be::get32(p);
      if (s % 4 != 0)
        throw MalformedBundleException{"bundle element size must be multiple of four"};
      if (std::size_t(m_end - p - 4) < s)
        throw MalformedBundleException{"packet too short for bundle element"};
      p += 4 + s;
    }
  }

public:
  explicit ReceivedBundle(const ReceivedPacket& p) { init(p.Contents(), p.Size()); }
  explicit ReceivedBundle(const ReceivedBundleElement& e) { init(e.Contents(), e.Size()); }
  uint64 TimeTag() const { return detail_be::get64(m_data + 8); }
  ReceivedBundleElementIterator ElementsBegin() const { return {m_data + 16}; }
  ReceivedBundleElementIterator ElementsEnd() const { return {m_end}; }
};
}
