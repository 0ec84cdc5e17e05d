#pragma once
#include <oscpack/osc/OscTypes.h>
#include <string>
#include <vector>
namespace oscpack
{
class OutOfBufferMemoryException : public Exception
{
public:
  OutOfBufferMemoryException() : Exception("out of buffer memory") { }
};
class OutboundPacketStream
{
  char* m_data{};
  std::size_t m_cap{};
  std::size_t m_size{};
  bool m_inMessage{};
  std::string m_addr, m_tags, m_args;
  std::vector<std::size_t> m_bundles;

  void need(std::size_t n)
  {
    if (m_size + n > m_cap)
      throw OutOfBufferMemoryException{};
  }
  void raw(const void* p, std::size_t n)
  {
    need(n);
    std::memcpy(m_data + m_size, p, n);
    m_size += n;
  }
  void check_arg(std::size_t n)
  {
    if (!m_inMessage)
      throw Exception("message not in progress");
    const std::size_t tot = m_size + (m_bundles.empty() ? 0 : 4) + RoundUp4(m_addr.size() + 1)
                            + RoundUp4(m_tags.size() + 3) + m_args.size() + n;
    if (tot > m_cap)
      throw OutOfBufferMemoryException{};
  }
  void arg(char tag, const void* p, std::size_t n)
  {
    const auto padded = RoundUp4(n);
    check_arg(padded);
    m_tags.push_back(tag);
    m_args.append((const char*)p, n);
    m_args.append(padded - n, '\0');
  }
  void arg32(char tag, uint32 v)
  {
    unsigned char b[4];
    detail_be::put32(b, v);
    arg(tag, b, 4);
  }
  void arg64(char tag, uint64 v)
  {
    unsigned char b[8];
    detail_be::put64(b, v);
    arg(tag, b, 8);
  }

public:
  OutboundPacketStream(char* buffer, std::size_t capacity) : m_data(buffer), m_cap(capacity) { }
  void Clear()
  {
    m_size = 0;
    m_inMessage = false;
    m_bundles.clear();
  }
  std::size_t Capacity() const { return m_cap; }
  std::size_t Size() const { return m_size; }
  const char* Data() const { return m_data; }
  bool IsReady() const { return !m_inMessage && m_bundles.empty(); }

  OutboundPacketStream& operator<<(const BeginBundleImmediate&)
  {
    if (!m_bundles.empty())
    {
      m_bundles.push_back(m_size);
      raw("\0\0\0\0", 4);
    }
    else
      m_bundles.push_back(std::size_t(-1));
    raw("#bundle\0", 8);
    raw("\0\0\0\0\0\0\0\1", 8);
    return *this;
  }
  OutboundPacketStream& operator<<(const EndBundle&)
  {
    if (m_bundles.empty())
      throw Exception("call to EndBundle when bundle is not in progress");
    auto p = m_bundles.back();
    m_bundles.pop_back();
    if (p != std::size_t(-1))
      detail_be::put32((unsigned char*)m_data + p, m_size - p - 4);
    return *this;
  }
  OutboundPacketStream& operator<<(const BeginMessageN& m)
  {
    if (m_inMessage)
      throw Exception("message in progress");
    m_addr.assign(m.addressPattern);
    m_tags.clear();
    m_args.clear();
    m_inMessage = true;
    check_arg(0);
    return *this;
  }
  OutboundPacketStream& operator<<(const EndMessage&)
  {
    if (!m_inMessage)
      throw Exception("call to EndMessage when message is not in progress");
    m_inMessage = false;
    std::string msg = m_addr;
    msg.append(RoundUp4(m_addr.size() + 1) - m_addr.size(), '\0');
    std::string tt = "," + m_tags;
    const auto n = tt.size();
    tt.append(RoundUp4(n + 1) - n, '\0');
    msg += tt;
    msg += m_args;
    if (!m_bundles.empty())
    {
      unsigned char b[4];
      detail_be::put32(b, msg.size());
      need(4 + msg.size());
      raw(b, 4);
    }
    raw(msg.data(), msg.size());
    return *this;
  }
  OutboundPacketStream& operator<<(bool b)
  {
    arg(b ? TRUE_TYPE_TAG : FALSE_TYPE_TAG, "", 0);
    return *this;
  }
  OutboundPacketStream& operator<<(const NilType&)
  {
    arg(NIL_TYPE_TAG, "", 0);
    return *this;
  }
  OutboundPacketStream& operator<<(const Infinitum&)
  {
    arg(INFINITUM_TYPE_TAG, "", 0);
    return *this;
  }
  OutboundPacketStream& operator<<(const BeginArray&)
  {
    arg(ARRAY_BEGIN_TYPE_TAG, "", 0);
    return *this;
  }
  OutboundPacketStream& operator<<(const EndArray&)
  {
    arg(ARRAY_END_TYPE_TAG, "", 0);
    return *this;
  }
  OutboundPacketStream& operator<<(int32 v)
  {
    arg32(INT32_TYPE_TAG, v);
    return *this;
  }
  OutboundPacketStream& operator<<(int64 v)
  {
    arg64(INT64_TYPE_TAG, v);
    return *this;
  }
  OutboundPacketStream& operator<<(float v)
  {
    uint32 u;
    std::memcpy(&u, &v, 4);
    arg32(FLOAT_TYPE_TAG, u);
    return *this;
  }
  OutboundPacketStream& operator<<(double v)
  {
    uint64 u;
    std::memcpy(&u, &v, 8);
    arg64(DOUBLE_TYPE_TAG, u);
    return *this;
  }
  OutboundPacketStream& operator<<(char v)
  {
    arg32(CHAR_TYPE_TAG, uint32(int32(v)));
    return *this;
  }
  OutboundPacketStream& operator<<(const RgbaColor& v)
  {
    arg32(RGBA_COLOR_TYPE_TAG, v.value);
    return *this;
  }
  OutboundPacketStream& operator<<(const TimeTag& v)
  {
    arg64(TIME_TAG_TYPE_TAG, v.value);
    return *this;
  }
  OutboundPacketStream& operator<<(std::string_view v)
  {
    std::string s(v);
    s.push_back('\0');
    arg(STRING_TYPE_TAG, s.data(), s.size());
    return *this;
  }
  OutboundPacketStream& operator<<(const std::string& v) { return *this << std::string_view(v); }
  OutboundPacketStream& operator<<(const char* v) { return *this << std::string_view(v); }
  OutboundPacketStream& operator<<(const Blob& b)
  {
    std::string s(4, '\0');
    detail_be::put32((unsigned char*)s.data(), b.size);
    s.append((const char*)b.data, b.size);
    arg(BLOB_TYPE_TAG, s.data(), s.size());
    return *this;
  }
};
}
