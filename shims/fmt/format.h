#pragma once
// The distribution's fmt 9 dropped format_to(memory_buffer&, ...), which
// libossia (written for fmt 7) uses; put it back.
#include_next <fmt/format.h>
#ifndef VP_FMT_COMPAT
#define VP_FMT_COMPAT
namespace fmt
{
inline namespace v9
{
template <typename... Args>
inline void
format_to(memory_buffer& buf, std::string_view f, const Args&... args)
{
  vformat_to(std::back_inserter(buf), f, make_format_args(args...));
}
}
}
#endif
