#pragma once
// Stand-in for the HTTP client: asks the server that lives in this process
#include <ossia/detail/logger.hpp>
#include <websocketpp/vp_ws.hpp>

#include <memory>
#include <string>
namespace ossia::net
{
using tcp = boost::asio::ip::tcp;
template <typename Fun, typename Err>
class http_get_request : public std::enable_shared_from_this<http_get_request<Fun, Err>>
{
  Fun m_fun;
  Err m_err;
  std::string m_path;

public:
  http_get_request(Fun f, Err e, boost::asio::io_context&, const std::string&, const std::string& path)
      : m_fun{std::move(f)}, m_err{std::move(e)}
  {
    for (char c : path)
      if (c == ' ') m_path += "%20";
      else m_path += c;
  }
  void resolve(const std::string&, const std::string& port)
  {
    auto r = websocketpp::vp_ws::http(std::stoi(port), m_path);
    if (r.first == 0) m_err(*this);
    else if (r.first == 200 && !r.second.empty()) m_fun(*this, r.second);
  }
  void close() {}
};
}
