#pragma once
// Stand-in for websocketpp: connections live in this process.  Messages and
// connection events are queued; the harness delivers them (vp_ws::pump).
// Requests over HTTP are answered at once (vp_ws::http).
#include <boost/asio.hpp>

#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <vector>

namespace websocketpp
{
using connection_hdl = std::weak_ptr<void>;
namespace lib
{
using error_code = std::error_code;
using mutex = std::mutex;
template <typename T>
using lock_guard = std::lock_guard<T>;
using thread = std::thread;
}
namespace frame::opcode
{
enum value
{
  continuation = 0,
  text = 1,
  binary = 2,
  CONTINUATION = 0,
  TEXT = 1,
  BINARY = 2
};
}
namespace close::status
{
using value = uint16_t;
static constexpr value normal = 1000, going_away = 1001;
}
namespace http::status_code
{
enum value
{
  ok = 200,
  bad_request = 400,
  not_found = 404
};
}
namespace log
{
struct alevel
{
  static constexpr int all = 1, app = 2;
};
struct elevel
{
  static constexpr int all = 1;
};
struct logger
{
  template <typename... A>
  void write(A&&...)
  {
  }
};
}
namespace config
{
struct asio
{
};
struct asio_client
{
};
}
namespace vp_ws
{
struct message
{
  frame::opcode::value op;
  std::string data;
  frame::opcode::value get_opcode() const { return op; }
  const std::string& get_raw_payload() const { return data; }
  std::string& get_raw_payload() { return data; }
};
using message_ptr = std::shared_ptr<message>;
struct uri
{
  std::string r;
  const std::string& get_resource() const { return r; }
};
struct endpoint;
// two sockets that are connected to each other, for whoever asks for addresses
inline boost::asio::ip::tcp::socket& socket()
{
  using tcp = boost::asio::ip::tcp;
  static boost::asio::io_context ctx;
  static tcp::acceptor acc(ctx, tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0));
  static tcp::socket a(ctx), b(ctx);
  static bool once = [] { a.connect(acc.local_endpoint()); acc.accept(b); return true; }();
  (void)once;
  return b;
}
struct connection : std::enable_shared_from_this<connection>
{
  endpoint* owner{};              // whose end this is
  std::weak_ptr<connection> peer; // the other end
  std::string resource, body;
  int status{};
  int id{}; // both ends of the n-th connection have n
  std::weak_ptr<void> get_handle() { return std::static_pointer_cast<void>(shared_from_this()); }
  std::error_code send(const std::string& s, frame::opcode::value op = frame::opcode::text);
  std::error_code send(const void* d, std::size_t n, frame::opcode::value op)
  {
    return send(std::string((const char*)d, n), op);
  }
  void close(int, const std::string&);
  boost::asio::ip::tcp::socket& get_raw_socket() { return socket(); }
  std::string get_remote_endpoint() const { return "peer"; }
  std::shared_ptr<uri> get_uri() const { return std::make_shared<uri>(uri{resource}); }
  void append_header(const std::string&, const std::string&) {}
  void replace_header(const std::string&, const std::string&) {}
  void set_body(std::string s) { body = std::move(s); }
  void set_status(http::status_code::value s) { status = s; }
};
using con_ptr = std::shared_ptr<connection>;
struct event
{
  con_ptr to;
  message_ptr msg; // null: closed
};
inline std::mutex& mutex()
{
  static std::mutex m;
  return m;
}
inline std::deque<event>& queue()
{
  static std::deque<event> q;
  return q;
}
inline std::map<int, endpoint*>& servers()
{
  static std::map<int, endpoint*> m;
  return m;
}
struct endpoint
{
  using message_ptr = vp_ws::message_ptr;
  using connection_ptr = con_ptr;
  std::function<void(connection_hdl)> on_open, on_close, on_fail, on_http;
  std::function<void(connection_hdl, message_ptr)> on_message;
  std::vector<con_ptr> cons;
  std::mutex m;
  std::condition_variable cv;
  bool stopped{};
  log::logger lg;

  ~endpoint()
  {
    std::lock_guard g(vp_ws::mutex());
    for (auto it = servers().begin(); it != servers().end();)
      it = it->second == this ? servers().erase(it) : std::next(it);
    for (auto& c : cons) c->owner = nullptr;
  }
  void init_asio() {}
  void init_asio(boost::asio::io_context*) {}
  void set_reuse_addr(bool) {}
  void clear_access_channels(int) {}
  void clear_error_channels(int) {}
  template <typename F>
  void set_socket_init_handler(F) {}
  template <typename F>
  void set_open_handler(F f) { on_open = f; }
  template <typename F>
  void set_close_handler(F f) { on_close = f; }
  template <typename F>
  void set_fail_handler(F f) { on_fail = f; }
  template <typename F>
  void set_message_handler(F f) { on_message = std::move(f); }
  template <typename F>
  void set_http_handler(F f) { on_http = f; }
  log::logger& get_alog() { return lg; }
  log::logger& get_elog() { return lg; }
  template <typename T>
  void listen(T, uint16_t port)
  {
    std::lock_guard g(vp_ws::mutex());
    servers()[port] = this;
  }
  void start_accept() {}
  bool is_listening() const { return true; }
  void stop_listening() {}
  void run()
  {
    std::unique_lock l(m);
    cv.wait(l, [&] { return stopped; });
  }
  void stop()
  {
    std::lock_guard l(m);
    stopped = true;
    cv.notify_all();
  }
  void reset()
  {
    std::lock_guard l(m);
    stopped = false;
  }
  con_ptr get_con_from_hdl(connection_hdl h)
  {
    auto c = std::static_pointer_cast<connection>(h.lock());
    if (!c) throw std::runtime_error("Bad Connection");
    return c;
  }
  con_ptr get_connection(const std::string& uri, std::error_code&)
  {
    auto c = std::make_shared<connection>();
    c->owner = this;
    c->resource = uri;
    return c;
  }
  void connect(con_ptr c)
  {
    int port = std::stoi(c->resource.substr(c->resource.rfind(':') + 1));
    endpoint* srv{};
    auto other = std::make_shared<connection>();
    {
      std::lock_guard g(vp_ws::mutex());
      auto it = servers().find(port);
      if (it != servers().end())
      {
        srv = it->second;
        other->owner = srv;
        other->peer = c;
        c->peer = other;
        static int n = 0;
        c->id = other->id = ++n;
        srv->cons.push_back(other);
        cons.push_back(c);
      }
    }
    if (!srv)
    {
      on_fail(c->get_handle());
      return stop();
    }
    srv->on_open(other->get_handle());
    on_open(c->get_handle());
  }
  void send(connection_hdl h, const std::string& s, frame::opcode::value op, std::error_code&)
  {
    if (auto c = std::static_pointer_cast<connection>(h.lock())) c->send(s, op);
  }
  void send(connection_hdl h, const void* d, std::size_t n, frame::opcode::value op, std::error_code& ec)
  {
    send(h, std::string((const char*)d, n), op, ec);
  }
  void close(connection_hdl h, int code, const std::string& why)
  {
    if (auto c = std::static_pointer_cast<connection>(h.lock())) c->close(code, why);
  }
};
inline std::error_code connection::send(const std::string& s, frame::opcode::value op)
{
  std::lock_guard g(vp_ws::mutex());
  if (auto p = peer.lock()) queue().push_back({p, std::make_shared<message>(message{op, s})});
  return {};
}
// the other end learns of it; a client's loop ends
inline void connection::close(int, const std::string&)
{
  endpoint* client{};
  {
    std::lock_guard g(vp_ws::mutex());
    if (auto p = peer.lock()) queue().push_back({p, nullptr});
    if (owner)
      for (auto it = owner->cons.begin(); it != owner->cons.end(); ++it)
        if (it->get() == this)
        {
          if (!owner->on_http) client = owner;
          auto keep = *it;
          owner->cons.erase(it);
          owner = nullptr;
          break;
        }
  }
  if (client) client->stop();
}
//! The last event that was delivered
inline event& last()
{
  static event e;
  return e;
}
//! Delivers the next event (of one connection only, if told so); false if there is none
inline bool pump(int id = -1)
{
  event& e = last();
  e = event{};
  {
    std::lock_guard g(vp_ws::mutex());
    auto it = queue().begin();
    while (it != queue().end() && id >= 0 && (int)it->to->id != id) ++it;
    if (it == queue().end()) return false;
    e = std::move(*it);
    queue().erase(it);
    if (!e.to->owner) return true;
  }
  auto o = e.to->owner;
  if (e.msg) o->on_message(e.to->get_handle(), e.msg);
  else
  {
    bool there = false;
    {
      std::lock_guard g(vp_ws::mutex());
      for (auto it = o->cons.begin(); it != o->cons.end(); ++it)
        if (*it == e.to)
        {
          o->cons.erase(it);
          e.to->owner = nullptr;
          there = true;
          break;
        }
    }
    if (there)
    {
      if (o->on_close) o->on_close(e.to->get_handle());
      if (!o->on_http) o->stop(); // a client
    }
  }
  return true;
}
//! What the server at that port answers to a request: status and body
inline std::pair<int, std::string> http(int port, const std::string& resource)
{
  endpoint* srv{};
  {
    std::lock_guard g(vp_ws::mutex());
    auto it = servers().find(port);
    if (it == servers().end()) return {0, ""};
    srv = it->second;
  }
  auto c = std::make_shared<connection>();
  c->owner = srv;
  c->resource = resource;
  srv->on_http(c->get_handle());
  return {c->status ? c->status : 500, c->body};
}
}
template <typename C>
struct server : vp_ws::endpoint
{
};
template <typename C>
struct client : vp_ws::endpoint
{
};
}
