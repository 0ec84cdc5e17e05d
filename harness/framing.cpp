#include "vp.hpp"
#include <boost/asio.hpp>
#include <ossia/network/sockets/size_prefix_framing.hpp>
#include <ossia/network/sockets/slip_framing.hpp>
#include <deque>
#include <memory>
#include <functional>
using namespace vp;

// a byte stream that hands out what was fed to it, at most one feed at a time
struct fake_stream
{
  using executor_type = boost::asio::io_context::executor_type;
  boost::asio::io_context& ctx;
  std::deque<std::string> in;
  std::string out;
  std::function<void()> pending;
  executor_type get_executor() { return ctx.get_executor(); }
  template <typename B, typename H>
  void async_read_some(const B& b, H&& h)
  {
    auto hh = std::make_shared<std::decay_t<H>>(std::forward<H>(h));
    boost::asio::mutable_buffer buf;
    for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it)
      if (boost::asio::mutable_buffer(*it).size()) { buf = *it; break; }
    pending = [this, hh, buf] {
      auto& f = in.front();
      std::size_t n = std::min(f.size(), buf.size());
      memcpy(buf.data(), f.data(), n);
      f.erase(0, n);
      if (f.empty()) in.pop_front();
      boost::asio::post(ctx, [hh, n] { (*hh)(boost::system::error_code{}, n); });
    };
  }
  template <typename B>
  std::size_t write_some(const B& b) { boost::system::error_code ec; return write_some(b, ec); }
  template <typename B>
  std::size_t write_some(const B& b, boost::system::error_code&)
  {
    // writes may be short too
    std::size_t n = 0;
    for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it) {
      boost::asio::const_buffer c = *it;
      std::size_t k = std::min<std::size_t>(c.size(), 7);
      out.append((const char*)c.data(), k); n += k;
      if (k) break;
    }
    return n;
  }
  void run()
  {
    for (;;) {
      ctx.restart(); ctx.run();
      if (pending && !in.empty()) { auto p = std::move(pending); pending = nullptr; p(); } else break;
    }
  }
};
static std::vector<std::string> got;
struct sink
{
  bool validate_stream(boost::system::error_code ec) const { return !ec; }
  void operator()(const char* d, std::size_t n) const { got.emplace_back(d, n); }
  void operator()(const unsigned char* d, std::size_t n) const { got.emplace_back((const char*)d, n); }
};
struct base { virtual ~base() = default; fake_stream* s; virtual void send(const std::string&) = 0; };
template <typename F>
struct flink : base
{
  boost::asio::io_context ctx;
  fake_stream st{ctx};
  typename F::template decoder<fake_stream> dec{st};
  typename F::template encoder<fake_stream> enc{st};
  flink() { s = &st; dec.receive(sink{}); }
  void send(const std::string& m) override { enc.write(m.data(), m.size()); }
};
static A arr(const std::string& s) { A a; for (unsigned char c : s) a.el((long)c); return a; }
static std::string bytes(const std::string& t)
{
  // [1,2,3] or 5*100,7 for repetitions
  std::string r; std::string x = t.substr(1, t.size() - 2); std::istringstream is(x); std::string e;
  while (std::getline(is, e, ',')) { int v = 0, n = 1; if (sscanf(e.c_str(), "%d*%d", &v, &n) >= 1) r.append(n, (char)v); }
  return r;
}
int main(int argc, char** argv)
{
  const std::string kind = argv[2];
  std::unique_ptr<base> L; std::string wire;
  return drive(argc, argv,
    [&](const Cmd&) {
      wire.clear(); got.clear();
      if (kind == "slip") L = std::make_unique<flink<ossia::net::slip_framing>>(); else L = std::make_unique<flink<ossia::net::size_prefix_framing>>();
      J j; j.kv("e", "Reset"); emit(j);
    },
    [&](const Cmd& c) {
      J j; j.kv("e", c.op());
      if (c.op() == "send") { auto m = bytes(c.s(1)); L->s->out.clear(); L->send(m); wire += L->s->out; emit(j.kv("m", arr(m)).kv("bytes", arr(L->s->out))); }
      else if (c.op() == "noise") { auto m = bytes(c.s(1)); wire += m; emit(j.kv("bytes", arr(m))); }
      else if (c.op() == "recv") {
        std::size_t n = std::min<std::size_t>(c.i(1), wire.size());
        got.clear();
        if (n) { L->s->in.push_back(wire.substr(0, n)); wire.erase(0, n); }
        L->s->run();
        A a; for (auto& m : got) a.el(arr(m));
        emit(j.kv("n", (long)n).kv("got", a));
      }
      else c.misuse("op");
    });
}
