// Conformance harness of Rate.tla: a device behind a rate limiter, in real time;
// everything that happens is written down in the order it happened.
#include "values.hpp"
#include <ossia/network/base/device.hpp>
#include <ossia/network/base/message_origin_identifier.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_node.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/rate_limiting_protocol.hpp>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
using namespace vp;
using namespace ossia::net;
using namespace std::chrono_literals;
using steady = std::chrono::steady_clock;

static std::mutex mtx; // of all of these
static std::condition_variable cv;
static std::vector<std::string> events;
static A calls;
static std::map<std::string, std::string> last, sent; // what was pushed, sent last
static std::string hold; static bool held;
static long sends;
static std::chrono::milliseconds patience{6000}; // much less once something never came
static const message_origin_identifier* origin;
static std::map<const parameter_base*, std::string> names;
static thread_local bool user;

static void note(const J& j) { std::lock_guard l{mtx}; events.push_back(j.str()); }
static std::string name(const parameter_base& p) { std::lock_guard l{mtx}; auto it = names.find(&p); return it == names.end() ? "unknown parameter" : it->second; }
struct told : protocol_base
{
  bool yes{true};
  told() : protocol_base{flags{SupportsMultiplex}} {}
  bool log(const char* k, const std::string& p, const ossia::value& v) const
  { std::lock_guard l{mtx}; const_cast<A&>(calls).el(J().kv("k", k).kv("p", p).kv("v", val(v))); return yes; }
  bool pull(parameter_base& p) override { return log("pull", name(p), {}); }
  bool push(const parameter_base& p, const ossia::value& v) override
  {
    const auto n = name(p), s = val(v).str();
    std::unique_lock l{mtx};
    events.push_back(J().kv("e", "sent").kv("p", n).kv("v", val(v)).str());
    sent[n] = s; sends++;
    if (!user && hold == n) { held = true; cv.notify_all(); cv.wait(l, [] { return hold.empty(); }); held = false; }
    cv.notify_all();
    return yes;
  }
  bool push_raw(const full_parameter_data& p) override { return log("raw", p.address, p.value()); }
  bool observe(parameter_base& p, bool b) override { return log("observe", name(p), b); }
  bool observe_quietly(parameter_base& p, bool b) override { return log("observeq", name(p), b); }
  bool echo_incoming_message(const message_origin_identifier& id, const parameter_base& p, const ossia::value& v) override
  { return log(&id == origin ? "echo" : "echo of something else", name(p), v); }
  bool update(node_base&) override { return log("update", "", {}); }
  std::future<void> update_async(node_base&) override { log("updateasync", "", {}); std::promise<void> p; p.set_value(); return p.get_future(); }
  std::future<void> pull_async(parameter_base& q) override { log("pullasync", name(q), {}); std::promise<void> p; p.set_value(); return p.get_future(); }
  void request(parameter_base& p) override { log("request", name(p), {}); }
  bool connected() const noexcept override { return log("connected", "", {}); }
  void connect() override { log("connect", "", {}); }
  void start_execution() override { log("start", "", {}); }
  void stop_execution() override { log("stopexec", "", {}); }
  void stop() override { log("stop", "", {}); }
  void set_device(device_base&) override { log("device", "", {}); }
  network_logger lg; int loggers{};
  void set_logger(const network_logger& l) override { log("logger", "", {}); lg = l; }
};
struct World
{
  told* in; rate_limiting_protocol* lim;
  std::unique_ptr<generic_device> dev;
  World(int ms)
  {
    auto p = std::make_unique<told>(); in = p.get();
    auto l = std::make_unique<rate_limiting_protocol>(std::chrono::milliseconds(ms), std::move(p)); lim = l.get();
    dev = std::make_unique<generic_device>(std::move(l), "dev");
  }
};
static std::unique_ptr<World> W;
static void flush_events()
{
  std::lock_guard l{mtx};
  for (auto& e : events) { fputs(e.c_str(), stdout); fputc('\n', stdout); }
  events.clear();
}
static void fresh(int ms)
{
  { std::lock_guard l{mtx}; hold.clear(); } cv.notify_all();
  W.reset(); // with whatever is waiting
  std::lock_guard l{mtx};
  events.clear(); calls = A{}; last.clear(); sent.clear(); names.clear(); sends = 0;
}
static parameter_base* par(const Cmd& c, const std::string& s)
{
  auto n = find_node(W->dev->get_root_node(), s); auto p = n ? n->get_parameter() : nullptr;
  if (!p) c.misuse("no parameter");
  return p;
}
static void push(parameter_base& p, const std::string& n, const ossia::value& v, int how)
{
  note(J().kv("e", "push").kv("p", n).kv("v", val(v)));
  { std::lock_guard l{mtx}; last[n] = val(v).str(); }
  if (how == 0) p.push_value(v); else if (how == 1) p.push_value(ossia::value(v)); else { p.set_value(v); p.push_value(); }
}
int main(int argc, char** argv)
{
  int rc = drive(argc, argv, [](const Cmd&) {
      fresh(2); W = std::make_unique<World>(2);
      { std::lock_guard l{mtx}; calls = A{}; }
      emit(J().kv("e", "Reset")); },
    [](const Cmd& c) {
      const auto& o = c.op();
      user = true;
      { std::lock_guard l{mtx}; calls = A{}; }
      protocol_base& lim = *W->lim;
      J j; j.kv("e", o);
      auto pass = [&](const char* k, const std::string& p, const ossia::value& v, int ok = -1) {
        std::lock_guard l{mtx};
        events.push_back(j.kv("k", k).kv("p", p).kv("v", val(v)).kv("ok", ok == -1 || ok == W->in->yes).kv("calls", calls).str()); };
      if (o == "cfg") { fresh(0); W = std::make_unique<World>(c.i(1)); flush_events(); return emit(J().kv("e", "cfg")); }
      else if (o == "new")
      {
        auto p = find_or_create_node(W->dev->get_root_node(), c.s(1)).create_parameter(c.n() > 2 ? type_of(c.s(2)) : ossia::val_type::INT);
        { std::lock_guard l{mtx}; names[p] = c.s(1); last.erase(c.s(1)); sent.erase(c.s(1)); calls = A{}; }
        note(j.kv("p", c.s(1)));
      }
      else if (o == "del" || o == "delnode")
      {
        auto p = par(c, c.s(1)); auto& n = p->get_node();
        // while another one is being sent, which takes a while
        std::thread later; bool h; { std::lock_guard l{mtx}; h = held; }
        if (h) later = std::thread{[] { std::this_thread::sleep_for(5ms); { std::lock_guard l{mtx}; hold.clear(); } cv.notify_all(); }};
        if (o == "del") n.remove_parameter(); else n.get_parent()->remove_child(n);
        if (h) later.join();
        std::lock_guard l{mtx};
        names.erase(p); last.erase(c.s(1)); sent.erase(c.s(1));
        events.push_back(j.kv("p", c.s(1)).str());
      }
      else if (o == "push" || o == "pushr" || o == "pushq")
      {
        auto v = val(c.s(2));
        push(*par(c, c.s(1)), c.s(1), v, o == "push" ? 0 : o == "pushr" ? 1 : 2);
      }
      else if (o == "bundle")
      {
        std::vector<const parameter_base*> ps;
        for (std::size_t i = 1; i < c.n(); i++)
        {
          auto p = par(c, c.s(i)); ps.push_back(p);
          note(J().kv("e", "push").kv("p", c.s(i)).kv("v", val(p->value())));
          std::lock_guard l{mtx}; last[c.s(i)] = val(p->value()).str();
        }
        lim.push_bundle(ps);
      }
      else if (o == "hold")
      { // push and wait until it is being sent, which goes on at "release"
        auto p = par(c, c.s(1));
        { std::lock_guard l{mtx}; hold = c.s(1); }
        push(*p, c.s(1), val(c.s(2)), 0);
        std::unique_lock l{mtx};
        if (!cv.wait_for(l, patience, [] { return held; })) { patience = 100ms; hold.clear(); cv.notify_all(); events.push_back(J().kv("e", "never sent").str()); }
      }
      else if (o == "release") { { std::lock_guard l{mtx}; hold.clear(); } cv.notify_all(); }
      else if (o == "settle")
      { // until everything pushed was sent, and then some
        bool done; long n;
        { std::unique_lock l{mtx}; done = cv.wait_for(l, patience, [] { for (auto& [k, v] : last) if (!sent.count(k) || sent[k] != v) return false; return true; }); n = sends; if (!done) patience = 100ms; }
        std::this_thread::sleep_for(c.n() > 1 ? std::chrono::milliseconds(c.i(1)) : 5ms);
        std::lock_guard l{mtx}; (void)n;
        events.push_back(j.kv("done", done).str());
        last.clear(); sent.clear(); // a parameter counts again once it is pushed
      }
      else if (o == "conc")
      { // conc threads pushes p...: every thread on its own parameters, and on the first one in turns
        const int T = c.i(1), N = c.i(2); std::vector<std::string> ns; std::vector<parameter_base*> ps;
        for (std::size_t i = 3; i < c.n(); i++) { ns.push_back(c.s(i)); ps.push_back(par(c, c.s(i))); }
        std::mutex turn; std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back([&, t] {
          user = true;
          for (int i = 0; i < N; i++)
          {
            const std::size_t k = t + 1 < (int)ns.size() && i % 3 ? t + 1 : 0;
            const ossia::value v = 1 + i * T + t;
            if (k) push(*ps[k], ns[k], v, 0); else { std::lock_guard l{turn}; push(*ps[0], ns[0], v, i % 2); }
            if (i % 16 == t) std::this_thread::sleep_for(1ms);
          } });
        for (auto& t : th) t.join();
      }
      else if (o == "duration") { W->lim->set_duration(std::chrono::milliseconds(c.i(1))); note(j); }
      else if (o == "answer") { W->in->yes = c.b(1); note(j); }
      else if (o == "pull") { int r = lim.pull(*par(c, c.s(1))); pass("pull", c.s(1), {}, r); }
      else if (o == "raw") { auto v = val(c.s(2)); int r = lim.push_raw(full_parameter_data{c.s(1), v}); pass("raw", c.s(1), v, r); }
      else if (o == "observe") { int r = lim.observe(*par(c, c.s(1)), c.b(2)); pass("observe", c.s(1), c.b(2), r); }
      else if (o == "observeq") { int r = lim.observe_quietly(*par(c, c.s(1)), c.b(2)); pass("observeq", c.s(1), c.b(2), r); }
      else if (o == "echo")
      {
        auto v = val(c.s(2)); message_origin_identifier id{lim, 3}; origin = &id;
        int r = lim.echo_incoming_message(id, *par(c, c.s(1)), v); pass("echo", c.s(1), v, r); origin = nullptr;
      }
      else if (o == "update") { int r = lim.update(W->dev->get_root_node()); pass("update", "", {}, r); }
      else if (o == "updateasync") { lim.update_async(W->dev->get_root_node()); pass("updateasync", "", {}); }
      else if (o == "pullasync") { lim.pull_async(*par(c, c.s(1))); pass("pullasync", c.s(1), {}); }
      else if (o == "request") { lim.request(*par(c, c.s(1))); pass("request", c.s(1), {}); }
      else if (o == "connected") { int r = lim.connected(); pass("connected", "", {}, r); }
      else if (o == "connect") { lim.connect(); pass("connect", "", {}); }
      else if (o == "start") { lim.start_execution(); pass("start", "", {}); }
      else if (o == "stopexec") { lim.stop_execution(); pass("stopexec", "", {}); }
      else if (o == "stop") { lim.stop(); pass("stop", "", {}); }
      else if (o == "logger") { lim.set_logger({}); pass("logger", "", {}, &lim.get_logger() == &W->in->get_logger() ? W->in->yes : !W->in->yes); }
      else c.misuse("op");
      flush_events();
    });
  fresh(0);
  return rc;
}
