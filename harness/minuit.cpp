// Conformance harness of Minuit.tla: a Minuit server and its mirror, joined by
// two queues of datagrams that the script delivers one by one.
#include "domains.hpp"
#include "packets.hpp"
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_node.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/minuit/minuit.hpp>
#include <oscpack/ip/UdpSocket.h>
#include <chrono>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <thread>
using namespace vp;
using namespace ossia::net;

static const int PORT[2] = {7001, 7002}; // the server's, the mirror's
struct World
{
  minuit_protocol* pr[2];
  std::unique_ptr<generic_device> dev[2];
  std::deque<std::string> q[2];   // on the way to the server, to the mirror
  std::map<std::string, std::future<void>> pulls;
  std::thread upd;
  bool updating = false, result = false;
  bool begun = false;             // what the update sends after its first request are repetitions: they get lost
  World()
  {
    for (int i = 0; i < 2; i++)
    {
      auto p = std::make_unique<minuit_protocol>(i ? "mir" : "srv", "127.0.0.1", PORT[1 - i], PORT[i]);
      pr[i] = p.get();
      dev[i] = std::make_unique<generic_device>(std::move(p), i ? "mir" : "srv");
    }
    vp_udp::take();
  }
  ~World() { if (upd.joinable()) upd.join(); }
  A fresh[2];
  void collect()
  {
    for (auto& p : vp_udp::take())
    {
      int to = p.to == PORT[1];
      if (p.by != std::this_thread::get_id()) { if (begun) continue; begun = p.data.find("?namespace") != p.data.npos; }
      q[to].push_back(p.data);
      fresh[to].elraw(packet_json(p.data).str());
    }
  }
};
static std::unique_ptr<World> W;
static node_base* find(int i, const std::string& p) { return find_node(W->dev[i]->get_root_node(), p); }
static generic_parameter* par(int i, const std::string& p) { auto n = find(i, p); return n ? static_cast<generic_parameter*>(n->get_parameter()) : nullptr; }
static const char* bm_name(ossia::bounding_mode b)
{
  using ossia::bounding_mode;
  switch (b) { case bounding_mode::FREE: return "FREE"; case bounding_mode::CLIP: return "CLIP"; case bounding_mode::WRAP: return "WRAP";
               case bounding_mode::FOLD: return "FOLD"; case bounding_mode::LOW: return "LOW"; case bounding_mode::HIGH: return "HIGH"; }
  return "?";
}
// four times a bound of a numeric domain; -999999: none
static int limit(const ossia::domain& d, bool hi)
{
  auto v = hi ? d.get_max() : d.get_min();
  if (auto i = v.target<int>()) return 4 * *i;
  if (auto f = v.target<float>()) return int(4 * *f);
  return -999999;
}
static void walk(node_base& n, A& a)
{
  for (auto c : n.children_copy())
  {
    auto p = static_cast<generic_parameter*>(c->get_parameter());
    J j; j.kv("p", c->osc_address()).kv("live", p != nullptr);
    if (p)
      j.kv("t", type_name(p->get_value_type())).kv("v", val(p->value())).kv("lo", limit(p->get_domain(), false)).kv("hi", limit(p->get_domain(), true)).kv("bm", bm_name(p->get_bounding()))
          .kv("acc", p->get_access() == ossia::access_mode::BI ? "BI" : p->get_access() == ossia::access_mode::GET ? "GET" : "SET")
          .kv("rep", p->get_repetition_filter() == ossia::repetition_filter::ON)
          .kv("ds", std::string(ossia::get_dataspace_text(p->get_unit()))).kv("un", std::string(ossia::get_unit_text(p->get_unit())))
          .kv("prio", (int)get_priority(*c).value_or(0));
    a.el(j);
    walk(*c, a);
  }
}
static void finish(J& j, bool full = false)
{
  W->collect();
  A s, m, w;
  if (full) walk(W->dev[0]->get_root_node(), s);
  walk(W->dev[1]->get_root_node(), m);
  for (auto it = W->pulls.begin(); it != W->pulls.end();)
    if (it->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready) it = W->pulls.erase(it);
    else { w.el(it->first); ++it; }
  emit(j.kv("toS", W->fresh[0]).kv("toM", W->fresh[1]).kv("full", full).kv("s", s).kv("m", m).kv("wait", w));
  W->fresh[0] = A{}; W->fresh[1] = A{};
}
static void deliver(int to)
{
  auto s = W->q[to].front(); W->q[to].pop_front();
  std::vector<char> exact(s.begin(), s.end());
  vp_udp::deliver(PORT[to], std::string(exact.begin(), exact.end()));
  J j; j.kv("e", to ? "mirror" : "server"); finish(j);
}
int main(int argc, char** argv)
{
  int rc = drive(argc, argv, [](const Cmd&) { W.reset(); W = std::make_unique<World>(); emit(J().kv("e", "Reset")); },
    [](const Cmd& c) {
      const auto& o = c.op();
      J j; j.kv("e", o);
      if (o == "server" || o == "mirror") { int to = o == "mirror"; if (W->q[to].empty()) c.misuse("nothing on the way"); return deliver(to); }
      if (o == "trys" || o == "trym") { int to = o == "trym"; if (!W->q[to].empty()) deliver(to); return; }
      if (o == "flush")
      { // everything arrives
        const auto t0 = std::chrono::steady_clock::now();
        for (;;)
        {
          W->collect();
          if (!W->q[1].empty()) deliver(1); else if (!W->q[0].empty()) deliver(0); else break;
        }
        if (W->upd.joinable())
        {
          W->upd.join(); W->collect(); W->updating = false;
          if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(4)) { emit(J().kv("e", "the update does not end")); fflush(stdout); _Exit(5); }
          j.kv("ok", W->result).kv("up", true);
        }
        else j.kv("ok", true).kv("up", false);
        return finish(j, true);
      }
      auto need = [&](int i) { auto p = par(i, c.s(1)); if (!p) c.misuse("no parameter"); return p; };
      if (c.n() > 1) j.kv("a", c.s(1));
      if (o == "new") { j.kv("t", c.s(2)); auto& n = find_or_create_node(W->dev[0]->get_root_node(), c.s(1)); if (n.get_parameter()) c.misuse("parameter there"); n.create_parameter(type_of(c.s(2))); }
      else if (o == "node") find_or_create_node(W->dev[0]->get_root_node(), c.s(1));
      else if (o == "drop") { auto n = find(0, c.s(1)); if (!n) c.misuse("no node"); n->get_parent()->remove_child(*n); }
      else if (o == "attr")
      { // attr path field value...: an attribute of a parameter of the server
        auto p = need(0); auto f = c.s(2); j.kv("f", f);
        if (f == "dom") { auto x = dom(c.s(3), val(c.s(4)), val(c.s(5)), val(c.s(6))); p->set_domain(x); j.kv("x", dom(x)); }
        else if (f == "bm") { p->set_bounding(mode_of(c.s(3))); j.kv("x", c.s(3)); }
        else if (f == "acc") { auto a = c.s(3); p->set_access(a == "BI" ? ossia::access_mode::BI : a == "GET" ? ossia::access_mode::GET : ossia::access_mode::SET); j.kv("x", a); }
        else if (f == "rep") { p->set_repetition_filter(c.b(3) ? ossia::repetition_filter::ON : ossia::repetition_filter::OFF); j.kv("x", c.b(3)); }
        else if (f == "unit") { p->set_unit(ossia::parse_pretty_unit(c.s(3) + "." + c.s(4))); j.kv("x", c.s(3) + "." + c.s(4)); }
        else if (f == "prio") { set_priority(p->get_node(), (int)c.i(3)); j.kv("x", (int)c.i(3)); }
        else if (f == "desc") { set_description(p->get_node(), c.s(3)); j.kv("x", c.s(3)); }
        else if (f == "step") { set_value_step_size(p->get_node(), double(c.i(3))); j.kv("x", (int)c.i(3)); }
        else c.misuse("field");
      }
      else if (o == "push" || o == "pushm" || o == "quiet")
      { // a value, on the server, on the mirror, or on the server without telling
        auto p = need(o == "pushm"); auto v = val(c.s(2)); j.kv("v", val(v));
        if (o == "quiet") p->set_value(v); else p->push_value(v);
      }
      else if (o == "update")
      {
        if (W->updating) c.misuse("updating");
        W->collect(); W->updating = true; W->begun = false;
        W->upd = std::thread([] { W->result = W->pr[1]->update(W->dev[1]->get_root_node()); });
        for (int k = 0; k < 4000 && !W->begun; k++) { std::this_thread::sleep_for(std::chrono::microseconds(500)); W->collect(); }
      }
      else if (o == "pull") { auto p = need(1); if (W->pulls.count(c.s(1))) c.misuse("pulling"); W->pulls[c.s(1)] = W->pr[1]->pull_async(*p); }
      else if (o == "request") W->pr[1]->request(*need(1));
      else if (o == "observe") { auto p = need(1); j.kv("b", c.b(2)); W->pr[1]->observe(*p, c.b(2)); }
      else if (o == "raw")
      { // raw (s|m) address [tag value]*: a datagram of somebody else
        Msg m{c.s(2), {}};
        for (std::size_t i = 3; i + 1 < c.n(); i += 2) m.args.push_back({c.s(i)[0], val(c.s(i + 1))});
        j.kv("d", c.s(1)).kv("msg", J().kv("a", m.a).kv("args", args_json(m.args)));
        vp_udp::deliver(PORT[c.s(1) == "m"], encode(m));
      }
      else c.misuse("op");
      finish(j);
    });
  W.reset();
  return rc;
}
