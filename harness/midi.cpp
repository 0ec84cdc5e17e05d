// Conformance harness of Midi.tla: a device that receives and one that sends
// MIDI, over ports that only record (shims/libremidi).
#include "vp.hpp"
#include <libremidi/libremidi.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/common/network_logger.hpp>
#include <ossia/protocols/midi/detail/midi_impl.hpp>
#include <ossia/protocols/midi/midi.hpp>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/null_sink.h>
#include <map>
using namespace vp;
using namespace ossia::net;
struct World
{
  std::map<std::string, std::unique_ptr<midi::midi_device>> devs;
  std::map<std::string, std::vector<std::pair<parameter_base*, parameter_base::callback_index>>> cbs;
  std::vector<libremidi::message> wire;
  A told;
  void msg_i(const parameter_base& p);
  void msg_o(const parameter_base& p);
};
static std::unique_ptr<World> W;
static A path(const node_base& n)
{
  std::vector<std::string> v;
  for (auto x = &n; x->get_parent(); x = x->get_parent()) v.push_back(x->get_name());
  A a;
  for (auto it = v.rbegin(); it != v.rend(); ++it) a.el(*it);
  return a;
}
static A val(const ossia::value& v)
{
  A a;
  if (auto i = v.target<int32_t>()) a.el(*i);
  else if (auto l = v.target<std::vector<ossia::value>>())
  { for (auto& x : *l) { auto i = x.target<int32_t>(); a.el(i ? *i : -999); } }
  else if (!v.target<ossia::impulse>()) a.el(-999);
  return a;
}
static J told(const char* k, const std::string& d, const parameter_base& p, const ossia::value& v)
{ return J().kv("k", k).kv("d", d).kv("p", path(p.get_node())).kv("v", val(v)); }
void World::msg_i(const parameter_base& p) { told.el(::told("msg", "i", p, p.value())); }
void World::msg_o(const parameter_base& p) { told.el(::told("msg", "o", p, p.value())); }
static node_base* find(const Cmd& c)
{
  node_base& r = W->devs.at(c.s(1))->get_root_node();
  return c.s(2) == "/" ? &r : find_node(r, c.s(2));
}
static parameter_base& par(const Cmd& c)
{
  auto n = find(c); auto p = n ? n->get_parameter() : nullptr;
  if (!p) c.misuse("no parameter");
  return *p;
}
static ossia::value value(const Cmd& c)
{
  std::vector<int32_t> v;
  for (std::size_t i = 3; i < c.n(); i++) v.push_back((int32_t)c.i(i));
  switch (par(c).get_value_type())
  {
    case ossia::val_type::INT: return v.at(0);
    case ossia::val_type::IMPULSE: return ossia::impulse{};
    default: { std::vector<ossia::value> l; for (auto x : v) l.push_back(x); return l; }
  }
}
static void walk(const node_base& n, long& k, A& a)
{
  for (auto& c : n.children()) { k++; if (k <= 300) a.el(path(*c)); walk(*c, k, a); }
}
static J tree(const char* d)
{
  long n = 0; A a;
  walk(W->devs.at(d)->get_root_node(), n, a);
  return J().kv("n", n).kv("l", n <= 300 ? a : A());
}
static A path(const std::string& s)
{
  A a; std::istringstream is(s); std::string w;
  while (std::getline(is, w, '/')) if (!w.empty()) a.el(w);
  return a;
}
static A bytes(const libremidi::message& m) { A a; for (auto b : m.bytes) a.el((int)b); return a; }
static void hear(const libremidi::message& m)
{
  if (!libremidi::midi_in::listening || !libremidi::midi_in::listening->cb) { std::cerr << "not listening\n"; _Exit(3); }
  libremidi::midi_in::listening->cb(m);
}
int main(int argc, char** argv)
{
  return drive(argc, argv,
    [](const Cmd&) {
      W.reset(); libremidi::midi_out::sent.clear();
      W = std::make_unique<World>();
      for (std::string d : {"i", "o"})
      {
        W->devs[d] = std::make_unique<midi::midi_device>(std::make_unique<midi::midi_protocol>(
            network_context_ptr{}, midi::midi_info{d == "i" ? midi::midi_info::Type::Input : midi::midi_info::Type::Output, "x", 0}));
        if (d == "i") W->devs[d]->on_message.connect<&World::msg_i>(*W); else W->devs[d]->on_message.connect<&World::msg_o>(*W);
      }
      emit(J().kv("e", "Reset"));
    },
    [](const Cmd& c) {
      W->told = A();
      auto& sent = libremidi::midi_out::sent; sent.clear();
      J j; j.kv("e", c.op());
      bool ok = true; A v; std::vector<libremidi::message> out;
      auto& op = c.op();
      auto prot = [&](const char* d) -> midi::midi_protocol& { return static_cast<midi::midi_protocol&>(W->devs.at(d)->get_protocol()); };
      if (c.n() > 2 && (c.s(1) == "i" || c.s(1) == "o")) j.kv("d", c.s(1)).kv("p", path(c.s(2)));
      else if (op == "full") j.kv("d", c.s(1));
      if (op == "mk") { j.kv("n", c.s(3)); auto n = find(c); if (!n) c.misuse("no parent"); ok = n->create_child(c.s(3)) != nullptr; }
      else if (op == "rm")
      {
        auto n = find(c); if (!n) c.misuse("no node");
        auto pre = c.s(1) + c.s(2);
        for (auto it = W->cbs.begin(); it != W->cbs.end();)
          if (it->first == pre || it->first.compare(0, pre.size() + 1, pre + "/") == 0) it = W->cbs.erase(it); else ++it;
        ok = n->get_parent()->remove_child(*n);
      }
      else if (op == "full")
      {
        for (auto it = W->cbs.begin(); it != W->cbs.end();) if (it->first[0] == c.s(1)[0]) it = W->cbs.erase(it); else ++it;
        ok = W->devs.at(c.s(1))->create_full_tree();
      }
      else if (op == "listen")
      {
        auto p = &par(c); auto d = c.s(1);
        W->cbs[d + c.s(2)].push_back({p, p->add_callback([p, d](const ossia::value& v) { W->told.el(::told("cb", d, *p, v)); })});
      }
      else if (op == "unlisten") { auto& l = W->cbs.at(c.s(1) + c.s(2)); l.back().first->remove_callback(l.back().second); l.pop_back(); }
      else if (op == "push" || op == "pushbad") { auto x = value(c); j.kv("v", val(x)); par(c).push_value(x); }
      else if (op == "pushr") { auto x = value(c); j.kv("v", val(x)); par(c).push_value(std::move(x)); }
      else if (op == "pushcur") par(c).push_value();
      else if (op == "assign") { auto x = value(c); j.kv("v", val(x)); par(c).set_value(std::move(x)); }
      else if (op == "get") v = val(par(c).value());
      else if (op == "pull") { par(c).pull_value(); v = val(par(c).value()); }
      else if (op == "in") { libremidi::message m; for (std::size_t i = 1; i < c.n(); i++) m.bytes.push_back((uint8_t)c.i(i)); j.kv("b", bytes(m)); hear(m); }
      else if (op == "relay") { if (W->wire.empty()) c.misuse("nothing to relay"); auto m = W->wire.front(); W->wire.erase(W->wire.begin()); j.kv("b", bytes(m)); hear(m); }
      else if (op == "learn") { j.kv("b", c.b(1)); prot("i").set_learning(c.b(1)); ok = prot("i").learning() == c.b(1); }
      else if (op == "log")
      {
        network_logger l;
        l.inbound_logger = l.outbound_logger = std::make_shared<spdlog::logger>("l", std::make_shared<spdlog::sinks::null_sink_mt>());
        for (auto& d : W->devs) d.second->get_protocol().set_logger(l);
      }
      else if (op == "register") prot("i").enable_registration();
      else if (op == "collect") prot("i").clone_value(out);
      else c.misuse("unknown");
      W->wire.insert(W->wire.end(), sent.begin(), sent.end());
      A s; for (auto& m : op == "collect" ? out : sent) s.el(bytes(m));
      j.kv("told", W->told).kv("sent", s).kv("ok", ok).kv("r", v).kv("i", tree("i")).kv("o", tree("o"));
      emit(j);
    });
}
