// Conformance harness of Mux.tla: a device exposed through protocols that log
// what they are told.
#include "values.hpp"
#include <ossia/network/base/device.hpp>
#include <ossia/network/base/message_origin_identifier.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_node.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/local/local.hpp>
#include <map>
#include <memory>
using namespace vp;
using namespace ossia::net;
static constexpr int NP = 3;
static A calls[NP + 1];
static const message_origin_identifier* origin;
static std::string addr(const parameter_base& p) { auto a = p.get_node().osc_address(); return a.empty() ? "/" : a; }
static J el(const char* k, const std::string& p, const ossia::value& v) { return J().kv("k", k).kv("p", p).kv("v", val(v)); }
struct told : protocol_base
{
  const int id; bool yes; device_base* mine{};
  told(int i, bool y, bool many) : protocol_base{many ? flags{SupportsMultiplex} : flags{}}, id{i}, yes{y} {}
  ~told() override { calls[id].el(el("gone", "", {})); }
  bool log(const char* k, const std::string& p, const ossia::value& v) { calls[id].el(el(k, p, v)); return yes; }
  bool pull(parameter_base& p) override { return log("pull", addr(p), {}); }
  bool push(const parameter_base& p, const ossia::value& v) override { return log("push", addr(p), v); }
  bool push_raw(const full_parameter_data& p) override { return log("raw", p.address, p.value()); }
  bool observe(parameter_base& p, bool b) override { return log("observe", addr(p), b); }
  bool observe_quietly(parameter_base& p, bool b) override { return log("observe", addr(p), b); }
  bool echo_incoming_message(const message_origin_identifier& id, const parameter_base& p, const ossia::value& v) override
  { return log(&id == origin ? "echo" : "echo of something else", addr(p), v); }
  bool update(node_base&) override { return log("update", "", {}); }
  void stop() override { log("stop", "", {}); }
  void set_device(device_base& d) override { log(mine ? "device again" : "device", "", {}); mine = &d; }
};
struct World
{
  std::unique_ptr<multiplex_protocol> waiting{std::make_unique<multiplex_protocol>()};
  multiplex_protocol* mux{waiting.get()};
  std::unique_ptr<generic_device> dev;
  std::map<int, told*> protos;
  std::map<std::string, std::vector<parameter_base::callback_index>> cbs;
  long msgs{};
  void msg(const parameter_base&) { msgs++; }
};
static std::unique_ptr<World> W;
static node_base* find(const std::string& p) { return p == "/" ? &W->dev->get_root_node() : find_node(W->dev->get_root_node(), p); }
static parameter_base* par(const Cmd& c, int i)
{
  auto n = W->dev ? find(c.s(i)) : nullptr; auto p = n ? n->get_parameter() : nullptr;
  if (!p) c.misuse("no parameter");
  return p;
}
static void walk(node_base& n, A& a)
{
  if (auto p = n.get_parameter()) a.el(J().kv("p", addr(*p)).kv("t", type_name(p->get_value_type())).kv("v", val(p->value())));
  for (auto& c : n.children()) walk(*c, a);
}
static full_parameter_data data(const std::string& p, const ossia::value& v) { return full_parameter_data{p, v}; }
int main(int argc, char** argv)
{
  int rc = drive(argc, argv, [](const Cmd&) { W.reset(); W = std::make_unique<World>(); emit(J().kv("e", "Reset")); },
    [](const Cmd& c) {
      const auto& o = c.op();
      J j; j.kv("e", o);
      for (auto& x : calls) x = A{};
      W->msgs = 0;
      protocol_base& mux = *W->mux;
      if (o == "expose" || o == "refuse")
      {
        const int p = c.i(1); const bool yes = o == "expose" && c.b(2);
        auto x = std::make_unique<told>(p, yes, o == "expose");
        if (o == "expose") W->protos[p] = x.get();
        j.kv("p", p).kv("b", yes);
        W->mux->expose_to(std::move(x));
      }
      else if (o == "unexpose") { const int p = c.i(1); j.kv("p", p); W->mux->stop_expose_to(*W->protos.at(p)); W->protos.erase(p); }
      else if (o == "clear") { W->mux->clear(); W->protos.clear(); }
      else if (o == "stop") mux.stop();
      else if (o == "device")
      {
        if (W->dev) c.misuse("device there");
        W->dev = std::make_unique<generic_device>(std::move(W->waiting), "dev");
        W->dev->on_message.connect<&World::msg>(W.get());
      }
      else if (o == "echo") { W->dev->set_echo(c.b(1)); j.kv("b", c.b(1)); }
      else if (o == "new")
      {
        auto& n = c.s(1) == "/" ? W->dev->get_root_node() : find_or_create_node(W->dev->get_root_node(), c.s(1));
        n.create_parameter(type_of(c.s(2))); j.kv("a", c.s(1)).kv("t", c.s(2));
      }
      else if (o == "del") { W->cbs.erase(c.s(1)); par(c, 1)->get_node().remove_parameter(); j.kv("a", c.s(1)); }
      else if (o == "listen") { j.kv("a", c.s(1)); W->cbs[c.s(1)].push_back(par(c, 1)->add_callback([](const ossia::value&) {})); }
      else if (o == "unlisten") { j.kv("a", c.s(1)); auto& v = W->cbs[c.s(1)]; if (v.empty()) c.misuse("no listener"); par(c, 1)->remove_callback(v.back()); v.pop_back(); }
      else if (o == "push" || o == "pushr")
      {
        auto v = val(c.s(2)); j.kv("a", c.s(1)).kv("v", val(v));
        if (o == "push") par(c, 1)->push_value(v); else par(c, 1)->push_value(std::move(v));
      }
      else if (o == "pushcur") { j.kv("a", c.s(1)); par(c, 1)->push_value(); }
      else if (o == "send") { auto v = val(c.s(2)); j.kv("a", c.s(1)).kv("v", val(v)).kv("ok", mux.push(*par(c, 1), std::move(v))); }
      else if (o == "raw") { auto v = val(c.s(2)); j.kv("a", c.s(1)).kv("v", val(v)).kv("ok", mux.push_raw(data(c.s(1), v))); }
      else if (o == "bundle")
      {
        std::vector<const parameter_base*> ps; A a;
        for (std::size_t i = 1; i < c.n(); i++) { ps.push_back(par(c, i)); a.el(c.s(i)); }
        j.kv("as", a).kv("ok", mux.push_bundle(ps));
      }
      else if (o == "rawbundle")
      {
        std::vector<full_parameter_data> ps; A a;
        for (std::size_t i = 1; i + 1 < c.n(); i += 2) { auto v = val(c.s(i + 1)); ps.push_back(data(c.s(i), v)); a.el(J().kv("a", c.s(i)).kv("v", val(v))); }
        j.kv("rs", a).kv("ok", mux.push_raw_bundle(ps));
      }
      else if (o == "incoming" || o == "incomingq")
      {
        auto v = val(c.s(2)); j.kv("a", c.s(1)).kv("v", val(v));
        message_origin_identifier id{mux, 12}; origin = &id;
        if (o == "incoming") W->dev->apply_incoming_message(id, *par(c, 1), std::move(v));
        else W->dev->apply_incoming_message_quiet(id, *par(c, 1), std::move(v));
        origin = nullptr; j.kv("msgs", W->msgs);
      }
      else if (o == "pull") { mux.pull(*par(c, 1)); mux.update(W->dev->get_root_node()); }
      else c.misuse("op");
      A all, ps, ex;
      for (int i = 1; i <= NP; i++) all.el(calls[i]);
      if (W->dev) walk(W->dev->get_root_node(), ps);
      for (auto& p : W->mux->get_protocols()) ex.el(static_cast<told&>(*p).id);
      emit(j.kv("c", all).kv("pars", ps).kv("exp", ex));
    });
  W.reset();
  return rc;
}
