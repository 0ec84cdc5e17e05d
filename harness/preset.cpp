// Conformance harness of Preset.tla: presets of a device, in memory, as text and
// as JSON.
#include "values.hpp"
#include <ossia/network/base/device.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_node.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/preset/preset.hpp>
#include <map>
#include <memory>
using namespace vp;
using namespace ossia::net;
namespace pr = ossia::presets;
static std::vector<std::string> paths; // [0] is the root
static A writes, calls; static bool logging;
static int idx(const node_base& n)
{
  auto a = n.osc_address();
  for (std::size_t i = 1; i < paths.size(); i++) if (paths[i] == a) return i;
  return -1;
}
struct told : protocol_base
{
  told() : protocol_base{flags{}} {}
  bool pull(parameter_base&) override { return true; }
  bool push(const parameter_base& p, const ossia::value& v) override
  { if (logging) writes.el(J().kv("i", idx(p.get_node())).kv("v", val(v))); return true; }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(node_base&) override { return true; }
};
struct World
{
  generic_device dev{std::make_unique<told>(), "dev"};
  std::map<int, pr::preset> slot; std::map<int, std::string> js;
};
static std::unique_ptr<World> W;
static node_base& at(const Cmd& c, int k)
{
  const int i = c.i(k);
  if (i == 0) return W->dev.get_root_node();
  auto n = i < (int)paths.size() ? find_node(W->dev.get_root_node(), paths[i]) : nullptr;
  if (!n) c.misuse("no node");
  return *n;
}
static parameter_base& par(const Cmd& c, int k) { auto p = at(c, k).get_parameter(); if (!p) c.misuse("no parameter"); return *p; }
static void walk(node_base& n, A& a)
{
  for (auto& c : n.children())
  {
    auto p = c->get_parameter();
    a.el(J().kv("i", idx(*c)).kv("t", p ? type_name(p->get_value_type()) : "NONE").kv("v", val(p ? p->value() : ossia::value{})));
    walk(*c, a);
  }
}
static J ents(const pr::preset& p) { A a; for (auto& [k, v] : p) a.el(J().kv("k", k).kv("v", val(v))); return a; }
static void on_apply(node_base* n) { calls.el(idx(*n)); }

int main(int argc, char** argv)
{
  return drive(argc, argv, [](const Cmd&) { W = std::make_unique<World>(); paths = {"/"}; emit(J().kv("e", "Reset")); },
    [](const Cmd& c) {
      const auto& o = c.op();
      if (o == "paths")
      { // paths NAMES SPEC...: up:name, the spaces of the name written _
        for (std::size_t i = 1; i < c.n(); i++)
        {
          auto s = c.s(i); auto k = s.find(':'); auto n = s.substr(k + 1); for (auto& x : n) if (x == '_') x = ' ';
          const int up = std::stoi(s.substr(0, k));
          paths.push_back((up ? paths[up] : "") + "/" + n);
        }
        return;
      }
      J j; j.kv("e", o);
      bool ok = true; writes = A{}; calls = A{};
      auto& root = W->dev.get_root_node();
      if (o == "new") { find_or_create_node(root, paths.at(c.i(1))).create_parameter(type_of(c.s(2))); j.kv("i", (int)c.i(1)).kv("t", c.s(2)); }
      else if (o == "drop") { auto& n = at(c, 1); n.get_parent()->remove_child(n); j.kv("i", (int)c.i(1)); }
      else if (o == "set") { auto v = val(c.s(2)); par(c, 1).push_value(v); j.kv("i", (int)c.i(1)).kv("v", val(v)); }
      else if (o == "access")
      {
        par(c, 1).set_access(c.s(2) == "BI" ? ossia::access_mode::BI : c.s(2) == "GET" ? ossia::access_mode::GET : ossia::access_mode::SET);
        j.kv("i", (int)c.i(1)).kv("a", c.s(2));
      }
      else if (o == "safe") { set_recall_safe(at(c, 1), c.b(2)); j.kv("i", (int)c.i(1)).kv("b", c.b(2)); }
      else if (o == "prio") { set_priority(at(c, 1), float(c.i(2))); j.kv("i", (int)c.i(1)).kv("p", (int)c.i(2)); }
      else if (o == "make") { auto& p = W->slot[c.i(1)] = pr::make_preset(at(c, 2)); j.kv("k", (int)c.i(1)).kv("i", (int)c.i(2)).kv("res", ents(p)); }
      else if (o == "text") { auto& p = W->slot.at(c.i(1)); p = pr::from_string(pr::to_string(p)); j.kv("k", (int)c.i(1)).kv("res", ents(p)); }
      else if (o == "doc")
      { // skipping the name of the device or taking it off
        auto& p = W->slot.at(c.i(1)); auto s = pr::write_json("dev", p);
        if (c.b(2)) p = pr::read_json(s);
        else { p = pr::read_json(s, false); for (auto& [k, v] : p) k = k.substr(0, 4) == "/dev" ? k.substr(4) : "without device: " + k; }
        j.kv("k", (int)c.i(1)).kv("res", ents(p));
      }
      else if (o == "applytext")
      {
        auto s = pr::to_string(W->slot.at(c.i(1))); auto& n = at(c, 2);
        logging = true; pr::apply_preset(s, n, on_apply); logging = false;
        j.kv("k", (int)c.i(1)).kv("i", (int)c.i(2));
      }
      else if (o == "makejson") { W->js[c.i(1)] = pr::make_json_preset(at(c, 2)); j.kv("k", (int)c.i(1)).kv("i", (int)c.i(2)); }
      else if (o == "applyjson")
      {
        auto& n = at(c, 2);
        logging = true; ok = pr::apply_json(W->js.at(c.i(1)), n, on_apply); logging = false;
        j.kv("k", (int)c.i(1)).kv("i", (int)c.i(2));
      }
      else if (o == "badjson")
      { // a part of the text (never all of it)
        auto s = W->js.at(c.i(1)); s.resize(s.rfind('}') * (c.i(2) % 100) / 100);
        if (s.empty()) s = "{";
        logging = true; ok = pr::apply_json(s, root, on_apply); logging = false;
      }
      else if (o == "applymem" || o == "applyleaf")
      {
        auto p = W->slot.at(c.i(1)); const bool make = c.b(2), leaf = o == "applyleaf";
        if (leaf) for (auto& [k, v] : p) k = "/dev" + k; // the first part is the device
        pr::instance_functions f;
        f.push_back({std::regex(".*"), [](const node_base& n) { calls.el(idx(n)); }});
        f.push_back({std::regex("nothing"), [](const node_base&) { calls.el(-7); }});
        logging = true;
        try { pr::apply_preset(root, p, make ? pr::keep_arch_off : pr::keep_arch_on, f, !leaf); } catch (const std::exception&) { ok = false; }
        logging = false;
        j.kv("k", (int)c.i(1)).kv("make", make).kv("leaf", leaf);
      }
      else c.misuse("op");
      A t; walk(root, t);
      emit(j.kv("ok", ok).kv("w", writes).kv("c", calls).kv("tree", t));
    });
}
