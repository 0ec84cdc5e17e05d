// Conformance harness of Parameter.tla: two nodes of a generic_device whose
// protocol and observers log what they are given.
#include "domains.hpp"
#include <ossia/network/base/device.hpp>
#include <ossia/network/base/message_origin_identifier.hpp>
#include <ossia/network/base/node.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_node.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <atomic>
#include <map>
#include <thread>
using namespace vp;
using namespace ossia::net;
struct World;
static World* W;
static int id_of(const node_base& n);
static J ent(const char* k, int p, const std::string& n, const ossia::value& v) { return J().kv("k", k).kv("p", p).kv("n", n).kv("v", val(v)); }
static A* LOG;
static std::atomic_bool conc{false};
static std::vector<std::string>* pushes; // concurrent phase: one per thread
static thread_local int me;
struct log_protocol : protocol_base
{
  log_protocol() : protocol_base{flags{}} {}
  bool pull(parameter_base&) override { return true; }
  bool push(const parameter_base& p, const ossia::value& v) override
  {
    if (conc) { pushes[me].push_back(v.get<std::string>()); return true; }
    LOG->el(ent("push", id_of(p.get_node()), "", v)); return true;
  }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base& p, bool b) override { LOG->el(ent("observe", id_of(p.get_node()), b ? "1" : "0", {})); return true; }
  bool echo_incoming_message(const message_origin_identifier&, const parameter_base& p, const ossia::value& v) override
  { LOG->el(ent("echo", id_of(p.get_node()), "", v)); return true; }
  bool update(node_base&) override { return true; }
};
struct World
{
  A log;
  bool listening{true};
  generic_device dev{std::make_unique<log_protocol>(), "dev"};
  node_base* n[2]{dev.create_child("a"), dev.create_child("b")};
  std::map<std::string, parameter_base::callback_index> cbs[2];
  void attr(node_base& x, const std::string& s) { log.el(ent("attr", id_of(x), s, {})); }
  void created(const parameter_base& p) { log.el(ent("created", id_of(p.get_node()), "", {})); }
  void removing(const parameter_base& p) { log.el(ent("removing", id_of(p.get_node()), "", {})); }
  void msg(const parameter_base& p) { log.el(ent("msg", id_of(p.get_node()), "", p.value())); }
  World()
  {
    dev.on_attribute_modified.connect<&World::attr>(this);
    dev.on_parameter_created.connect<&World::created>(this);
    dev.on_parameter_removing.connect<&World::removing>(this);
    dev.on_message.connect<&World::msg>(this);
  }
};
static int id_of(const node_base& n) { return &n == W->n[1]; }
static std::string joined(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : ",") + x; return r; }
static std::vector<std::string> split(const std::string& s)
{ std::vector<std::string> r; std::istringstream i(s); std::string w; while (std::getline(i, w, ',')) r.push_back(w); return r; }
template <typename T> static std::string num(const std::optional<T>& o) { if (!o) return ""; std::ostringstream s; s << *o; return s.str(); }
static J attrs(const node_base& n)
{
  J j;
  j.kv("description", get_description(n).value_or("")).kv("tags", joined(get_tags(n).value_or(tags{}))).kv("priority", num(get_priority(n)))
   .kv("refreshRate", num(get_refresh_rate(n))).kv("recallSafe", get_recall_safe(n) ? "1" : "").kv("valueStepsize", num(get_value_step_size(n)))
   .kv("zombie", get_zombie(n) ? "1" : "").kv("hidden", get_hidden(n) ? "1" : "").kv("appName", get_app_name(n).value_or(""))
   .kv("appVersion", get_app_version(n).value_or("")).kv("appCreator", get_app_creator(n).value_or(""));
  auto b = get_instance_bounds(n);
  return j.kv("instanceBounds", b ? std::to_string(b->min_instances) + "-" + std::to_string(b->max_instances) : "");
}
static void set_attr(node_base& n, const std::string& a, const std::string& s, int how)
{
  // text or nothing; three ways to set it
#define TXT(NAME, FN) if (a == NAME) { if (s.empty()) { if (how) FN(n, std::nullopt); else FN(n, (const char*)nullptr); } else if (how == 1) FN(n, s); else FN(n, s.c_str()); return; }
  TXT("description", set_description) TXT("appName", set_app_name) TXT("appVersion", set_app_version) TXT("appCreator", set_app_creator)
#define NUM(NAME, FN, T, EXPR) if (a == NAME) { if (s.empty()) FN(n, std::nullopt); else { T x = EXPR; if (how) FN(n, x); else { std::optional<T> o{x}; FN(n, o); } } return; }
  NUM("tags", set_tags, tags, split(s)) NUM("priority", set_priority, priority, (float)atof(s.c_str())) NUM("refreshRate", set_refresh_rate, refresh_rate, atoi(s.c_str()))
  NUM("valueStepsize", set_value_step_size, value_step_size, (value_step_size)atof(s.c_str()))
  if (a == "instanceBounds") { if (s.empty()) set_instance_bounds(n, std::nullopt); else set_instance_bounds(n, instance_bounds{atoi(s.c_str()), atoi(s.c_str() + s.find('-') + 1)}); return; }
#define FLAG(NAME, FN, AT) if (a == NAME) { if (how) FN(n, !s.empty()); else n.set(ossia::string_view(NAME), !s.empty()); return; }
  FLAG("recallSafe", set_recall_safe, recall_safe_attribute) FLAG("zombie", set_zombie, zombie_attribute) FLAG("hidden", set_hidden, hidden_attribute)
  std::cerr << "bad attr" << std::endl; fflush(stdout); _Exit(3);
}
static const char* acc_name(ossia::access_mode m) { return m == ossia::access_mode::BI ? "BI" : m == ossia::access_mode::GET ? "GET" : "SET"; }
static const char* bm_name(ossia::bounding_mode m)
{ for (auto s : {"FREE", "CLIP", "WRAP", "FOLD", "LOW", "HIGH"}) if (mode_of(s) == m) return s; return "?"; }
static J state(int i)
{
  auto p = static_cast<generic_parameter*>(W->n[i]->get_parameter());
  auto& n = *W->n[i];
  J j; j.kv("at", attrs(n)).kv("def", val(get_default_value(n).value_or(ossia::value{}))).kv("live", p != nullptr);
  if (!p) return j;
  return j.kv("t", type_name(p->get_value_type())).kv("v", val(p->value())).kv("gv", val(p->getValue())).kv("cv", val(clone_value(n)))
      .kv("acc", acc_name(p->get_access())).kv("bm", bm_name(p->get_bounding())).kv("dom", dom(p->get_domain())).kv("unit", std::string(ossia::get_pretty_unit_text(p->get_unit())))
      .kv("rep", p->get_repetition_filter() == ossia::repetition_filter::ON).kv("dis", p->get_disabled()).kv("mut", p->get_muted()).kv("crit", p->get_critical())
      .kv("ncb", (long)p->callback_count());
}
int main(int argc, char** argv)
{
  return drive(argc, argv, [&](const Cmd&) {
      if (W) { W->dev.clear_children(); delete W; }
      static A none; LOG = &none; W = nullptr;
      W = new World; LOG = &W->log; W->log = A{};
      J j; j.kv("e", "Reset"); emit(j); },
    [&](const Cmd& c) {
      const auto& o = c.op();
      W->log = A{};
      J j; j.kv("e", o);
      if (o == "echo") { W->dev.set_echo(c.b(1)); emit(j.kv("b", c.b(1)).kv("s", A{}.el(state(0)).el(state(1))).kv("log", W->log)); return; }
      const int i = c.i(1); auto& n = *W->n[i]; auto p = static_cast<generic_parameter*>(n.get_parameter());
      j.kv("p", i);
      if (o == "new") { j.kv("t", c.s(2)); n.create_parameter(type_of(c.s(2))); }
      else if (o == "del") { n.remove_parameter(); W->cbs[i].clear(); }
      else if (o == "attr") { auto s = c.n() > 3 ? c.s(3) : std::string{}; if (s == "\"\"") s.clear(); int how = c.n() > 4 ? c.i(4) : 1; j.kv("a", c.s(2)).kv("v", s); set_attr(n, c.s(2), s, how); }
      else if (o == "def") { j.kv("v", val(val(c.s(2)))); set_default_value(n, val(c.s(2))); }
      else if (!p) c.misuse("no parameter");
      else if (o == "set") { auto v = val(c.s(2)); j.kv("v", val(v)); auto r = p->set_value(v); j.kv("r", val(r)).kv("v2", val(v)); }
      else if (o == "setr") { auto v = val(c.s(2)); j.kv("v", val(v)).kv("v2", val(v)); auto r = p->set_value(std::move(v)); j.kv("r", val(r)); }
      else if (o == "quiet") { auto v = val(c.s(2)); j.kv("v", val(v)); auto r = p->set_value_quiet(v); j.kv("r", val(r)).kv("v2", val(v)); }
      else if (o == "quietr") { auto v = val(c.s(2)); j.kv("v", val(v)).kv("v2", val(v)); auto r = p->set_value_quiet(std::move(v)); j.kv("r", val(r)); }
      else if (o == "push") { auto v = val(c.s(2)); j.kv("v", val(v)); p->push_value(v); j.kv("v2", val(v)); }
      else if (o == "pushr") { auto v = val(c.s(2)); j.kv("v", val(v)).kv("v2", val(v)); p->push_value(std::move(v)); }
      else if (o == "pushquiet") { auto v = val(c.s(2)); j.kv("v", val(v)); p->push_value_quiet(v); j.kv("v2", val(v)); }
      else if (o == "pushcur") p->push_value();
      else if (o == "setself") p->set_value(p->getValue());
      else if (o == "pushself") p->push_value(p->getValue());
      else if (o == "incoming" || o == "incomingq")
      {
        auto v = val(c.s(2)); j.kv("v", val(v)); message_origin_identifier id{W->dev.get_protocol(), 3};
        if (o == "incoming") W->dev.apply_incoming_message(id, *p, std::move(v)); else W->dev.apply_incoming_message_quiet(id, *p, std::move(v));
      }
      else if (o == "cb")
      {
        auto name = c.s(2); j.kv("i", name);
        W->cbs[i][name] = p->add_callback([=](const ossia::value& v) { W->log.el(ent("cb", i, name, v)); });
      }
      else if (o == "rmcb") { j.kv("i", c.s(2)); p->remove_callback(W->cbs[i].at(c.s(2))); W->cbs[i].erase(c.s(2)); }
      else if (o == "type") { j.kv("t", c.s(2)); if (c.n() > 3) set_value_type(n, type_of(c.s(2))); else p->set_value_type(type_of(c.s(2))); }
      else if (o == "unit")
      {
        auto s = c.n() > 2 && c.s(2) != "\"\"" ? c.s(2) : std::string{}; ossia::unit_t u; if (!s.empty()) u = ossia::parse_pretty_unit(s);
        j.kv("u", s); if (c.n() > 3) set_unit(n, u); else p->set_unit(u);
      }
      else if (o == "dom")
      {
        auto d = dom(c.s(2), val(c.s(3)), val(c.s(4)), val(c.s(5))); j.kv("d", dom(d));
        if (c.n() > 6) set_domain(n, d); else p->set_domain(d);
      }
      else if (o == "bounding") { j.kv("b", c.s(2)); if (c.n() > 3) set_bounding_mode(n, mode_of(c.s(2))); else p->set_bounding(mode_of(c.s(2))); }
      else if (o == "access") { auto a = c.s(2); j.kv("b", a); auto m = a == "BI" ? ossia::access_mode::BI : a == "GET" ? ossia::access_mode::GET : ossia::access_mode::SET; if (c.n() > 3) set_access_mode(n, m); else p->set_access(m); }
      else if (o == "rep") { auto m = c.b(2) ? ossia::repetition_filter::ON : ossia::repetition_filter::OFF; j.kv("b", c.b(2)); if (c.n() > 3) set_repetition_filter(n, m); else p->set_repetition_filter(m); }
      else if (o == "disabled") { j.kv("b", c.b(2)); if (c.n() > 3) set_disabled(n, c.b(2)); else p->set_disabled(c.b(2)); }
      else if (o == "muted") { j.kv("b", c.b(2)); if (c.n() > 3) set_muted(n, c.b(2)); else p->set_muted(c.b(2)); }
      else if (o == "critical") { j.kv("b", c.b(2)); if (c.n() > 3) set_critical(n, c.b(2)); else p->set_critical(c.b(2)); }
      else if (o == "filter") { auto v = val(c.s(2)); j.kv("v", val(v)).kv("r", p->filter_value(v)); }
      else if (o == "at")
      {
        ossia::destination_index x; A a; for (std::size_t k = 2; k < c.n(); k++) { x.push_back(c.i(k)); a.el(c.i(k)); }
        parameter_base& b = *p;
        j.kv("i", a).kv("r", val(b.value(x))).kv("rs", val(b.value(std::vector<ossia::destination_index>{{}, x})[1]));
      }
      else if (o == "conc")
      {
        // several threads push on the same text parameter, another one reads it
        const int n = c.i(2), T = 3; std::vector<std::string> calls[T]; std::vector<std::string> ps[T]; pushes = ps;
        auto it = p->add_callback([&](const ossia::value& v) { calls[me].push_back(v.get<std::string>()); });
        W->log = A{}; // (the first callback starts the observation)
        conc = true; std::atomic_bool stop{false}, ok{true}; std::vector<std::thread> ts;
        auto word = [](int t, int k) { return std::string(1, char('a' + t)) + std::to_string(k) + ":a text long enough not to be stored inline"; };
        for (int t = 0; t < T; t++) ts.emplace_back([&, t] { me = t; for (int k = 0; k < n; k++) { if (k % 3) p->push_value(word(t, k)); else { ossia::value v{word(t, k)}; p->push_value(v); } } });
        std::thread reader([&] { while (!stop) { auto v = p->value(); auto s = v.target<std::string>(); if (!s || (s->size() && s->find(":a text long enough not to be stored inline") == s->npos)) ok = false; } });
        for (auto& t : ts) t.join();
        stop = true; reader.join(); conc = false; p->remove_callback(it);
        A a, b, l;
        for (int t = 0; t < T; t++)
        {
          auto good = [&](const std::vector<std::string>& v) { bool g = (int)v.size() == n; for (int k = 0; g && k < n; k++) g = v[k] == word(t, k); return g; };
          a.el(good(calls[t])); b.el(good(ps[t])); l.el(word(t, n - 1));
        }
        W->log = A{};
        j.kv("n", n).kv("calls", a).kv("pushes", b).kv("lasts", l).kv("reads", ok.load());
      }
      else c.misuse("op");
      emit(j.kv("s", A{}.el(state(0)).el(state(1))).kv("log", W->log));
    });
}
