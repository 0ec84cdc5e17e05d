// Conformance harness of Oscquery.tla: a real OSCQuery server and real mirrors of
// it, in one process; what they say to each other is delivered step by step.
#include "domains.hpp"
#include <ossia/network/base/device.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_node.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/oscquery/oscquery_mirror.hpp>
#include <ossia/network/oscquery/oscquery_server.hpp>
#include <ossia/detail/json.hpp>
#include <oscpack/ip/UdpSocket.h>
#include <websocketpp/vp_ws.hpp>
#include <chrono>
#include <deque>
#include <map>
#include <memory>
using namespace vp;
using namespace ossia::net;
namespace oq = ossia::oscquery;
namespace ws = websocketpp::vp_ws;
static std::string addr(const node_base& n) { auto a = n.osc_address(); return a.empty() ? "/" : a; }
static A names(const std::string& p) // "/a/b" as <<"a", "b">>
{
  A a; std::string w;
  for (char c : p + "/") { if (c == '/') { if (!w.empty()) a.el(w); w.clear(); } else w += c; }
  return a;
}
static std::string str(const J& j) { return j.str(); }
static const char* acc(ossia::access_mode m) { return m == ossia::access_mode::GET ? "GET" : m == ossia::access_mode::SET ? "SET" : "BI"; }
static const char* bnd(ossia::bounding_mode m)
{
  using ossia::bounding_mode;
  return m == bounding_mode::CLIP ? "CLIP" : m == bounding_mode::WRAP ? "WRAP" : m == bounding_mode::FOLD ? "FOLD"
       : m == bounding_mode::LOW ? "LOW" : m == bounding_mode::HIGH ? "HIGH" : "FREE";
}
static J attrs(node_base& n)
{
  A a;
  auto put = [&](const char* k, const std::string& x) { a.el(J().kv("k", k).kv("x", x)); };
  if (auto p = n.get_parameter())
  {
    if (p->get_access() != ossia::access_mode::BI) put("acc", acc(p->get_access()));
    if (p->get_bounding() != ossia::bounding_mode::FREE) put("bnd", bnd(p->get_bounding()));
    if (p->get_repetition_filter() == ossia::repetition_filter::ON) put("rep", "1");
    if (p->get_critical()) put("crit", "1");
    if (p->get_disabled()) put("dis", "1");
    if (p->get_unit()) put("unit", std::string(ossia::get_pretty_unit_text(p->get_unit())));
    if (p->get_domain()) put("dom", str(dom(p->get_domain())));
  }
  if (auto x = get_default_value(n)) put("def", str(val(*x)));
  if (auto x = get_tags(n)) { std::string s; for (auto& t : *x) s += t + ";"; put("tags", s); }
  if (auto x = get_description(n)) put("desc", *x);
  if (auto x = get_priority(n)) put("prio", std::to_string(*x));
  if (auto x = get_refresh_rate(n)) put("ref", std::to_string(*x));
  if (auto x = get_value_step_size(n)) put("step", std::to_string(*x));
  if (auto x = get_instance_bounds(n)) put("inst", std::to_string(x->min_instances) + " " + std::to_string(x->max_instances));
  if (auto x = get_extended_type(n)) put("ext", *x);
  if (auto x = get_app_name(n)) put("app", *x);
  if (auto x = get_app_version(n)) put("ver", *x);
  if (auto x = get_app_creator(n)) put("maker", *x);
  if (get_hidden(n)) put("hid", "1");
  return a;
}
static void walk(node_base& n, A& a)
{
  auto p = n.get_parameter();
  a.el(J().kv("p", names(addr(n))).kv("t", p ? type_name(p->get_value_type()) : "NONE").kv("v", val(p ? p->value() : ossia::value{}))
          .kv("at", attrs(n)).kv("z", (bool)get_zombie(n)));
  for (auto& c : n.children()) walk(*c, a);
}
struct Mirror
{
  oq::oscquery_mirror_protocol* proto{};
  std::unique_ptr<generic_device> dev;
  std::map<std::string, std::vector<parameter_base::callback_index>> cbs;
  int con{};
};
struct World
{
  oq::oscquery_server_protocol* proto{};
  std::unique_ptr<generic_device> dev;
  std::map<int, std::unique_ptr<Mirror>> mir;
  int next{0}, port;
  bool zombies{};
  A heard;
  std::map<std::string, std::vector<parameter_base::callback_index>> cbs;
  World()
  {
    static int n = 0; port = 6000 + n++ % 900;
    auto p = std::make_unique<oq::oscquery_server_protocol>(port, port);
    proto = p.get();
    dev = std::make_unique<generic_device>(std::move(p), "srv");
    dev->on_add_node_requested.connect<&World::add>(this);
    dev->on_remove_node_requested.connect<&World::rem>(this);
    dev->on_rename_node_requested.connect<&World::ren>(this);
  }
  ~World()
  {
    mir.clear();
    dev.reset();
    while (ws::pump()) {}
    vp_udp::take();
  }
  void add(std::string p, const parameter_data& d) { if (auto n = find_node(dev->get_root_node(), p)) n->create_child(d.name); }
  void rem(std::string p, std::string c) { if (auto n = find_node(dev->get_root_node(), p)) n->remove_child(c); }
  void ren(std::string p, std::string c) { if (auto n = find_node(dev->get_root_node(), p)) n->set_name(c); }
};
static std::unique_ptr<World> W;
static int cons = 0; // connections so far
static std::deque<vp_udp::packet> udp;
static void collect() { for (auto& p : vp_udp::take()) udp.push_back(p); }
static void commands()
{
  W->proto->run_commands();
  for (auto& [k, m] : W->mir) m->proto->run_commands();
}
static void trees(J& j)
{
  A s, ms;
  walk(W->dev->get_root_node(), s);
  for (auto& [k, m] : W->mir) { A t; walk(m->dev->get_root_node(), t); ms.el(J().kv("m", k).kv("tree", t)); }
  j.kv("srv", s).kv("mirs", ms);
}
static int who(int con) { for (auto& [k, m] : W->mir) if (m->con == con) return k; return -1; }
static std::string osc_path(const std::string& d) { return d.substr(0, d.find('\0')); }
// what arrives, told as {to, kind, path, ...}; what only concerns the connection is passed over
static bool one_ws(bool tell, int con = -1)
{
  while (ws::pump(con))
  {
    commands(); collect();
    auto& e = ws::last();
    if (!e.msg) continue;
    J j; j.kv("e", "ws");
    const int to = e.to->owner && e.to->owner->on_http ? 0 : who(e.to->id);
    j.kv("m", to).kv("from", to ? 0 : who(e.to->id));
    if (e.msg->op == websocketpp::frame::opcode::BINARY) j.kv("k", "VAL").kv("p", names(osc_path(e.msg->data))).kv("x", "").kv("q", A{});
    else
    {
      rapidjson::Document d; d.Parse(e.msg->data);
      if (d.HasParseError() || !d.IsObject()) { j.kv("k", "BAD").kv("p", A{}).kv("x", "").kv("q", A{}); }
      else if (!d.HasMember("COMMAND")) continue;
      else
      {
        const std::string k = d["COMMAND"].GetString();
        if (k == "LISTEN" || k == "IGNORE" || k == "START_OSC_STREAMING") continue;
        std::string p, x, q;
        auto& v = d["DATA"];
        if (v.IsString()) p = v.GetString();
        else if (v.HasMember("OLD")) { p = v["OLD"].GetString(); q = v["NEW"].GetString(); }
        else if (v.HasMember("FULL_PATH")) { p = v["FULL_PATH"].GetString(); if (v.MemberCount() > 1) x = (v.MemberBegin() + 1)->name.GetString(); }
        j.kv("k", k).kv("p", names(p)).kv("x", x).kv("q", names(q));
      }
    }
    if (tell) { trees(j); emit(j); }
    return true;
  }
  return false;
}
static bool one_udp(bool tell)
{
  collect();
  if (udp.empty()) return false;
  auto p = udp.front(); udp.pop_front();
  vp_udp::deliver(p.to, p.data, p.from);
  commands(); collect();
  J j; j.kv("e", "udp").kv("m", (p.to - W->port) / 1000).kv("k", "VAL").kv("p", names(osc_path(p.data))).kv("x", "").kv("q", A{});
  if (tell) { trees(j); emit(j); }
  return true;
}
static void settle(bool tell = true) { commands(); while (one_ws(tell) || one_udp(tell)) {} }
static generic_device& dev(const Cmd& c, int side)
{
  if (side == 0) return *W->dev;
  auto it = W->mir.find(side);
  if (it == W->mir.end()) c.misuse("no mirror");
  return *it->second->dev;
}
static node_base* look(generic_device& d, const std::string& p) { return p == "/" ? &d.get_root_node() : find_node(d.get_root_node(), p); }
static node_base& at(const Cmd& c, int side, const std::string& p)
{
  auto n = look(dev(c, side), p);
  if (!n) c.misuse("no node");
  return *n;
}
static parameter_base& par(const Cmd& c, int side, const std::string& p)
{
  auto x = at(c, side, p).get_parameter();
  if (!x) c.misuse("no parameter");
  return *x;
}
static std::string rest(const Cmd& c, int k) { std::string s; for (std::size_t i = k; i < c.n(); i++) s += (s.empty() ? "" : " ") + c.s(i); return s; }
// sets the attribute k of the node to what the words from i on say, returns how that reads
static std::string set(const Cmd& c, node_base& n, const std::string& k, int i)
{
  auto p = n.get_parameter();
  const std::string s = c.n() > (std::size_t)i ? c.s(i) : "", all = rest(c, i);
  const bool none = s == "-";
  auto need = [&] { if (!p) c.misuse("no parameter"); };
  if (k == "acc") { need(); p->set_access(s == "GET" ? ossia::access_mode::GET : s == "SET" ? ossia::access_mode::SET : ossia::access_mode::BI); return s == "BI" ? "" : s; }
  if (k == "bnd") { need(); p->set_bounding(mode_of(s)); return s == "FREE" ? "" : s; }
  if (k == "rep") { need(); p->set_repetition_filter(c.b(i) ? ossia::repetition_filter::ON : ossia::repetition_filter::OFF); return c.b(i) ? "1" : ""; }
  if (k == "crit") { need(); p->set_critical(c.b(i)); return c.b(i) ? "1" : ""; }
  if (k == "dis") { need(); p->set_disabled(c.b(i)); return c.b(i) ? "1" : ""; }
  if (k == "unit") { need(); p->set_unit(none ? ossia::unit_t{} : ossia::parse_pretty_unit(s)); return none ? "" : s; }
  if (k == "dom")
  {
    need();
    auto d = none ? ossia::domain{} : dom(s, val(c.s(i + 1)), val(c.s(i + 2)), val(c.s(i + 3)));
    p->set_domain(d);
    return none ? "" : str(dom(d));
  }
  if (k == "type") { need(); p->set_value_type(type_of(s)); return s; }
  if (k == "def") { if (none) { set_default_value(n, std::nullopt); return ""; } set_default_value(n, val(s)); return str(val(val(s))); }
  if (k == "tags")
  {
    if (none) { set_tags(n, std::nullopt); return ""; }
    std::vector<std::string> t; std::string r;
    for (std::size_t x = i; x < c.n(); x++) { t.push_back(c.s(x)); r += c.s(x) + ";"; }
    set_tags(n, t); return r;
  }
  if (k == "desc") { if (none) set_description(n, std::nullopt); else set_description(n, all); return none ? "" : all; }
  if (k == "prio") { if (none) set_priority(n, std::nullopt); else set_priority(n, (float)c.i(i)); return none ? "" : std::to_string((float)c.i(i)); }
  if (k == "ref") { if (none) set_refresh_rate(n, std::nullopt); else set_refresh_rate(n, (int)c.i(i)); return none ? "" : std::to_string((int)c.i(i)); }
  if (k == "step") { if (none) set_value_step_size(n, std::nullopt); else set_value_step_size(n, c.i(i) / 4.); return none ? "" : std::to_string(c.i(i) / 4.); }
  if (k == "inst") { if (none) set_instance_bounds(n, std::nullopt); else set_instance_bounds(n, instance_bounds{(int)c.i(i), (int)c.i(i + 1)}); return none ? "" : all; }
  if (k == "ext") { if (none) set_extended_type(n, std::nullopt); else set_extended_type(n, s); return none ? "" : s; }
  if (k == "app") { if (none) set_app_name(n, std::nullopt); else set_app_name(n, all); return none ? "" : all; }
  if (k == "ver") { if (none) set_app_version(n, std::nullopt); else set_app_version(n, all); return none ? "" : all; }
  if (k == "maker") { if (none) set_app_creator(n, std::nullopt); else set_app_creator(n, all); return none ? "" : all; }
  if (k == "hid") { set_hidden(n, c.b(i)); return c.b(i) ? "1" : ""; }
  c.misuse("unknown attribute");
}
int main(int argc, char** argv)
{
  int rc = drive(argc, argv, [](const Cmd&) { W.reset(); udp.clear(); W = std::make_unique<World>(); emit(J().kv("e", "Reset")); },
    [](const Cmd& c) {
      const auto& o = c.op();
      J j; j.kv("e", o);
      W->heard = A{};
      A ans;
      if (o == "join")
      {
        settle();
        auto m = std::make_unique<Mirror>();
        const int k = ++W->next;
        auto p = std::make_unique<oq::oscquery_mirror_protocol>("ws://127.0.0.1:" + std::to_string(W->port), W->port + 1000 * k);
        m->proto = p.get();
        p->set_zombie_on_remove(W->zombies);
        m->dev = std::make_unique<generic_device>(std::move(p), "mir" + std::to_string(k));
        m->con = ++cons;
        W->mir[k] = std::move(m);
        settle(false);
        j.kv("m", k);
      }
      else if (o == "leave") { j.kv("m", c.i(1)); dev(c, c.i(1)); settle(); W->mir.erase(c.i(1)); settle(false); }
      else if (o == "zombies") { W->zombies = c.b(1); j.kv("b", c.b(1)); }
      else if (o == "echo") { dev(c, c.i(1)).set_echo(c.b(2)); j.kv("m", c.i(1)).kv("b", c.b(2)); }
      else if (o == "node") { create_node(W->dev->get_root_node(), c.s(1)); j.kv("p", names(c.s(1))); }
      else if (o == "param") { auto& n = find_or_create_node(W->dev->get_root_node(), c.s(1)); n.create_parameter(type_of(c.s(2))); j.kv("p", names(c.s(1))).kv("t", c.s(2)); }
      else if (o == "rmnode") { auto& n = at(c, 0, c.s(1)); j.kv("p", names(c.s(1))); n.get_parent()->remove_child(n); }
      else if (o == "rmparam") { j.kv("p", names(c.s(1))); par(c, 0, c.s(1)).get_node().remove_parameter(); }
      else if (o == "rename") { j.kv("p", names(c.s(1))).kv("s", c.s(2)); at(c, 0, c.s(1)).set_name(c.s(2)); }
      // a mirror that does not have the parameter (yet)
      else if (o == "set" && c.i(1) && [&] { auto n = look(dev(c, c.i(1)), c.s(2)); return !n || !n->get_parameter(); }()) return;
      else if (o == "set")
      {
        auto v = val(c.s(3)); j.kv("m", c.i(1)).kv("p", names(c.s(2))).kv("v", val(v));
        par(c, c.i(1), c.s(2)).push_value(v);
      }
      else if (o == "attr") { j.kv("p", names(c.s(1))).kv("k", c.s(2)); j.kv("x", set(c, at(c, 0, c.s(1)), c.s(2), 3)); }
      else if (o == "listen" || o == "unlisten")
      {
        const int m = c.i(1); auto& p = par(c, m, c.s(2)); j.kv("m", m).kv("p", names(c.s(2)));
        auto& v = (m ? W->mir[m]->cbs : W->cbs)[c.s(2)];
        if (o == "listen") v.push_back(p.add_callback([](const ossia::value&) {}));
        else { if (v.empty()) c.misuse("no listener"); p.remove_callback(v.back()); v.pop_back(); }
      }
      else if (o == "pull")
      {
        const int m = c.i(1); j.kv("m", m).kv("p", names(c.s(2)));
        auto f = W->mir.at(m)->proto->pull_async(par(c, m, c.s(2)));
        j.kv("ok", f.valid() && f.wait_for(std::chrono::seconds(0)) == std::future_status::ready);
      }
      else if (o == "update")
      {
        const int m = c.i(1); j.kv("m", m).kv("p", names(c.s(2)));
        auto f = W->mir.at(m)->proto->update_async(at(c, m, c.s(2)));
        j.kv("ok", f.valid() && f.wait_for(std::chrono::seconds(0)) == std::future_status::ready);
      }
      else if (o == "ask") // a request as it is sent over HTTP
      {
        // an attribute alone must be what the answer for the whole node says of it
        const std::string p = c.s(1), k = c.n() > 2 ? c.s(2) : "";
        auto r = ws::http(W->port, p);
        rapidjson::Document d; d.Parse(r.second);
        const bool obj = !d.HasParseError() && d.IsObject();
        auto text = [](const rapidjson::Value& v) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); v.Accept(w); return std::string(b.GetString()); };
        A kids, keys; std::string full = "?", whole, alone;
        if (obj && d.HasMember("FULL_PATH")) full = d["FULL_PATH"].GetString();
        if (obj && d.HasMember("CONTENTS")) for (auto it = d["CONTENTS"].MemberBegin(); it != d["CONTENTS"].MemberEnd(); ++it) kids.el(it->name.GetString());
        int n = r.first;
        if (!k.empty())
        {
          if (obj && d.HasMember(k.c_str())) whole = text(d[k.c_str()]);
          if (whole.find("null") != whole.npos) whole = "null"; // booleans are only told by the type there
          auto r2 = ws::http(W->port, p + "?" + k); n = r2.first;
          rapidjson::Document e; e.Parse(r2.second);
          if (!e.HasParseError() && e.IsObject()) for (auto it = e.MemberBegin(); it != e.MemberEnd(); ++it) { keys.el(it->name.GetString()); alone = text(it->value); }
        }
        j.kv("p", names(p)).kv("k", k).kv("n", r.first).kv("n2", n).kv("obj", obj).kv("full", names(full)).kv("kids", kids).kv("keys", keys).kv("whole", whole).kv("alone", alone);
      }
      else if (o == "addreq" || o == "rmreq" || o == "renreq")
      {
        const int m = c.i(1); auto& n = at(c, m, c.s(2)); j.kv("m", m).kv("p", names(c.s(2)));
        if (o == "addreq") { j.kv("s", c.s(3)); parameter_data d; d.name = c.s(3); W->mir.at(m)->proto->request_add_node(n, d); }
        else if (o == "rmreq") W->mir.at(m)->proto->request_remove_node(n);
        else { j.kv("s", c.s(3)); W->mir.at(m)->proto->request_rename_node(n, c.s(3)); }
      }
      else if (o == "ws") { one_ws(true); return; }
      else if (o == "wsto") { auto it = W->mir.find(c.i(1)); if (it != W->mir.end()) one_ws(true, it->second->con); return; }
      else if (o == "udp") { one_udp(true); return; }
      else if (o == "settle") settle();
      else c.misuse("unknown command");
      commands();
      collect();
      trees(j);
      emit(j);
    });
  fflush(stdout);
  _Exit(rc);
}
