// Conformance harness of Osc.tla: two devices joined by an in-memory network.
// What the first one sends is decoded here, independently of the library, and
// handed to the second one; packets made here are handed to it as well.
#include "domains.hpp"
#include "packets.hpp"
#include <ossia/network/base/message_origin_identifier.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/context.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_node.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/osc/osc.hpp>
#include <ossia/protocols/osc/osc_generic_protocol.hpp>
#include <oscpack/ip/UdpSocket.h>
#include <functional>
#include <map>
#include <memory>
using namespace vp;
using namespace ossia::net;

// ---- the network ------------------------------------------------------------
static std::vector<std::string> sent[2];
static std::function<void(const char*, std::size_t)> inlet[2];
struct mem_socket
{
  int id;
  Nano::Signal<void()> on_open, on_close, on_fail;
  mem_socket(const socket_configuration& c, boost::asio::io_context&) : id(c.port) {}
  void open() {}
  void connect() {}
  bool connected() const { return true; }
  template <typename F> void receive(F f) { inlet[id] = f; }
  template <typename F> void listen(F f) { inlet[id] = f; }
  void write(const char* d, std::size_t n) { sent[id].emplace_back(d, n); }
};
struct Proto
{
  std::unique_ptr<protocol_base> p;
  std::function<void(bool)> learn;
  std::function<bool(const full_parameter_data&)> raw;
  std::function<bool(const std::vector<const parameter_base*>&)> bundle;
  std::function<bool(const std::vector<full_parameter_data>&)> raw_bundle;
  std::function<std::string(const parameter_base&, const ossia::value&)> text; // the same message, by the other writer
};
template <typename T> static Proto wrap(T* t)
{
  Proto p; p.p.reset(t);
  p.learn = [t](bool b) { t->set_learning(b); };
  p.raw = [t](auto& x) { return t->push_raw(x); };
  p.bundle = [t](auto& x) { return t->push_bundle(x); };
  p.raw_bundle = [t](auto& x) { return t->push_raw_bundle(x); };
  return p;
}
template <typename Ver> static void writer(Proto& p)
{
  p.text = [](const parameter_base& x, const ossia::value& v) {
    ossia::buffer_pool::buffer b;
    v.apply(osc_value_write_visitor<parameter_base, Ver>{x, x.get_node().osc_address(), b});
    return std::string(b.data(), b.size()); };
}
template <typename Ver, template <typename> class Mode> static Proto make_gen(int kind, int id)
{
  auto ctx = std::make_shared<network_context>();
  using mode = Mode<Ver>;
  socket_configuration c{"mem", (uint16_t)id};
  Proto p;
  if (kind == 0) p = wrap(new osc_generic_bidir_protocol<mode, mem_socket, mem_socket>(ctx, send_socket_configuration{c}, receive_socket_configuration{c}));
  else if (kind == 1) p = wrap(new osc_generic_server_protocol<mode, mem_socket>(ctx, c));
  else p = wrap(new osc_generic_client_protocol<mode, mem_socket>(ctx, c));
  writer<Ver>(p);
  return p;
}
static int old_port = 9000;
static Proto make_proto(const std::string& k, int id)
{
  if (k == "old") return wrap(new osc_protocol("127.0.0.1", id ? 1 : old_port, id ? old_port : 0));
  if (k == "10c") return make_gen<osc_1_0_policy, osc_protocol_client>(2, id);
  if (k == "10s") return make_gen<osc_1_0_policy, osc_protocol_server>(0, id);
  if (k == "11c") return make_gen<osc_1_1_policy, osc_protocol_client>(0, id);
  if (k == "11s") return make_gen<osc_1_1_policy, osc_protocol_server>(1, id);
  if (k == "exc") return make_gen<osc_extended_policy, osc_protocol_client>(2, id);
  return make_gen<osc_extended_policy, osc_protocol_server>(1, id);
}

struct World
{
  std::string kind;
  Proto pr[2];
  std::unique_ptr<generic_device> dev[2];
  A got, called, unh;
  std::map<parameter_base*, parameter_base::callback_index> cbs;
  void msg(const parameter_base& p) { got.el(J().kv("p", p.get_node().osc_address()).kv("v", val(p.value()))); }
  void unhandled(ossia::string_view a, const ossia::value& v) { unh.el(J().kv("a", std::string(a)).kv("v", val(v))); }
  explicit World(const std::string& k) : kind(k)
  {
    for (int i = 0; i < 2; i++) { pr[i] = make_proto(k, i); dev[i] = std::make_unique<generic_device>(std::move(pr[i].p), i ? "rcv" : "snd"); }
    dev[1]->on_message.connect<&World::msg>(this);
    dev[1]->on_unhandled_message.connect<&World::unhandled>(this);
  }
  void clear() { got = A{}; called = A{}; unh = A{}; sent[0].clear(); sent[1].clear(); vp_udp::take(); }
  std::vector<std::string> taken(int i)
  {
    if (kind != "old") { auto r = std::move(sent[i]); sent[i].clear(); return r; }
    std::vector<std::string> r; for (auto& p : vp_udp::take()) if (p.to == (i ? 1 : old_port)) r.push_back(p.data);
    return r;
  }
  void deliver(const std::string& s)
  {
    if (kind == "old") vp_udp::deliver(old_port, s);
    else { std::vector<char> exact(s.begin(), s.end()); inlet[1](exact.data(), exact.size()); }
  }
};
static std::unique_ptr<World> W;
static node_base* find(int i, const std::string& p) { return find_node(W->dev[i]->get_root_node(), p); }
static generic_parameter* par(int i, const std::string& p) { auto n = find(i, p); return n ? static_cast<generic_parameter*>(n->get_parameter()) : nullptr; }
static void walk(node_base& n, A& a)
{
  for (auto c : n.children_copy())
  {
    auto p = static_cast<generic_parameter*>(c->get_parameter());
    J j; j.kv("p", c->osc_address()).kv("live", p != nullptr);
    if (p) j.kv("t", type_name(p->get_value_type())).kv("v", val(p->value()));
    a.el(j);
    walk(*c, a);
  }
}
static std::vector<ossia::value> list(const ossia::value& v) { return v.get<std::vector<ossia::value>>(); }
// the arguments of the script: [tag value]*
static std::vector<Arg> args_of(const Cmd& c, std::size_t i, std::size_t e)
{
  std::vector<Arg> r;
  for (; i + 1 < e; i += 2) r.push_back({c.s(i)[0], val(c.s(i + 1))});
  return r;
}
static std::vector<Msg> msgs_of(const Cmd& c, std::size_t i)
{
  std::vector<Msg> r;
  while (i < c.n())
  {
    auto e = i + 1; while (e < c.n() && c.s(e) != "/") e++;
    r.push_back({c.s(i), args_of(c, i + 1, e)});
    i = e + 1;
  }
  return r;
}
static full_parameter_data data(const std::string& p, const ossia::value& v)
{
  auto x = par(0, p);
  full_parameter_data d{p, v};
  d.type = x->get_value_type(); d.domain = x->get_domain(); d.access = x->get_access(); d.bounding = x->get_bounding();
  d.rep_filter = x->get_repetition_filter(); d.unit = x->get_unit(); d.disabled = x->get_disabled(); d.muted = x->get_muted();
  d.extended = x->get_node().get_extended_attributes();
  return d;
}
static void finish(J& j, bool deliver = true)
{
  A pk, back;
  for (auto& s : W->taken(0)) { pk.el(packet_json(s)); if (deliver) W->deliver(s); }
  for (auto& s : W->taken(1)) back.el(packet_json(s));
  A s, r; walk(W->dev[0]->get_root_node(), s); walk(W->dev[1]->get_root_node(), r);
  emit(j.kv("sent", pk).kv("back", back).kv("got", W->got).kv("called", W->called).kv("unh", W->unh).kv("s", s).kv("r", r));
}
int main(int argc, char** argv)
{
  int rc = drive(argc, argv, [](const Cmd&) { W.reset(); W = std::make_unique<World>("10s"); J j; j.kv("e", "Reset"); emit(j); },
    [](const Cmd& c) {
      const auto& o = c.op();
      J j; j.kv("e", o);
      if (o == "cfg")
      {
        W.reset(); W = std::make_unique<World>(c.s(1)); W->clear();
        if (c.n() > 2) W->dev[1]->set_echo(true);
        const auto k = c.s(1);
        return emit(j.kv("ver", k == "old" ? "old" : k[0] == 'e' ? "ext" : k[1] == '0' ? "1.0" : "1.1").kv("client", k == "old" || k[2] == 'c'));
      }
      W->clear();
      if (o == "new")
      { // new (s|r) path type
        j.kv("d", c.s(1)).kv("a", c.s(2)).kv("t", c.s(3));
        auto& n = find_or_create_node(W->dev[c.s(1) == "r"]->get_root_node(), c.s(2));
        if (n.get_parameter()) c.misuse("parameter there");
        n.create_parameter(type_of(c.s(3)));
      }
      else if (o == "node") { j.kv("a", c.s(1)); create_node(W->dev[1]->get_root_node(), c.s(1)); }
      else if (o == "attr")
      { // attr (s|r) path field value...
        int d = c.s(1) == "r"; auto p = par(d, c.s(2)); if (!p) c.misuse("no parameter"); auto f = c.s(3); j.kv("d", c.s(1)).kv("a", c.s(2)).kv("f", f);
        if (f == "dom") { auto x = dom(c.s(4), val(c.s(5)), val(c.s(6)), val(c.s(7))); p->set_domain(x); j.kv("x", dom(x)); }
        else if (f == "bm") { p->set_bounding(mode_of(c.s(4))); j.kv("x", c.s(4)); }
        else if (f == "acc") { auto a = c.s(4); p->set_access(a == "BI" ? ossia::access_mode::BI : a == "GET" ? ossia::access_mode::GET : ossia::access_mode::SET); j.kv("x", a); }
        else if (f == "rep") { p->set_repetition_filter(c.b(4) ? ossia::repetition_filter::ON : ossia::repetition_filter::OFF); j.kv("x", c.b(4)); }
        else if (f == "dis") { p->set_disabled(c.b(4)); j.kv("x", c.b(4)); }
        else if (f == "mut") { p->set_muted(c.b(4)); j.kv("x", c.b(4)); }
        else if (f == "unit") { p->set_unit(ossia::parse_pretty_unit(c.s(4))); j.kv("x", c.s(4)); }
        else if (f == "blob") { set_extended_type(p->get_node(), c.b(4) ? std::optional<ossia::extended_type>(ossia::generic_buffer_type()) : std::nullopt); j.kv("x", c.b(4)); }
        else c.misuse("field");
      }
      else if (o == "listen")
      {
        auto p = par(1, c.s(1)); if (!p) c.misuse("no parameter"); j.kv("a", c.s(1)).kv("b", c.b(2));
        auto it = W->cbs.find(p);
        if (it != W->cbs.end()) { p->remove_callback(it->second); W->cbs.erase(it); }
        if (c.b(2)) W->cbs[p] = p->add_callback([p](const ossia::value& v) { W->called.el(J().kv("p", p->get_node().osc_address()).kv("v", val(v))); });
      }
      else if (o == "drop") { j.kv("a", c.s(1)); auto n = find(1, c.s(1)); for (auto it = W->cbs.begin(); it != W->cbs.end();) { auto a = it->first->get_node().osc_address(); if (a == c.s(1) || a.rfind(c.s(1) + "/", 0) == 0) it = W->cbs.erase(it); else ++it; } n->get_parent()->remove_child(*n); }
      else if (o == "droppar") { j.kv("a", c.s(1)); auto n = find(1, c.s(1)); W->cbs.erase(n->get_parameter()); n->remove_parameter(); }
      else if (o == "rename") { j.kv("a", c.s(1)).kv("n", c.s(2)); find(1, c.s(1))->set_name(c.s(2)); }
      else if (o == "learn") { j.kv("b", c.b(1)); W->pr[1].learn(c.b(1)); }
      else if (o == "push" || o == "pushr" || o == "pushcur")
      {
        auto p = par(0, c.s(1)); j.kv("a", c.s(1));
        if (o == "pushcur") p->push_value();
        else { auto v = val(c.s(2)); j.kv("v", val(v)); if (o == "push") p->push_value(v); else p->push_value(std::move(v)); }
        A w; // the same by the other writer
        if (W->pr[0].text && sent[0].size())
          w.el(packet_json(W->pr[0].text(*p, filter_value(p->get_domain(), p->value(), p->get_bounding()))));
        j.kv("wr", w).kv("haswr", bool(W->pr[0].text));
      }
      else if (o == "raw")
      {
        auto d = data(c.s(1), val(c.s(2))); d.set_value(val(c.s(3))); j.kv("a", c.s(1)).kv("pv", val(val(c.s(2)))).kv("v", val(d.value()));
        j.kv("ok", W->pr[0].raw(d));
      }
      else if (o == "bundle")
      {
        std::vector<const parameter_base*> ps; A a;
        for (std::size_t i = 1; i < c.n(); i++) { ps.push_back(par(0, c.s(i))); a.el(c.s(i)); }
        j.kv("as", a).kv("ok", W->pr[0].bundle(ps));
      }
      else if (o == "rawbundle")
      {
        std::vector<full_parameter_data> ps; A a;
        for (std::size_t i = 1; i + 1 < c.n(); i += 2) { ps.push_back(data(c.s(i), val(c.s(i + 1)))); a.el(J().kv("a", c.s(i)).kv("v", val(ps.back().value()))); }
        j.kv("rs", a).kv("ok", W->pr[0].raw_bundle(ps));
      }
      else if (o == "msg" || o == "msgs" || o == "nested")
      { // one message, a bundle, or a bundle that contains a bundle
        auto ms = msgs_of(c, 1); A a;
        for (auto& m : ms) a.el(J().kv("a", m.a).kv("args", args_json(m.args)));
        j.kv("ms", a);
        if (o == "msg") W->deliver(encode(ms[0]));
        else
        {
          std::vector<std::string> x, y; const auto n = ms.size(), lo = n / 2, hi = n > 2 ? n - 1 : n;
          for (std::size_t i = 0; i < n; i++)
          {
            (o == "nested" && i >= lo && i < hi ? y : x).push_back(encode(ms[i]));
            if (o == "nested" && i + 1 == hi) x.push_back(pack(y));
          }
          W->deliver(pack(x));
        }
      }
      else if (o == "bad")
      { // a message that is damaged: cut short, an unknown tag, an element that is too long...
        auto ms = msgs_of(c, 2); auto s = encode(ms[0]); auto k = c.s(1);
        if (k == "cut") s.resize(s.size() - 4);                 // (of messages with arguments only)
        else if (k == "odd") s.resize(s.size() - 1);
        else if (k == "tag") s[s.find(',') + 1] = 'Z';
        else if (k == "nocomma") s[s.find(',')] = 'x';
        else if (k == "noend") { s = ms[0].a; while (s.size() % 4) s += 'x'; }
        else if (k == "element") { s = pack({s}); s[19] = char(s[19] + 4); }
        else if (k == "tail") { s = pack({s}); s += "\0\0\0\x40"; s += std::string("abcd"); }
        else if (k == "header") { s = pack({s}); s[3] = 'x'; }
        else if (k == "inner") { s = pack({pack({s}).substr(0, 12)}); }
        else if (k == "array") { auto m = ms[0]; m.args.insert(m.args.begin(), Arg{'[', {}}); s = encode(m); }
        else if (k == "empty") s.clear();
        W->deliver(s);
        j.kv("k", k);
      }
      else if (o == "big")
      { // a large text or list
        auto p = par(0, c.s(2)); int n = c.i(3); ossia::value v;
        if (c.s(1) == "text") v = std::string(n, 'q');
        else { std::vector<ossia::value> l; for (int i = 0; i < n; i++) l.push_back(c.s(1) == "ints" ? ossia::value(i) : ossia::value(std::string(i % 7, 'z'))); v = l; }
        p->push_value(v);
        auto k = W->taken(0); for (auto& s : k) W->deliver(s);
        bool ok = k.size() == 1 && par(1, c.s(2))->value() == v;
        if (k.size()) try { decode(k[0]); } catch (Bad) { ok = false; }
        bool wok = true;
        if (W->pr[0].text) wok = k.size() == 1 && W->pr[0].text(*p, v) == k[0];
        p->set_value_quiet(ossia::init_value(p->get_value_type())); par(1, c.s(2))->set_value_quiet(ossia::init_value(p->get_value_type()));
        W->clear();
        j.kv("a", c.s(2)).kv("done", ok).kv("wok", wok);
      }
      else c.misuse("op");
      finish(j);
    });
  W.reset(); // before the statics it uses
  return rc;
}
