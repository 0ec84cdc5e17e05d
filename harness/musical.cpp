// Nested intervals with their own signatures and tempos: what each tells its
// processes about the musical time of a tick.
#include "vp.hpp"
#include <ossia/dataflow/nodes/forward_node.hpp>
#include <ossia/editor/curve/curve_segment/linear.hpp>
#include <ossia/editor/scenario/scenario.hpp>
#include <ossia/editor/scenario/time_event.hpp>
#include <ossia/editor/scenario/time_interval.hpp>
#include <ossia/editor/scenario/time_sync.hpp>
#include <ossia/detail/json.hpp>
#include <cmath>
using namespace vp;
using namespace ossia;

// exact multiples only
static long scaled(double x, double unit)
{
  double y = x * unit;
  if (!(std::abs(y) < 2e9)) return -999999999;
  return y == std::floor(y) ? long(y) : -999999998;
}
static J musical(const time_signature& s, double tempo, double ls, double b0, double p0, double b1, double p1)
{
  return J().kv("u", (long)s.upper).kv("l", (long)s.lower).kv("tempo", scaled(tempo / 15., 4096)).kv("sig", scaled(ls, 64))
      .kv("bar0", scaled(b0, 64)).kv("pos0", scaled(p0, 64)).kv("bar1", scaled(b1, 64)).kv("pos1", scaled(p1, 64));
}
static J request(const token_request& t)
{
  return musical(t.signature, t.tempo, t.musical_start_last_signature, t.musical_start_last_bar, t.musical_start_position, t.musical_end_last_bar, t.musical_end_position)
      .kv("from", (long)t.prev_date.impl).kv("to", (long)t.date.impl).kv("off", (long)t.offset.impl).kv("speed", scaled(t.speed, 4096));
}
struct probe : time_process
{
  A& a;
  explicit probe(A& x) : a{x} {}
  void state(const token_request& t) override { a.el(request(t)); }
  void offset_impl(time_value) override {}
  void transport_impl(time_value) override {}
};
struct Level
{
  std::shared_ptr<time_sync> s, e;
  std::shared_ptr<time_interval> i;
  std::shared_ptr<scenario> sc; // what contains it; none for the first
  A toks;
};
static std::vector<std::unique_ptr<Level>> L;
static std::optional<time_signature_map> signatures(const rapidjson::Value& v)
{
  time_signature_map m;
  for (auto& x : v.GetArray()) m.insert({time_value{x[0].GetInt64()}, time_signature{(uint16_t)x[1].GetInt(), (uint16_t)x[2].GetInt()}});
  return m;
}
static std::optional<tempo_curve> tempos(const rapidjson::Value& v)
{
  tempo_curve c;
  c.set_x0(0); c.set_y0(15. * v[0][1].GetInt());
  for (unsigned k = 1; k < v.Size(); k++) c.add_point(curve_segment_linear<double>{}, v[k][0].GetInt64(), 15. * v[k][1].GetInt());
  return c;
}
static rapidjson::Document parse(const std::string& s) { rapidjson::Document d; d.Parse(s); return d; }
static void clear()
{
  for (auto& l : L) l->i->cleanup();
  for (auto it = L.rbegin(); it != L.rend(); ++it) it->reset();
  L.clear();
}
static void make(const std::string& txt)
{
  auto d = parse(txt);
  for (auto& v : d.GetArray())
  {
    auto l = std::make_unique<Level>();
    if (!L.empty())
    {
      l->sc = std::make_shared<scenario>();
      l->s = l->sc->get_start_time_sync();
    }
    else { l->s = std::make_shared<time_sync>(); }
    l->e = std::make_shared<time_sync>();
    auto mk = [](time_sync& t) { return *t.emplace(t.get_time_events().end(), [](time_event::status) {}, expressions::make_expression_true()); };
    auto s = mk(*l->s), e = mk(*l->e);
    if (l->sc) l->sc->add_time_sync(l->e);
    l->i = time_interval::create({}, *s, *e, Infinite, Infinite, Infinite);
    l->i->set_quarter_duration(v["q"].GetInt());
    l->i->set_speed(v["speed"].GetInt() / 8.);
    if (v["hs"].GetBool()) l->i->set_time_signature_map(signatures(v["sig"]));
    if (v["ht"].GetBool()) l->i->set_tempo_curve(tempos(v["tempo"]));
    l->i->add_time_process(std::make_shared<probe>(l->toks));
    if (l->sc)
    {
      l->sc->add_time_interval(l->i);
      L.back()->i->add_time_process(l->sc);
    }
    L.push_back(std::move(l));
  }
}
static void finish(J& j)
{
  A t, s;
  for (auto& l : L)
  {
    t.el(l->toks); l->toks = A{};
    auto x = l->i->current_transport_info();
    s.el(musical(x.signature, x.current_tempo, x.musical_start_last_signature, x.musical_start_last_bar, x.musical_start_position, x.musical_end_last_bar, x.musical_end_position)
             .kv("date", (long)l->i->get_date().impl));
  }
  emit(j.kv("toks", t).kv("now", s));
}
int main(int argc, char** argv)
{
  return drive(argc, argv, [](const Cmd&) { clear(); J j; j.kv("e", "Reset"); emit(j); },
    [](const Cmd& c) {
      const auto& o = c.op();
      J j; j.kv("e", o);
      auto level = [&]() -> time_interval& { auto k = c.i(1); if (k < 1 || k > (long)L.size()) c.misuse("level"); j.kv("k", (long)k); return *L[k - 1]->i; };
      if (o == "levels") { make(c.s(1)); j.raw("x", c.s(1)); }
      else if (o == "start") L[0]->i->start_and_tick();
      else if (o == "tick" || o == "ticko")
      { // tick amount (ratio | offset) speed tempo upper lower sig bar0 pos0 bar1 pos1
        token_request r;
        r.speed = c.i(3) / 4096.; r.tempo = c.i(4) * 15. / 4096; r.signature = {(uint16_t)c.i(5), (uint16_t)c.i(6)};
        r.musical_start_last_signature = c.i(7) / 64.; r.musical_start_last_bar = c.i(8) / 64.; r.musical_start_position = c.i(9) / 64.;
        r.musical_end_last_bar = c.i(10) / 64.; r.musical_end_position = c.i(11) / 64.;
        j.kv("d", (long)c.i(1)).kv("n", (long)c.i(2)).kv("r", request(r));
        if (o == "tick") L[0]->i->tick(time_value{c.i(1)}, r, double(c.i(2)));
        else L[0]->i->tick_offset(time_value{c.i(1)}, time_value{c.i(2)}, r);
      }
      else if (o == "speed") { level().set_speed(c.i(2) / 8.); j.kv("s", (long)c.i(2)); }
      // sig | tempo level on [...]
      else if (o == "sig" || o == "tempo")
      {
        auto& i = level(); auto d = parse(c.s(3)); j.kv("on", c.b(2)).raw("x", c.s(3));
        if (o == "sig") i.set_time_signature_map(c.b(2) ? signatures(d) : std::nullopt);
        else i.set_tempo_curve(c.b(2) ? tempos(d) : std::nullopt);
      }
      else if (o == "fixed") { static_cast<nodes::interval*>(level().node.get())->tempo = c.i(2) < 0 ? nodes::interval::no_tempo : 15.f * c.i(2); j.kv("y", (long)c.i(2)); }
      else if (o == "phys")
      { // from to offset parent speed ratio date samples buffer: speed and ratio in 1/8
        const double s = c.i(5) / 8., r = c.i(6) / 8.;
        token_request t{time_value{c.i(1)}, time_value{c.i(2)}, time_value{c.i(4)}, time_value{c.i(3)}, s, {4, 4}, 120.};
        j.kv("from", (long)c.i(1)).kv("to", (long)c.i(2)).kv("off", (long)c.i(3)).kv("parent", (long)c.i(4)).kv("s", (long)c.i(5)).kv("r", (long)c.i(6))
            .kv("t", (long)c.i(7)).kv("p", (long)c.i(8)).kv("b", (long)c.i(9));
        emit(j.kv("begin", (long)t.start_date_to_physical(r)).kv("start", (long)t.physical_start(r)).kv("read", (long)t.physical_read_duration(r))
                 .kv("write", (long)t.physical_write_duration(r)).kv("safe", (long)t.safe_physical_write_duration(r, (int)c.i(9)))
                 .kv("sample", (long)t.to_physical_time_in_tick(time_value{c.i(7)}, r)).kv("date", (long)t.from_physical_time_in_tick(c.i(8), r).impl)
                 .kv("back", (long)t.from_physical_time_in_tick(t.to_physical_time_in_tick(time_value{c.i(7)}, r), r).impl)
                 .kv("place", scaled(t.position(), 64)).kv("same", t == t).kv("other", [&] { auto u = t; u.speed = s * 2; return t == u; }()));
        return;
      }
      else c.misuse("op");
      finish(j);
    });
}
