#include "vp.hpp"
#include <ossia/dataflow/token_request.hpp>
using namespace vp;
using namespace ossia;
static const double U = 48;
int main(int argc, char** argv)
{
  return drive(argc, argv, [&](const Cmd&) { J j; j.kv("e", "Reset"); emit(j); },
    [&](const Cmd& c) {
      const auto& o = c.op();
      J j; j.kv("e", o);
      auto mk = [&](int from, int to, int off) {
        return token_request{time_value{c.i(from)}, time_value{c.i(to)}, time_value{77}, time_value{off < 0 ? 0 : c.i(off)}, 1., {3, 8}, 123.};
      };
      if (o == "loop") {
        auto t = mk(1, 2, 3);
        t.musical_start_position = 1.5; t.musical_end_position = 2.5; t.musical_start_last_bar = 1; t.musical_end_last_bar = 2; t.musical_start_last_signature = .5;
        J p; p.kv("from", (long)c.i(1)).kv("to", (long)c.i(2)).kv("off", (long)c.i(3)).kv("start", (long)c.i(4)).kv("len", (long)c.i(5));
        A a; bool kept = true; int n = 0;
        struct stop {};
        try {
          t.loop(time_value{c.i(4)}, time_value{c.i(5)}, [&](const token_request& r) {
            A x; x.el((long)r.prev_date.impl).el((long)r.date.impl).el((long)r.offset.impl); a.el(x);
            kept = kept && r.parent_duration == t.parent_duration && r.speed == t.speed && r.tempo == t.tempo && r.signature == t.signature;
            if (++n > 500) throw stop{};
          }, [&](time_value d) { A x; x.el((long)d.impl); a.el(x); });
        } catch (stop) { kept = false; }
        emit(j.kv("p", p).kv("subs", a).kv("kept", kept));
      }
      else if (o == "quant" || o == "metro") {
        // from to off start end bar0 bar1 sig [num den]
        auto t = mk(1, 2, 3);
        t.musical_start_position = c.i(4) / U; t.musical_end_position = c.i(5) / U; t.musical_start_last_bar = c.i(6) / U;
        t.musical_end_last_bar = c.i(7) / U; t.musical_start_last_signature = c.i(8) / U;
        J m; m.kv("from", (long)c.i(1)).kv("to", (long)c.i(2)).kv("off", (long)c.i(3)).kv("start", (long)c.i(4)).kv("end", (long)c.i(5))
              .kv("bar0", (long)c.i(6)).kv("bar1", (long)c.i(7)).kv("sig", (long)c.i(8));
        j.kv("m", m);
        if (o == "quant") {
          J r; r.kv("num", (long)c.i(9)).kv("den", (long)c.i(10));
          const double rate = double(c.i(9)) / c.i(10);
          auto q = t.get_quantification_date(rate);
          auto ph = t.get_physical_quantification_date(rate, 1.);
          emit(j.kv("rate", r).kv("has", bool(q)).kv("date", (long)(q ? q->impl : 0)).kv("phys", (long)(ph ? *ph : 0)));
        } else {
          std::string what = "none"; long at = 0;
          t.metronome(1., [&](int64_t s) { what = what == "none" ? "tick" : "twice"; at = s; }, [&](int64_t s) { what = what == "none" ? "tock" : "twice"; at = s; });
          emit(j.kv("what", what).kv("at", at));
        }
      }
      else if (o == "range") {
        auto t = mk(1, 2, 3); time_value g{c.i(4)};
        A m; auto mv = t.add_offset(g); m.el((long)mv.prev_date.impl).el((long)mv.date.impl);
        emit(j.kv("from", (long)c.i(1)).kv("to", (long)c.i(2)).kv("off", (long)c.i(3)).kv("t", (long)c.i(4)).kv("in", t.in_range(g))
          .kv("fwd", t.forward()).kv("paused", t.paused()).kv("back", t.backward()).kv("phys", (long)t.to_physical_time_in_tick(g, 1.))
          .kv("model", (long)t.from_physical_time_in_tick(g.impl, 1.).impl).kv("dur", (long)t.model_read_duration().impl).kv("moved", m));
      }
      else c.misuse("op");
    });
}
