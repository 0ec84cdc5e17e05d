#include "vp.hpp"
#include <ossia/editor/scenario/time_value.hpp>
using namespace vp;
using ossia::time_value;
static A limbs(time_value v)
{
  int64_t n = v.impl, B = 1 << 20;
  auto fl = [](int64_t a, int64_t b) { int64_t q = a / b; return a % b < 0 ? q - 1 : q; };
  int64_t l = n - fl(n, B) * B; n = fl(n, B);
  int64_t m = n - fl(n, B) * B; n = fl(n, B);
  A a; a.el((long)n).el((long)m).el((long)l); return a;
}
static int64_t parse(const std::string& s)
{
  long long h, m, l; if (sscanf(s.c_str(), "[%lld,%lld,%lld]", &h, &m, &l) != 3) exit(3);
  return h * (1ll << 40) + m * (1ll << 20) + l;
}
int main(int argc, char** argv)
{
  time_value x{0};
  return drive(argc, argv, [&](const Cmd&) { x = time_value{0}; J j; j.kv("e", "Reset"); emit(j); },
    [&](const Cmd& c) {
      const auto& o = c.op();
      J j; j.kv("e", o);
      if (o == "set") { x = time_value{parse(c.s(1))}; emit(j.kv("x", limbs(x)).kv("inf", x.infinite())); return; }
      if (o == "mul") { int n = c.i(1);
        switch (c.i(2)) { case 0: x = x * int32_t(n); break; case 1: x = x * int64_t(n); break; case 2: x = x * uint32_t(n); break; default: x = x * uint64_t(n); }
        emit(j.kv("n", (long)n).kv("x", limbs(x))); return; }
      time_value y{parse(c.s(1))}, x0 = x, r = x;
      int64_t yi = y.impl;
      j.kv("y", limbs(time_value{yi}));
      if (o == "cmp") { A a; a.el(x == y).el(x != y).el(x < y).el(x <= y).el(x > y).el(x >= y); emit(j.kv("r", a).kv("x", limbs(x)).kv("inf", x.infinite())); return; }
      if (o == "add") r = x0 + y;
      else if (o == "sub") r = x0 - y;
      else if (o == "addeq") r = (x0 += y);
      else if (o == "subeq") r = (x0 -= y);
      else if (o == "addi") r = x0 + yi;
      else if (o == "subi") r = x0 - yi;
      else if (o == "addu") r = x0 + uint64_t(yi);
      else if (o == "subu") r = x0 - uint64_t(yi);
      else if (o == "addd") r = x0 + double(yi);
      else if (o == "subd") r = x0 - double(yi);
      else if (o == "addieq") r = (x0 += yi);
      else if (o == "subieq") r = (x0 -= yi);
      else if (o == "neg") r = -x0;
      else if (o == "abs") r = abs(x0);
      else if (o == "norm") r = norm(x0, y);
      else c.misuse("op");
      j.kv("y2", limbs(y)).kv("x2", limbs(x0));
      x = r;
      emit(j.kv("x", limbs(x)).kv("inf", x.infinite()));
    });
}
