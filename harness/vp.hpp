// Common helpers of the conformance harnesses: script reader + ndjson event log.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace vp
{
inline std::string quote(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
// tiny JSON object/array builder
struct J
{
  std::string s;
  bool first = true;
  char close;
  explicit J(char open = '{') : s(1, open), close(open == '{' ? '}' : ']') {}
  void sep() { if (!first) s += ','; first = false; }
  J& raw(const char* k, const std::string& v) { sep(); s += quote(k); s += ':'; s += v; return *this; }
  J& kv(const char* k, const std::string& v) { return raw(k, quote(v)); }
  J& kv(const char* k, const char* v) { return raw(k, quote(v)); }
  J& kv(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
  J& kv(const char* k, long long v) { return raw(k, std::to_string(v)); }
  J& kv(const char* k, int v) { return raw(k, std::to_string(v)); }
  J& kv(const char* k, long v) { return raw(k, std::to_string(v)); }
  J& kv(const char* k, unsigned long v) { return raw(k, std::to_string(v)); }
  J& kv(const char* k, const J& v) { return raw(k, v.str()); }
  J& el(const std::string& v) { sep(); s += quote(v); return *this; }
  J& el(const char* v) { sep(); s += quote(v); return *this; }
  J& el(bool v) { sep(); s += v ? "true" : "false"; return *this; }
  J& el(long long v) { sep(); s += std::to_string(v); return *this; }
  J& el(int v) { sep(); s += std::to_string(v); return *this; }
  J& el(long v) { sep(); s += std::to_string(v); return *this; }
  J& el(unsigned long v) { sep(); s += std::to_string(v); return *this; }
  J& el(const J& v) { sep(); s += v.str(); return *this; }
  J& elraw(const std::string& v) { sep(); s += v; return *this; }
  std::string str() const { return s + close; }
};
struct A : J { A() : J('[') {} };

inline void emit(const J& j) { std::string s = j.str(); s += '\n'; fputs(s.c_str(), stdout); }

// What a command needs is not there: either the script is wrong or the code has
// gone astray. The event tells so (no specification accepts it) and the rest of
// the behaviour is skipped.
struct Misuse { std::string what; };

struct Cmd
{
  std::vector<std::string> t;
  const std::string& op() const { return t[0]; }
  std::size_t n() const { return t.size(); }
  std::string s(std::size_t i) const { if (i >= t.size()) misuse("missing argument"); return t[i]; }
  long long i(std::size_t k) const { return std::atoll(s(k).c_str()); }
  bool b(std::size_t k) const { auto v = s(k); return v == "1" || v == "true" || v == "TRUE"; }
  [[noreturn]] void misuse(const char* w) const
  {
    std::string m = w;
    m += " in:";
    for (auto& x : t) m += ' ' + x;
    throw Misuse{m};
  }
};

// Runs `reset()` for every "reset" line and `step(cmd)` for the other lines.
template <typename Reset, typename Step>
int drive(int argc, char** argv, Reset reset, Step step)
{
  if (argc < 2) return 3;
  static char buf[1 << 16];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  std::ifstream f(argv[1]);
  std::string line;
  bool skip = false;
  while (std::getline(f, line))
  {
    Cmd c;
    std::istringstream is(line);
    std::string w;
    while (is >> w) c.t.push_back(w);
    if (c.t.empty()) continue;
    if (c.t[0] == "reset")
    {
      fflush(stdout);
      reset(c);
      fflush(stdout);
      skip = false;
    }
    else if (!skip)
    {
      try
      {
        step(c);
      }
      catch (const Misuse& m)
      {
        std::cerr << "harness misuse: " << m.what << std::endl;
        emit(J().kv("e", "misuse").kv("w", m.what));
        skip = true;
      }
    }
  }
  fflush(stdout);
  return 0;
}
}
