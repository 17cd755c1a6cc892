// Small assertion layer over support.h: every comparison is one observed event.
#pragma once
#include "support.h"
#include <algorithm>
#include <iostream>
#include <memory>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace st {
using xb::below; using xb::coin; using xb::u64;
inline std::string ts(const std::string &s) { return "s" + std::to_string(s.size()) + ":" + s; }
inline std::string ts(const char *s) { return s ? ts(std::string(s)) : "null"; }
inline std::string ts(bool b) { return b ? "true" : "false"; }
template <class T> std::enable_if_t<std::is_arithmetic<T>::value, std::string> ts(T v) { return std::to_string(v); }
inline std::string ts(const void *p) { std::string d; xb::put_addr(d, p); return d; }
template <class T> std::string ts(const std::vector<T> &v) { std::string s = "[" + std::to_string(v.size()); for (auto &x : v) s += "|" + ts(x); return s + "]"; }
template <class A, class B> void eq(const char *slot, const A &want, const B &got) {
  xb::send_s(slot, ts(want)); xb::recv_s(slot, ts(got));
}
inline void ok(const char *slot, bool b, const std::string &what = "") { xb::send_s(slot, "holds" + what); xb::recv_s(slot, (b ? "holds" : "does not hold") + what); }
inline std::map<std::string, u64> &stats() { static std::map<std::string, u64> m; return m; }
inline void stat(const char *k, u64 n = 1) { stats()[k] += n; }
struct StatPrinter { ~StatPrinter() { for (auto &kv : stats()) printf("STAT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second); fflush(stdout); stats().clear(); } };
template <class F> bool throws_oor(F f) { try { f(); return false; } catch (const std::out_of_range &) { return true; } }
template <class F> bool throws_ia(F f) { try { f(); return false; } catch (const std::invalid_argument &) { return true; } }
} // namespace st
#define ST_MAIN(...) int main(int c, char **v) { static const xb::Test T[] = {__VA_ARGS__}; int r; { st::stats(); st::StatPrinter p; r = xb::run_main(c, v, T, sizeof T / sizeof *T); } return r; }
