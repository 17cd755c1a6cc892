// One process per probe.  Compiled with exceptions, a runtime error is printed as "THROWN <what>";
// without them the process is expected to end.
#include "unit.h"
#include "ffi0.rs.h"
#include <cstdio>
#include <cstring>
#include <limits>
#include <stdexcept>
extern "C" { void nx_mode(std::uint32_t m); std::uint32_t nx_callback(bool bad); bool nx_round(); }
std::uint32_t nx_call(rust::Fn<std::uint32_t(std::uint32_t)> f, std::uint32_t x) { return f(x); }
std::unique_ptr<std::string> nx_str(const std::string &s) { return std::unique_ptr<std::string>(new std::string(s)); }
St nx_st(St s) { s.a++; s.s = rust::String(std::string(s.s) + "!"); return s; }
namespace {
struct Probe { const char *name; bool (*f)(bool bad); };
const char *txt(bool bad) { return bad ? "valid, then \xff\xfe and more of it" : "valid \xc3\xa4 and more of it"; }
const char *cut(bool bad) { return bad ? "ends early \xe2\x82" : "ends whole \xe2\x82\xac"; }
const char16_t *wide(bool bad) { static const char16_t b[] = {u'a', 0xd800, u'b', 0}, g[] = {u'a', 0xd83d, 0xde00, 0}; return bad ? b : g; }
const std::size_t top = std::numeric_limits<std::size_t>::max();
template <class F> bool fine(F f) { return f(); }
const Probe probes[] = {
  {"string.cstr", [](bool b) { rust::String s(txt(b)); return s.size() == std::strlen(txt(false)); }},
  {"string.cut", [](bool b) { rust::String s(cut(b)); return s.size() == 14; }},
  {"string.std", [](bool b) { std::string t(txt(b)); rust::String s(t); return std::string(s) == txt(false); }},
  {"string.len", [](bool b) { rust::String s(txt(b), std::strlen(txt(b))); return std::string(s) == txt(false); }},
  {"string.u16", [](bool b) { rust::String s(wide(b)); return std::string(s) == "a\xf0\x9f\x98\x80"; }},
  {"string.u16len", [](bool b) { rust::String s(wide(b), 3); return std::string(s) == "a\xf0\x9f\x98\x80"; }},
  {"string.assign", [](bool b) { rust::String s("before"); s = rust::String(txt(b)); return std::string(s) == txt(false); }},
  {"string.field", [](bool b) { St s{1, rust::String(txt(b))}; return nx_st(std::move(s)).a == 2; }},
  {"str.cstr", [](bool b) { rust::Str s(txt(b)); return std::string(s) == txt(false); }},
  {"str.cut", [](bool b) { rust::Str s(cut(b)); return s.size() == 14; }},
  {"str.std", [](bool b) { std::string t(txt(b)); rust::Str s(t); return std::string(s) == txt(false); }},
  {"str.len", [](bool b) { rust::Str s(txt(b), std::strlen(txt(b))); return std::string(s) == txt(false); }},
  {"str.argument", [](bool b) { return std::string(nx_panic(nx_box(), txt(b), nx_strings(2))) == std::string("7/") + txt(false) + "/2"; }},
  {"slice.at", [](bool b) { const std::uint32_t a[] = {5, 6, 7}; rust::Slice<const std::uint32_t> s(a, 3); return s.at(b ? 3 : 2) == 7 && nx_sum(s) == 18; }},
  {"slice.at_mut", [](bool b) { std::uint32_t a[] = {5, 6, 7}; rust::Slice<std::uint32_t> s(a, 3); s.at(b ? 4 : 0) = 1; return a[0] == 1; }},
  {"slice.at_far", [](bool b) { const std::uint32_t a[] = {5, 6, 7}; rust::Slice<const std::uint32_t> s(a, 3); return s.at(b ? top : 1) == 6; }},
  {"slice.at_empty", [](bool b) { const std::uint32_t a[] = {5}; rust::Slice<const std::uint32_t> s(a, b ? 0 : 1); return s.at(0) == 5; }},
  {"vec.at", [](bool b) { const rust::Vec<std::uint16_t> v = nx_vec(4); return v.at(b ? 4 : 3) == 3; }},
  {"vec.at_mut", [](bool b) { rust::Vec<std::uint16_t> v = nx_vec(4); v.at(b ? 5 : 0) = 9; return v[0] == 9; }},
  {"vec.at_far", [](bool b) { rust::Vec<std::uint16_t> v = nx_vec(4); return v.at(b ? top / 2 + 1 : 1) == 1; }},
  {"vec.at_empty", [](bool b) { rust::Vec<std::uint16_t> v = nx_vec(b ? 0 : 1); v.reserve(8); return v.at(0) == 0; }},
  {"vec.strings", [](bool b) { rust::Vec<rust::String> v = nx_strings(3); return std::string(v.at(b ? 3 : 2)) == "element number 2 of the vector"; }},
  {"panic.body", [](bool b) { return std::string(nx_panic(nx_box(), b ? "now" : "later", nx_strings(1))) == "7/later/1"; }},
  {"panic.drop", [](bool b) { nx_mode(b ? 13 : 7); rust::Box<R> r = nx_box(); return r->get() == 7 || b; }},
  {"panic.callback", [](bool b) { return nx_callback(b) == 5; }},
  // never an error, whatever the input
  {"fine.lossy", [](bool) { return std::string(rust::String::lossy(txt(true))).find("\xef\xbf\xbd") != std::string::npos; }},
  {"fine.lossy16", [](bool) { return std::string(rust::String::lossy(wide(true), 3)) == "a\xef\xbf\xbd" "b"; }},
  {"fine.index", [](bool) { rust::Vec<std::uint16_t> v = nx_vec(3); v.push_back(8); v.truncate(2); v.emplace_back(6); return v.size() == 3 && v[2] == 6 && v.back() == 6; }},
  {"fine.round", [](bool) { return nx_round(); }},
};
} // namespace
int main(int c, char **v) {
  if (c < 2) { for (auto &p : probes) std::printf("%s\n", p.name); return 0; }
  for (auto &p : probes) if (!std::strcmp(p.name, v[1])) {
    std::printf("BEGIN\n"); std::fflush(stdout);
    bool ok;
#ifndef RUST_CXX_NO_EXCEPTIONS
    try { ok = p.f(v[2][0] == '1'); } catch (const std::out_of_range &e) { std::printf("THROWN %s\n", e.what()); return 0; } catch (const std::invalid_argument &e) { std::printf("THROWN %s\n", e.what()); return 0; }
#else
    ok = p.f(v[2][0] == '1');
#endif
    std::printf("RETURNED %d\n", (int)ok);
    return 0;
  }
  return 9;
}
