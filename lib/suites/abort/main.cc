#include "unit.h"
#include "ffi0.rs.h"
#include <thread>
extern "C" { bool is_armed(); bool will_arm(); void set_mode(std::uint32_t); void r_probe(const char *); void r_list(); }
static void say(const char *s) { fputs(s, stdout); fputc('\n', stdout); fflush(stdout); }
// A frame of C++ that must not be unwound by a panic.
struct Local { ~Local() { } };
struct Local2 { ~Local2() { if (std::uncaught_exception()) say("UNWOUND"); } };
std::unique_ptr<Opq> mk_opq() { return std::unique_ptr<Opq>(new Opq); }
const Opq &static_opq() { static Opq o; return o; }
struct Cls { std::string s; };
static void boom(std::uint32_t kind) {
  if (!is_armed()) return;
  switch (kind) {
  case 1: throw std::runtime_error("thrown");
  case 2: throw 5;
  case 3: throw "text";
  case 4: static std::runtime_error e("pointer"); throw static_cast<std::exception *>(&e);
  default: throw Cls{"not an exception"};
  }
}
Thrower::~Thrower() noexcept(false) { static bool once = true; if (once && is_armed()) { once = false; throw std::runtime_error("from a destructor"); } }
std::unique_ptr<Thrower> mk_thrower() { return std::unique_ptr<Thrower>(new Thrower); }
std::shared_ptr<Thrower> sh_thrower() { return std::make_shared<Thrower>(); }
std::unique_ptr<std::vector<Thrower>> vec_thrower() { std::unique_ptr<std::vector<Thrower>> v(new std::vector<Thrower>); v->emplace_back(); v->emplace_back(); return v; }
void take_st(St s) { Local2 l; arm(1); } void take_up(std::unique_ptr<St> u) { Local2 l; arm(1); u.reset(); } void hold_sp(std::shared_ptr<St> s) { Local2 l; auto t = s; s.reset(); arm(1); t.reset(); }
std::uint32_t catch_and_call(F f) { Local2 l; try { return f(1); } catch (const std::exception &) { say("CAUGHT"); } catch (...) { say("CAUGHT"); } return 0; }
void call_thread(F f) { std::thread t([f] { Local2 l; try { f(2); } catch (...) { say("CAUGHT"); } }); t.join(); }
struct InDtor { F f; ~InDtor() { f(3); } };
void mid_unwind(F f) { try { InDtor d{f}; throw 1; } catch (int) { } }
rust::String call_str(rust::Fn<rust::String(rust::Str)> f, rust::Str s) { Local2 l; return f(s); } void call_box(rust::Fn<void(rust::Box<R>)> f) { Local2 l; auto b = mk_r(); arm(1); f(std::move(b)); } void call_vec(rust::Fn<void(rust::Vec<std::uint8_t> &)> f) { Local2 l; rust::Vec<std::uint8_t> v; v.push_back(1); f(v); }
void call_ref(rust::Fn<const R &(const R &)> f, const R &r) { Local2 l; (void)f(r); } void call_deep(Deep d) { Local2 l; arm(1); Deep e = std::move(d); }
rust::Box<R> make_then_throw(std::uint32_t k) { auto b = mk_r(); boom(k); return b; } void static_throw(std::uint32_t k) { static int i = (boom(k), 1); (void)i; } void throw_in_noexcept(std::uint32_t) { struct N { ~N() noexcept { boom(1); } } n; }
@CDEF@
static bool same(const St &a, const St &b) { return a == b; }
struct P { const char *name; void (*f)(); };
static const P PROBES[] = {
@CP@,
{"p.eq", [] { auto a = mk_st(), b = mk_st(); arm(1); (void)same(a, b); }}, {"p.ne", [] { auto a = mk_st(), b = mk_st(); arm(1); (void)(a != b); }}, {"p.lt", [] { auto a = mk_st(), b = mk_st(); arm(1); (void)(a < b); }}, {"p.le", [] { auto a = mk_st(), b = mk_st(); arm(1); (void)(a <= b); }},
{"p.gt", [] { auto a = mk_st(), b = mk_st(); arm(1); (void)(a > b); }}, {"p.ge", [] { auto a = mk_st(), b = mk_st(); arm(1); (void)(a >= b); }}, {"p.hash", [] { auto a = mk_st(); arm(1); (void)std::hash<St>()(a); }},
{"p.drop.box", [] { auto a = mk_r(); arm(1); }}, {"p.drop.box_assign", [] { auto a = mk_r(), b = mk_r(); arm(1); a = std::move(b); }}, {"p.drop.vec", [] { auto v = mk_rs(3); arm(1); }}, {"p.drop.vec_clear", [] { auto v = mk_rs(3); arm(1); v.clear(); }}, {"p.drop.vec_truncate", [] { auto v = mk_rs(3); arm(1); v.truncate(1); }},
{"p.drop.vec_assign", [] { auto v = mk_rs(3); arm(1); v = rust::Vec<R>(); }}, {"p.drop.struct", [] { auto s = mk_st(); arm(1); }}, {"p.drop.vecst", [] { auto s = mk_sts(2); arm(1); }}, {"p.drop.vecst_pop", [] { auto s = mk_sts(2); arm(1); s.truncate(0); }}, {"p.drop.up", [] { std::unique_ptr<St> s(new St(mk_st())); arm(1); }}, {"p.drop.stdvec", [] { std::vector<St> s; s.push_back(mk_st()); arm(1); }},
{"p.drop.unwinding", [] { try { auto a = mk_r(); arm(1); throw 1; } catch (int) { if (is_armed()) say("CAUGHT"); } }},
{"p.life", [] { auto a = mk_r(); arm(1); (void)life("abc", *a); }},
{"p.capacity.string", [] { rust::String s("a"); s.reserve(will_arm() ? SIZE_MAX - 3 : 3); }}, {"p.capacity.vec", [] { rust::Vec<std::uint64_t> v; v.push_back(1); v.reserve(will_arm() ? SIZE_MAX / 8 - 1 : 3); }}, {"p.capacity.vecr", [] { auto v = mk_rs(1); v.reserve(will_arm() ? SIZE_MAX / 2 : 3); }}, {"p.capacity.vecs", [] { rust::Vec<rust::String> v; v.reserve(will_arm() ? SIZE_MAX : 3); }}, {"p.capacity.vecst", [] { auto v = mk_sts(1); v.reserve(will_arm() ? SIZE_MAX / 2 : 3); }},
};
int main(int c, char **v) {
  if (c < 2) { for (auto &p : PROBES) say(p.name); r_list(); return 0; }
  set_mode((std::uint32_t)atoi(v[2]));
  say("BEGIN");
  bool found = false;
  try { Local2 l; for (auto &p : PROBES) if (!strcmp(p.name, v[1])) { found = true; p.f(); } if (!found) r_probe(v[1]); }
  catch (const std::exception &) { say("CAUGHT"); } catch (...) { say("CAUGHT"); }
  say("RETURNED");
  fflush(stdout); _Exit(0);   // objects whose destruction is the hazard are left alone
}
