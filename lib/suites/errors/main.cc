#include "unit.h"
#include "ffi0.rs.h"
#include "ffi1.rs.h"
#include <exception>
#include <future>
#include <system_error>
using namespace st;
static std::string expected;
const std::string &last_expected() { return expected; }
struct E1 : std::exception { std::string m; explicit E1(std::string s) : m(std::move(s)) {} const char *what() const noexcept override { return m.c_str(); } };
struct Side { std::uint64_t pad[2] = {1, 2}; virtual ~Side() {} };
struct E2 : Side, E1 { using E1::E1; };                       // the exception is a second base
struct E3 : virtual std::exception, Side { std::string m; explicit E3(std::string s) : m(std::move(s)) {} const char *what() const noexcept override { return m.c_str(); } };
struct E4 : std::runtime_error { std::string m; explicit E4(std::string s) : std::runtime_error("base text"), m(std::move(s)) {} const char *what() const noexcept override { return m.c_str(); } };
struct E5 : std::exception { char buf[64]; const char *what() const noexcept override { return buf; } };  // the text lives in the exception object
struct Unwinder { std::uint64_t r = reg_new("Frame", 5); ~Unwinder() { try { throw std::logic_error("inner"); } catch (...) {} reg_del(r); } };
static const std::uint32_t KINDS = 15;
static void go(std::uint32_t k, Bytes b) {
  Unwinder u;
  std::string m(b.size() ? (const char *)b.data() : "", b.size());
  m = m.c_str();   // the text ends at the first zero byte
  expected = m;
  switch (k) {
  case 0: throw std::runtime_error(m);
  case 1: throw std::out_of_range(m);
  case 2: throw E1(m);
  case 3: throw E2(m);
  case 4: throw E3(m);
  case 5: throw E4(m);
  case 6: { E5 e; snprintf(e.buf, sizeof e.buf, "%.60s", m.c_str()); expected = e.buf; throw e; }
  case 7: { std::system_error e(std::make_error_code(std::errc::timed_out), m); expected = e.what(); throw e; }
  case 8: { std::bad_alloc e; expected = e.what(); throw std::bad_alloc(); }
  case 9: try { throw std::runtime_error("cause"); } catch (...) { std::throw_with_nested(E1(m)); }
  case 10: { std::exception_ptr p; try { throw E1(m); } catch (...) { p = std::current_exception(); } std::rethrow_exception(p); }
  case 11: try { throw 5; } catch (int) { throw std::logic_error(m); }
  case 12: { expected = std::string(70000, 'z') + m; throw E1(expected); }
  case 13: { // an error of the other language travels on
    std::string t; rs_lossy(b.data(), b.size(), &t); t = t.c_str(); expected = t; e_string(true, rust::Str(t.data(), t.size())); return; }
  case 14: { std::future<void> f = std::async(std::launch::async, [m] { throw E1(m); }); f.get(); return; }
  default: expected = "-"; return;
  }
}
void boom_k(std::uint32_t k) { go(k, Bytes()); }
std::uint64_t boom(std::uint32_t k, Bytes m) { go(k, m); return 0xfeedfacecafebeefu; }
void boom_unit(std::uint32_t k, Bytes m) { go(k, m); }
rust::String boom_str(std::uint32_t k, Bytes m) { rust::String s("about to go wrong, with some heap text"); go(k, m); return s; }
Pair boom_pair(std::uint32_t k, Bytes m) { Pair p; p.a = 7; p.s = "heap text of the pair, long"; go(k, m); return p; }
std::unique_ptr<Opq> boom_up(std::uint32_t k, Bytes m) { auto p = mk_opq(); go(k, m); return p; }
const Opq &boom_ref(const Opq &o, std::uint32_t k, Bytes m) { go(k, m); return o; }
std::uint8_t Opq::boom_m(std::uint32_t k, Bytes m) const { go(k, m); return 200; }
Opq &Opq::boom_pin(std::uint32_t k, Bytes m) { go(k, m); return *this; }
std::size_t boom_arg(std::unique_ptr<Opq> o, rust::String s, rust::Vec<rust::String> v, Pair p, std::uint32_t k, Bytes m) { if (coin()) { auto w = std::move(v); go(k, m); v = std::move(w); } else go(k, m); return s.size() + v.size() + p.s.size() + (o ? 1 : 0); }
std::uint32_t boom_cb(rust::Fn<std::uint32_t(std::uint32_t)> f, std::uint32_t k, Bytes m) { std::uint32_t r = f(k); go(k, m); return f(r); }
std::uint64_t ping(std::uint32_t d, Bytes m) { Unwinder u; if (d == 0) { go(coin() ? 0u : 2u, m); return 0; } if (coin(3)) { try { return pong(d - 1, m); } catch (const rust::Error &e) { throw std::runtime_error(e.what()); } } return pong(d - 1, m) + 1; }
namespace cust {
std::uint32_t nhandled = 0; static std::string exp_;
const std::string &expected() { return exp_; } std::uint32_t handled() { auto n = nhandled; nhandled = 0; return n; }
static void go(std::uint32_t k, Bytes b) {
  Unwinder u; std::string m(b.size() ? (const char *)b.data() : "", b.size()), c = m.c_str();
  switch (k) {
  case 0: exp_ = "int -42"; throw -42;
  case 1: exp_ = m; throw m;                                // embedded zero bytes are kept
  case 2: exp_ = "literal text"; throw "literal text";
  case 3: exp_ = std::string(m.size() % 9, 'o'); throw Odd{(int)(m.size() % 9)};
  case 4: exp_ = "runtime: " + c; throw std::runtime_error(m);
  case 5: exp_ = c; throw E3(m);
  case 6: exp_ = "something else"; throw 2.5;
  case 7: exp_ = ""; throw std::string();
  default: exp_ = "-"; return;
  }
}
std::uint64_t cboom(std::uint32_t k, Bytes m) { go(k, m); return 77; }
rust::String cboom_s(std::uint32_t k, Bytes m) { rust::String s("text to be freed, long enough"); go(k, m); return s; }
void cboom_u(std::uint32_t k, Bytes m) { go(k, m); }
}
// ---- errors of Rust seen from C++
static std::string nz() { auto s = xb::rand_text(); for (auto &c : s) if (!c) c = '0'; return s; }
template <class F, class G> void e_call(const char *slot, F f, const std::string &want, bool fail, G check) {
  bool returned = false;
  try { auto &&r = f(); returned = true; check(r); }
  catch (const rust::Error &e) { ok(slot, fail, " failed"); eq(slot, want, e.what()); const std::exception &b = e; eq(slot, want, b.what()); ok(slot, dynamic_cast<const rust::Error *>(&b) == &e); }
  catch (const std::exception &e) { eq(slot, std::string("rust::Error"), typeid(e).name()); }
  eq(slot, !fail, returned);
}
extern "C" void t_e() {
  std::string m = nz(); rust::Str s(m.data(), m.size()); bool f = coin();
  e_call("e.string", [&] { return e_string(f, s); }, m, f, [&](std::uint32_t v) { eq("e.string.ok", m.size(), v); });
  e_call("e.boxed", [&] { return e_boxed(f, s); }, m, f, [&](const rust::String &v) { eq("e.boxed.ok", m, std::string(v)); });
  e_call("e.pieces", [&] { return e_pieces(f, s); }, "<" + m + "|" + m + ">", f, [&](const Pair &v) { eq("e.pieces.ok", m, std::string(v.s)); eq("e.pieces.a", m.size(), v.a); });
  e_call("e.io", [&] { e_io(f, s); return 0; }, m, f, [&](int) {});
  e_call("e.exc", [&] { return e_exc(f, s); }, m, f, [&](const rust::Box<R> &r) { ok("e.exc.ok", r->rid() != 0); });
  e_call("e.static", [&] { return e_static(f, s); }, "a fixed text", f, [&](double d) { eq("e.static.ok", 0.5, d); });
  e_call("e.fmt", [&] { return e_fmt(f, s); }, std::to_string(m.size()) + ": " + m, f, [&](const rust::Vec<std::uint16_t> &v) { eq("e.fmt.ok", m.size(), v.size()); });
  e_call("e.ref", [&] { return e_ref(f, s); }, m, f, [&](rust::Str v) { eq("e.ref.ok", (const void *)s.data(), (const void *)v.data()); eq("e.ref.len", s.size(), v.size()); });
  e_call("e.alt", [&] { return e_alt(f, s); }, "plain " + m, f, [&](std::uint8_t v) { eq("e.alt.ok", 3, (int)v); });
  auto r = mk_r(); auto id = r->rid();
  e_call("e.self", [&] { return r->e_self(f, s); }, m, f, [&](std::uint8_t v) { eq("e.self.ok", 9, (int)v); });
  e_call("e.mut", [&] { return r->e_mut(f, s); }, m + std::to_string(id), f, [&](std::uint64_t v) { eq("e.mut.ok", id, v); });
  rust::Vec<rust::String> v; v.push_back(rust::String(m)); e_call("e.arg", [&] { return e_arg(std::move(r), std::move(v), f, s); }, m, f, [&](std::size_t n) { eq("e.arg.ok", std::size_t(1), n); });
}
extern "C" void t_ea() {
  bool f = coin();
  e_call("e.arity.u", [&] { eau_0(f); return 0; }, "arity 0", f, [&](int) {}); e_call("e.arity.n", [&] { return ean_0(f); }, "arity 0", f, [&](std::uint64_t v) { eq("e.arity.n.ok", std::uint64_t(0), v); }); e_call("e.arity.s", [&] { return eas_0(f); }, "arity 0", f, [&](const rust::String &v) { eq("e.arity.s.ok", "arity 0", std::string(v)); });
  e_call("e.arity.u", [&] { eau_1(f, std::uint32_t(1)); return 0; }, "arity 1", f, [&](int) {}); e_call("e.arity.n", [&] { return ean_1(f, std::uint32_t(1)); }, "arity 1", f, [&](std::uint64_t v) { eq("e.arity.n.ok", std::uint64_t(1), v); }); e_call("e.arity.s", [&] { return eas_1(f, std::uint32_t(1)); }, "arity 1", f, [&](const rust::String &v) { eq("e.arity.s.ok", "arity 1", std::string(v)); });
  e_call("e.arity.u", [&] { eau_2(f, std::uint32_t(1), std::uint64_t(2)); return 0; }, "arity 2", f, [&](int) {}); e_call("e.arity.n", [&] { return ean_2(f, std::uint32_t(1), std::uint64_t(2)); }, "arity 2", f, [&](std::uint64_t v) { eq("e.arity.n.ok", std::uint64_t(2), v); }); e_call("e.arity.s", [&] { return eas_2(f, std::uint32_t(1), std::uint64_t(2)); }, "arity 2", f, [&](const rust::String &v) { eq("e.arity.s.ok", "arity 2", std::string(v)); });
  e_call("e.arity.u", [&] { eau_3(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3)); return 0; }, "arity 3", f, [&](int) {}); e_call("e.arity.n", [&] { return ean_3(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3)); }, "arity 3", f, [&](std::uint64_t v) { eq("e.arity.n.ok", std::uint64_t(3), v); }); e_call("e.arity.s", [&] { return eas_3(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3)); }, "arity 3", f, [&](const rust::String &v) { eq("e.arity.s.ok", "arity 3", std::string(v)); });
  e_call("e.arity.u", [&] { eau_4(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4)); return 0; }, "arity 4", f, [&](int) {}); e_call("e.arity.n", [&] { return ean_4(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4)); }, "arity 4", f, [&](std::uint64_t v) { eq("e.arity.n.ok", std::uint64_t(4), v); }); e_call("e.arity.s", [&] { return eas_4(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4)); }, "arity 4", f, [&](const rust::String &v) { eq("e.arity.s.ok", "arity 4", std::string(v)); });
  e_call("e.arity.u", [&] { eau_5(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4), rust::Str()); return 0; }, "arity 5", f, [&](int) {}); e_call("e.arity.n", [&] { return ean_5(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4), rust::Str()); }, "arity 5", f, [&](std::uint64_t v) { eq("e.arity.n.ok", std::uint64_t(5), v); }); e_call("e.arity.s", [&] { return eas_5(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4), rust::Str()); }, "arity 5", f, [&](const rust::String &v) { eq("e.arity.s.ok", "arity 5", std::string(v)); });
  e_call("e.arity.u", [&] { eau_6(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4), rust::Str(), true); return 0; }, "arity 6", f, [&](int) {}); e_call("e.arity.n", [&] { return ean_6(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4), rust::Str(), true); }, "arity 6", f, [&](std::uint64_t v) { eq("e.arity.n.ok", std::uint64_t(6), v); }); e_call("e.arity.s", [&] { return eas_6(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4), rust::Str(), true); }, "arity 6", f, [&](const rust::String &v) { eq("e.arity.s.ok", "arity 6", std::string(v)); });
  e_call("e.arity.u", [&] { eau_7(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4), rust::Str(), true, 6.0); return 0; }, "arity 7", f, [&](int) {}); e_call("e.arity.n", [&] { return ean_7(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4), rust::Str(), true, 6.0); }, "arity 7", f, [&](std::uint64_t v) { eq("e.arity.n.ok", std::uint64_t(7), v); }); e_call("e.arity.s", [&] { return eas_7(f, std::uint32_t(1), std::uint64_t(2), std::uint8_t(3), std::int16_t(4), rust::Str(), true, 6.0); }, "arity 7", f, [&](const rust::String &v) { eq("e.arity.s.ok", "arity 7", std::string(v)); });
}
// ---- the error object against a model
static rust::Error mk_err(const std::string &m) { try { e_string(true, rust::Str(m.data(), m.size())); } catch (const rust::Error &e) { return e; } abort(); }
struct EH { std::unique_ptr<rust::Error> e; std::string m; bool moved = false; };
static void chk(std::vector<EH> &v) {
  std::set<const void *> seen;
  for (auto &h : v) if (h.e && !h.moved) { eq("eo.what", h.m, h.e->what()); if (!h.m.empty()) ok("eo.distinct", seen.insert(h.e->what()).second); }
}
extern "C" void t_eo() {
  std::vector<EH> v(4);
  for (int k = 0; k < 24; k++) {
    auto &a = v[below(v.size())], &b = v[below(v.size())];
    switch (below(13)) {
    case 0: case 1: a.m = nz(); a.e.reset(new rust::Error(mk_err(a.m))); a.moved = false; break;
    case 2: if (b.e) { std::unique_ptr<rust::Error> n(new rust::Error(*b.e)); a.m = b.m; a.moved = b.moved; a.e = std::move(n); } break;
    case 3: if (b.e && &a != &b) { a.e.reset(new rust::Error(std::move(*b.e))); a.m = b.m; a.moved = b.moved; b.moved = true; } break;
    case 4: if (a.e && b.e) { auto &r = (*a.e = *b.e); ok("eo.assign.ref", &r == a.e.get()); a.m = b.m; a.moved = b.moved; } break;
    case 5: if (a.e && b.e && &a != &b) { auto &r = (*a.e = std::move(*b.e)); ok("eo.move.ref", &r == a.e.get()); a.m = b.m; a.moved = b.moved; b.moved = true; } break;
    case 6: if (a.e && b.e && &a != &b) { std::swap(*a.e, *b.e); std::swap(a.m, b.m); std::swap(a.moved, b.moved); } break;
    case 7: a.e.reset(); break;
    case 8: if (a.e && !a.moved) { try { throw *a.e; } catch (rust::Error e) { eq("eo.thrown", a.m, e.what()); b.e.reset(new rust::Error(std::move(e))); b.m = a.m; b.moved = false; } } break;
    case 9: if (a.e && !a.moved) { std::exception_ptr p = std::make_exception_ptr(*a.e), q = p; p = nullptr; std::string m = a.m; if (coin()) a.e.reset(); try { std::rethrow_exception(q); } catch (const std::exception &e) { eq("eo.ptr", m, e.what()); } } break;
    case 10: if (a.e && !a.moved) { try { try { throw rust::Error(*a.e); } catch (rust::Error &e) { eq("eo.rethrow", a.m, e.what()); throw; } } catch (const rust::Error &e) { eq("eo.rethrow2", a.m, e.what()); } } break;
    case 11: { std::vector<rust::Error> w; std::vector<std::string> mw; for (std::size_t n = xb::rand_len() % 9; n--;) { auto m = nz(); w.push_back(mk_err(m)); mw.push_back(m); if (coin(3)) { w.insert(w.begin(), w.back()); mw.insert(mw.begin(), mw.back()); } if (coin(4)) { w.erase(w.begin()); mw.erase(mw.begin()); } }
      auto w2 = w; w.clear(); for (std::size_t i = 0; i < w2.size(); i++) eq("eo.vector", mw[i], w2[i].what()); } break;
    default: if (a.e) { rust::Error &x = *a.e; *a.e = x; } break;   // self-assignment
    }
    chk(v);
  }
}
extern "C" { void t_x(); void t_xa(); void t_chain(); void t_cust(); }
ST_MAIN({"x", t_x}, {"xa", t_xa}, {"ea", t_ea}, {"chain", t_chain}, {"cust", t_cust}, {"e", t_e}, {"eo", t_eo})
