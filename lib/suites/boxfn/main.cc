#include "unit.h"
#include "ffi0.rs.h"
#include <thread>
#include <map>
using namespace st;
int Reloc::fuse = -1;
extern "C" { void reloc_drop(Reloc *r) { r->~Reloc(); } }
static_assert(!std::is_copy_constructible<rust::Box<SP>>::value && !std::is_copy_assignable<rust::Box<SP>>::value && !std::is_default_constructible<rust::Box<SP>>::value, "a box owns its value");
static_assert(std::is_nothrow_move_constructible<rust::Box<SP>>::value && std::is_nothrow_move_assignable<rust::Box<R>>::value && std::is_nothrow_destructible<rust::Box<R>>::value, "moving a box cannot fail");
static_assert(sizeof(rust::Box<R>) == sizeof(void *), "a box is a pointer");
static std::string txt() { auto s = xb::rand_text(); return s; }
// per type: content text, how to make, and what Rust sees
template <class T> struct Tr;
template <> struct Tr<R> { static constexpr const char *N = "r"; static std::string str(const R &r) { return std::to_string(r.rv()); } static rust::Box<R> make(std::string &w, int) { std::uint64_t v = rt_rand(); w = std::to_string(v); return mk_r(v); }
  static void edit(R &r, std::string &w) { std::uint64_t v = rt_rand(); r.rs(v); w = std::to_string(v); } static rust::Box<R> echo(rust::Box<R> b) { return echo_r(std::move(b)); } static std::size_t badr(const rust::Box<R> &b) { return badr_r(b); } static std::string take(rust::Box<R> b) { return std::to_string(take_r(std::move(b))); } static void replace(rust::Box<R> &b, std::string &w) { std::uint64_t v = rt_rand(); replace_r(b, v); w = std::to_string(v); } };
template <> struct Tr<SP> { static constexpr const char *N = "sp"; static std::string str(const SP &r) { auto s = std::to_string(r.a) + "/" + std::string(r.s); eq("sp.rust_view", s, std::string(sp_str(r))); return s; }
  static rust::Box<SP> make(std::string &w, int how) { SP p; p.a = (std::uint32_t)rt_rand(); p.s = rust::String(txt()); w = str(p);
    switch (how) { case 0: return mk_sp(p.a, p.s); case 1: { rust::Box<SP> b(p); eq("sp.copied_from", w, str(p)); return b; } case 2: return rust::Box<SP>(std::move(p)); case 3: return rust::Box<SP>::in_place(p.a, p.s); default: { auto a = p.a; return rust::Box<SP>::in_place(a, std::move(p.s)); } } }
  static void edit(SP &r, std::string &w) { r.a ^= 5; r.s = rust::String(txt()); w = str(r); } static rust::Box<SP> echo(rust::Box<SP> b) { return echo_sp(std::move(b)); } static std::size_t badr(const rust::Box<SP> &b) { return badr_sp(b); } static std::string take(rust::Box<SP> b) { return str(take_sp(std::move(b))); } static void replace(rust::Box<SP> &b, std::string &w) { replace_sp(b, 7, "replaced by other text"); w = "7/replaced by other text"; } };
template <> struct Tr<Pod> { static constexpr const char *N = "pod"; static std::string str(const Pod &r) { return std::to_string(r.a) + "/" + std::to_string(r.b); }
  static rust::Box<Pod> make(std::string &w, int how) { Pod p; p.a = (std::uint8_t)rt_rand(); p.b = rt_rand(); w = str(p); switch (how) { case 0: return mk_pod(p.a, p.b); case 1: return rust::Box<Pod>(p); case 2: return rust::Box<Pod>(Pod(p)); default: return rust::Box<Pod>::in_place(p.a, p.b); } }
  static void edit(Pod &r, std::string &w) { r.b += 3; w = str(r); } static rust::Box<Pod> echo(rust::Box<Pod> b) { return echo_pod(std::move(b)); } static std::size_t badr(const rust::Box<Pod> &b) { return badr_pod(b); } static std::string take(rust::Box<Pod> b) { return str(take_pod(std::move(b))); } static void replace(rust::Box<Pod> &b, std::string &w) { *b = Pod{1, 2}; w = "1/2"; } };
template <> struct Tr<Reloc> { static constexpr const char *N = "rl"; static std::string str(const Reloc &r) { return r.heap ? std::to_string(*r.heap) : "-"; }
  static rust::Box<Reloc> make(std::string &w, int how) { Reloc p((std::uint32_t)rt_rand()); w = str(p); switch (how) { case 0: case 1: { rust::Box<Reloc> b(p); eq("rl.copied_from", w, str(p)); return b; } case 2: return rust::Box<Reloc>(std::move(p)); default: return rust::Box<Reloc>::in_place(*p.heap); } }
  static void edit(Reloc &r, std::string &w) { *r.heap += 3; w = str(r); } static rust::Box<Reloc> echo(rust::Box<Reloc> b) { return echo_rl(std::move(b)); } static std::size_t badr(const rust::Box<Reloc> &b) { return badr_rl(b); } static std::string take(rust::Box<Reloc> b) { auto s = str(*b); take_rl(std::move(b)); return s; } static void replace(rust::Box<Reloc> &b, std::string &w) { b = rust::Box<Reloc>::in_place(9u); w = "9"; } };
template <class T> void seq() {
  using B = rust::Box<T>;
  struct H { std::unique_ptr<B> b; std::string w; const void *p = nullptr; bool moved = false; };   // moved-from boxes are only assigned to or destroyed
  auto sl = [](const char *x) { return std::string(Tr<T>::N) + "." + x; };
  std::vector<H> v(4);
  auto alive = [](const H &h) { return h.b && !h.moved; };
  auto check = [&] { std::set<const void *> seen; for (auto &h : v) if (alive(h)) {
      const B &c = *h.b; eq(sl("address").c_str(), h.p, (const void *)&**h.b); eq(sl("arrow").c_str(), h.p, (const void *)h.b->operator->()); eq(sl("const").c_str(), h.p, (const void *)&*c); eq(sl("const_arrow").c_str(), h.p, (const void *)c.operator->());
      eq(sl("rust_address").c_str(), (std::size_t)(std::uintptr_t)h.p, Tr<T>::badr(c)); eq(sl("value").c_str(), h.w, Tr<T>::str(*c)); ok(sl("distinct").c_str(), seen.insert(h.p).second); } };
  for (int k = 0; k < 24; k++) {
    auto &a = v[below(v.size())], &b = v[below(v.size())];
    switch (below(15)) {
    case 0: case 1: case 2: { std::string w; B n = Tr<T>::make(w, (int)below(5)); const void *p = &*n; a.b.reset(new B(std::move(n))); a.w = w; a.p = p; a.moved = false; } break;
    case 3: if (alive(b) && &a != &b) { a.b.reset(new B(std::move(*b.b))); a.w = b.w; a.p = b.p; a.moved = false; b.moved = true; } break;
    case 4: if (a.b && alive(b) && &a != &b) { B &r = (*a.b = std::move(*b.b)); ok(sl("assign").c_str(), &r == a.b.get()); a.w = b.w; a.p = b.p; a.moved = false; b.moved = true; } break;
    case 13: if (alive(a) && b.b && b.moved) { *a.b = std::move(*b.b); a.moved = true; if (coin()) { std::string w; *a.b = Tr<T>::make(w, (int)below(5)); a.w = w; a.p = &**a.b; a.moved = false; } } break;   // the value goes away with nothing in its place
    case 5: if (alive(a) && alive(b)) { if (coin()) a.b->swap(*b.b); else { using std::swap; swap(*a.b, *b.b); } std::swap(a.w, b.w); std::swap(a.p, b.p); } break;
    case 6: if (alive(a)) { T *raw = a.b->into_raw(); eq(sl("into_raw").c_str(), a.p, (const void *)raw); eq(sl("raw_value").c_str(), a.w, Tr<T>::str(*raw)); if (coin()) *a.b = B::from_raw(raw); else a.b.reset(new B(B::from_raw(raw))); } break;
    case 7: if (alive(a)) { *a.b = Tr<T>::echo(std::move(*a.b)); } break;
    case 8: if (alive(a)) { eq(sl("taken").c_str(), a.w, Tr<T>::take(std::move(*a.b))); a.moved = true; if (coin()) a.b.reset(); } break;
    case 9: if (alive(a)) { Tr<T>::edit(coin() ? **a.b : *a.b->operator->(), a.w); } break;
    case 10: a.b.reset(); break;
    case 11: if (alive(a)) { Tr<T>::replace(*a.b, a.w); a.p = &**a.b; } break;
    case 12: { std::vector<B> w; std::vector<std::pair<const void *, std::string>> m; for (std::size_t n = below(6); n--;) { std::string s; w.push_back(Tr<T>::make(s, (int)below(5))); m.emplace_back(&*w.back(), s); } if (alive(a)) { w.insert(w.begin(), std::move(*a.b)); m.emplace(m.begin(), a.p, a.w); a.moved = true; } if (!w.empty() && coin()) { w.erase(w.begin()); m.erase(m.begin()); }
      std::reverse(w.begin(), w.end()); std::reverse(m.begin(), m.end()); for (std::size_t i = 0; i < w.size(); i++) { eq(sl("vector").c_str(), m[i].first, (const void *)&*w[i]); eq(sl("vector_value").c_str(), m[i].second, Tr<T>::str(*w[i])); } } break;
    default: if (alive(a)) { struct X {}; try { B t(std::move(*a.b)); a.moved = true; throw X(); } catch (X) {} } break;
    }
    check();
  }
}
static void t_throw() {
  // construction that fails part-way leaves nothing behind
  Reloc r((std::uint32_t)below(100)); bool thrown = false; std::uint32_t want = *r.heap;
  switch (below(3)) {
  case 0: Reloc::fuse = 0; try { rust::Box<Reloc> b(r); } catch (Reloc::Boom) { thrown = true; } break;
  case 1: Reloc::fuse = 0; try { rust::Box<Reloc> b(std::move(r)); } catch (Reloc::Boom) { thrown = true; } break;
  default: try { auto b = rust::Box<Reloc>::in_place(3u, true); } catch (Reloc::Boom) { thrown = true; } break;
  }
  Reloc::fuse = -1; ok("throw.passes", thrown); eq("throw.source", want, *r.heap);
  rust::Box<Reloc> b = rust::Box<Reloc>::in_place(want); try { b = rust::Box<Reloc>::in_place(3u, true); ok("throw.assign", false); } catch (Reloc::Boom) {} eq("throw.kept", want, *b->heap);
}
static void t_other() {
  auto z = zlive(); { auto a = mk_z(); auto b = mk_z(); eq("z.live", z + 2, zlive()); a = std::move(b); eq("z.assign", z + 1, zlive()); Z *raw = a.into_raw(); a = rust::Box<Z>::from_raw(raw); take_z(std::move(a)); eq("z.take", z, zlive()); { auto c = mk_z(); auto d = std::move(c); eq("z.move", z + 1, zlive()); } } eq("z.end", z, zlive());
  auto v = (std::uint8_t)rt_rand(); auto a = mk_al(v); eq("al.value", (int)v, (int)a->alv()); eq("al.align", std::size_t(0), a->aladr() % 128); auto b = std::move(a); eq("al.value2", (int)v, (int)b->alv()); eq("al.take", (int)v, (int)take_al(std::move(b)));
  std::size_t n = below(5); auto h = boxes(n); std::uint64_t s = 0; for (auto &x : h) { s += x.r->rv() + x.s->a; } if (n && coin()) { auto t = std::move(h[0].s); h[0].s = std::move(t); std::swap(h[0], h[n - 1]); } eq("holder.sum", s, hold_sum(std::move(h)));
}
// ---- function values
static std::map<std::size_t, std::unique_ptr<U>> us;
void keep_u(std::size_t i, U f) { auto it = us.find(i); if (it != us.end() && coin()) *it->second = f; else us[i].reset(new U(f)); }
void copy_u(std::size_t i, std::size_t j) { U f = *us.at(j); us[i].reset(new U(std::move(f))); }
std::uint32_t use_u(std::size_t i, std::uint32_t x, std::uint32_t how) {
  U f = *us.at(i);
  switch (how) {
  case 0: return f(x);
  case 1: return (*f)(x);
  case 2: return (**f)(x);
  case 3: { std::function<std::uint32_t(std::uint32_t)> g = f; return g(x); }
  case 4: { std::uint32_t r = 0; std::thread t([&] { r = f(x); }); t.join(); return r; }
  case 5: { std::vector<U> v(3, f); f = v[1]; v.clear(); return f(x); }
  case 6: { std::uint32_t r = 0; for (int k = 0; k < 20; k++) r = f(x); return r; }
  default: { std::vector<std::uint32_t> in(5, x), out(5); std::transform(in.begin(), in.end(), out.begin(), f); return out[below(5)]; }
  }
}
static std::unique_ptr<rust::Fn<void()>> un; void keep_unit(rust::Fn<void()> f) { un.reset(new rust::Fn<void()>(f)); } void use_unit(std::uint32_t n) { while (n--) (*un)(); }
static std::unique_ptr<rust::Fn<rust::String(rust::Str, rust::String)>> fs; void keep_str(rust::Fn<rust::String(rust::Str, rust::String)> f) { fs.reset(new rust::Fn<rust::String(rust::Str, rust::String)>(f)); } rust::String use_str(rust::Str a, rust::Str b) { return (*fs)(a, rust::String(b.data(), b.size())); }
static std::unique_ptr<Many> fm; void keep_many(Many f) { fm.reset(new Many(f)); } double use_many(std::uint8_t a, std::int16_t b, std::uint32_t c, std::int64_t d, float e, double f, bool g, std::size_t h, rust::Str i, rust::String j) { return (*fm)(a, b, c, d, e, f, g, h, i, std::move(j)); }
rust::Box<R> call_box(rust::Fn<rust::Box<R>(rust::Box<R>)> f, rust::Box<R> b) { return f(std::move(b)); } SP call_sp(rust::Fn<SP(SP, const SP &)> f, SP a, const SP &b) { return f(std::move(a), b); }
rust::Vec<std::uint16_t> call_vec(rust::Fn<rust::Vec<std::uint16_t>(rust::Vec<std::uint16_t>, rust::Vec<std::uint16_t> &)> f, rust::Vec<std::uint16_t> v, rust::Vec<std::uint16_t> &w) { return f(std::move(v), w); }
std::uint32_t call_two(U f, U g, std::uint32_t x) { auto t = f; f = g; g = t; return f(g(x)) ^ g(f(x)); }
extern "C" { void t_fn(); void t_fn2(); }
ST_MAIN({"r", seq<R>}, {"sp", seq<SP>}, {"pod", seq<Pod>}, {"rl", seq<Reloc>}, {"throw", t_throw}, {"other", t_other}, {"fn", t_fn}, {"fn2", t_fn2})
