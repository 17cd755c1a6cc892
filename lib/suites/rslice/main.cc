#include "unit.h"
#include "ffi0.rs.h"
using namespace st;
using std::string;
template <class T> struct E;
#define EL(T, n, str_, make_) template <> struct E<T> { static string str(const T &v) { return str_; } static void set(T &v) { make_; } static constexpr const char *name = #n; \
  static rust::Slice<const T> e(rust::Slice<const T> s) { return e_##n(s); } static rust::Slice<T> m(rust::Slice<T> s) { return em_##n(std::move(s)); } };
EL(std::uint8_t, u8, std::to_string(v), v = (std::uint8_t)rt_rand())
EL(std::uint32_t, u32, std::to_string(v), v = (std::uint32_t)rt_rand())
EL(double, f64, std::to_string(v), v = (double)below(1u << 30))
EL(rust::String, str, ts(string(v)), v = rust::String(xb::rand_text()))
EL(P, p, std::to_string(v.a) + ts(string(v.s)) + std::to_string(v.d), (v.a = (std::uint8_t)rt_rand(), v.s = rust::String(xb::rand_text()), v.d = (double)below(1000)))
EL(Tri, tri, std::to_string(v.a) + "," + std::to_string(v.b[2]), (v.a = (std::uint16_t)rt_rand(), v.b[2] = (std::uint8_t)rt_rand()))
EL(R, r, std::to_string(v.id()), v.set(rt_rand()))
EL(Pod, pod, std::to_string(v.val()), v.set_val((std::uint16_t)rt_rand()))
using M = std::vector<string>;
template <class T> const char *slot(const char *s) { static std::map<string, string> m; auto &x = m[s]; if (x.empty()) x = string("slice.") + E<std::remove_const_t<T>>::name + (std::is_const<T>::value ? "." : ".mut.") + s; return x.c_str(); }
#define S(x) slot<T>(x)
// T is const-qualified for shared slices
template <class T> void state(const M &m, const void *at, std::size_t stride, const rust::Slice<T> &s) {
  using U = std::remove_const_t<T>;
  auto str = [](const U &u) { return E<U>::str(u); };
  std::size_t n = m.size();
  eq(S("size"), n, s.size()); eq(S("length"), n, s.length()); eq(S("empty"), n == 0, s.empty());
  if (n) eq(S("data"), at, (const void *)s.data());
  M a; for (std::size_t i = 0; i < n; i++) { a.push_back(str(s[i])); if (i < 3) eq(S("addr"), (const void *)((const char *)at + i * stride), (const void *)&s[i]); } eq(S("index"), m, a);
  a.clear(); for (auto &x : s) a.push_back(str(x)); eq(S("iter"), m, a);
  a.clear(); for (auto it = s.end(); it != s.begin();) { --it; a.push_back(str(*it)); } std::reverse(a.begin(), a.end()); eq(S("riter"), m, a);
  a.clear(); for (auto it = s.end(); it > s.begin();) { it--; a.push_back(str(*it)); } std::reverse(a.begin(), a.end()); eq(S("riter2"), m, a);
  a.clear(); for (auto it = s.begin(); it < s.end(); it += 1) a.push_back(str(it[0])); eq(S("iter+="), m, a);
  a.clear(); for (auto it = s.begin(); it != s.end();) { auto o = it++; a.push_back(str(*o)); } eq(S("iter++"), m, a);
  auto b = s.begin(), e = s.end();
  eq(S("dist"), (long)n, (long)(e - b)); eq(S("distneg"), -(long)n, (long)(b - e)); eq(S("std.dist"), (long)n, (long)std::distance(b, e));
  for (int k = 0; k < 3; k++) {
    std::size_t i = below(n + 1), j = below(n + 1);
    auto x = b + (long)i; auto y = (long)j + b; auto w = e - (long)(n - i); auto z = e; z -= (long)(n - j); auto q = e; q += (long)j - (long)n; auto r = b; r -= -(long)i; auto t = e + ((long)j - (long)n);
    ok(S("cmp"), (x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j));
    ok(S("arith"), w == x && z == y && q == y && r == x && t == y && x - y == (long)i - (long)j);
    if (i < n) { eq(S("deref"), m[i], str(*x)); eq(S("arrow"), (const void *)&s[i], (const void *)x.operator->()); eq(S("at"), m[i], str(s.at(i))); eq(S("neg[]"), m[i], str(e[(long)i - (long)n]));
      auto p = x; ok(S("preinc"), &++p == &p && p - x == 1); ok(S("predec"), &--p == &p && p == x); auto q = p++; ok(S("postinc"), q == x && p - x == 1); auto r = p--; ok(S("postdec"), r - x == 1 && p == x); }
  }
  if (n) { eq(S("front"), m[0], str(s.front())); eq(S("back"), m[n - 1], str(s.back())); }
  std::size_t past = n + below(3); if (coin(4)) past = ~(std::size_t)0 - below(3); ok(S("oor"), throws_oor([&] { s.at(past); }));
}
template <class T> void both(std::vector<T> &v, std::size_t lo, std::size_t n) {
  M m; for (std::size_t i = 0; i < n; i++) m.push_back(E<T>::str(v[lo + i]));
  T *p = n || coin() ? v.data() + lo : nullptr; if (!v.size()) p = nullptr;
  rust::Slice<const T> c(p, n); state<const T>(m, p, sizeof(T), c);
  rust::Slice<T> w(p, n); state<T>(m, p, sizeof(T), w);
  { rust::Slice<const T> d(c), f; state<const T>({}, nullptr, sizeof(T), f); f = d; state<const T>(m, p, sizeof(T), f); rust::Slice<const T> g; g.swap(f); state<const T>(m, p, sizeof(T), g); state<const T>({}, nullptr, sizeof(T), f);
    f = std::move(g); state<const T>(m, p, sizeof(T), f); }
  { rust::Slice<T> d(w); rust::Slice<T> g; g.swap(d); state<T>(m, p, sizeof(T), g); d = std::move(g); state<T>(m, p, sizeof(T), d); }
  state<const T>(m, p, sizeof(T), E<T>::e(c));
  { rust::Slice<T> r = E<T>::m(rust::Slice<T>(p, n)); state<T>(m, p, sizeof(T), r);
    if (n) { std::size_t i = below(n); switch (below(4)) { case 0: E<T>::set(r[i]); break; case 1: E<T>::set(r.at(i)); break; case 2: E<T>::set(*(r.begin() + (long)i)); break; default: i = n - 1; E<T>::set(r.back()); }
      m[i] = E<T>::str(v[lo + i]); state<T>(m, p, sizeof(T), r); state<const T>(m, p, sizeof(T), rust::Slice<const T>(p, n));
      std::reverse(r.begin(), r.end()); std::reverse(m.begin(), m.end()); state<T>(m, p, sizeof(T), w);
      std::sort(r.begin(), r.end(), [](const T &a, const T &b) { return E<T>::str(a) < E<T>::str(b); }); std::sort(m.begin(), m.end()); state<T>(m, p, sizeof(T), w);
      std::size_t k = below(n); std::rotate(r.begin(), r.begin() + (long)k, r.end()); std::rotate(m.begin(), m.begin() + (long)k, m.end()); state<T>(m, p, sizeof(T), w);
      ok(S("std.find"), std::find_if(r.begin(), r.end(), [&](const T &x) { return E<T>::str(x) == m[n - 1]; }) - r.begin() == std::find(m.begin(), m.end(), m[n - 1]) - m.begin());
      ok(S("std.bs"), n == (std::size_t)std::count_if(r.begin(), r.end(), [](const T &) { return true; })); } }
}
template <class T> void cpp() {
  std::size_t n = xb::rand_len(); std::vector<T> v(n); for (auto &x : v) E<T>::set(x);
  // whole, empty at either end, and interior parts; the buffer is exactly sized
  both<T>(v, 0, n); std::size_t lo = below(n + 1), k = below(n - lo + 1); both<T>(v, lo, k); both<T>(v, lo, 0);
  M m; for (auto &x : v) m.push_back(E<T>::str(x));
  { const std::vector<T> &cv = v; rust::Slice<const T> c(cv); state<const T>(m, v.data(), sizeof(T), c); rust::Slice<T> w(v); state<T>(m, v.data(), sizeof(T), w); rust::Slice<const T> cw(w); state<const T>(m, v.data(), sizeof(T), cw);
    rust::Slice d(v); static_assert(std::is_same<decltype(d), rust::Slice<T>>::value, ""); rust::Slice f(cv); static_assert(std::is_same<decltype(f), rust::Slice<const T>>::value, ""); state<const T>(m, v.data(), sizeof(T), f); }
  { std::array<T, 5> a{}; M x; for (auto &e : a) { E<T>::set(e); x.push_back(E<T>::str(e)); } rust::Slice<T> w(a); state<T>(x, a.data(), sizeof(T), w); const auto &ca = a; rust::Slice<const T> c(ca); state<const T>(x, a.data(), sizeof(T), c); }
  { rust::Vec<T> rv; M x; for (u64 k = below(5); k--;) { T t{}; E<T>::set(t); x.push_back(E<T>::str(t)); rv.push_back(std::move(t)); } rust::Slice<T> w(rv); state<T>(x, rv.data(), sizeof(T), w); const auto &crv = rv; rust::Slice<const T> c(crv); state<const T>(x, rv.data(), sizeof(T), c); }
#if __cplusplus >= 202002L
  static_assert(std::ranges::contiguous_range<rust::Slice<T>>); static_assert(std::ranges::sized_range<rust::Slice<const T>>);
  { rust::Slice<T> w(v); eq(S("ranges.size"), n, (std::size_t)std::ranges::size(w)); if (n) eq(S("ranges.data"), (const void *)v.data(), (const void *)std::ranges::data(w)); std::ranges::reverse(w); std::reverse(m.begin(), m.end()); state<T>(m, v.data(), sizeof(T), w); }
#endif
  stat("cpp_slices");
}
// slices of types only Rust can lay out
template <class T> rust::Slice<const T> rmk(std::size_t, std::size_t, std::size_t); template <class T> rust::Slice<T> rmkm(std::size_t, std::size_t, std::size_t);
template <> rust::Slice<const R> rmk<R>(std::size_t n, std::size_t a, std::size_t b) { return rs_r(n, a, b); } template <> rust::Slice<R> rmkm<R>(std::size_t n, std::size_t a, std::size_t b) { return rs_r_mut(n, a, b); }
template <> rust::Slice<const Pod> rmk<Pod>(std::size_t n, std::size_t a, std::size_t b) { return rs_p(n, a, b); } template <> rust::Slice<Pod> rmkm<Pod>(std::size_t n, std::size_t a, std::size_t b) { return rs_p_mut(n, a, b); }
template <class T> void opaque(std::size_t stride) {
  std::size_t n = xb::rand_len(), lo = below(n + 1), hi = lo + below(n - lo + 1);
  M m; for (std::size_t i = lo; i < hi; i++) m.push_back(std::to_string(i * 3 + 1));
  { auto s = rmk<T>(n, lo, hi); const void *p = s.data(); state<const T>(m, p, stride, s); auto e = E<T>::e(s); state<const T>(m, p, stride, e); rust::Slice<const T> z; state<const T>({}, nullptr, stride, z); z = e; state<const T>(m, p, stride, z); state<const T>({}, nullptr, stride, E<T>::e(rust::Slice<const T>()));
    if (hi > lo) { std::size_t k = below(hi - lo); rust::Slice<const T> tail(&s[k], hi - lo - k); state<const T>(M(m.begin() + (long)k, m.end()), &s[k], stride, E<T>::e(tail)); } }
  { auto s = rmkm<T>(n, lo, hi); const void *p = s.data(); state<T>(m, p, stride, s);
    if (hi > lo) { std::size_t i = below(hi - lo); E<T>::set(s[i]); m[i] = E<T>::str(s[i]); E<T>::set(*(s.end() - 1)); m.back() = E<T>::str(s.back()); }
    auto e = E<T>::m(std::move(s)); state<T>(m, p, stride, e); state<T>({}, nullptr, stride, E<T>::m(rust::Slice<T>())); }
  stat("rust_slices");
}
static void test_sub() {
  std::size_t n = xb::rand_len(), lo = below(n + 1), hi = lo + below(n - lo + 1); std::vector<std::uint32_t> v(n); for (auto &x : v) x = (std::uint32_t)rt_rand();
  M m; for (std::size_t i = lo; i < hi; i++) m.push_back(std::to_string(v[i]));
  state<const std::uint32_t>(m, v.data() + lo, 4, sub_u32(rust::Slice<const std::uint32_t>(v.data(), n), lo, hi));
  if (n) { std::size_t i = below(n); std::uint32_t x = (std::uint32_t)rt_rand(); write_u32(rust::Slice<std::uint32_t>(v.data(), n), i, x); eq("sub.write", x, v[i]); }
  string s = xb::rand_bytes(); u64 t = 0; for (unsigned char c : s) t += c; eq("sub.sum", t, sum_u8(rust::Slice<const std::uint8_t>((const std::uint8_t *)s.data(), s.size())));
}
static void test_zst() {
  static bool done = false; if (done) return; done = true;
  for (std::size_t n = 0; n < 4; n++) {
    auto s = rs_z(n); eq("zst.size", n, s.size()); eq("zst.rust_len", n, len_z(s)); for (std::size_t i = 0; i < n; i++) ok("zst.elem", z_addr(s[i]) == (std::size_t)(std::uintptr_t)s.data());
    ok("zst.oor", throws_oor([&] { s.at(n); }));
    std::size_t c = 0; for (auto &z : s) { (void)z; c++; } eq("zst.slice_iteration", n, c);
  }
}
ST_MAIN({"u8", (void (*)())cpp<std::uint8_t>}, {"u32", (void (*)())cpp<std::uint32_t>}, {"f64", (void (*)())cpp<double>}, {"str", (void (*)())cpp<rust::String>}, {"p", (void (*)())cpp<P>}, {"tri", (void (*)())cpp<Tri>},
  {"r", [] { opaque<R>(24); }}, {"pod", [] { opaque<Pod>(8); }}, {"sub", test_sub}, {"zst", test_zst})
