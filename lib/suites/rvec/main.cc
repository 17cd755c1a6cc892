#include "unit.h"
#include "ffi0.rs.h"
using namespace st;
int Reloc::fuse = -1;
template <class T> struct El;
extern "C" {
void reloc_drop(Reloc *r) { r->~Reloc(); }
void reloc_new(Reloc *r, std::uint32_t v) { new (r) Reloc(v); }
void mkstr(void *o, const char *p, std::size_t n) { new (o) std::unique_ptr<std::string>(new std::string(p, n)); }
#define DV(t, n) void dv_##n(const rust::Vec<t> *, void *);
DV(std::uint8_t, u8) DV(std::int64_t, i64) DV(std::uint16_t, u16) DV(bool, bool) DV(double, f64) DV(std::size_t, us) DV(rust::String, str) DV(SP, sp) DV(SU, su) DV(En, en) DV(Reloc, rl) DV(R, r) DV(Pod, pod)
}
using std::string;
static string lp(const char *p, std::size_t n) { return std::to_string(n) + ":" + string(p, n); }
template <class T> struct Prim { static T make() { return xb::Val<T>::make(); } static string str(const T &v) { return std::to_string(v); } };
#define FN(T, n) static string rust(const rust::Vec<T> &v) { string d; dv_##n(&v, &d); return d; } static rust::Vec<T> echo(rust::Vec<T> v) { return echo_##n(std::move(v)); } static void grow(rust::Vec<T> &v, std::size_t k) { grow_##n(v, k); } static constexpr const char *name = #n;
template <> struct El<std::uint8_t> : Prim<std::uint8_t> { FN(std::uint8_t, u8) };
template <> struct El<std::int64_t> : Prim<std::int64_t> { FN(std::int64_t, i64) };
template <> struct El<std::uint16_t> : Prim<std::uint16_t> { FN(std::uint16_t, u16) };
template <> struct El<std::size_t> : Prim<std::size_t> { FN(std::size_t, us) };
template <> struct El<bool> { FN(bool, bool) static bool make() { return coin(); } static string str(const bool &b) { return b ? "true" : "false"; } };
template <> struct El<double> { FN(double, f64) static double make() { return xb::Val<double>::make(); } static string str(const double &v) { u64 b; memcpy(&b, &v, 8); return std::to_string(b); } };
template <> struct El<rust::String> { FN(rust::String, str) static rust::String make() { return rust::String(xb::rand_text()); } static string str(const rust::String &s) { return lp(s.data(), s.size()); } };
template <> struct El<SP> { FN(SP, sp)
  static SP make() { SP s; s.a = (std::uint32_t)rt_rand(); s.s = rust::String(xb::rand_text()); for (u64 k = below(4); k--;) s.v.push_back((std::uint8_t)rt_rand()); s.b = (std::int8_t)rt_rand(); return s; }
  static string str(const SP &s) { string r = std::to_string(s.a) + lp(s.s.data(), s.s.size()) + "[" + std::to_string(s.v.size()); for (auto x : s.v) r += "|" + std::to_string(x); return r + "]" + std::to_string((long)s.b); } };
template <> struct El<SU> { FN(SU, su)
  static SU make() { return SU{coin(4) ? nullptr : std::unique_ptr<string>(new string(xb::rand_bytes())), (std::uint8_t)rt_rand()}; }
  static string str(const SU &s) { return (s.u ? lp(s.u->data(), s.u->size()) : string("0")) + std::to_string(s.n); } };
template <> struct El<En> { FN(En, en) static En make() { return coin() ? En::B : coin() ? En::A : En::C; } static string str(const En &e) { return std::to_string((int)e); } };
template <> struct El<Reloc> { FN(Reloc, rl) static Reloc make() { return Reloc((std::uint32_t)rt_rand()); } static string str(const Reloc &r) { return r.heap ? std::to_string(*r.heap) : "-"; } };

using M = std::vector<string>;
static string whole(const M &m) { string d = "[" + std::to_string(m.size()); for (auto &x : m) d += "|" + x; return d + "]"; }
template <class T> M rd(const rust::Vec<T> &v) { M m; for (std::size_t i = 0; i < v.size(); i++) m.push_back(El<T>::str(v[i])); return m; }
template <class T> const char *slot(const char *s) { static std::map<string, string> m; auto &x = m[s]; if (x.empty()) x = string("vec.") + El<T>::name + "." + s; return x.c_str(); }
#define S(x) slot<T>(x)

template <class T> void state(const M &m, rust::Vec<T> &v) {
  const rust::Vec<T> &c = v;
  eq(S("rust"), whole(m), El<T>::rust(v));
  eq(S("size"), m.size(), c.size()); eq(S("empty"), m.empty(), c.empty());
  ok(S("cap"), c.capacity() >= c.size());
  eq(S("index"), m, rd(v));
  M a; for (const T &x : c) a.push_back(El<T>::str(x)); eq(S("citer"), m, a);
  a.clear(); for (T &x : v) a.push_back(El<T>::str(x)); eq(S("iter"), m, a);
  a.clear(); for (auto it = c.cbegin(); it != c.cend(); it++) a.push_back(El<T>::str(*it)); eq(S("cbegin"), m, a);
  eq(S("dist"), (long)m.size(), (long)(c.end() - c.begin()));
  if (m.size()) {
    eq(S("front"), m.front(), El<T>::str(c.front())); eq(S("back"), m.back(), El<T>::str(c.back()));
    eq(S("mfront"), m.front(), El<T>::str(v.front())); eq(S("mback"), m.back(), El<T>::str(v.back()));
    std::size_t i = below(m.size());
    eq(S("at"), m[i], El<T>::str(c.at(i))); eq(S("mat"), m[i], El<T>::str(v.at(i)));
    eq(S("iter.at"), m[i], El<T>::str(c.begin()[(long)i])); eq(S("iter.plus"), m[i], El<T>::str(*(c.begin() + (long)i))); eq(S("iter.minus"), m[i], El<T>::str(*(c.end() - (long)(m.size() - i))));
    eq(S("data"), (const void *)c.data(), (const void *)&c[0]); eq(S("data+i"), (const void *)(c.data() + i), (const void *)&v[i]);
    eq(S("mdata"), (const void *)c.data(), (const void *)v.data());
    ok(S("aligned"), (std::uintptr_t)c.data() % alignof(T) == 0);
  }
  std::size_t past = m.size() + (coin() ? 0 : below(5)); if (coin(4)) past = ~(std::size_t)0 - below(3);
  ok(S("at.oor"), throws_oor([&] { c.at(past); })); ok(S("mat.oor"), throws_oor([&] { v.at(past); }));
}
template <class T, bool Copy> struct Ops { static void copy(std::vector<rust::Vec<T>> &, std::vector<M> &, std::size_t, std::size_t) {} static void sort(rust::Vec<T> &, M &) {} };
template <class T> struct Ops<T, true> {
  static void copy(std::vector<rust::Vec<T>> &v, std::vector<M> &m, std::size_t i, std::size_t j) {
    switch (below(8)) {
    case 0: v[i] = v[j]; m[i] = m[j]; break;                  // copy assignment, self assignment included
    case 1: { rust::Vec<T> c(v[i]); state<T>(m[i], c); if (m[i].size()) { c[0] = El<T>::make(); c.truncate(1); } break; }
    case 2: { T x = El<T>::make(); v[i].push_back(x); m[i].push_back(El<T>::str(x)); break; }
    case 3: if (m[i].size()) { std::size_t k = below(m[i].size()); v[i].push_back(v[i][k]); string s = m[i][k]; m[i].push_back(s); stat("push_back_own_element"); } break;
    case 4: if (m[i].size()) { v[i].emplace_back(v[i].front()); string s = m[i][0]; m[i].push_back(s); } break;
    case 5: { T a = El<T>::make(), b = El<T>::make(), c = El<T>::make(); v[i] = rust::Vec<T>{a, b, c}; m[i] = {El<T>::str(a), El<T>::str(b), El<T>::str(c)}; break; }
    case 6: v[i] = rust::Vec<T>({}); m[i].clear(); break;
    case 7: { std::vector<T> sv(v[i].begin(), v[i].end()); M a; for (auto it = sv.begin(); it != sv.end(); ++it) { T x = *it; a.push_back(El<T>::str(x)); } eq(S("to_std"), m[i], a);
              std::copy(sv.begin(), sv.end(), std::back_inserter(v[i])); M t = m[i]; m[i].insert(m[i].end(), t.begin(), t.end()); break; }
    }
  }
};
template <class T, bool Copy = true> void seq() {
  const int K = 3;
  std::vector<rust::Vec<T>> v(K); std::vector<M> m(K);
  for (int step = 0; step < 20; step++) {
    std::size_t i = below(K), j = below(K);
    switch (below(Copy ? 24 : 16)) {
    case 0: case 1: { T x = El<T>::make(); m[i].push_back(El<T>::str(x)); v[i].push_back(std::move(x)); break; }
    case 2: { T x = El<T>::make(); m[i].push_back(El<T>::str(x)); v[i].emplace_back(std::move(x)); break; }
    case 3: for (u64 k = xb::rand_len(); k--;) { T x = El<T>::make(); m[i].push_back(El<T>::str(x)); v[i].push_back(std::move(x)); } break;
    case 4: { std::size_t n = below(m[i].size() + 3); if (coin(6)) n = ~(std::size_t)0 - below(2); v[i].truncate(n); if (n < m[i].size()) m[i].resize(n); break; }
    case 5: { std::size_t c = v[i].capacity(); v[i].clear(); m[i].clear(); ok(S("clear.keeps_capacity"), v[i].capacity() == c); break; }
    case 6: { std::size_t n = below(70); v[i].reserve(n); ok(S("reserve"), v[i].capacity() >= n); const void *p = v[i].data(); std::size_t room = v[i].capacity() - v[i].size();
              if (room) { T x = El<T>::make(); m[i].push_back(El<T>::str(x)); v[i].push_back(std::move(x)); eq(S("reserve.stable"), p, (const void *)v[i].data()); } break; }
    case 7: if (i != j) { v[i] = std::move(v[j]); m[i] = m[j]; m[j].clear(); } break;
    case 8: { rust::Vec<T> c(std::move(v[i])); state<T>(m[i], c); m[i].clear(); state<T>(m[i], v[i]); break; }
    case 9: v[i].swap(v[j]); std::swap(m[i], m[j]); break;
    case 10: { using std::swap; swap(v[i], v[j]); std::swap(m[i], m[j]); break; }
    case 11: v[i] = El<T>::echo(std::move(v[i])); break;
    case 12: { rust::Vec<T> t = El<T>::echo(std::move(v[i])); state<T>({}, v[i]); M x = m[i]; m[i].clear(); v[j] = std::move(t); m[j] = x; break; }
    case 13: { std::size_t n = m[i].size(), k = xb::rand_len(); El<T>::grow(v[i], k); M a = rd(v[i]); eq(S("grow"), n + k, a.size()); a.resize(n); eq(S("grow.prefix"), m[i], a); m[i] = rd(v[i]); break; }
    case 14: if (m[i].size()) { std::size_t k = below(m[i].size()); T x = El<T>::make(); m[i][k] = El<T>::str(x); if (coin()) v[i][k] = std::move(x); else if (coin()) v[i].at(k) = std::move(x); else *(v[i].begin() + (long)k) = std::move(x); } break;
    case 15: if (m[i].size() > 1) { // random-access algorithms over the iterators
      if (coin()) { std::reverse(v[i].begin(), v[i].end()); std::reverse(m[i].begin(), m[i].end()); }
      else { std::size_t k = below(m[i].size()); std::rotate(v[i].begin(), v[i].begin() + (long)k, v[i].end()); std::rotate(m[i].begin(), m[i].begin() + (long)k, m[i].end()); }
      if (coin()) { std::sort(v[i].begin(), v[i].end(), [](const T &a, const T &b) { return El<T>::str(a) < El<T>::str(b); }); std::sort(m[i].begin(), m[i].end()); } } break;
    default: Ops<T, Copy>::copy(v, m, i, j);
    }
    if (m[i].size() > 300) { v[i] = rust::Vec<T>(); m[i].clear(); }
    state<T>(m[i], v[i]); state<T>(m[j], v[j]);
  }
  stat("sequences");
}
#undef S
// copies that throw part-way: nothing is lost, leaked or destroyed twice
static void test_throw() {
  using T = Reloc;
  std::vector<rust::Vec<Reloc>> v(2); std::vector<M> m(2);
  for (int i = 0; i < 2; i++) for (u64 k = below(6); k--;) { Reloc x((std::uint32_t)rt_rand()); m[i].push_back(El<T>::str(x)); v[i].push_back(std::move(x)); }
  for (int step = 0; step < 8; step++) {
    std::size_t i = below(2), j = 1 - i; int f = (int)below(6); bool thrown = false; std::size_t n0 = m[i].size();
    Reloc spare((std::uint32_t)rt_rand());
    Reloc::fuse = f;
    switch (below(5)) {
    case 0: try { rust::Vec<Reloc> c(v[i]); Reloc::fuse = -1; state<T>(m[i], c); } catch (Reloc::Boom) { thrown = true; } Reloc::fuse = -1; eq("throw.copy_ctor", f < (int)n0, thrown); break;
    case 1: try { v[i].push_back(spare); m[i].push_back(El<T>::str(spare)); } catch (Reloc::Boom) { thrown = true; } Reloc::fuse = -1; eq("throw.push_back", f == 0, thrown); break;
    case 2: try { v[i] = v[j]; m[i] = m[j]; } catch (Reloc::Boom) { thrown = true; Reloc::fuse = -1; m[i] = rd(v[i]); /* unspecified but valid */ }
            Reloc::fuse = -1; eq("throw.copy_assign", f < (int)m[j].size(), thrown); break;
    case 3: try { rust::Vec<Reloc> c{spare, spare, spare}; Reloc::fuse = -1; } catch (Reloc::Boom) { thrown = true; } Reloc::fuse = -1; ok("throw.init_list", thrown || f >= 3); break;
    case 4: try { v[i].emplace_back(spare); m[i].push_back(El<T>::str(spare)); } catch (Reloc::Boom) { thrown = true; } Reloc::fuse = -1; eq("throw.emplace_back", f == 0, thrown); break;
    }
    if (thrown) stat("copies_that_threw");
    state<T>(m[i], v[i]); state<T>(m[j], v[j]);
  }
}
// elements whose layout C++ does not know
template <class T> struct Op;
template <> struct Op<R> { static rust::Vec<R> mk(std::size_t n, std::size_t e) { return mk_r(n, e); } static rust::Vec<R> echo(rust::Vec<R> v) { return echo_r(std::move(v)); } static void push(rust::Vec<R> &v) { push_r(v); } static string rust(const rust::Vec<R> &v) { string d; dv_r(&v, &d); return d; } static string str(const R &r) { return std::to_string(r.id()); } };
template <> struct Op<Pod> { static rust::Vec<Pod> mk(std::size_t n, std::size_t e) { return mk_pod(n, e); } static rust::Vec<Pod> echo(rust::Vec<Pod> v) { return echo_pod(std::move(v)); } static void push(rust::Vec<Pod> &v) { push_pod(v); } static string rust(const rust::Vec<Pod> &v) { string d; dv_pod(&v, &d); return d; } static string str(const Pod &r) { return std::to_string(r.val()); } };
template <class T> M ord(const rust::Vec<T> &v) { M m; string d = Op<T>::rust(v); std::size_t p = d.find('|'); while (p != string::npos) { std::size_t q = d.find_first_of("|]", p + 1); m.push_back(d.substr(p + 1, q - p - 1)); p = d[q] == '|' ? q : string::npos; } return m; }
template <class T> void ostate(const M &m, rust::Vec<T> &v) {
  const rust::Vec<T> &c = v;
  eq("ovec.rust", m, ord(v)); eq("ovec.size", m.size(), c.size()); eq("ovec.empty", m.empty(), c.empty()); ok("ovec.cap", c.capacity() >= m.size());
  M a; for (std::size_t i = 0; i < c.size(); i++) a.push_back(Op<T>::str(c[i])); eq("ovec.index", m, a);
  a.clear(); for (std::size_t i = 0; i < c.size(); i++) a.push_back(Op<T>::str(v.at(i))); eq("ovec.at", m, a);
  a.clear(); for (auto &x : c) a.push_back(Op<T>::str(x)); eq("ovec.citer", m, a);
  a.clear(); for (auto &x : v) a.push_back(Op<T>::str(x)); eq("ovec.iter", m, a);
  a.clear(); for (auto it = v.end(); it != v.begin();) a.push_back(Op<T>::str(*--it)); std::reverse(a.begin(), a.end()); eq("ovec.riter", m, a);
  eq("ovec.dist", (long)m.size(), (long)(c.end() - c.begin()));
  if (m.size()) { eq("ovec.front", m.front(), Op<T>::str(c.front())); eq("ovec.back", m.back(), Op<T>::str(c.back())); eq("ovec.mback", m.back(), Op<T>::str(v.back())); std::size_t i = below(m.size()); eq("ovec.iter[]", m[i], Op<T>::str(c.begin()[(long)i]));
    eq("ovec.iter-", m[i], Op<T>::str(*(c.end() - (long)(m.size() - i)))); eq("ovec.data", (const void *)c.data(), (const void *)&c[0]); }
  ok("ovec.oor", throws_oor([&] { c.at(m.size() + below(3)); }));
  rust::Slice<const T> s(c.data(), c.size()); a.clear(); for (auto &x : s) a.push_back(Op<T>::str(x)); eq("ovec.slice", m, a);
}
template <class T> void oseq() {
  const int K = 3; std::vector<rust::Vec<T>> v(K); std::vector<M> m(K);
  for (int step = 0; step < 14; step++) {
    std::size_t i = below(K), j = below(K);
    switch (below(10)) {
    case 0: { std::size_t n = xb::rand_len(), e = below(5); v[i] = Op<T>::mk(n, e); m[i] = ord(v[i]); eq("ovec.mk", n, m[i].size()); ok("ovec.mkcap", v[i].capacity() >= n + e); break; }
    case 1: { M o = m[i]; Op<T>::push(v[i]); m[i] = ord(v[i]); o.push_back(m[i].empty() ? "" : m[i].back()); eq("ovec.push", o, m[i]); break; }
    case 2: { std::size_t n = below(m[i].size() + 2); v[i].truncate(n); if (n < m[i].size()) m[i].resize(n); break; }
    case 3: v[i].clear(); m[i].clear(); break;
    case 4: v[i].swap(v[j]); std::swap(m[i], m[j]); break;
    case 5: if (i != j) { v[i] = std::move(v[j]); m[i] = m[j]; m[j].clear(); } break;
    case 6: { rust::Vec<T> t(std::move(v[i])); ostate<T>(m[i], t); m[i].clear(); break; }
    case 7: v[i] = Op<T>::echo(std::move(v[i])); break;
    case 8: { std::size_t n = below(60); v[i].reserve(n); ok("ovec.reserve", v[i].capacity() >= n); break; }
    case 9: { rust::Vec<T> t = Op<T>::mk(below(4), 0); ostate<T>(ord(t), t); break; }
    }
    ostate<T>(m[i], v[i]); ostate<T>(m[j], v[j]);
  }
  stat("opaque_sequences");
}
static void test_zst() {
  static bool done = false; if (done) return; done = true;
  for (std::size_t n = 0; n < 4; n++) {
    auto v = rs_zv(n); eq("zst.size", n, v.size()); ok("zst.cap", v.capacity() >= n); for (std::size_t i = 0; i < n; i++) ok("zst.elem", z_addr(v[i]) == (std::size_t)(std::uintptr_t)v.data()); ok("zst.oor", throws_oor([&] { v.at(n); }));
    std::size_t c = 0; for (auto &z : v) { (void)z; c++; } eq("zst.vec_iteration", n, c);
    v.truncate(n / 2); eq("zst.truncate", n / 2, v.size()); rust::Vec<Z> w(std::move(v)); eq("zst.moved", n / 2, w.size()); w.clear(); eq("zst.clear", (std::size_t)0, w.size());
  }
}
// vectors inside the elements of a vector
static void test_tree() {
  auto str = [](const Tree &t) { return std::string(tree_str(t)); };
  std::uint32_t n = 2 + (std::uint32_t)below(3), i = (std::uint32_t)below(n); Tree t = mk_tree(n); std::string want = "";
  Tree k = t.kids[i]; eq("tree.copy", str(t.kids[i]), str(k)); for (auto &x : k.kids) want += str(x);
  switch (below(3)) {
  case 0: t.kids = std::move(t.kids[i].kids); break;      // the source goes with the old contents
  case 1: t.kids = t.kids[i].kids; break;
  default: { auto v = std::move(t.kids[i].kids); std::swap(t.kids, v); } break;
  }
  std::string got; for (auto &x : t.kids) got += str(x); eq("tree.from_inside", want, got); eq("tree.size", (std::size_t)i, t.kids.size());
  t.kids.push_back(std::move(k)); t.kids.emplace_back(t); eq("tree.nested", (std::size_t)(i + 2), t.kids.size()); eq("tree.nested.size", (std::size_t)(i + 1), t.kids[i + 1].kids.size());
}
ST_MAIN({"tree", test_tree}, {"zst", test_zst}, {"u8", (void (*)())seq<std::uint8_t>}, {"i64", (void (*)())seq<std::int64_t>}, {"u16", (void (*)())seq<std::uint16_t>}, {"bool", (void (*)())seq<bool>}, {"f64", (void (*)())seq<double>}, {"usize", (void (*)())seq<std::size_t>},
  {"string", (void (*)())seq<rust::String>}, {"sp", (void (*)())seq<SP>}, {"su", (void (*)())seq<SU, false>}, {"en", (void (*)())seq<En>}, {"reloc", (void (*)())seq<Reloc>}, {"throw", test_throw},
  {"opaque", oseq<R>}, {"pod", oseq<Pod>})
