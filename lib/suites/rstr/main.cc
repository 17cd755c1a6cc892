#include "unit.h"
#include "ffi0.rs.h"
using namespace st;
extern "C" {
void o_lossy16(const std::uint16_t *, std::size_t, void *);
int o_cmp(const char *, std::size_t, const char *, std::size_t);
void o_read(const rust::String *, void *);
std::size_t o_cap(const rust::String *);
void o_read_str(const rust::Str *, void *);
}
using S16 = std::u16string;

// Independent validators, written from the Unicode standard's tables.
static bool utf8_ok(const std::string &s) {
  std::size_t i = 0, n = s.size();
  auto b = [&](std::size_t k) -> unsigned { return (unsigned char)s[k]; };
  auto in = [&](std::size_t k, unsigned lo, unsigned hi) { return k < n && b(k) >= lo && b(k) <= hi; };
  while (i < n) {
    unsigned c = b(i);
    if (c < 0x80) { i++; continue; }
    if (c >= 0xC2 && c <= 0xDF) { if (!in(i + 1, 0x80, 0xBF)) return false; i += 2; continue; }
    if (c >= 0xE0 && c <= 0xEF) {
      unsigned lo = c == 0xE0 ? 0xA0 : 0x80, hi = c == 0xED ? 0x9F : 0xBF;
      if (!in(i + 1, lo, hi) || !in(i + 2, 0x80, 0xBF)) return false; i += 3; continue;
    }
    if (c >= 0xF0 && c <= 0xF4) {
      unsigned lo = c == 0xF0 ? 0x90 : 0x80, hi = c == 0xF4 ? 0x8F : 0xBF;
      if (!in(i + 1, lo, hi) || !in(i + 2, 0x80, 0xBF) || !in(i + 3, 0x80, 0xBF)) return false; i += 4; continue;
    }
    return false;
  }
  return true;
}
static void put8(std::string &o, std::uint32_t c) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
}
static bool utf16_dec(const S16 &s, std::string &o) {
  for (std::size_t i = 0; i < s.size(); i++) {
    std::uint32_t c = s[i];
    if (c >= 0xD800 && c < 0xDC00) {
      if (i + 1 >= s.size() || s[i + 1] < 0xDC00 || s[i + 1] > 0xDFFF) return false;
      c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00);
    } else if (c >= 0xDC00 && c < 0xE000) return false;
    put8(o, c);
  }
  return true;
}
static std::string lossy8(const std::string &s) { std::string d; rs_lossy((const std::uint8_t *)s.data(), s.size(), &d); return d; }
static std::string lossy16(const S16 &s) { std::string d; o_lossy16((const std::uint16_t *)s.data(), s.size(), &d); return d; }
static std::string rd(const rust::String &s) { std::string d; o_read(&s, &d); return d; }
static std::string rd(const rust::Str &s) { std::string d; o_read_str(&s, &d); return d; }

static void state(const std::string &m, rust::String &s) {
  const rust::String &c = s;
  eq("str.rust_bytes", m, rd(s));
  eq("str.data", m, std::string(c.data(), c.size()));
  eq("str.size", m.size(), c.length());
  eq("str.empty", m.empty(), c.empty());
  eq("str.iter", m, std::string(c.begin(), c.end()));
  eq("str.citer", m, std::string(c.cbegin(), c.cend()));
  eq("str.miter", m, std::string(s.begin(), s.end()));
  eq("str.conv", m, (std::string)c);
  ok("str.cap", c.capacity() >= m.size() && c.capacity() == o_cap(&c));
  std::ostringstream os; os << "<" << c << ">"; eq("str.stream", "<" + m + ">", os.str());
}
static void state(const std::string &m, const rust::Str &c, const char *at = nullptr) {
  eq("view.rust_bytes", m, rd(c));
  eq("view.data", m, std::string(c.data(), c.size()));
  eq("view.size", m.size(), c.length());
  eq("view.empty", m.empty(), c.empty());
  eq("view.iter", m, std::string(c.begin(), c.end()));
  eq("view.citer", m, std::string(c.cbegin(), c.cend()));
  eq("view.conv", m, (std::string)c);
  eq("view.sv", m, std::string((std::string_view)c));
  if (at && m.size()) eq("view.addr", (const void *)at, (const void *)c.data());
  std::ostringstream os; os << "<" << c << ">"; eq("view.stream", "<" + m + ">", os.str());
}

static std::string hostile() {
  std::string s = coin(3) ? xb::rand_bytes() : xb::rand_text();
  if (coin(3) && s.size()) s.resize(below(s.size() + 1));
  for (u64 k = below(3); k--;) {
    static const char *bad[] = {"\x80", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xff", "\xe2\x82", "\xf0\x9f\x98", "\xc3", "\xf4\x8f\xbf\xbf", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbd"};
    s.insert(below(s.size() + 1), bad[below(sizeof bad / sizeof *bad)]);
  }
  if (coin(4) && s.size()) s[below(s.size())] ^= (char)(1 << below(8));
  return s;
}
static S16 hostile16() {
  S16 s; u64 n = below(12), mode = below(3);
  for (u64 i = 0; i < n; i++) switch (below(mode ? 6 : 3)) {
    case 0: s += (char16_t)below(0x80); break;
    case 1: s += (char16_t)(below(2) ? below(0xD800) : 0xE000 + below(0x2000)); break;
    case 2: s += (char16_t)(0xD800 + below(0x400)); s += (char16_t)(0xDC00 + below(0x400)); break;
    case 3: s += (char16_t)(0xD800 + below(0x400)); break;
    case 4: s += (char16_t)(0xDC00 + below(0x400)); break;
    default: s += u"\xD7FF\xE000\xFFFF\xDBFF\xDC00"[below(5)];
    }
  return s;
}
// exactly-sized heap copy so that overreads are seen
template <class C> struct Exact { C *p; std::size_t n; Exact(const C *s, std::size_t n) : p(n ? (C *)malloc(n * sizeof(C)) : nullptr), n(n) { if (n) memcpy(p, s, n * sizeof(C)); } ~Exact() { free(p); } };
template <class F> void ctor(const char *slot, bool valid, const std::string &m, F f) {
  try { auto s = f(); ok(slot, valid, m); eq("ctor.value", m, std::string(s.data(), s.size())); eq("ctor.rust", m, rd(s)); }
  catch (const std::invalid_argument &e) { ok(slot, !valid, m); }
}
static void test_ctor() {
  std::string h = hostile(); bool v = utf8_ok(h);
  stat(v ? "utf8_valid" : "utf8_invalid");
  ctor("ctor.string", v, h, [&] { return rust::String(h); });
  { Exact<char> e(h.data(), h.size()); ctor("ctor.ptrlen", v, h, [&] { return rust::String(e.p, e.n); });
    eq("lossy.ptrlen", lossy8(h), rd(rust::String::lossy(e.p, e.n)));
    ctor("ctor.view.ptrlen", v, h, [&] { return rust::Str(e.p, e.n); }); }
  std::string cut = h.substr(0, h.find('\0')); bool vc = utf8_ok(cut);
  { Exact<char> e(cut.c_str(), cut.size() + 1);
    ctor("ctor.cstr", vc, cut, [&] { return rust::String((const char *)e.p); });
    ctor("ctor.view.cstr", vc, cut, [&] { return rust::Str((const char *)e.p); });
    eq("lossy.cstr", lossy8(cut), rd(rust::String::lossy((const char *)e.p))); }
  ctor("ctor.view.string", v, h, [&] { return rust::Str(h); });
  eq("lossy.string", lossy8(h), rd(rust::String::lossy(h)));
#ifdef __cpp_char8_t
  { Exact<char> e(h.data(), h.size()); ctor("ctor.u8ptrlen", v, h, [&] { return rust::String((const char8_t *)e.p, e.n); }); }
  { Exact<char> e(cut.c_str(), cut.size() + 1); ctor("ctor.u8cstr", vc, cut, [&] { return rust::String((const char8_t *)e.p); }); }
#endif
  S16 w = hostile16(); std::string d; bool vw = utf16_dec(w, d);
  stat(vw ? "utf16_valid" : "utf16_invalid");
  if (!vw) d.clear();
  { Exact<char16_t> e(w.data(), w.size()); ctor("ctor.u16ptrlen", vw, d, [&] { return rust::String((const char16_t *)e.p, e.n); });
    eq("lossy.u16ptrlen", lossy16(w), rd(rust::String::lossy((const char16_t *)e.p, e.n))); }
  S16 wc = w.substr(0, w.find(u'\0')); d.clear(); vw = utf16_dec(wc, d); if (!vw) d.clear();
  { Exact<char16_t> e(wc.c_str(), wc.size() + 1); ctor("ctor.u16cstr", vw, d, [&] { return rust::String((const char16_t *)e.p); });
    eq("lossy.u16cstr", lossy16(wc), rd(rust::String::lossy((const char16_t *)e.p))); }
}
// every byte sequence of length <= 3 over the boundary bytes of UTF-8
static void test_exhaustive() {
  static bool done = false; if (done) return; done = true;
  static const unsigned char B[] = {0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff};
  const std::size_t N = sizeof B; u64 bad = 0, n = 0, valid = 0;
  auto one = [&](const std::string &s) {
    n++; bool v = utf8_ok(s), got; valid += v;
    try { rust::Str t(s.data(), s.size()); got = t.size() == s.size() && !memcmp(t.data(), s.data(), s.size()); } catch (const std::invalid_argument &) { got = false; }
    if (v != got) ok("exhaustive", false, s), bad++;
    if (n % 16 == 0 || v) { rust::String l = rust::String::lossy(s.data(), s.size()); if (std::string(l) != lossy8(s)) eq("exhaustive.lossy", lossy8(s), std::string(l)); }
  };
  for (std::size_t a = 0; a < N; a++) { one({(char)B[a]});
    for (std::size_t b = 0; b < N; b++) { one({(char)B[a], (char)B[b]});
      for (std::size_t c = 0; c < N; c++) { one({(char)B[a], (char)B[b], (char)B[c]});
        if (B[a] >= 0xf0) for (std::size_t d = 0; d < N; d += 1 + below(2)) one({(char)B[a], (char)B[b], (char)B[c], (char)B[d]}); } } }
  stat("exhaustive_sequences", n); stat("exhaustive_valid", valid);
  eq("exhaustive.mismatches", (u64)0, bad);
}
static void cmp(const std::string &a, const std::string &b) {
  int o = o_cmp(a.data(), a.size(), b.data(), b.size());
  rust::String x(a), y(b); rust::Str u(a), v(b);
  std::string tag = " " + a + " ? " + b;
#define REL(slot, l, r) \
  ok(slot ".eq", (l == r) == (o == 0), tag); ok(slot ".ne", (l != r) == (o != 0), tag); ok(slot ".lt", (l < r) == (o < 0), tag); \
  ok(slot ".le", (l <= r) == (o <= 0), tag); ok(slot ".gt", (l > r) == (o > 0), tag); ok(slot ".ge", (l >= r) == (o >= 0), tag);
  REL("order.string", x, y) REL("order.view", u, v)
}
static void test_order() {
  std::string a = xb::rand_text(), b = xb::rand_text();
  cmp(a, b); cmp(a, a);
  // near misses: common prefix, differing in one code point or in length
  std::string p = xb::rand_text(); std::string c = p, d = p;
  static const std::uint32_t E[] = {0, 'a', 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff};
  put8(c, E[below(10)]); cmp(p, c); put8(d, E[below(10)]); cmp(c, d); c += xb::rand_text(); cmp(c, d);
}
static void test_seq() {
  const int K = 4;
  std::vector<rust::String> s(K); std::vector<std::string> m(K);
  for (int step = 0; step < 24; step++) {
    std::size_t i = below(K), j = below(K);
    std::string t = xb::rand_text();
    switch (below(17)) {
    case 0: s[i] = rust::String(t); m[i] = t; break;
    case 1: s[i] = s[j]; m[i] = m[j]; break;
    case 2: if (i != j) { s[i] = std::move(s[j]); m[i] = m[j]; m[j].clear(); } break;
    case 3: { rust::String c(s[i]); state(m[i], c); c = rust::String("zz"); break; }
    case 4: { rust::String c(std::move(s[i])); state(m[i], c); m[i].clear(); break; }
    case 5: s[i].swap(s[j]); std::swap(m[i], m[j]); break;
    case 6: { using std::swap; swap(s[i], s[j]); std::swap(m[i], m[j]); break; }
    case 7: { std::size_t n = below(200); s[i].reserve(n); ok("reserve", s[i].capacity() >= n); const char *p = s[i].data();
              // honoured: no reallocation while within capacity
              if (s[i].capacity() >= m[i].size() + 1) { s[i].c_str(); eq("reserve.stable", (const void *)p, (const void *)s[i].data()); } break; }
    case 8: { const char *p = s[i].c_str(); ok("c_str.nul", p[m[i].size()] == 0); eq("c_str.text", m[i], std::string(p, m[i].size())); eq("c_str.data", (const void *)p, (const void *)s[i].data()); break; }
    case 9: for (char &c : s[i]) if (!(c & 0x80)) { c = 'q'; } for (char &c : m[i]) if (!(c & 0x80)) c = 'q'; break;
    case 10: { rust::Str v(s[i]); state(m[i], v, s[i].data()); rust::Str w = v, z; z = w; z.swap(w); state(m[i], z, s[i].data()); break; }
    case 11: s[i] = rs_echo(std::move(s[j])); { std::string x = m[j]; m[j].clear(); m[i] = x; } break;
    case 12: if (i == j) break; rs_push(s[i], s[j]); { std::string x = m[j]; m[i] += x; } break;
    case 13: s[i] = rs_concat(s[i], s[j]); m[i] += m[j]; break;
    case 14: eq("take", m[i].size(), rs_take_string(s[i])); break;
    case 15: { rust::Str v; state("", v); rust::String e; state("", e); rust::Str n0(nullptr, 0); state("", n0); rust::String s0((const char *)nullptr, 0); state("", s0); state("", *new (alloca(sizeof(rust::String))) rust::String((const char16_t *)nullptr, 0)); break; }
    case 16: try { std::string h = hostile(); bool v = utf8_ok(h); try { s[i] = rust::String(h); m[i] = h; ok("assign.valid", v); } catch (const std::invalid_argument &) { ok("assign.invalid", !v); } } catch (...) { ok("assign.other_exception", false); }
    }
    if (m[i].size() > 5000) { s[i] = rust::String(); m[i].clear(); }
    state(m[i], s[i]); state(m[j], s[j]);
    ok("same", rs_same(s[i], rust::Slice<const std::uint8_t>((const std::uint8_t *)m[i].data(), m[i].size())));
  }
}
ST_MAIN({"ctor", test_ctor}, {"exhaustive", test_exhaustive}, {"order", test_order}, {"seq", test_seq})
