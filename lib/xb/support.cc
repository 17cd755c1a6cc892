#include "support.h"
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <set>

namespace xb {
int depth = 0;
static u64 S0 = 0x9e3779b97f4a7c15ull, S1 = 1;
static std::map<std::string, std::deque<std::string>> pending;
struct SlotStat { u64 n = 0; std::set<u64> hashes; };
static std::map<std::string, SlotStat> stats;
static std::map<u64, std::string> live;
static u64 next_id = 1, created = 0, destroyed = 0;
static u64 failures = 0, events = 0;
static const char *cur = "";
static u64 cur_iter = 0, cur_seed = 0;
static Arena *the_arena = nullptr;
Arena &arena() { if (!the_arena) the_arena = new Arena; return *the_arena; }

static std::string printable(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c >= 32 && c < 127 && c != '\\') o += (char)c;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    if (o.size() > 600) { o += "..."; break; }
  }
  return o;
}
static void report(const std::string &slot, const std::string &msg) {
  failures++;
  if (failures <= 40)
    printf("FAIL %s test=%s iter=%llu seed=%llu %s\n", slot.c_str(), cur, (unsigned long long)cur_iter,
           (unsigned long long)cur_seed, printable(msg).c_str());
  fflush(stdout);
}

u64 rand_bits(unsigned bytes) {
  u64 m = bytes == 8 ? ~0ull : ((1ull << (bytes * 8)) - 1);
  u64 top = 1ull << (bytes * 8 - 1);
  switch (below(8)) {
  case 0: return 0;
  case 1: return m;           // -1 / MAX
  case 2: return top;         // MIN
  case 3: return top - 1;     // signed MAX
  case 4: return below(4);
  case 5: return (top >> below(bytes * 8)) & m;
  default: return rt_rand() & m;
  }
}
std::size_t rand_len() {
  static const std::size_t XL[] = {255, 256, 257, 300, 1025, 2000};
  if (depth <= 1 && coin(60)) return XL[below(6)];
  if (depth > 2) return below(3);
  switch (below(8)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return 2;
  case 3: return 3 + below(6);
  case 4: return depth <= 1 ? 17 + below(60) : 2;
  default: return below(5);
  }
}
static void utf8(std::string &s, std::uint32_t c) {
  if (c < 0x80) s += (char)c;
  else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
}
static std::size_t text_len() {
  static const std::size_t L[] = {0, 0, 1, 2, 7, 8, 15, 16, 22, 23, 24, 31, 32, 33, 100, 1000};
  static const std::size_t XL[] = {255, 256, 4095, 4096, 5000, 65535, 65536, 70000};
  if (depth <= 1 && coin(300)) return XL[below(8)];
  return depth > 2 ? L[below(8)] : L[below(16)];
}
// what conversions and parsers like to treat specially, at the ends of a text
static const char *const SPECIAL[] = {"\xef\xbb\xbf", " ", "\n", "\r\n", "\t", "\"", "'", "\\", "\xef\xbf\xbd", "\xc2\xa0", "\xcc\x81", "\xe2\x80\xa8", "%s", "{}", "\x7f", "/"};
std::string rand_text() {
  std::string s; std::size_t n = text_len(); u64 mode = below(4);
  if (coin(12)) { s = SPECIAL[below(16)]; if (coin()) { s += rand_text(); s += SPECIAL[below(16)]; } return s; }
  while (s.size() < n) {
    static const std::uint32_t edge[] = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff};
    if (mode == 0) s += (char)('a' + below(26));
    else if (mode == 1) utf8(s, edge[below(11)]);
    else { std::uint32_t c = (std::uint32_t)below(0x110000); if (c >= 0xd800 && c < 0xe000) c = 'x'; utf8(s, coin() ? c : 32 + (std::uint32_t)below(95)); }
  }
  return s;
}
std::string rand_bytes() {
  if (coin(3)) return rand_text();
  std::string s; std::size_t n = text_len();
  while (s.size() < n) s += (char)(coin(3) ? below(256) : (coin() ? 0x80 + below(128) : below(128)));
  return s;
}
std::string rand_cmsg() {
  std::string s = rand_bytes();
  for (auto &c : s) if (!c) c = '0';
  return s;
}

void end_test(const char *name) {
  arena().clear();
  rs_arena_clear();
  arena().clear();
  for (auto &kv : pending)
    while (!kv.second.empty()) {
      report(kv.first, "sent but never received: " + kv.second.front());
      kv.second.pop_front();
    }
  if (!live.empty()) {
    std::string m = "objects never destroyed:";
    for (auto &kv : live) m += " " + kv.second + "#" + std::to_string(kv.first);
    report(std::string(name) + ".live", "OWNERSHIP " + m);
    live.clear();
  }
}

int run_main(int argc, char **argv, const Test *tests, std::size_t n) {
  u64 seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  u64 iters = argc > 2 ? strtoull(argv[2], 0, 10) : 10;
  const char *only = argc > 3 ? argv[3] : nullptr;
  u64 ran = 0;
  for (u64 it = 0; it < iters && failures < 200; it++)
    for (std::size_t i = 0; i < n; i++) {
      if (only && strcmp(only, tests[i].name)) continue;
      cur = tests[i].name; cur_iter = it;
      cur_seed = seed * 1000003 + it * 7919 + i;
      rt_seed(cur_seed);
      tests[i].fn();
      end_test(tests[i].name);
      ran++;
    }
  u64 distinct = 0, slots = 0;
  for (auto &kv : stats) { slots++; distinct += kv.second.hashes.size(); }
  delete the_arena; the_arena = nullptr;
  printf("SUMMARY tests=%zu runs=%llu events=%llu channels=%llu distinct_values=%llu created=%llu destroyed=%llu failures=%llu\n", n,
         (unsigned long long)ran, (unsigned long long)events, (unsigned long long)slots, (unsigned long long)distinct,
         (unsigned long long)created, (unsigned long long)destroyed, (unsigned long long)failures);
  fflush(stdout);
  pending.clear(); stats.clear();
  return failures ? 1 : 0;
}
} // namespace xb

using namespace xb;
extern "C" {
u64 rt_rand() {
  u64 z = (S0 += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void rt_seed(u64 s) { S0 = s * 0x2545f4914f6cdd1dull + 12345; }
static u64 fnv(const std::uint8_t *p, std::size_t n) { u64 h = 1469598103934665603ull; for (std::size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull; return h; }
void ev_send(const char *slot, std::size_t sl, const std::uint8_t *p, std::size_t n) {
  pending[std::string(slot, sl)].emplace_back(n ? (const char *)p : "", n);
}
void ev_recv(const char *slot, std::size_t sl, const std::uint8_t *p, std::size_t n) {
  std::string k(slot, sl), got(n ? (const char *)p : "", n);
  auto &q = pending[k];
  events++;
  auto &st = stats[k]; st.n++; if (st.hashes.size() < 4096) st.hashes.insert(fnv(p, n));
  if (q.empty()) { report(k, "received but never sent: " + got); return; }
  std::string want = q.front(); q.pop_front();
  if (want != got) report(k, "VALUE sent <" + want + "> received <" + got + ">");
}
void ev_fail(const char *slot, std::size_t sl, const std::uint8_t *p, std::size_t n) {
  report(std::string(slot, sl), std::string((const char *)p, n));
}
u64 reg_new(const char *kind, std::size_t n) { u64 id = next_id++; live[id] = std::string(kind, n); created++; return id; }
void reg_del(u64 id) {
  destroyed++;
  if (!live.erase(id)) report(std::string(cur) + ".live", "OWNERSHIP object #" + std::to_string(id) + " destroyed twice or never created");
}
void d_put(void *d, const std::uint8_t *p, std::size_t n) { ((D *)d)->append(n ? (const char *)p : "", n); }
}
