#include "unit.h"
#include "ffi0.rs.h"
#include <deque>
#include <mutex>
#include <condition_variable>
#include <future>
std::atomic<std::size_t> Obj::made{0}, Obj::gone{0};
struct Rn { std::uint64_t s; std::uint64_t operator()() { std::uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } std::uint64_t b(std::uint64_t n) { return (*this)() % n; } };
static std::string text(Rn &r) { std::string s; for (auto n = r.b(40); n--;) s += (char)('a' + r.b(26)); return s; }
std::shared_ptr<Obj> mk_obj(std::uint64_t i) { if (i & 1) return std::make_shared<Obj>(i); return std::shared_ptr<Obj>(new Obj(i)); } std::unique_ptr<Obj> mk_uobj(std::uint64_t i) { return std::unique_ptr<Obj>(new Obj(i)); }
std::shared_ptr<SP> mk_sp(std::uint64_t a) { auto p = std::make_shared<SP>(); p->a = a; p->s = std::to_string(a); for (int i = 0; i < 5; i++) p->v.push_back((std::uint32_t)a + i); return p; }
std::shared_ptr<std::uint64_t> mk_u64(std::uint64_t a) { return std::make_shared<std::uint64_t>(a); } std::shared_ptr<std::string> mk_str(std::uint64_t a) { return std::make_shared<std::string>("a long enough string " + std::to_string(a)); }
struct Custom : std::exception { std::string m; explicit Custom(std::string x) : m(std::move(x)) {} const char *what() const noexcept override { return m.c_str(); } };
std::uint64_t boom(std::uint32_t kind, rust::Str m) { std::string s(m); switch (kind % 5) { case 0: throw std::runtime_error(s); case 1: throw Custom(s); case 2: throw std::logic_error(s); case 3: { auto e = std::current_exception(); (void)e; return fail_rs(m); } default: return s.size(); } }
rust::String relay(rust::Str m, std::uint32_t d) { if (!d) throw Custom(std::string(m)); try { return relay_rs(m, d - 1); } catch (const rust::Error &e) { rust::Error c(e); rust::Error mv(std::move(c)); c = mv; if (d & 1) throw; throw std::runtime_error(c.what()); } }
std::unique_ptr<std::string> cstr(rust::Slice<const std::uint8_t> s) { return std::unique_ptr<std::string>(new std::string((const char *)s.data(), s.size())); }
std::unique_ptr<std::vector<std::uint32_t>> cvec(std::uint64_t seed, std::size_t n) { auto v = std::unique_ptr<std::vector<std::uint32_t>>(new std::vector<std::uint32_t>); for (std::size_t i = 0; i < n; i++) v->push_back((std::uint32_t)(seed * (i + 1))); return v; }
std::unique_ptr<std::vector<std::string>> cvs(std::size_t n, rust::Str t) { auto v = std::unique_ptr<std::vector<std::string>>(new std::vector<std::string>); for (std::size_t i = 0; i < n; i++) v->push_back(std::string(t) + std::to_string(i)); return v; }
rust::String concat(rust::Str a, rust::String b, const std::string &c) { std::string s(a); s += std::string(b); s += c; return s; }
rust::Vec<std::uint32_t> vec_ops(rust::Vec<std::uint32_t> v, std::uint32_t x) { v.push_back(x); rust::Vec<std::uint32_t> w(v); for (auto &e : w) e += 1; w.reserve(w.size() + 10); w.emplace_back(x); v = std::move(w); return v; }
rust::Vec<rust::String> strs_ops(rust::Vec<rust::String> v, rust::Str x) { v.push_back(rust::String(x.data(), x.size())); rust::Vec<rust::String> w(v); v.truncate(v.size() / 2); for (auto &e : v) w.push_back(e); return w; }
SP sp_ops(SP s) { SP t = s; t.a++; t.s = std::string(s.s) + "!"; t.v.push_back((std::uint32_t)s.a); if (!(s == s) || s == t || !(s < t)) t.a = 0; return t; }
std::uint64_t sum_slice(rust::Slice<const std::uint32_t> s) { std::uint64_t t = 0; for (auto x : s) t += x; return t; }
std::uint64_t call_fn(rust::Fn<std::uint64_t(std::uint64_t)> f, std::uint64_t x) { auto g = f; return g(x) ^ (*g)(x + 1); }
std::uint64_t read_shared(const rust::String &s, const rust::Vec<std::uint32_t> &v, const std::string &c, const std::vector<std::uint32_t> &cv, const SP &sp, const rust::Box<RObj> &b, const std::shared_ptr<Obj> &p) {
  std::uint64_t t = s.size() + s.capacity() * 0 + c.size(); for (auto x : s) t = t * 31 + (unsigned char)x; for (auto x : v) t = t * 31 + x; for (std::size_t i = 0; i < v.size(); i++) t += v.at(i) ^ v[i]; for (auto x : cv) t = t * 31 + x;
  rust::String s2(s); rust::Vec<std::uint32_t> v2(v); SP sp2(sp); t += s2 == s; t += v2.size(); t += sp2 == sp; t += std::hash<SP>()(sp) == std::hash<SP>()(sp2); t = t * 31 + b->rget(); auto q = p; t = t * 31 + q->id(); return t; }
#define REQ(c) do { if (!(c)) return rust::String(std::string("own_ops: ") + #c); } while (0)
rust::String own_ops(std::uint64_t seed, std::uint32_t n) {
  Rn r{seed};
  while (n--) {
    std::string a = text(r), b = text(r);
    switch (r.b(9)) {
    case 0: { rust::String x(a), y(b); rust::String z = x; x = y; y = std::move(z); REQ(std::string(x) == b && std::string(y) == a); REQ(std::string(twice(a)) == a + a); REQ(std::string(x.c_str()) == b); REQ(rust::String::lossy("a\xff" "b") == "a\xef\xbf\xbd" "b"); } break;
    case 1: { try { fail_rs(a); REQ(!"fail() returned"); } catch (const rust::Error &e) { rust::Error k(e); std::this_thread::yield(); REQ("failed " + a == k.what()); REQ(std::string(e.what()) == "failed " + a); try { fail_rs(b); REQ(!"fail() returned"); } catch (const std::exception &f) { REQ("failed " + b == f.what()); } REQ("failed " + a == e.what()); } } break;
    case 2: { auto v = upto((std::uint32_t)r.b(30)); auto m = v.size(); v.push_back(77); rust::Vec<std::uint32_t> w = v; std::sort(w.begin(), w.end(), std::greater<std::uint32_t>()); REQ(v.size() == m + 1 && v[m] == 77 && w[0] == 77); for (std::size_t i = 0; i < m; i++) REQ(v[i] == i); v.clear(); REQ(v.empty()); } break;
    case 3: { auto x = r(); auto q = mk_robj(x); REQ(q->rget() == x); q->rset(x + 1); auto p = std::move(q); REQ(p->rget() == x + 1); auto raw = p.into_raw(); auto s = rust::Box<RObj>::from_raw(raw); REQ(s->rget() == x + 1); } break;
    case 4: { SP p, q; p.a = r.b(3); q.a = r.b(3); p.s = a; q.s = b; REQ(sp_cmp(p, q) == (p < q)); REQ((p == q) == (p.a == q.a && a == b)); } break;
    case 5: { try { rust::String bad("\xff\xfe", 2); REQ(!"invalid accepted"); } catch (const std::invalid_argument &) {} try { rust::Vec<std::uint32_t>{1, 2}.at(2); REQ(!"out of range accepted"); } catch (const std::out_of_range &) {} try { rust::Slice<const std::uint8_t>().at(0); REQ(!"out of range accepted"); } catch (const std::out_of_range &) {} } break;
    case 6: { auto m = std::to_string(seed) + a; try { relay(m, (std::uint32_t)r.b(6)); REQ(!"relay returned"); } catch (const std::exception &e) { REQ(m == e.what()); } } break;
    case 7: { auto o = std::make_shared<Obj>(r()); auto x = o->id(); REQ(hold(o) == x); REQ(o.use_count() == 1); } break;
    default: { rust::Vec<rust::String> v; std::vector<std::string> m; for (auto k = r.b(8); k--;) { m.push_back(text(r)); v.emplace_back(m.back()); } REQ(v.size() == m.size()); for (std::size_t i = 0; i < m.size(); i++) REQ(std::string(v[i]) == m[i]); }
    }
    if (!r.b(8)) std::this_thread::yield();
  }
  return rust::String();
}
struct Item { std::unique_ptr<Obj> o; rust::Box<RObj> b; rust::String s; rust::Vec<SP> v; };
static std::mutex qm; static std::deque<Item> q;
void push_q(std::unique_ptr<Obj> o, rust::Box<RObj> b, rust::String s, rust::Vec<SP> v) { std::lock_guard<std::mutex> l(qm); q.push_back(Item{std::move(o), std::move(b), std::move(s), std::move(v)}); }
std::uint64_t pop_q(std::unique_ptr<Obj> &o, rust::String &s, rust::Vec<SP> &v) { std::unique_lock<std::mutex> l(qm); if (q.empty()) return 0; Item i = std::move(q.front()); q.pop_front(); l.unlock(); o = std::move(i.o); s = std::move(i.s); v.swap(i.v); return i.b->rget(); }
rust::Vec<rust::String> pool(std::size_t t, std::uint64_t seed, std::uint32_t n, const std::shared_ptr<Obj> &p, const std::weak_ptr<Obj> &w) {
  std::atomic<std::size_t> gate{0}; std::vector<std::string> res(t); std::vector<std::thread> th;
  for (std::size_t i = 0; i < t; i++) th.emplace_back([&, i] { gate.fetch_add(1, std::memory_order_relaxed); while (gate.load(std::memory_order_relaxed) < t) std::this_thread::yield(); res[i] = std::string(worker_obj((std::uint32_t)i, seed + i, n, p, w)); auto o = own_ops(seed * 3 + i, n); if (!o.empty()) res[i] += " " + std::string(o); });
  for (auto &x : th) x.join();
  rust::Vec<rust::String> out; for (auto &x : res) out.push_back(x); return out;
}
extern "C" {
void cc_parallel(std::size_t n, void (*f)(void *, std::size_t), void *ctx) { std::vector<std::thread> t; for (std::size_t i = 0; i < n; i++) t.emplace_back(f, ctx, i); for (auto &x : t) x.join(); }
struct Bar { std::mutex m; std::condition_variable c; std::size_t n, k = 0, g = 0; };
void *cc_barrier_new(std::size_t n) { auto b = new Bar; b->n = n; return b; } void cc_barrier_del(void *b) { delete (Bar *)b; }
void cc_barrier_wait(void *p) { auto b = (Bar *)p; std::unique_lock<std::mutex> l(b->m); auto g = b->g; if (++b->k == b->n) { b->k = 0; b->g++; b->c.notify_all(); } else b->c.wait(l, [&] { return g != b->g; }); }
static std::mutex cc_m; void cc_lock() { cc_m.lock(); } void cc_unlock() { cc_m.unlock(); }
}
extern "C" { void t_shared(); void t_race(); void t_own(); void t_pass(); void t_read(); void t_pool(); void t_duel(); }
ST_MAIN({"shared", t_shared}, {"race", t_race}, {"own", t_own}, {"pass", t_pass}, {"read", t_read}, {"pool", t_pool}, {"duel", t_duel})
