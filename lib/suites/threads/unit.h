#pragma once
#include "suite.h"
#include <atomic>
#include <thread>
struct SP; struct RObj;
struct Obj {
  std::uint64_t v; std::uint64_t canary; std::unique_ptr<std::uint64_t> heap;
  static std::atomic<std::size_t> made, gone;
  explicit Obj(std::uint64_t i) : v(i), canary(i ^ 0xabcdef), heap(new std::uint64_t(i)) { made.fetch_add(1, std::memory_order_relaxed); }
  ~Obj() { if (canary != (v ^ 0xabcdef)) { fprintf(stderr, "object destroyed twice or damaged\n"); abort(); } canary = 0; gone.fetch_add(1, std::memory_order_relaxed); }
  std::uint64_t id() const { return *heap == v && canary == (v ^ 0xabcdef) ? v : ~0ull; }
  void set(std::uint64_t x) { v = x; canary = x ^ 0xabcdef; *heap = x; }
};
std::shared_ptr<Obj> mk_obj(std::uint64_t); std::unique_ptr<Obj> mk_uobj(std::uint64_t); std::shared_ptr<SP> mk_sp(std::uint64_t); std::shared_ptr<std::uint64_t> mk_u64(std::uint64_t); std::shared_ptr<std::string> mk_str(std::uint64_t);
inline std::size_t cnt_obj(const std::shared_ptr<Obj> &p) { return (std::size_t)p.use_count(); } inline std::size_t cnt_sp(const std::shared_ptr<SP> &p) { return (std::size_t)p.use_count(); }
inline std::size_t cnt_u64(const std::shared_ptr<std::uint64_t> &p) { return (std::size_t)p.use_count(); } inline std::size_t cnt_str(const std::shared_ptr<std::string> &p) { return (std::size_t)p.use_count(); }
inline std::shared_ptr<Obj> via_obj(std::shared_ptr<Obj> p, std::uint32_t n) { std::vector<std::shared_ptr<Obj>> v(n % 5, p); if (n & 8) return std::move(p); return p; }
inline std::shared_ptr<Obj> weak_obj(const std::weak_ptr<Obj> &w) { auto c = w; return c.lock(); } inline std::weak_ptr<Obj> to_weak(const std::shared_ptr<Obj> &p) { return p; }
inline std::size_t live() { return Obj::made.load(std::memory_order_relaxed) - Obj::gone.load(std::memory_order_relaxed); } inline std::size_t destroyed() { return Obj::gone.load(std::memory_order_relaxed); }
std::uint64_t boom(std::uint32_t kind, rust::Str msg); rust::String relay(rust::Str msg, std::uint32_t depth);
std::unique_ptr<std::string> cstr(rust::Slice<const std::uint8_t>); std::unique_ptr<std::vector<std::uint32_t>> cvec(std::uint64_t, std::size_t); std::unique_ptr<std::vector<std::string>> cvs(std::size_t, rust::Str);
rust::String concat(rust::Str, rust::String, const std::string &); rust::Vec<std::uint32_t> vec_ops(rust::Vec<std::uint32_t>, std::uint32_t); rust::Vec<rust::String> strs_ops(rust::Vec<rust::String>, rust::Str);
SP sp_ops(SP); std::uint64_t sum_slice(rust::Slice<const std::uint32_t>); std::uint64_t call_fn(rust::Fn<std::uint64_t(std::uint64_t)>, std::uint64_t);
rust::String own_ops(std::uint64_t seed, std::uint32_t n);
void push_q(std::unique_ptr<Obj>, rust::Box<RObj>, rust::String, rust::Vec<SP>); std::uint64_t pop_q(std::unique_ptr<Obj> &, rust::String &, rust::Vec<SP> &);
std::uint64_t read_shared(const rust::String &, const rust::Vec<std::uint32_t> &, const std::string &, const std::vector<std::uint32_t> &, const SP &, const rust::Box<RObj> &, const std::shared_ptr<Obj> &);
rust::Vec<rust::String> pool(std::size_t t, std::uint64_t seed, std::uint32_t n, const std::shared_ptr<Obj> &, const std::weak_ptr<Obj> &);
