#pragma once
#include "suite.h"
struct Reloc {
  using IsRelocatable = std::true_type;
  static int fuse; struct Boom {};
  std::uint64_t id; std::uint32_t *heap;
  explicit Reloc(std::uint32_t v) : id(reg_new("Reloc", 5)), heap(new std::uint32_t(v)) {}
  Reloc(std::uint32_t v, bool boom) : Reloc(v) { if (boom) throw Boom(); }
  Reloc(const Reloc &o) : id(0), heap(nullptr) { if (fuse >= 0 && fuse-- == 0) throw Boom(); id = reg_new("Reloc", 5); heap = new std::uint32_t(*o.heap); }
  Reloc(Reloc &&o) : id(0), heap(nullptr) { if (fuse >= 0 && fuse-- == 0) throw Boom(); id = reg_new("Reloc", 5); heap = o.heap; o.heap = nullptr; }
  ~Reloc() { reg_del(id); delete heap; }
};
struct Opq { std::uint64_t reg, v; explicit Opq(std::uint64_t v) : reg(reg_new("Opq", 3)), v(v) {} Opq(const Opq &) = delete; ~Opq() { reg_del(reg); } std::uint64_t oval() const { return v; } void oset(std::uint64_t x) { v = x; } };
inline std::unique_ptr<Opq> mk_opq(std::uint64_t v) { return std::unique_ptr<Opq>(new Opq(v)); }
struct SP; struct R;
using U = rust::Fn<std::uint32_t(std::uint32_t)>;
void keep_u(std::size_t i, U f); std::uint32_t use_u(std::size_t i, std::uint32_t x, std::uint32_t how); void copy_u(std::size_t i, std::size_t j); void keep_unit(rust::Fn<void()> f); void use_unit(std::uint32_t n);
void keep_str(rust::Fn<rust::String(rust::Str, rust::String)> f); rust::String use_str(rust::Str a, rust::Str b);
using Many = rust::Fn<double(std::uint8_t, std::int16_t, std::uint32_t, std::int64_t, float, double, bool, std::size_t, rust::Str, rust::String)>;
void keep_many(Many f); double use_many(std::uint8_t a, std::int16_t b, std::uint32_t c, std::int64_t d, float e, double f, bool g, std::size_t h, rust::Str i, rust::String j);
rust::Box<R> call_box(rust::Fn<rust::Box<R>(rust::Box<R>)> f, rust::Box<R> b); SP call_sp(rust::Fn<SP(SP, const SP &)> f, SP a, const SP &b); rust::Vec<std::uint16_t> call_vec(rust::Fn<rust::Vec<std::uint16_t>(rust::Vec<std::uint16_t>, rust::Vec<std::uint16_t> &)> f, rust::Vec<std::uint16_t> v, rust::Vec<std::uint16_t> &w);
inline std::unique_ptr<Opq> call_up(rust::Fn<std::unique_ptr<Opq>(std::unique_ptr<Opq>)> f, std::unique_ptr<Opq> p) { return f(f(std::move(p))); }
std::uint32_t call_two(U f, U g, std::uint32_t x); inline std::size_t call_slice(rust::Fn<std::size_t(rust::Slice<const std::uint32_t>, rust::Slice<std::uint8_t>)> f, rust::Slice<const std::uint32_t> a, rust::Slice<std::uint8_t> b) { return f(a, b); }
inline std::uint64_t call_pin(rust::Fn<std::uint64_t(Opq &, std::uint64_t)> f, Opq &o, std::uint64_t v) { return (*f)(o, v); }
