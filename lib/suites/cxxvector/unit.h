#pragma once
#include "suite.h"
struct Tri { std::int16_t a; std::uint8_t b[3]; };
struct Rel { // relocatable, and every object counts: the one left behind by a move too
  using IsRelocatable = std::true_type;
  std::uint64_t id; std::uint64_t *heap;
  explicit Rel(std::uint64_t v) : id(reg_new("Rel", 3)), heap(new std::uint64_t(v)) {}
  Rel(const Rel &o) : Rel(*o.heap) {}
  Rel(Rel &&o) : Rel(*o.heap) { *o.heap = 0; }
  Rel &operator=(Rel o) { *heap = *o.heap; return *this; }
  ~Rel() { reg_del(id); delete heap; }
};
struct SP; enum class En : std::uint8_t; struct Own;
struct Opq { // not relocatable: holds its own address
  std::uint64_t id, v; Opq *self;
  explicit Opq(std::uint64_t v) : id(reg_new("Opq", 3)), v(v), self(this) {}
  Opq(const Opq &o) : id(reg_new("Opq", 3)), v(o.oid()), self(this) {}
  Opq &operator=(const Opq &o) { v = o.oid(); return *this; }
  ~Opq() { if (self != this) xb_bad(); reg_del(id); }
  std::uint64_t oid() const { if (self != this) xb_bad(); return v; }
  void oset(std::uint64_t x) { if (self != this) xb_bad(); v = x; }
  static void xb_bad() { const char m[] = "object was moved bitwise"; ev_fail("opq.self", 8, (const std::uint8_t *)m, sizeof m - 1); }
};
namespace vh {
template <class T> std::string str(const T &v);
template <class T> T make();
}
template <class T> rust::String vd(const std::vector<T> &v) { std::string s = "[" + std::to_string(v.size()); for (const T &x : v) s += "|" + vh::str(x); return rust::String(s + "]"); }
template <class T> std::size_t va(const std::vector<T> &v) { return (std::size_t)(std::uintptr_t)v.data(); }
template <class T> void vgrow(std::vector<T> &v, std::size_t n) { while (n--) v.push_back(vh::make<T>()); }
template <class T> void vcut(std::vector<T> &v, std::size_t n) { while (v.size() > n) v.pop_back(); }
template <class T> std::unique_ptr<std::vector<T>> vecho(std::unique_ptr<std::vector<T>> v) { return v; }
template <class T> const std::vector<T> &vself(const std::vector<T> &v) { return v; }
template <class T> std::vector<T> &vselfm(std::vector<T> &v) { return v; }
Own own_mk(std::size_t n); std::size_t own_take(Own o);
@DECLS@
