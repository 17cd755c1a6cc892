#pragma once
#include "suite.h"
// A relocatable C++ type: bitwise moves are fine, copies may throw.
struct Reloc {
  using IsRelocatable = std::true_type;
  static int fuse; // copies until the next throw; negative: never
  struct Boom {};
  std::uint64_t id; std::uint32_t *heap;
  explicit Reloc(std::uint32_t v) : id(reg_new("Reloc", 5)), heap(new std::uint32_t(v)) {}
  Reloc(const Reloc &o) : id(0), heap(nullptr) { burn(); id = reg_new("Reloc", 5); heap = new std::uint32_t(*o.heap); }
  Reloc(Reloc &&o) noexcept : id(reg_new("Reloc", 5)), heap(o.heap) { o.heap = nullptr; }
  Reloc &operator=(const Reloc &o) { burn(); auto *n = new std::uint32_t(*o.heap); delete heap; heap = n; return *this; }
  Reloc &operator=(Reloc &&o) noexcept { std::swap(heap, o.heap); return *this; }
  ~Reloc() { reg_del(id); delete heap; }
  static void burn() { if (fuse >= 0 && fuse-- == 0) throw Boom(); }
};
