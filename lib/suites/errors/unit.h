#pragma once
#include "suite.h"
struct Pair; struct R;
using Bytes = rust::Slice<const std::uint8_t>;
void boom_k(std::uint32_t k);
struct Opq { std::uint64_t reg; Opq() : reg(reg_new("Opq", 3)) {} Opq(const Opq &) = delete; ~Opq() { reg_del(reg); } std::uint64_t oid() const { return reg; } std::uint8_t boom_m(std::uint32_t k, Bytes m) const; Opq &boom_pin(std::uint32_t k, Bytes m);
  template <class... A> void boom_mu(std::uint32_t k, A...) const { boom_k(k); } template <class... A> std::uint64_t boom_mn(std::uint32_t k, A...) const { boom_k(k); return sizeof...(A) + 5; } template <class... A> rust::String boom_ms(std::uint32_t k, A...) const { boom_k(k); return rust::String("a string that stays in the heap"); } };
template <class... A> void boom_tu(std::uint32_t k, A...) { boom_k(k); } template <class... A> std::uint64_t boom_tn(std::uint32_t k, A...) { boom_k(k); return sizeof...(A) + 5; } template <class... A> rust::String boom_ts(std::uint32_t k, A...) { boom_k(k); return rust::String("a string that stays in the heap"); }
inline std::unique_ptr<Opq> mk_opq() { return std::unique_ptr<Opq>(new Opq); }
std::uint64_t boom(std::uint32_t k, Bytes m); void boom_unit(std::uint32_t k, Bytes m); rust::String boom_str(std::uint32_t k, Bytes m); Pair boom_pair(std::uint32_t k, Bytes m); std::unique_ptr<Opq> boom_up(std::uint32_t k, Bytes m); const Opq &boom_ref(const Opq &o, std::uint32_t k, Bytes m);
std::size_t boom_arg(std::unique_ptr<Opq> o, rust::String s, rust::Vec<rust::String> v, Pair p, std::uint32_t k, Bytes m); std::uint32_t boom_cb(rust::Fn<std::uint32_t(std::uint32_t)> f, std::uint32_t k, Bytes m);
std::uint64_t ping(std::uint32_t depth, Bytes m);
const std::string &last_expected();
