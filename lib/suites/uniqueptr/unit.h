#pragma once
#include "suite.h"
struct Tri { std::uint16_t a; std::uint8_t b; };
struct SP;
struct Opq { std::uint64_t reg, v; Opq *self; explicit Opq(std::uint64_t v) : reg(reg_new("Opq", 3)), v(v), self(this) {} Opq(const Opq &) = delete; ~Opq() { reg_del(reg); } std::uint64_t id() const { return self == this ? v : 0; } void set(std::uint64_t x) { v = x; } };
namespace deep { namespace er { struct CppName { std::uint64_t reg, v; explicit CppName(std::uint64_t v) : reg(reg_new("CppName", 7)), v(v) {} ~CppName() { reg_del(reg); } std::uint64_t rid() const { return v; } }; } }
struct Base { virtual ~Base() {} virtual std::uint64_t dval() const = 0; }; struct Derived : Base { std::uint64_t v; std::unique_ptr<std::string> s; explicit Derived(std::uint64_t v) : v(v), s(new std::string(100, 'd')) {} std::uint64_t dval() const override { return v + s->size(); } };
struct File { std::vector<std::uint8_t> b; std::size_t p = 0; };
struct Dev { int x = 5; }; inline std::unique_ptr<Dev> mk_dev() { return std::unique_ptr<Dev>(new Dev); }
inline std::unique_ptr<Opq> mk_opq(bool n, std::uint64_t v) { return n ? nullptr : std::unique_ptr<Opq>(new Opq(v)); }
inline std::unique_ptr<deep::er::CppName> mk_ren(std::uint64_t v) { return std::unique_ptr<deep::er::CppName>(new deep::er::CppName(v)); }
struct Most : Derived { std::uint64_t reg; explicit Most(std::uint64_t v) : Derived(v), reg(reg_new("Most", 4)) {} ~Most() { reg_del(reg); } std::uint64_t dval() const override { return v * 2; } };
inline std::unique_ptr<Derived> mk_derived(std::uint64_t v) { return std::unique_ptr<Derived>(v % 2 ? new Derived(v) : new Most(v)); }
std::unique_ptr<SP> mk_sp(bool n, std::uint32_t a, rust::Str s);
inline std::unique_ptr<Tri> mk_tri(bool n, std::uint16_t a) { if (n) return nullptr; std::unique_ptr<Tri> t(new Tri); t->a = a; t->b = 7; return t; }
inline std::unique_ptr<std::string> mk_str(bool n, rust::Slice<const std::uint8_t> s) { if (n) return nullptr; std::unique_ptr<std::string> p(new std::string((const char *)s.data(), s.size())); return p; }
inline std::unique_ptr<std::vector<std::uint16_t>> mk_vec(bool n, std::size_t k) { if (n) return nullptr; std::unique_ptr<std::vector<std::uint16_t>> p(new std::vector<std::uint16_t>); for (std::size_t i = 0; i < k; i++) p->push_back((std::uint16_t)(i * 3)); return p; }
inline std::unique_ptr<std::vector<std::string>> mk_vs(std::size_t k) { return std::unique_ptr<std::vector<std::string>>(new std::vector<std::string>(k, std::string(40, 's'))); }
std::unique_ptr<std::vector<SP>> mk_vsp(std::size_t k);
inline std::unique_ptr<File> mk_file(rust::Slice<const std::uint8_t> s) { std::unique_ptr<File> f(new File); f->b.assign(s.data(), s.data() + s.size()); return f; }
template <class T> std::size_t adr(const std::unique_ptr<T> &p) { return (std::size_t)(std::uintptr_t)p.get(); }
template <class T> std::unique_ptr<T> echo(std::unique_ptr<T> p) { return p; }
template <class T> void sink(std::unique_ptr<T> p) { if (xb::coin()) p.reset(); }
template <class T> void reset(std::unique_ptr<T> &p) { p.reset(); }
