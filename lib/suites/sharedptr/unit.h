#pragma once
#include "suite.h"
struct Tri { std::uint16_t a; std::uint8_t b; };
struct SP;
struct Opq { std::uint64_t reg, v; Opq *self; explicit Opq(std::uint64_t v) : reg(reg_new("Opq", 3)), v(v), self(this) {} Opq(const Opq &) = delete; ~Opq() { reg_del(reg); } std::uint64_t id() const { return self == this ? v : 0; } };
namespace deep { namespace er { struct CppName { std::uint64_t reg, v; explicit CppName(std::uint64_t v) : reg(reg_new("CppName", 7)), v(v) {} ~CppName() { reg_del(reg); } std::uint64_t rid() const { return v; } }; } }
struct Base : std::enable_shared_from_this<Base> { std::uint64_t v = 0; virtual ~Base() {} virtual std::uint64_t bval() const { return v; } std::weak_ptr<Base> self_weak() const { return const_cast<Base *>(this)->shared_from_this(); } };
struct Side { std::uint64_t pad[3]; virtual ~Side() {} };
struct Der : Side, Base { std::uint64_t reg; Der() : reg(reg_new("Der", 3)) {} ~Der() override { reg_del(reg); } std::uint64_t bval() const override { return v * 2 + 1; } };
inline std::shared_ptr<Base> mk_base(std::uint64_t v) { std::shared_ptr<Base> p; if (v % 2) p = std::make_shared<Der>(); else p = std::make_shared<Base>(); p->v = v; return p; }
inline std::size_t base_cnt(const std::shared_ptr<Base> &p) { return (std::size_t)p.use_count(); }
std::shared_ptr<SP> make_sp(std::uint32_t a, rust::Str s);
inline std::shared_ptr<Tri> make_tri(std::uint16_t a) { auto t = std::make_shared<Tri>(); t->a = a; t->b = 1; return t; }
inline std::shared_ptr<std::string> make_str(rust::Slice<const std::uint8_t> s) { return std::make_shared<std::string>((const char *)s.data(), s.size()); }
template <class T> std::vector<std::shared_ptr<T>> &held() { static std::vector<std::shared_ptr<T>> h; return h; }
template <class T> std::size_t adr(const std::shared_ptr<T> &p) { return (std::size_t)(std::uintptr_t)p.get(); }
template <class T> std::size_t cnt(const std::shared_ptr<T> &p) { return (std::size_t)p.use_count(); }
template <class T> void hold(const std::shared_ptr<T> &p) { held<T>().push_back(p); }
template <class T> std::shared_ptr<T> echo(std::shared_ptr<T> p) { if (xb::coin()) { auto q = p; return q; } return p; }
template <class T> void sink(std::shared_ptr<T> p) { if (xb::coin()) p.reset(); }
template <class T> void reset(std::shared_ptr<T> &p) { p.reset(); }
template <class T> std::weak_ptr<T> wk(const std::shared_ptr<T> &p) { return p; }
template <class T> std::size_t wcnt(const std::weak_ptr<T> &p) { return (std::size_t)p.use_count(); }
template <class T> std::size_t wadr(const std::weak_ptr<T> &p) { return (std::size_t)(std::uintptr_t)p.lock().get(); }
template <class T> std::weak_ptr<T> wecho(std::weak_ptr<T> p) { if (xb::coin()) { auto q = p; return q; } return p; }
template <class T> bool same(const std::shared_ptr<T> &a, const std::shared_ptr<T> &b) { return !a.owner_before(b) && !b.owner_before(a) && a == b; }
@DECL@
