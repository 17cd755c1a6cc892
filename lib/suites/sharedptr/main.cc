#include "unit.h"
#include "ffi0.rs.h"
using namespace st;
std::shared_ptr<SP> make_sp(std::uint32_t a, rust::Str s) { auto p = std::make_shared<SP>(); p->a = a; p->s = rust::String(s.data(), s.size()); return p; }
template <class T> struct Mk { static T *fresh() { return new T(xb::make<T>()); } };
template <> struct Mk<SP> { static SP *fresh() { SP *p = new SP; p->a = (std::uint32_t)rt_rand(); auto s = xb::rand_text(); p->s = rust::String(s.data(), s.size()); return p; } };
template <> struct Mk<Tri> { static Tri *fresh() { Tri *t = new Tri; t->a = (std::uint16_t)rt_rand(); t->b = 9; return t; } };
template <> struct Mk<Opq> { static Opq *fresh() { return new Opq(rt_rand() | 1); } };
template <> struct Mk<deep::er::CppName> { static deep::er::CppName *fresh() { return new deep::er::CppName(rt_rand()); } };
template <class T> std::shared_ptr<T> mk(std::uint8_t k) {
  switch (k) {
  case 0: return nullptr;
  case 1: return std::shared_ptr<T>(Mk<T>::fresh());
  case 2: return std::shared_ptr<T>(Mk<T>::fresh(), [](T *p) { delete p; });  // custom deleter
  case 3: { struct Holder { std::uint64_t reg, pad; T *t; Holder() : reg(reg_new("Holder", 6)), t(Mk<T>::fresh()) {} ~Holder() { reg_del(reg); delete t; } };  // pointer into a larger object
    auto h = std::make_shared<Holder>(); return std::shared_ptr<T>(h, h->t); }
  case 4: return std::shared_ptr<T>(static_cast<T *>(nullptr));  // owns nothing, counts
  default: { auto *t = Mk<T>::fresh(); auto &r = xb::keep(t); return std::shared_ptr<T>(std::shared_ptr<void>(), &r); }  // points without owning
  }
}
@MK@
extern "C" { @TD@ void t_misc(); void t_cmp(); }
ST_MAIN(@TESTS@, {"misc", t_misc}, {"cmp", t_cmp})
