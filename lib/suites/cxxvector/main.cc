#include "unit.h"
#include "ffi0.rs.h"
using namespace st;
namespace vh {
#define P(T) template <> std::string str<T>(const T &v) { return std::to_string(v); } template <> T make<T>() { return xb::Val<T>::make(); }
P(std::uint8_t) P(std::uint16_t) P(std::uint32_t) P(std::uint64_t) P(std::int8_t) P(std::int16_t) P(std::int32_t) P(std::int64_t)
template <> std::string str<float>(const float &v) { std::uint32_t b; memcpy(&b, &v, 4); return std::to_string(b); } template <> float make<float>() { return xb::Val<float>::make(); }
template <> std::string str<double>(const double &v) { std::uint64_t b; memcpy(&b, &v, 8); return std::to_string(b); } template <> double make<double>() { return xb::Val<double>::make(); }
static std::string hex(const std::string &s) { std::string o; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); o += b; } return o; }
template <> std::string str<std::string>(const std::string &v) { return hex(v); } template <> std::string make<std::string>() { return xb::rand_bytes(); }
template <> std::string str<SP>(const SP &v) { return std::to_string(v.a) + "," + hex(std::string(v.s)) + "," + std::to_string(v.d); } template <> SP make<SP>() { SP s; s.a = (std::uint32_t)rt_rand(); s.s = rust::String(xb::rand_text()); s.d = (std::uint8_t)rt_rand(); return s; }
template <> std::string str<En>(const En &v) { return std::to_string((int)v); } template <> En make<En>() { return coin() ? En::A : coin() ? En::B : En::C; }
template <> std::string str<Tri>(const Tri &v) { return std::to_string(v.a) + "," + std::to_string(v.b[0]) + "," + std::to_string(v.b[2]); } template <> Tri make<Tri>() { Tri t; t.a = (std::int16_t)rt_rand(); t.b[0] = (std::uint8_t)rt_rand(); t.b[1] = 5; t.b[2] = (std::uint8_t)rt_rand(); return t; }
template <> std::string str<Rel>(const Rel &v) { return std::to_string(*v.heap); } template <> Rel make<Rel>() { return Rel(rt_rand()); }
template <> std::string str<Opq>(const Opq &v) { return std::to_string(v.oid()); } template <> Opq make<Opq>() { return Opq(rt_rand()); }
}
template <class T> std::unique_ptr<std::vector<T>> vmk(std::size_t n, std::size_t e) { std::unique_ptr<std::vector<T>> v(new std::vector<T>); v->reserve(n + e); vgrow(*v, n); return v; }
@DEFS@
Own own_mk(std::size_t n) { Own o; o.v = vmk<Opq>(n, 0); o.n = (std::uint8_t)n; return o; }
std::size_t own_take(Own o) { return o.v ? o.v->size() : 0; }
extern "C" void rel_drop(Rel *r) { r->~Rel(); }
extern "C" void rel_make(Rel *r, std::uint64_t v) { new (r) Rel(v); }
extern "C" { @EDECL@ void t_own(); void t_big(); }
ST_MAIN(@TESTS@, {"own", t_own}, {"big", t_big})
