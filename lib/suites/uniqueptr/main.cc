#include "unit.h"
#include "ffi0.rs.h"
using namespace st;
std::unique_ptr<SP> mk_sp(bool n, std::uint32_t a, rust::Str s) { if (n) return nullptr; std::unique_ptr<SP> p(new SP); p->a = a; p->s = rust::String(s.data(), s.size()); return p; }
std::unique_ptr<std::vector<SP>> mk_vsp(std::size_t k) { std::unique_ptr<std::vector<SP>> v(new std::vector<SP>(k)); for (auto &x : *v) x.s = rust::String("element"); return v; }
extern "C" {
std::size_t f_read(File *f, std::uint8_t *p, std::size_t n) { n = std::min(n, f->b.size() - std::min(f->p, f->b.size())); if (n) memcpy(p, f->b.data() + f->p, n); f->p += n; return n; }
void f_write(File *f, const std::uint8_t *p, std::size_t n) { if (!n) return; if (f->b.size() < f->p + n) f->b.resize(f->p + n); memcpy(f->b.data() + f->p, p, n); f->p += n; }
std::size_t f_pos(const File *f) { return f->p; } void f_seek(File *f, std::size_t p) { f->p = p; } std::size_t f_len(const File *f) { return f->b.size(); }
std::uint64_t o_live(); void t_o(); void t_sp(); void t_t(); void t_s(); void t_v(); void t_misc(); void t_cmp(); void t_io(); void t_dev();
}
ST_MAIN({"o", t_o}, {"sp", t_sp}, {"t", t_t}, {"s", t_s}, {"v", t_v}, {"misc", t_misc}, {"cmp", t_cmp}, {"io", t_io}, {"dev", t_dev})
