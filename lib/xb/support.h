// Runtime support of generated bridge programs: deterministic randomness,
// trace monitor (send/recv events per channel), live-object registry, arena,
// and value construction/dumping that does not go through the bridge.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" {
std::uint64_t rt_rand();
void rt_seed(std::uint64_t);
void ev_send(const char *slot, std::size_t sl, const std::uint8_t *p, std::size_t n);
void ev_recv(const char *slot, std::size_t sl, const std::uint8_t *p, std::size_t n);
std::uint64_t reg_new(const char *kind, std::size_t n);
void reg_del(std::uint64_t id);
void d_put(void *d, const std::uint8_t *p, std::size_t n);
void ev_fail(const char *slot, std::size_t sl, const std::uint8_t *p, std::size_t n);
// implemented in Rust with the standard library only
void rs_lossy(const std::uint8_t *p, std::size_t n, void *d);
std::size_t rs_utf8_valid(const std::uint8_t *p, std::size_t n);
void rs_arena_clear();
}

namespace xb {
using D = std::string;
using u64 = std::uint64_t;

inline u64 below(u64 n) { return rt_rand() % n; }
inline bool coin(u64 n = 2) { return below(n) == 0; }

struct Arena {
  std::vector<std::function<void()>> fs;
  ~Arena() { clear(); }
  void clear() {
    while (!fs.empty()) {
      auto f = std::move(fs.back());
      fs.pop_back();
      f();
    }
  }
};
Arena &arena();
template <class T> T &keep(T *p) {
  arena().fs.push_back([p] { delete p; });
  return *p;
}

inline void put(D &d, const char *s) { d += s; }
inline void put_addr(D &d, const void *p) {
  char b[32];
  snprintf(b, sizeof b, "@%llx", (unsigned long long)(std::uintptr_t)p);
  d += b;
}
inline void put_u(D &d, u64 v) { d += std::to_string(v); }

std::string rand_text();   // valid UTF-8
std::string rand_bytes();  // arbitrary bytes
std::string rand_cmsg();   // arbitrary bytes without NUL
std::size_t rand_len();
extern int depth;
struct Deeper { Deeper() { ++depth; } ~Deeper() { --depth; } };

u64 rand_bits(unsigned bytes);

template <class T, class = void> struct Val;

template <class T> T make() { return Val<T>::make(); }
template <class T> void dump(const T &v, D &d) { Val<T>::dump(v, d); }
template <class T> void mutate(T &v) { Val<T>::mutate(v); }

// slices of C++-constructible elements
template <class U, class T> rust::Slice<T> slice_of() {
  std::size_t n = rand_len();
  void *buf = std::malloc(n * sizeof(U) + alignof(U) + 1);
  U *al = (U *)(((std::uintptr_t)buf + alignof(U) - 1) / alignof(U) * alignof(U));
  for (std::size_t i = 0; i < n; i++) new (al + i) U(Val<U>::make());
  arena().fs.push_back([=] { for (std::size_t i = 0; i < n; i++) al[i].~U(); std::free(buf); });
  return rust::Slice<T>(al, n);
}
template <class T> struct ValBase {
  static rust::Box<T> make_box() { return rust::Box<T>(Val<T>::make()); }
  template <class U> static rust::Slice<U> make_slice() { return slice_of<T, U>(); }
  static T *fresh() { return new T(Val<T>::make()); }
  static T &ref() { return keep(fresh()); }
  static void mutate(T &v) { v = Val<T>::make(); }
};

template <class T>
struct Val<T, std::enable_if_t<std::is_integral<T>::value>> : ValBase<T> {
  static T make() {
    if (std::is_same<T, bool>::value) return (T)(rt_rand() & 1);
    return (T)rand_bits(sizeof(T));
  }
  static void dump(const T &v, D &d) {
    if (std::is_same<T, bool>::value) {
      unsigned char c;
      std::memcpy(&c, &v, 1);
      put(d, "b");
      put_u(d, c);
      return;
    }
    put(d, "i");
    std::make_unsigned_t<std::conditional_t<std::is_same<T, bool>::value, char, T>> u;
    std::memcpy(&u, &v, sizeof u);
    put_u(d, u);
  }
};
template <> struct Val<float> : ValBase<float> {
  static float make() { std::uint32_t b = (std::uint32_t)rand_bits(4); if (coin(3)) b = 0x7fc00000u | (b & 0x803fffffu); else if (((b >> 23) & 255) == 255) b &= 0xff800000u; float f; std::memcpy(&f, &b, 4); return f; }
  static void dump(const float &v, D &d) { std::uint32_t b; std::memcpy(&b, &v, 4); put(d, "f"); put_u(d, b); }
};
template <> struct Val<double> : ValBase<double> {
  static double make() { u64 b = rand_bits(8); if (coin(3)) b = 0x7ff8000000000000ull | (b & 0x8007ffffffffffffull); else if (((b >> 52) & 2047) == 2047) b &= 0xfff0000000000000ull; double f; std::memcpy(&f, &b, 8); return f; }
  static void dump(const double &v, D &d) { u64 b; std::memcpy(&b, &v, 8); put(d, "d"); put_u(d, b); }
};
template <class T>
struct Val<T, std::enable_if_t<std::is_enum<T>::value>> : ValBase<T> {
  using R = std::underlying_type_t<T>;
  static T make() { return static_cast<T>(Val<R>::make()); }
  static void dump(const T &v, D &d) { put(d, "E"); Val<R>::dump(static_cast<R>(v), d); }
};
inline void put_bytes(D &d, const char *tag, const char *p, std::size_t n) {
  d += tag; put_u(d, n); d += ':'; d.append(n ? p : "", n);
}
template <> struct Val<rust::String> : ValBase<rust::String> {
  static rust::String make() { std::string s = rand_text(); return rust::String(s.data(), s.size()); }
  static void dump(const rust::String &v, D &d) { put_bytes(d, "s", v.data(), v.size()); }
};
template <> struct Val<rust::Str> : ValBase<rust::Str> {
  static rust::Str make() {
    if (coin(6)) return rust::Str();
    auto *s = new std::string(rand_text()); keep(s);
    return rust::Str(s->data(), s->size());
  }
  static void dump(const rust::Str &v, D &d) {
    put(d, "t"); if (v.size()) put_addr(d, v.data()); put_bytes(d, "", v.data(), v.size());
  }
};
template <> struct Val<std::string> : ValBase<std::string> {
  static std::string make() { return rand_bytes(); }
  static void dump(const std::string &v, D &d) { put_bytes(d, "c", v.data(), v.size()); }
};
template <class T> struct Val<rust::Vec<T>> : ValBase<rust::Vec<T>> {
  static rust::Vec<T> make() {
    Deeper dd; rust::Vec<T> v; std::size_t n = rand_len();
    if (coin(3)) v.reserve(n + below(4));
    for (std::size_t i = 0; i < n; i++) v.push_back(Val<T>::make());
    return v;
  }
  static void dump(const rust::Vec<T> &v, D &d) {
    put(d, "["); put_u(d, v.size());
    for (auto &x : v) { put(d, "|"); Val<T>::dump(x, d); }
    put(d, "]");
  }
};
template <class T> struct Val<rust::Box<T>> : ValBase<rust::Box<T>> {
  static rust::Box<T> make() { Deeper dd; return Val<T>::make_box(); }
  static void dump(const rust::Box<T> &v, D &d) { put(d, "B"); put_addr(d, &*v); Val<T>::dump(*v, d); }
};
template <class T> struct Val<std::vector<T>> : ValBase<std::vector<T>> {
  static std::vector<T> make() {
    Deeper dd; std::vector<T> v; std::size_t n = rand_len();
    for (std::size_t i = 0; i < n; i++) v.push_back(Val<T>::make());
    return v;
  }
  static void dump(const std::vector<T> &v, D &d) {
    put(d, "v"); put_u(d, v.size());
    for (auto &x : v) { put(d, "|"); put_addr(d, &x); Val<T>::dump(x, d); }
    put(d, "]");
  }
};
template <class T> struct Val<std::unique_ptr<T>> : ValBase<std::unique_ptr<T>> {
  static std::unique_ptr<T> make() { Deeper dd; if (coin(5)) return nullptr; return std::unique_ptr<T>(Val<T>::fresh()); }
  static void dump(const std::unique_ptr<T> &v, D &d) {
    put(d, "U"); if (!v) { put(d, "0"); return; } put_addr(d, v.get()); Val<T>::dump(*v, d);
  }
};
template <class T> struct Val<std::shared_ptr<T>> : ValBase<std::shared_ptr<T>> {
  static std::shared_ptr<T> make() {
    Deeper dd; if (coin(5)) return nullptr;
    std::shared_ptr<T> p(Val<T>::fresh());
    if (coin(3)) { auto *q = new std::shared_ptr<T>(p); keep(q); }
    return p;
  }
  static void dump(const std::shared_ptr<T> &v, D &d) {
    put(d, "P"); if (!v) { put(d, "0"); return; } put_addr(d, v.get()); Val<T>::dump(*v, d);
  }
};
template <class T> struct Val<std::weak_ptr<T>> : ValBase<std::weak_ptr<T>> {
  static std::weak_ptr<T> make() {
    Deeper dd; auto p = Val<std::shared_ptr<T>>::make();
    if (coin(4)) return p;  // dangles once p goes
    auto *q = new std::shared_ptr<T>(p); keep(q);
    return p;
  }
  static void dump(const std::weak_ptr<T> &v, D &d) {
    put(d, "W"); Val<std::shared_ptr<T>>::dump(v.lock(), d);
  }
};
template <class T, std::size_t N> struct Val<std::array<T, N>> : ValBase<std::array<T, N>> {
  template <std::size_t... I> static std::array<T, N> mk(std::index_sequence<I...>) {
    return std::array<T, N>{{((void)I, Val<T>::make())...}};
  }
  static std::array<T, N> make() { Deeper dd; return mk(std::make_index_sequence<N>()); }
  static void dump(const std::array<T, N> &v, D &d) {
    put(d, "a["); for (auto &x : v) { put(d, "|"); Val<T>::dump(x, d); } put(d, "]");
  }
};
template <class T> struct Val<rust::Slice<T>> : ValBase<rust::Slice<T>> {
  using U = std::remove_const_t<T>;
  static rust::Slice<T> make() { Deeper dd; if (coin(6)) return rust::Slice<T>(); return Val<U>::template make_slice<T>(); }
  static void dump(const rust::Slice<T> &v, D &d) {
    put(d, "L"); if (v.size()) put_addr(d, v.data()); put(d, "["); put_u(d, v.size());
    std::size_t n = 0;
    for (auto &x : v) { put(d, "|"); Val<U>::dump(x, d); n++; }
    if (n != v.size()) put(d, "!");
    put(d, "]");
  }
  static void mutate(rust::Slice<T> &v) { for (auto &x : v) Val<U>::mutate(x); }
};
// pointers, references
template <class T> struct Val<T *> {
  using U = std::remove_const_t<T>;
  static T *make() { if (coin(6)) return nullptr; return &Val<U>::ref(); }
  static void dump(T *const &p, D &d) { put(d, "*"); if (!p) { put(d, "0"); return; } put_addr(d, p); Val<U>::dump(*p, d); }
};

template <class T> void send_v(const char *slot, const T &v) {
  D d; Val<T>::dump(v, d); ev_send(slot, std::strlen(slot), (const std::uint8_t *)d.data(), d.size());
}
template <class T> void recv_v(const char *slot, const T &v) {
  D d; Val<T>::dump(v, d); ev_recv(slot, std::strlen(slot), (const std::uint8_t *)d.data(), d.size());
}
template <class T> void send_r(const char *slot, const T &v) {
  D d; put(d, "&"); put_addr(d, &v); Val<T>::dump(v, d); ev_send(slot, std::strlen(slot), (const std::uint8_t *)d.data(), d.size());
}
template <class T> void recv_r(const char *slot, const T &v) {
  D d; put(d, "&"); put_addr(d, &v); Val<T>::dump(v, d); ev_recv(slot, std::strlen(slot), (const std::uint8_t *)d.data(), d.size());
}
inline void send_s(const char *slot, const std::string &d) { ev_send(slot, std::strlen(slot), (const std::uint8_t *)d.data(), d.size()); }
inline void recv_s(const char *slot, const std::string &d) { ev_recv(slot, std::strlen(slot), (const std::uint8_t *)d.data(), d.size()); }
inline void fail(const char *slot, const std::string &d) { ev_fail(slot, std::strlen(slot), (const std::uint8_t *)d.data(), d.size()); }

// Opaque C++ class payload.
struct Tracked {
  u64 id;
  std::string s;
  explicit Tracked(const char *kind) : id(reg_new(kind, std::strlen(kind))), s(rand_bytes()) {}
  Tracked(Tracked &&o) noexcept : id(o.id), s(std::move(o.s)) { o.id = 0; }
  Tracked &operator=(Tracked &&o) noexcept {
    if (this != &o) { if (id) reg_del(id); id = o.id; s = std::move(o.s); o.id = 0; }
    return *this;
  }
  Tracked(const Tracked &) = delete;
  ~Tracked() { if (id) reg_del(id); id = 0xdeadbeefdeadbeef; }
  void dump(D &d) const { put(d, "O"); put_u(d, id); put_bytes(d, "c", s.data(), s.size()); }
  void mutate() { s = rand_bytes(); }
};
using TestFn = void (*)();
struct Test { const char *name; TestFn fn; };
int run_main(int argc, char **argv, const Test *tests, std::size_t n);
void end_test(const char *name);
} // namespace xb
