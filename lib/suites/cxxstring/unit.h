#pragma once
#include "suite.h"
using B = rust::Slice<const std::uint8_t>;
inline std::string sof(B b) { return std::string((const char *)b.data(), b.size()); }
inline std::unique_ptr<std::string> cs_make(B b) { std::unique_ptr<std::string> p(new std::string); *p = sof(b); return p; }
inline bool cs_same(const std::string &s, B b) { return s == sof(b) && s.c_str()[s.size()] == 0; }
inline void cs_append(std::string &s, B b) { s += sof(b); }
inline void cs_assign(std::string &s, B b) { std::string t = sof(b); if (xb::coin()) s = std::move(t); else { s.clear(); s.shrink_to_fit(); s = t; } }
inline std::size_t cs_capacity(const std::string &s) { return s.capacity(); }
inline const std::uint8_t *cs_data(const std::string &s) { return (const std::uint8_t *)s.data(); }
inline std::size_t cs_size(const std::string &s) { return s.size(); }
inline std::int32_t cs_cmp(const std::string &a, const std::string &b) { int c = a.compare(b); return c < 0 ? -1 : c > 0; }
__attribute__((noinline)) inline void dirty() { volatile unsigned char b[6000]; for (std::size_t i = 0; i < sizeof b; i++) b[i] = 0x41; }
