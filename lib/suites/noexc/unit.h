#pragma once
#include "rust/cxx.h"
#include <memory>
#include <string>
struct St;
std::uint32_t nx_call(rust::Fn<std::uint32_t(std::uint32_t)> f, std::uint32_t x);
std::unique_ptr<std::string> nx_str(const std::string &s);
St nx_st(St s);
