#pragma once
#include "suite.h"
#include <array>
struct St; struct R; struct Pod; enum class En : std::uint8_t; struct Deep;
struct Opq {
@METHODS@
};
struct Thrower { Thrower() = default; Thrower(Thrower &&) noexcept {} ~Thrower() noexcept(false); };
std::unique_ptr<Opq> mk_opq(); const Opq &static_opq(); std::unique_ptr<Thrower> mk_thrower(); std::shared_ptr<Thrower> sh_thrower(); std::unique_ptr<std::vector<Thrower>> vec_thrower();
void take_st(St s); void take_up(std::unique_ptr<St> u); void hold_sp(std::shared_ptr<St> s);
using F = rust::Fn<std::uint32_t(std::uint32_t)>;
std::uint32_t catch_and_call(F f); void call_thread(F f); void mid_unwind(F f); rust::String call_str(rust::Fn<rust::String(rust::Str)> f, rust::Str s); void call_box(rust::Fn<void(rust::Box<R>)> f); void call_vec(rust::Fn<void(rust::Vec<std::uint8_t> &)> f);
void call_ref(rust::Fn<const R &(const R &)> f, const R &r); void call_deep(Deep d); rust::Box<R> make_then_throw(std::uint32_t k); void static_throw(std::uint32_t k); void throw_in_noexcept(std::uint32_t k);
@CD@
