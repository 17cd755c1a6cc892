#pragma once
#include "suite.h"
// A bridge with its own translation of exceptions.
struct Odd { int v; };
namespace cust { extern std::uint32_t nhandled; }
namespace rust { namespace behavior {
template <typename Try, typename Fail>
static void trycatch(Try &&func, Fail &&fail) noexcept try { func(); }
catch (int i) { cust::nhandled++; fail("int " + std::to_string(i)); }
catch (const std::string &s) { cust::nhandled++; fail(s); }
catch (const char *s) { cust::nhandled++; fail(s); }
catch (const Odd &o) { cust::nhandled++; fail(std::string(static_cast<std::size_t>(o.v), 'o')); }
catch (const std::runtime_error &e) { cust::nhandled++; fail(std::string("runtime: ") + e.what()); }
catch (const std::exception &e) { cust::nhandled++; fail(e.what()); }
catch (...) { cust::nhandled++; fail("something else"); }
} }
namespace cust {
std::uint64_t cboom(std::uint32_t kind, rust::Slice<const std::uint8_t> msg);
rust::String cboom_s(std::uint32_t kind, rust::Slice<const std::uint8_t> msg);
void cboom_u(std::uint32_t kind, rust::Slice<const std::uint8_t> msg);
const std::string &expected();
std::uint32_t handled();
}
