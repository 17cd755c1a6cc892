#pragma once
#include "suite.h"
struct Tri { std::uint16_t a; std::uint8_t b[3]; };
