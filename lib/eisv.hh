// Common includes and helpers for harnesses that exercise the core library (header-only; one TU per harness).
#pragma once
#include <arpa/inet.h>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstring>
#include <execution>
#include <filesystem>
#include <format>
#include <fstream>
#include <iostream>
#include <memory>
#include <numeric>
#include <span>
#include "pbt.hh"

// true also under -ffast-math
inline bool is_finite_bits(float x) { std::uint32_t u; std::memcpy(&u, &x, 4); return ((u >> 23) & 0xff) != 0xff; }
inline bool is_finite_bits(double x) { std::uint64_t u; std::memcpy(&u, &x, 8); return ((u >> 52) & 0x7ff) != 0x7ff; }

// bitwise equality, except that the two zeros are equal
inline bool same_value(float a, float b) {
  std::uint32_t x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4);
  if((x & 0x7fffffffu) == 0 && (y & 0x7fffffffu) == 0) { return true; }
  return x == y;
}
