// Instantiation drivers: they only force template instantiation of the library with
// concrete types; they are compiled (never linked or run) to LLVM bitcode.
#pragma once
#include <memory>
#include <vector>
#include <list>
#include <array>
#include <optional>
#include <cstddef>
#ifndef DRV_T
#define DRV_T double
#endif
using T = DRV_T;
using std::size_t;
